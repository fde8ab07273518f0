// C26, C27: Shamir secret sharing.
#include "grp.hpp"
#include "alpha.hpp"
#include "shamirss.hpp"
#include <cmath>
#include <numeric>
using namespace mc;
using namespace sss;
static mpz_class order() { return FIELD(mpz_class(0)).getField(); }
static bool ready(bool toy)
{
    if (toy != toy_secp.on) return false;
    if (toy && order() != toy_secp.n) { note("toy substitution not in effect"); R.exhaustive = false; return false; }
    return true;
}
static void shape(const share_v_t& s, size_t t, size_t n)
{
    MC_CHECK(s.size() == n, "(%zu,%zu): %zu shares", t, n, s.size());
    for (size_t i = 0; i < n; i++) MC_CHECK(s[i].idx.getRawValue() == (unsigned long)(i + 1), "(%zu,%zu): share %zu has index %s", t, n, i, s[i].idx.getRawValue().get_str().c_str());
}
static void recon(ShamirSS& o, const share_v_t& sub, const mpz_class& secret, size_t t, size_t n, const char* what)
{
    FIELD r = o.reconSecret(sub); step();
    if (r.getRawValue() == secret) { state(); return; }
    std::string ids; for (auto& s : sub) ids += s.idx.getRawValue().get_str() + " ";
    fail("%s: (%zu,%zu) sharing of %s: shares %sreconstruct %s", what, t, n, hxz(secret).c_str(), ids.c_str(), hxz(r.getRawValue()).c_str());
}
// all subsets of at least t shares; all orders of small ones, rotations and reversals of the others
static void subsets(ShamirSS& o, const share_v_t& s, const mpz_class& secret, size_t t, const char* what, size_t perm_limit)
{
    size_t n = s.size();
    for (u64 mask = 0; mask < (1ull << n); mask++) {
        if ((size_t)__builtin_popcountll(mask) < t) continue;
        std::vector<int> ix; for (size_t i = 0; i < n; i++) if (mask >> i & 1) ix.push_back(i);
        auto one = [&] { share_v_t v; for (int i : ix) v.push_back(s[i]); recon(o, v, secret, t, n, what); };
        if (ix.size() <= perm_limit) do one(); while (std::next_permutation(ix.begin(), ix.end()));
        else { one(); std::reverse(ix.begin(), ix.end()); one(); std::rotate(ix.begin(), ix.begin() + ix.size() / 2, ix.end()); one(); }
    }
}
// every secret and every dealer randomness
PART(c26_tree)
{
    if (!ready(true)) return;
    long q = order().get_si();
    for (size_t t = 1; (long)t < q; t++) for (size_t n = t; (long)n < q; n++) for (long s = 0; s < q; s++) {
        if (std::pow((double)q, t) * (1 << n) > (R.thorough() ? 2e7 : 4e5)) continue;
        if (!mine()) continue;
        Explorer ex; E.reset(); E.tree = true; ShamirSS o;
        ex.run([&] { E.counter = 0; at("(%ld,%ld) sharing of %ld", t, n, s); share_v_t v = o.getShares(t, n, FIELD(Z(s))); step(); shape(v, t, n); subsets(o, v, Z(s), t, "toy", n <= 4 ? 4 : 2); outcome(v[n - 1].val.getRawValue()); });
        E.tree = false;
    }
    sample("every (t,n), secret, dealer randomness and sufficient subset in the field of %ld elements", q);
}
PART(c26_real)
{
    if (!ready(false)) return;
    mpz_class q = order();
    std::vector<mpz_class> secrets = {0, 1, q - 1, q / 2, pow2(255), pow2(64) - 1, mpz_class("123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0", 16)};
    size_t top = R.thorough() ? 9 : 7;
    for (size_t t = 1; t <= top; t++) for (size_t n = t; n <= top; n++) for (size_t s = 0; s < secrets.size(); s++) {
        if (!mine()) continue;
        // every draw in turn at boundary values, and all draws at once
        for (int d = -2; d < (int)t - 1; d++) for (int v = 0; v < (d == -1 ? 1 : 4); v++) {
            std::vector<mpz_class> vals = {0, 1, q - 1, q / 2};
            E.reset(s * 10 + t); if (d >= 0) E.override_[d] = vals[v]; else if (d == -2) for (size_t i = 0; i + 1 < t; i++) E.override_[i] = vals[v];
            at("(%ld,%ld) secret #%ld draw %ld value %ld", t, n, s, (long)d, (long)v);
            ShamirSS o; share_v_t sh = o.getShares(t, n, FIELD(secrets[s])); step(); shape(sh, t, n);
            subsets(o, sh, secrets[s], t, "real", d < 0 && n <= 4 ? 4 : 2); exec(); outcome(sh[n - 1].val.getRawValue());
        }
    }
    // large sharings
    for (size_t n : {20u, 64u, 130u, 300u}) for (size_t t : {1u, 2u, 10u, 19u, 20u, 64u, 130u, 300u}) {
        if (t > n || (!R.thorough() && n * t > 20000)) continue;
        if (!mine()) continue;
        E.reset(n + t); at("(%ld,%ld)", t, n); ShamirSS o; share_v_t sh = o.getShares(t, n, FIELD(secrets[6])); step(); shape(sh, t, n);
        for (size_t off = 0; off + t <= n; off += (n > 100 ? 37 : 5)) { share_v_t v(sh.begin() + off, sh.begin() + off + t); recon(o, v, secrets[6], t, n, "large"); std::reverse(v.begin(), v.end()); recon(o, v, secrets[6], t, n, "large"); }
        // spread subset, everything
        share_v_t v; for (size_t i = 0; v.size() < t && i < n; i += std::max<size_t>(1, n / t)) v.push_back(sh[n - 1 - i]); if (v.size() >= t) recon(o, v, secrets[6], t, n, "large");
        if (n <= 130) recon(o, sh, secrets[6], t, n, "large"); exec();
    }
    sample("every (t,n) up to %zu with every sufficient subset, boundary secrets and randomness; up to 300 shares", top);
}
// every threshold up to 64 (96) against many share counts: the powers of the indices pass every machine size
PART(c26_grid)
{
    if (!ready(false)) return;
    mpz_class q = order(); std::vector<mpz_class> secrets = {q - 1, pow2(200) + 3};
    std::vector<size_t> more = {2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}; if (R.thorough()) more.insert(more.end(), {511, 512, 1023, 1024, 1025, 4095, 4097});
    for (size_t t = 1; t <= (R.thorough() ? 96u : 64u); t++) {
        std::vector<size_t> ns = more; ns.insert(ns.end(), {t, t + 1, t + 2, t + 5, 2 * t, 3 * t}); std::sort(ns.begin(), ns.end()); ns.erase(std::unique(ns.begin(), ns.end()), ns.end());
        for (size_t n : ns) {
            if (n < t || !mine()) continue;
            const mpz_class& sec = secrets[(t + n) % 2];
            E.reset(n * 100 + t); at("(%ld,%ld)", t, n); ShamirSS o; share_v_t sh = o.getShares(t, n, FIELD(sec)); step(); shape(sh, t, n);
            auto sub = [&](size_t from, size_t stride) { share_v_t v; for (size_t i = 0; i < t; i++) v.push_back(sh[(from + i * stride) % n]); recon(o, v, sec, t, n, "grid"); };
            sub(0, 1); sub(n - t, 1); if (n / t > 1) { sub(0, n / t); sub(n - 1 - (t - 1) * (n / t), n / t); } if (n > 2 && std::gcd(n, (size_t)3) == 1) sub(1, 3); if (n > t) sub(n - t / 2, 1);
            // every index once: sliding windows, and one share more than needed
            for (size_t off = 0; off + t <= n; off += std::max<size_t>(1, t)) sub(off, 1);
            if (n > t) { share_v_t v(sh.end() - t - 1, sh.end()); recon(o, v, sec, t, n, "grid"); }
            if (n <= 20) recon(o, sh, sec, t, n, "grid");
            exec(); outcome(sh[n - 1].val.getRawValue());
        }
    }
    sample("every threshold up to %d with up to 300 (4097) shares: first, last, spread, wrapped and sliding subsets", R.thorough() ? 96 : 64);
}
// two objects, any sequence of sharings and reconstructions
PART(c26_seq)
{
    if (toy_secp.on ? !ready(true) : !ready(false)) return;
    mpz_class q = order(); int depth = R.thorough() ? 5 : 4;
    for (int o0 = 0; o0 < 12; o0++) for (int o1 = 0; o1 < 12; o1++) {
        if (!mine()) continue;
        Explorer ex;
        ex.run([&] {
            at("first operations %ld %ld", (long)o0, (long)o1); E.reset(o0 + 3);
            ShamirSS o[2]; struct S { share_v_t v; mpz_class s; size_t t; }; std::vector<S> all;
            for (int i = 0; i < depth; i++) {
                long op = i == 0 ? o0 : i == 1 ? o1 : choose(12);
                size_t t = 1 + op / 2 % 3, n = t + op / 6; mpz_class s = modz(mpz_class(op * 1000 + i * 31) * (q / 3), q);
                share_v_t v = o[op % 2].getShares(t, n, FIELD(s)); step(); shape(v, t, n); all.push_back({v, s, t});
                for (auto& a : all) { for (int w = 0; w < 2; w++) recon(o[w], a.v, a.s, a.t, a.v.size(), "after a sequence of sharings"); share_v_t last(a.v.end() - a.t, a.v.end()); recon(o[0], last, a.s, a.t, a.v.size(), "after a sequence of sharings"); }
            }
        });
        if (o0 == 0 && o1 == 0) sample("all sequences of %d sharings on two objects", depth);
    }
}

// ------------------------------------------------------------------ C27
PART(c27_tree)
{
    if (!ready(true)) return;
    long q = order().get_si();
    for (size_t t = 1; (long)t < q; t++) for (size_t n = t; (long)n < q; n++) {
        if (std::pow((double)q, t) * (1 << n) > (R.thorough() ? 2e7 : 8e5)) continue;
        // every subset of fewer than t shares
        for (u64 mask = 0; mask < (1ull << n); mask++) {
            size_t k = __builtin_popcountll(mask); if (k >= t) continue;
            if (!mine()) continue;
            Dist<std::vector<long>> first; mpz_class combos; mpz_ui_pow_ui(combos.get_mpz_t(), q, k);
            for (long s = 0; s < q; s++) {
                Dist<std::vector<long>> d; Explorer ex; E.reset(); E.tree = true; ShamirSS o;
                ex.run([&] { E.counter = 0; at("(%ld,%ld) shares %ld of secret %ld", t, n, (long)mask, s); share_v_t v = o.getShares(t, n, FIELD(Z(s))); step(); std::vector<long> key; for (size_t i = 0; i < v.size(); i++) if (mask >> i & 1) key.push_back(v[i].val.getRawValue().get_si()); d.add(key); });
                E.tree = false; state();
                if (E.big_seen) { note("a draw was too large to enumerate"); R.exhaustive = false; E.big_seen = false; continue; }
                MC_CHECK(d.flat() && d.size() == combos.get_ui(), "(%zu,%zu): the shares %llx of secret %ld are not uniform: %zu of %s combinations occur", t, n, (unsigned long long)mask, s, d.size(), combos.get_str().c_str());
                if (s == 0) first = d; else MC_CHECK(d == first, "(%zu,%zu): the shares %llx are distributed differently for secret %ld", t, n, (unsigned long long)mask, s);
                outcome(d.size() * 64 + k);
            }
        }
    }
    sample("every (t,n), secret and set of fewer than t shares: exact joint distribution over all dealer randomness in the field of %ld elements", q);
}
// two sharings in a row, by one object or two: joint distribution of insufficient shares of both
PART(c27_two)
{
    if (!ready(true)) return;
    long q = order().get_si();
    for (size_t t1 = 2; t1 <= 3; t1++) for (size_t t2 = 2; t2 <= 3; t2++) for (int same = 0; same < 2; same++) for (long s1 = 0; s1 < q; s1++) for (long s2 = 0; s2 < q; s2++) {
        if (std::pow((double)q, t1 + t2 - 2) > 3000) continue;
        if (!mine()) continue;
        Dist<std::vector<long>> d; Explorer ex; E.reset(); E.tree = true; ShamirSS o, p;
        ex.run([&] { E.counter = 0; at("sharings of %ld and %ld", s1, s2); share_v_t v = o.getShares(t1, t1 + 1, FIELD(Z(s1))), w = (same ? o : p).getShares(t2, t2 + 1, FIELD(Z(s2))); step(2); std::vector<long> key; for (size_t i = 1; i < t1; i++) key.push_back(v[i].val.getRawValue().get_si()); for (size_t i = 1; i < t2; i++) key.push_back(w[i].val.getRawValue().get_si()); d.add(key); });
        E.tree = false; state(); if (E.big_seen) continue;
        mpz_class combos; mpz_ui_pow_ui(combos.get_mpz_t(), q, t1 + t2 - 2);
        MC_CHECK(d.flat() && d.size() == combos.get_ui(), "insufficient shares of two successive sharings (t=%zu, t=%zu) are not jointly uniform", t1, t2);
    }
}
// At the real size the dealer's randomness cannot be enumerated. The t-1 shares are observed as a function of the draws:
// affine with an invertible matrix means every combination of shares is hit by equally many draws.
// thresholds beyond what all subsets allow: the same, for the first, the last, the middle and the spread-out sets of t-1 shares
PART(c27_many)
{
    if (!ready(false)) return;
    mpz_class q = order();
    std::vector<size_t> ts; for (size_t t = 10; t <= 24; t++) ts.push_back(t);
    for (size_t t : {31, 32, 33, 34, 40, 48, 63, 64, 65, 66}) ts.push_back(t);
    if (R.thorough()) for (size_t t : {80, 96, 100, 101, 127, 128, 129, 130, 160, 200}) ts.push_back(t);
    for (size_t t : ts) for (size_t n : {t, t + 3}) {
        if (!mine()) continue;
        ShamirSS o; FIELD sec(mpz_class(pow2(190) + 5)); at("(%ld,%ld)", t, n);
        E.reset(5); E.log_on = true; E.log.clear(); o.getShares(t, n, sec); std::vector<Draw> log = E.log; E.log_on = false; E.log.clear(); step();
        size_t full = 0; for (auto& d : log) full += d.range >= q;
        MC_CHECK(full >= t - 1, "(%zu,%zu): the dealer draws %zu field elements (and %zu smaller numbers)", t, n, full, log.size() - full);
        if (log.size() != t - 1 || full != log.size()) { note("the dealer's draws are not one field element per coefficient: only their number is checked"); continue; }
        auto shares = [&](const std::vector<mpz_class>& c) { E.reset(5); for (size_t i = 0; i < c.size(); i++) E.override_[i] = c[i]; share_v_t v = o.getShares(t, n, sec); step(); std::vector<mpz_class> r; for (auto& s : v) r.push_back(s.val.getRawValue()); return r; };
        std::vector<mpz_class> zero(t - 1, 0); auto base = shares(zero); std::vector<std::vector<mpz_class>> col;
        for (size_t j = 0; j + 1 < t; j++) { at("(%ld,%ld) draw %ld", t, n, j); auto c = zero; c[j] = 1; auto v = shares(c); for (size_t i = 0; i < n; i++) v[i] = modz(v[i] - base[i], q); col.push_back(v);
            mpz_class f = modz(pow2(250) + j, q); c[j] = f; auto w = shares(c); for (size_t i = 0; i < n; i++) MC_CHECK(w[i] == modz(base[i] + f * v[i], q), "(%zu,%zu): share %zu is no affine function of draw %zu", t, n, i + 1, j); }
        for (int k = 0; k < 3; k++) { std::vector<mpz_class> c; for (size_t j = 0; j + 1 < t; j++) c.push_back(modz(k == 0 ? mpz_class(pow2(100 + j % 150) + j) : k == 1 ? mpz_class(q - 1 - j) : mpz_class((j * 7 + 1) % 5), q)); auto w = shares(c);
            for (size_t i = 0; i < n; i++) { mpz_class e = base[i]; for (size_t j = 0; j + 1 < t; j++) e += c[j] * col[j][i]; MC_CHECK(w[i] == modz(e, q), "(%zu,%zu): share %zu is no affine function of the draws", t, n, i + 1); } }
        std::vector<std::vector<size_t>> sets(4);
        for (size_t i = 0; i + 1 < t; i++) { sets[0].push_back(i); sets[1].push_back(n - 1 - i); sets[2].push_back((n - t + 1) / 2 + i); sets[3].push_back(i < t / 2 ? i : i + n - t + 1); }
        for (auto& st : sets) {
            at("(%ld,%ld) rank", t, n);
            std::vector<std::vector<mpz_class>> M; for (size_t i : st) { M.push_back({}); for (size_t j = 0; j + 1 < t; j++) M.back().push_back(col[j][i]); }
            size_t m = t - 1; bool sing = false;
            for (size_t c = 0; c < m && !sing; c++) { size_t r = c; while (r < m && M[r][c] == 0) r++; if (r == m) { sing = true; break; } std::swap(M[r], M[c]); mpz_class iv = invz(M[c][c], q); for (size_t i = c + 1; i < m; i++) { mpz_class f = modz(M[i][c] * iv, q); if (f != 0) for (size_t j = c; j < m; j++) M[i][j] = modz(M[i][j] - f * M[c][j], q); } }
            MC_CHECK(!sing, "(%zu,%zu): the %zu shares %zu, %zu, ... do not take all values", t, n, m, st[0] + 1, st.size() > 1 ? st[1] + 1 : 0); state();
        }
        exec(); outcome(base[0]);
    }
    sample("thresholds to 66 (200): four families of t-1 shares are bijective affine images of t-1 uniform draws");
}
PART(c27_real)
{
    if (!ready(false)) return;
    mpz_class q = order();
    std::vector<mpz_class> secrets = {0, 1, q - 1, pow2(200) + 7};
    for (size_t t = 1; t <= (R.thorough() ? 14u : 9u); t++) for (size_t n = t; n <= t + 4; n += 2) for (size_t si = 0; si < secrets.size(); si++) {
        if (!mine()) continue;
        at("(%ld,%ld) secret #%ld", t, n, si);
        ShamirSS o;
        E.reset(5); E.log_on = true; E.log.clear(); o.getShares(t, n, FIELD(secrets[si])); std::vector<Draw> log = E.log; E.log_on = false; E.log.clear(); step();
        size_t full = 0; for (auto& d : log) full += d.range >= q;
        MC_CHECK(full >= t - 1, "(%zu,%zu): the dealer draws %zu field elements (and %zu smaller numbers)", t, n, full, log.size() - full);
        if (log.size() != t - 1 || full != log.size()) { note("the dealer's draws are not one field element per coefficient: only their number is checked"); continue; }
        auto shares = [&](const std::vector<mpz_class>& c) { E.reset(5); for (size_t i = 0; i < c.size(); i++) E.override_[i] = c[i]; share_v_t v = o.getShares(t, n, FIELD(secrets[si])); step(); std::vector<mpz_class> r; for (auto& s : v) r.push_back(s.val.getRawValue()); return r; };
        std::vector<mpz_class> zero(t - 1, 0); auto base = shares(zero);
        std::vector<std::vector<mpz_class>> col;
        for (size_t j = 0; j + 1 < t; j++) { auto c = zero; c[j] = 1; auto v = shares(c); for (size_t i = 0; i < n; i++) v[i] = modz(v[i] - base[i], q); col.push_back(v);
            // affine in draw j
            for (mpz_class f : {mpz_class(2), mpz_class(q - 1), mpz_class(q / 2), pow2(255)}) { f = modz(f, q); c[j] = f; auto w = shares(c); for (size_t i = 0; i < n; i++) MC_CHECK(w[i] == modz(base[i] + f * v[i], q), "(%zu,%zu): share %zu is no affine function of draw %zu", t, n, i + 1, j); } }
        { std::vector<mpz_class> c; for (size_t j = 0; j + 1 < t; j++) c.push_back(modz(pow2(100 + j) + j, q)); auto w = shares(c); for (size_t i = 0; i < n; i++) { mpz_class e = base[i]; for (size_t j = 0; j + 1 < t; j++) e += c[j] * col[j][i]; MC_CHECK(w[i] == modz(e, q), "(%zu,%zu): share %zu is no affine function of the draws", t, n, i + 1); } }
        // every set of t-1 shares: rank t-1
        for (u64 mask = 0; mask < (1ull << n); mask++) {
            if ((size_t)__builtin_popcountll(mask) != t - 1) continue;
            std::vector<std::vector<mpz_class>> M; for (size_t i = 0; i < n; i++) if (mask >> i & 1) { M.push_back({}); for (size_t j = 0; j + 1 < t; j++) M.back().push_back(col[j][i]); }
            size_t m = t - 1; bool sing = false;
            for (size_t c = 0; c < m && !sing; c++) { size_t r = c; while (r < m && M[r][c] == 0) r++; if (r == m) { sing = true; break; } std::swap(M[r], M[c]); mpz_class iv = invz(M[c][c], q); for (size_t i = c + 1; i < m; i++) { mpz_class f = modz(M[i][c] * iv, q); if (f != 0) for (size_t j = c; j < m; j++) M[i][j] = modz(M[i][j] - f * M[c][j], q); } }
            MC_CHECK(!sing, "(%zu,%zu): the shares %llx do not take all values", t, n, (unsigned long long)mask); state(); step();
        }
        exec(); outcome(base[0]);
    }
    sample("real field: every set of t-1 shares is a bijective affine image of t-1 uniform draws");
}
