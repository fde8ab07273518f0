// C24, C25: private aggregation with unforgeable-tag interface.
#include "grp.hpp"
#include "alpha.hpp"
#include "ecref.hpp"
#include "puda.hpp"
#include <climits>
using namespace mc;
using namespace puda;
typedef Toy<Secp> TS;
typedef std::tuple<ek_v_t, sk_v_t, ak_t, vk_t> Keys;
static const int TIMES[] = {1, 0, -1, 2, 99, INT_MAX, INT_MIN, -2, 3};
static ctxt_v_t encs(Puda& p, Keys& k, const std::vector<long>& m, int t) { ctxt_v_t c; for (size_t i = 0; i < m.size(); i++) { c.push_back(p.Enc(std::get<0>(k)[i], m[i], t)); step(); } return c; }
static tag_v_t tagsof(Puda& p, Keys& k, const std::vector<long>& m, int t) { tag_v_t c; for (size_t i = 0; i < m.size(); i++) { c.push_back(p.Tag(std::get<1>(k)[i], m[i], t)); step(); } return c; }
static void agg(Puda& p, Keys& k, const ctxt_v_t& c, const tag_v_t& g, long sum, int t, const char* what)
{
    auto r = p.Agg(std::get<2>(k), c, g, t); step();
    MC_CHECK(r.first == sum, "%s: %zu users at time %d whose values add up to %ld aggregate to %d", what, c.size(), t, sum, (int)r.first);
    tag_t s; for (auto& x : g) s += x;
    MC_CHECK(r.second == s && r.second.isInf() == s.isInf(), "%s: the aggregate does not carry the combined tag", what);
    state(); outcome(r.first);
}
static long total(const std::vector<long>& m) { long s = 0; for (long x : m) s += x; return s; }
// all value vectors of length u with sum below n
static void vectors(int u, long n, std::vector<std::vector<long>>& out, std::vector<long> cur = {})
{
    if ((int)cur.size() == u) { out.push_back(cur); return; }
    for (long v = 0; total(cur) + v < n; v++) { auto c = cur; c.push_back(v); vectors(u, n, out, c); }
}
// every setup randomness of up to two (three) users
PART(c24_tree)
{
    if (!TS::require()) return;
    TS t;
    for (int u = 0; u <= (R.thorough() && t.n == 5 ? 3 : 2); u++) {
        std::vector<std::vector<long>> vs; vectors(u, t.n, vs);
        for (size_t w = 0; w < vs.size(); w++) for (size_t ti = 0; ti < 9; ti++) {
            if (u == 2 && ti % 3 != w % 3 && !R.thorough()) continue;
            if (u == 3 && (ti != w % 9)) continue;
            if (!mine()) continue;
            E.reset(); E.tree = true; Explorer ex; Puda p;
            ex.run([&] {
                E.counter = 0; at("%ld users values #%ld time #%ld", (long)u, w, ti);
                Keys k = p.Setup(u); step();
                ctxt_v_t c = encs(p, k, vs[w], TIMES[ti]);
                agg(p, k, c, tag_v_t(), total(vs[w]), TIMES[ti], "toy");
                if (u == 2) { std::swap(c[0], c[1]); agg(p, k, c, tag_v_t(), total(vs[w]), TIMES[ti], "toy, other order"); }
            });
            E.tree = false;
        }
    }
    sample("every setup randomness, value vector and time for up to two users on a group of order %ld", t.n);
}
// more users, every order of the ciphertexts
PART(c24_orders)
{
    if (!TS::require()) return;
    TS t;
    for (int u = 0; u <= (R.thorough() ? 7 : 6); u++) for (size_t ti = 0; ti < 9; ti++) for (int kind = 0; kind < 4; kind++) {
        if (!mine()) continue;
        E.reset(u * 9 + ti + 1); Puda p; at("%ld users time #%ld kind %ld", (long)u, ti, (long)kind);
        Keys k = p.Setup(u);
        std::vector<long> m; for (int i = 0; i < u; i++) m.push_back(kind == 0 ? 0 : kind == 1 ? i : kind == 2 ? (i == u - 1 ? t.n / 2 : 1) : (i * 37 + 3) % 19);
        if (total(m) >= t.n) continue;
        ctxt_v_t c = encs(p, k, m, TIMES[ti]); tag_v_t g = tagsof(p, k, m, TIMES[ti]);
        std::vector<int> perm; for (int i = 0; i < u; i++) perm.push_back(i);
        do { ctxt_v_t q; tag_v_t h; for (int i : perm) { q.push_back(c[i]); h.push_back(g[perm[(i + 1) % u]]); } agg(p, k, q, h, total(m), TIMES[ti], "permuted"); exec(); } while (std::next_permutation(perm.begin(), perm.end()));
    }
    for (int u : {10, 33, 64, 100}) for (size_t ti = 0; ti < 9; ti++) {
        if (!mine()) continue;
        E.reset(u + ti); Puda p; Keys k = p.Setup(u); std::vector<long> m; for (int i = 0; i < u; i++) m.push_back(i % 3 ? 0 : 1); if (total(m) >= t.n) continue;
        at("%ld users time #%ld", (long)u, ti); agg(p, k, encs(p, k, m, TIMES[ti]), tagsof(p, k, m, TIMES[ti]), total(m), TIMES[ti], "many users"); exec();
    }
    sample("every order of the ciphertexts and of the tags of up to six users");
}
// sums over the whole 16-bit range
static void sums_for(long s, int shape, int ti)
{
    std::vector<long> m;
    if (shape == 0) m = {s};
    else if (shape == 1) m = {s / 2, s - s / 2};
    else if (shape == 2) m = {0, s, 0};
    else if (shape == 3) m = {s / 3, s / 3, s - 2 * (s / 3)};
    else { for (int i = 0; i < 16; i++) m.push_back(s & (1l << i)); }
    E.reset(s + shape * 7 + 1); Puda p; at("sum %ld shape %ld time #%ld", s, (long)shape, (long)ti);
    Keys k = p.Setup(m.size()); agg(p, k, encs(p, k, m, TIMES[ti]), tagsof(p, k, m, TIMES[ti]), s, TIMES[ti], "sums"); exec();
}
PART(c24_sums)
{
    if (!TS::require()) return;
    mpz_class nn = toy_secp.n; if (nn <= 65536) return;
    ZSet z; for (int e = 0; e < 16; e++) { z.add(pow2(e)); z.add(pow2(e) - 1); z.add(pow2(e) + 1); }
    z.add(0xffff); z.add(0xfffe); z.add(0xfffd); z.add(0x8000); z.add(0xff00); z.add(0xaaaa);
    if (R.thorough()) for (int e = 0; e < 65536; e += 769) z.add(e);
    for (size_t i = 0; i < z.v.size(); i++) for (int shape = 0; shape < (z.v[i] >= 65534 || R.thorough() ? 5 : 1); shape++) { if (!mine()) continue; sums_for(z.v[i].get_ui(), (shape + i) % 5, i % 9); }
    u64 top = R.thorough() ? 4096 : 600;
    for (u64 b = 0; b < 32; b++) { if (!mine()) continue; for (u64 s = b; s < top; s += 32) sums_for(s, s % 5, s % 9); }
    sample("every sum below %llu, and sums around every power of two up to 65535", (unsigned long long)top);
}
PART(c24_real)
{
    if (toy_secp.on) return;
    std::vector<std::vector<long>> ms = {{0}, {1}, {}, {65535}, {0, 0, 0}, {300, 400, 24}, {40000, 25535}, std::vector<long>(10, 2), std::vector<long>(40, 3)};
    for (size_t w = 0; w < ms.size(); w++) for (int ti = 0; ti < 7; ti++) {
        if (!mine()) continue;
        if (total(ms[w]) > 5000 && ti != (int)(w % 7)) continue;
        at("real values #%ld time #%ld", w, (long)ti);
        int nd = total(ms[w]) > 5000 || R.thorough() == false ? 1 : 6;
        for (int d = -1; d < nd - 1; d++) for (int v = 0; v < (d < 0 ? 1 : 2); v++) {
            E.reset(w * 7 + ti + 1); if (d >= 0) E.override_[d] = v ? EcRef().n - 1 : mpz_class(0);
            Puda p; Keys k = p.Setup(ms[w].size()); agg(p, k, encs(p, k, ms[w], TIMES[ti]), tagsof(p, k, ms[w], TIMES[ti]), total(ms[w]), TIMES[ti], "real"); exec();
        }
    }
    sample("real curve, sums up to 65535, times 0, negative and extreme");
}
// ------------------------------------------------------------------ reuse
PART(c24_seq)
{
    if (!TS::require()) return;
    TS t; int depth = R.thorough() ? 6 : 5;
    // two schemes; operations: set up with 1..2 users, encrypt at one of two times, aggregate a pending round (also repeatedly), work on a copy
    for (int o0 = 0; o0 < 2; o0++) for (int o1 = 0; o1 < 9; o1++) for (int o2 = 0; o2 < 9; o2++) {
        if (!mine()) continue;
        Explorer ex;
        ex.run([&] {
            at("first operations %ld %ld %ld", (long)o0, (long)o1, (long)o2); E.reset(o0 * 3 + o1 + 4); E.tree = false;
            Puda p[2]; Keys k[2]; int users[2] = {-1, -1}; u64 epoch[2] = {0, 0};
            struct Rd { int s; u64 epoch; int t; std::vector<long> m; ctxt_v_t c; tag_v_t g; }; std::vector<Rd> rs;
            for (int i = 0; i < depth; i++) {
                long op = i == 0 ? o0 : i == 1 ? o1 : i == 2 ? o2 : choose(9);
                if (op < 4) { int s = op / 2, u = 1 + op % 2; k[s] = p[s].Setup(u); users[s] = u; epoch[s]++; }
                else if (op < 8) { int s = (op - 4) / 2; if (users[s] < 0) throw Skip(); int tm = op % 2 ? 7 : -3; std::vector<long> m; for (int j = 0; j < users[s]; j++) m.push_back((i + j) % 2 + (j == 0 && i > 2)); Rd r{s, epoch[s], tm, m, encs(p[s], k[s], m, tm), tagsof(p[s], k[s], m, tm)}; rs.push_back(r); }
                else { if (rs.empty()) throw Skip(); Puda q(p[rs.back().s]); if (rs.back().epoch == epoch[rs.back().s]) agg(q, k[rs.back().s], rs.back().c, rs.back().g, total(rs.back().m), rs.back().t, "aggregated by a copy"); Keys other = q.Setup(2); step(); }
                for (auto& r : rs) if (r.epoch == epoch[r.s]) agg(p[r.s], k[r.s], r.c, r.g, total(r.m), r.t, "after a sequence of operations");
            }
        });
        if (o0 == 0 && o1 == 4 && o2 == 4) sample("%llu sequences of %d operations on two schemes (first three fixed)", (unsigned long long)ex.executions, depth);
    }
}

// ------------------------------------------------------------------ C25
static const char* KEY = "puda-verify-accepts-altered";
// honest tag against the group table; verification of honest and altered aggregates
static void tags(TS& t, Puda& p, Keys& k, const std::vector<long>& m, int tm, bool alter)
{
    long n = t.n, sum = total(m);
    // the public hash point, read through the interface
    long h = t.idx(p.Tag(sk_t(mpz_class(0), tk_t(mpz_class(1))), 0, 1));
    MC_CHECK(h >= 0, "the tag under the unit key is not a group element");
    mpz_class tks = 0; for (auto& s : std::get<1>(k)) tks += s.tk.getRawValue();
    long T = md(modz(tks, Z(n)).get_si(), n);
    long a = m.empty() ? 0 : md(modz(std::get<1>(k)[0].a, Z(n)).get_si(), n);
    for (auto& s : std::get<1>(k)) MC_CHECK(s.a == std::get<1>(k)[0].a, "the users' tag keys do not share a");
    MC_CHECK(t.idx(std::get<3>(k).vk_1) == T, "vk_1 is not the sum of the tag keys times the generator");
    if (!m.empty()) MC_CHECK(t.idx(std::get<3>(k).vk_2) == a, "vk_2 is not a times the generator");
    long tt = md(((long)tm) % n, n);
    for (size_t i = 0; i < m.size(); i++) {
        long w = md(h * tt % n * (modz(std::get<1>(k)[i].tk.getRawValue(), Z(n)).get_si()) + a * m[i], n);
        tag_t g = p.Tag(std::get<1>(k)[i], m[i], tm); step();
        MC_CHECK(t.idx(g) == w, "tag of %ld at time %d with hash %ldG, a=%ld: %s instead of %ldG", m[i], tm, h, a, show(g).c_str(), w);
    }
    auto r = p.Agg(std::get<2>(k), encs(p, k, m, tm), tagsof(p, k, m, tm), tm); step();
    long w = md(h * tt % n * T + a * (sum % n), n);
    MC_CHECK(t.idx(r.second) == w, "combined tag at time %d is %s instead of the tag of the sum %ld, %ldG", tm, show(r.second).c_str(), sum, w);
    if (!m.empty()) { tag_t d = p.Tag(sk_t(std::get<1>(k)[0].a, tk_t(tks)), sum, tm); MC_CHECK(d == r.second, "combined tag differs from the tag of the sum under the combined keys"); }
    MC_CHECK(p.Verify(std::get<3>(k), r.first, r.second, tm), "verification rejects the honest aggregate %d at time %d", (int)r.first, tm); step(); state();
    outcome(w);
    if (!alter || m.empty()) return;
    // any other point is not the tag of this sum, and with a != 0 mod n no other sum (mod n) has this tag
    for (long d = 1; d < n && d < 8; d++) { tag_t f = r.second + t.pt(d); if (p.Verify(std::get<3>(k), r.first, f, tm)) finding(KEY, "Verify accepts a tag altered by %ldG (sum %ld, time %d)", d, sum, tm); step(); }
    if (a != 0) for (long d = 1; d < n && d < 8; d++) { if (p.Verify(std::get<3>(k), r.first + d, r.second, tm)) finding(KEY, "Verify accepts the sum altered by %ld (sum %ld, time %d)", d, sum, tm); step(); }
}
PART(c25_tree)
{
    if (!TS::require()) return;
    TS t;
    for (int u = 0; u <= 2; u++) {
        std::vector<std::vector<long>> vs; vectors(u, t.n, vs);
        for (size_t w = 0; w < vs.size(); w++) for (size_t ti = 0; ti < 9; ti++) {
            if (u == 2 && ti != w % 9 && !R.thorough()) continue;
            if (!mine()) continue;
            E.reset(); E.tree = true; Explorer ex; Puda p;
            ex.run([&] { E.counter = 0; at("%ld users values #%ld time #%ld", (long)u, w, ti); Keys k = p.Setup(u); step(); tags(t, p, k, vs[w], TIMES[ti], true); });
            E.tree = false;
        }
    }
    sample("every setup randomness, value vector and time of up to two users on a group of order %ld; every altered tag and sum", t.n);
}
PART(c25_users)
{
    if (!TS::require()) return;
    TS t;
    for (int u = 1; u <= 24; u++) for (size_t ti = 0; ti < 9; ti++) for (int sd = 0; sd < 3; sd++) {
        if (!mine()) continue;
        E.reset(u * 9 + ti + sd * 500); Puda p; at("%ld users time #%ld seed %ld", (long)u, ti, (long)sd);
        std::vector<long> m; for (int i = 0; i < u; i++) m.push_back((i * 7 + sd * 3) % 31);
        if (total(m) >= t.n) continue;
        Keys k = p.Setup(u); tags(t, p, k, m, TIMES[ti], true);
        k = p.Setup(u); tags(t, p, k, m, TIMES[(ti + 1) % 9], true); exec(2);
    }
    sample("1 to 24 users, two setups of one object");
}
// large numbers of users
static void many(bool tag)
{
    if (!TS::require()) return;
    TS t;
    for (long u : manysizes(R.thorough() ? 600 : 130, R.thorough() ? 65536 : 4096)) for (int shape = 0; shape < (u > 600 ? 1 : 2); shape++) {
        if (!mine()) continue;
        E.reset(u * 2 + shape); Puda p; at("%ld users shape %ld", u, (long)shape);
        std::vector<long> m(u); m[0] = 5; m[u / 2] = 7; m[u - 1] = 11; if (shape) for (long i = 0; i < u && i < 200; i++) m[i] = i % 3;
        if (total(m) >= t.n) continue;
        int tm = TIMES[u % 9]; if (md(tm, t.n) == 0) tm = 3;
        Keys k = p.Setup(u); if (tag) tags(t, p, k, m, tm, false); else { agg(p, k, encs(p, k, m, tm), tagsof(p, k, m, tm), total(m), tm, "many users"); }
        exec();
    }
    sample("numbers of users up to %d: all small ones, around powers of two and multiples of powers of ten", R.thorough() ? 65536 : 4096);
}
PART(c24_many) { many(false); }
PART(c25_many) { many(true); }
PART(c25_real)
{
    if (toy_secp.on) return;
    EcRef e;
    std::vector<std::vector<long>> ms = {{0}, {1}, {}, {0, 0}, {30, 40, 24}, std::vector<long>(10, 2), {700, 1}};
    for (size_t w = 0; w < ms.size(); w++) for (int ti = 0; ti < 9; ti++) for (int d = -1; d < (R.thorough() ? 6 : 3); d++) for (int v = 0; v < (d < 0 ? 1 : 2); v++) {
        if (!mine()) continue;
        int tm = TIMES[ti]; auto& m = ms[w]; at("real values #%ld time #%ld draw %ld value %ld", w, (long)ti, (long)d, (long)v);
        E.reset(w * 9 + ti + 1); if (d >= 0) E.override_[d] = v ? e.n - 1 : mpz_class(1);
        Puda p; Keys k = p.Setup(m.size());
        EcRef::Q h = EcRef::from(p.Tag(sk_t(mpz_class(0), tk_t(mpz_class(1))), 0, 1));
        mpz_class tks = 0; for (auto& s : std::get<1>(k)) tks += s.tk.getRawValue();
        mpz_class a = m.empty() ? mpz_class(0) : std::get<1>(k)[0].a;
        auto r = p.Agg(std::get<2>(k), encs(p, k, m, tm), tagsof(p, k, m, tm), tm); step();
        EcRef::Q want = e.add(e.mul(h, modz(mpz_class(tm) * tks, e.n)), e.mul(e.G(), modz(a * total(m), e.n)));
        MC_CHECK(EcRef::from(r.second) == want, "combined tag %s is not the tag of the sum %ld at time %d", show(r.second).c_str(), total(m), tm);
        MC_CHECK(EcRef::from(std::get<3>(k).vk_1) == e.mul(e.G(), modz(tks, e.n)), "vk_1 is not the sum of the tag keys times the generator");
        if (!m.empty()) MC_CHECK(EcRef::from(std::get<3>(k).vk_2) == e.mul(e.G(), modz(a, e.n)), "vk_2 is not a times the generator");
        MC_CHECK(p.Verify(std::get<3>(k), r.first, r.second, tm), "verification rejects the honest aggregate"); state(); exec(); outcome(want.x);
        if (!m.empty()) { if (p.Verify(std::get<3>(k), r.first, r.second + p.Tag(sk_t(mpz_class(1), tk_t(mpz_class(0))), 1, 1), tm)) finding(KEY, "Verify accepts an altered tag (sum %ld, time %d)", total(m), tm);
            if (p.Verify(std::get<3>(k), r.first + 1, r.second, tm)) finding(KEY, "Verify accepts an altered sum (%ld + 1, time %d)", total(m), tm); step(2); }
    }
}

// ------------------------------------------------------------------ C34
// What the aggregator sees of a period, in all: public parameters, its own key, the verification key, every ciphertext and tag.
static const char* ZERO = "puda-period-zero-reveals-messages";
static const char* LINEAR = "puda-periods-linearly-related";
static std::vector<long> view(TS& t, Puda& p, Keys& k, const std::vector<long>& m, int tm)
{
    std::vector<long> v{t.idx(p.Tag(sk_t(mpz_class(0), tk_t(mpz_class(1))), 0, 1)), t.idx(std::get<3>(k).vk_1), t.idx(std::get<3>(k).vk_2), std::get<2>(k).getRawValue().get_si()};
    for (auto& c : encs(p, k, m, tm)) v.push_back(t.idx(c));
    for (auto& c : tagsof(p, k, m, tm)) v.push_back(t.idx(c));
    for (long x : v) MC_CHECK(x >= 0, "a value of the period is not a group element");
    return v;
}
static u64 pack(const std::vector<long>& v, long n) { u64 r = 1; for (long x : v) r = r * n + x; return r; }
// the distribution of the aggregator's view over the dealer's randomness depends on the messages only through their sum;
// `corrupt`: the last user's keys are part of the view, only the other users' messages vary
static void hides(TS& t, int u, const std::vector<std::vector<long>>& ms, int tm, bool corrupt, bool strict)
{
    Dist<u64> first; long firstw = -1;
    for (size_t w = 0; w < ms.size(); w++) {
        Dist<u64> d; Explorer ex; Puda p; E.reset(); E.tree = true; E.max_draws = 40;
        ex.run([&] {
            E.counter = 0; at("%ld users time %ld values #%ld", (long)u, (long)tm, w); Keys k = p.Setup(u); step();
            std::vector<long> v = view(t, p, k, ms[w], tm); if (v[0] == 0) throw Skip();      // a hash point at infinity, probability 1/n
            if (corrupt) { v.push_back(std::get<0>(k)[u - 1].getRawValue().get_si()); v.push_back(std::get<1>(k)[u - 1].tk.getRawValue().get_si()); }
            d.add(pack(v, t.n)); });
        E.tree = false; state(); outcome(d.size() * 64 + w);
        if (E.big_seen) { note("a draw was too large to enumerate"); R.exhaustive = false; E.big_seen = false; return; }
        if (firstw < 0) { firstw = w; first = d; continue; }
        if (!strict) { if (!(d == first)) finding(ZERO, "at time %d the aggregator's view depends on the single messages", tm); continue; }
        if (d == first) continue;
        std::string a, b; for (long x : ms[firstw]) a += std::to_string(x) + " "; for (long x : ms[w]) b += std::to_string(x) + " ";
        fail("%d users%s, time %d: the aggregator's view of the messages %sdiffers from its view of %swhich have the same sum", u, corrupt ? ", the last one corrupted" : "", tm, a.c_str(), b.c_str());
    }
}
PART(c34_tree)
{
    if (!TS::require()) return;
    TS t; long n = t.n; std::vector<int> tms = {1, 2, -1, 99, INT_MAX, INT_MIN, -2, 3};
    for (long s = 0; s < n; s++) for (size_t ti = 0; ti < tms.size(); ti++) {
        if (!R.thorough() && ti % n != (size_t)s) continue;
        if (md(tms[ti] % n, n) == 0) continue;
        if (!mine()) continue;
        std::vector<std::vector<long>> ms; for (long a = 0; a < n; a++) ms.push_back({a, md(s - a, n)});
        hides(t, 2, ms, tms[ti], false, true);
    }
    if (mine()) hides(t, 2, {{0, 1}, {1, 0}}, 0, false, false);
    // three users, one of them working with the aggregator
    for (long s = 0; s < n; s++) { if (!R.thorough() && s != 1) continue; if (n > 5) continue; if (!mine()) continue; std::vector<std::vector<long>> ms = {{0, s, 1}, {s + 1, md(-1, n), 1}}; if (R.thorough()) ms.push_back({md(s - 2, n), 2, 1}); hides(t, 3, ms, 2, true, true); }
    sample("every setup randomness of two users, all message pairs by sum; three users with one corrupted");
}
// standard curve: each key component follows one draw of its own, so the keys of the users are independent and uniform
PART(c34_real)
{
    if (toy_secp.on) return;
    EcRef e;
    auto keys = [&](Puda& p, size_t u, std::vector<std::string>& out, std::vector<std::string>& names, const char* tagname) {
        Keys k = p.Setup(u); step();
        auto put = [&](const std::string& n, const mpz_class& v) { names.push_back(n + tagname); out.push_back(v.get_str(16)); };
        put("tag key a", std::get<1>(k)[0].a);
        for (size_t i = 0; i < u; i++) { put("encryption key " + std::to_string(i + 1), std::get<0>(k)[i].getRawValue()); put("tag key " + std::to_string(i + 1), std::get<1>(k)[i].tk.getRawValue()); }
        return k; };
    for (size_t u : {1u, 2u, 3u, 10u, 40u}) for (int sd = 0; sd < 3; sd++) {
        if (u > 10 && sd && !R.thorough()) continue;
        if (!mine()) continue;
        auto both = [&](std::vector<std::string>& o, std::vector<std::string>& nm) { o.clear(); nm.clear(); Puda p, q; keys(p, u, o, nm, ""); keys(p, u, o, nm, " of a second setup"); keys(q, u, o, nm, " of another object"); };
        std::vector<std::string> base, names, o; E.reset(sd * 50 + u); both(base, names); u64 draws = E.counter;
        for (size_t i = 0; i < base.size(); i++) for (size_t j = 0; j < i; j++) MC_CHECK(base[i] != base[j], "%zu users: %s equals %s", u, names[i].c_str(), names[j].c_str());
        std::vector<int> hit(base.size());
        for (u64 d = 0; d < draws; d++) {
            at("%ld users seed %ld draw %ld", u, (long)sd, d); E.reset(sd * 50 + u); E.override_[d] = mpz_class("123456789123456789"); both(o, names); exec(); int n = 0; size_t w = 0;
            for (size_t i = 0; i < o.size(); i++) if (o[i] != base[i]) { hit[i]++; if (n++) fail("%zu users: %s and %s follow the same random draw", u, names[w].c_str(), names[i].c_str()); w = i; }
        }
        for (size_t i = 0; i < base.size(); i++) MC_CHECK(hit[i], "%zu users: %s does not follow any draw", u, names[i].c_str());
        state(base.size()); outcome(std::hash<std::string>()(base[1]));
        // the same key in two periods
        E.reset(sd * 50 + u); Puda p; Keys k; { std::vector<std::string> x, y; k = keys(p, u, x, y, ""); }
        ctxt_t c0 = p.Enc(std::get<0>(k)[0], 21, 0), c1 = p.Enc(std::get<0>(k)[0], 21, 1), c2 = p.Enc(std::get<0>(k)[0], 34, 2); step(3);
        static ecc::Curve_secp256r1 cv; POINT1 g = cv.getDefaultGen();
        if (c0 == g * mpz_class(21)) finding(ZERO, "the ciphertext of 21 in period 0 is 21*G");
        if (c1 * mpz_class(2) - c2 == g * mpz_class(8)) finding(LINEAR, "twice the ciphertext of period 1 minus that of period 2 is (2*21-34)*G");
        MC_CHECK(!(c1 == g * mpz_class(21)) && !(c2 == g * mpz_class(34)), "a ciphertext is the bare message");
        MC_CHECK(!(c2 - c1 == g * mpz_class(13)), "%zu users: periods 1 and 2 use the same blinding", u);
    }
    sample("1 to 40 users, two setups of an object and one of another: every draw flipped alone");
}
// pairs of periods that are a round distance apart, on the standard curve
PART(c34_pairs)
{
    if (toy_secp.on) return;
    E.reset(77); Puda p; Keys k = p.Setup(2); ek_t ek = mpz_class(1); tk_t tk = mpz_class(1); sk_t sk(mpz_class(0), tk);
    std::set<long> offs;
    for (long b = 1; b <= 2000000000l; b *= 10) for (long d = 1; d < 100; d++) offs.insert(b * d);
    for (int b = 4; b < 32; b++) for (long d : {1l, 3l, 5l, 7l, 15l}) { offs.insert((1l << b) * d); offs.insert((1l << b) * d - 1); offs.insert((1l << b) * d + 1); }
    for (long u : {60l, 3600l, 86400l, 7 * 86400l, 365 * 86400l, 31557600l, 999l, 97l, 65521l, 2147483629l}) for (long d = 1; d < 40; d++) offs.insert(u * d);
    for (long y = 1; y < 68; y++) for (long dd : {0l, 1l}) offs.insert((y * 365 + (y + 1 - dd) / 4) * 86400);
    std::vector<long> base = {1, 2, 7, 1000, 86399, 1234567, -3, -1000000}; if (R.thorough()) for (long x : {3l, 4l, 5l, 10l, 255l, 65537l, 77777777l, 500000000l, -1l, -2l, -86400l}) base.push_back(x);
    auto bl = [&](long tm) { auto c = p.Enc(ek, 0, (int)tm); auto g = p.Tag(sk, 0, (int)tm); step(2); return std::make_pair(c.isInf() ? std::string("inf") : c.getX().getRawValue().get_str(62) + ":" + c.getY().getRawValue().get_str(62), g.isInf() ? std::string("inf") : g.getX().getRawValue().get_str(62) + ":" + g.getY().getRawValue().get_str(62)); };
    for (long b : base) {
        bool own = false; std::set<long> ts;
        long n = 0;
        for (long o : offs) for (int sg = -1; sg <= 1; sg += 2) { long tm = b + sg * o; if (tm > INT_MAX || tm < INT_MIN || tm == 0 || tm == b) continue; if (n++ % 64 == 0) own = mine(); if (own) ts.insert(tm); }
        if (ts.empty()) continue;
        auto z = bl(b);
        for (long tm : ts) {
            at("periods %ld and %ld", b, tm); auto w = bl(tm); state();
            MC_CHECK(w.first != z.first && w.first != "inf", "periods %ld and %ld use the same blinding", b, tm); MC_CHECK(w.second != z.second && w.second != "inf", "periods %ld and %ld use the same blinding of tags", b, tm);
        }
        exec(); outcome(b);
    }
    sample("%zu distances: multiples of powers of ten and two, calendar units, whole years", offs.size());
}
// many periods: blindings of different periods differ, and none is missing
PART(c34_periods)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    for (int blk = 0; blk < 16; blk++) {
        if (!mine()) continue;
        E.reset(blk + 1); Puda p; Keys k = p.Setup(1 + blk % 3); std::map<long, int> seen, seent; size_t usr = blk % 3; tk_t tk = std::get<1>(k)[usr].tk;
        if (tk.getRawValue() == 0 || std::get<0>(k)[usr].getRawValue() == 0) continue;
        std::vector<long> ts; for (long x = 1; x <= (R.thorough() ? 20000 : 2500); x++) ts.push_back(blk & 1 ? -x : x);
        for (int b = 10; b < 31; b++) for (long dd = -2; dd <= 2; dd++) ts.push_back((blk & 2 ? -1 : 1) * ((1l << b) + dd));
        for (long x : {1000l, 3600l, 86400l, 10000l, 100000l, 1000000l, 1000000000l, 1700000000l, 20240101l, (long)INT_MAX, (long)INT_MIN}) ts.push_back(x);
        std::set<long> done;
        for (long tm : ts) {
            if (tm > INT_MAX || tm < INT_MIN || md(tm, n) == 0 || !done.insert(md(tm, n)).second) continue;
            at("period %ld block %ld", tm, (long)blk);
            long c = t.idx(p.Enc(std::get<0>(k)[usr], 9, tm)), g = t.idx(p.Tag(sk_t(mpz_class(0), tk), 9, tm)); step(2); state();
            MC_CHECK(c >= 0 && g >= 0, "period %ld: not a group element", tm); MC_CHECK(c != 9, "period %ld: the ciphertext of 9 is 9*G", tm); MC_CHECK(g != 0, "period %ld: the tag is not blinded", tm);
            auto i = seen.insert({c, (int)tm}); MC_CHECK(i.second, "periods %d and %ld use the same blinding", i.first->second, tm);
            auto j = seent.insert({g, (int)tm}); MC_CHECK(j.second, "periods %d and %ld use the same blinding of tags", j.first->second, tm); outcome(c);
        }
        exec();
    }
    sample("thousands of periods, powers of two and calendar values: no blinding twice");
}
