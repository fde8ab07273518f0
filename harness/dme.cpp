// C09 - C13: dual-mode encryption and its homomorphic extension.
#include "dmeutil.hpp"
using namespace mc;
using namespace dme;

static branch_t B(long b) { return b ? b1 : b0; }

// ------------------------------------------------------------------ C09
// every CRS imported as points, every key, every encryption randomness
PART(c09_crs)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    std::vector<long> ms; if (R.thorough()) for (long m = 0; m < n; m++) ms.push_back(m); else ms = {0, 1, n - 2};
    for (long c = 0; c < n * n * n * n; c++) {
        if (!mine()) continue;
        Tup tc{c / (n * n * n), c / (n * n) % n, c / n % n, c % n};
        DME_DDH d(mkcrs(t, tc));
        for (long b = 0; b < 2; b++) for (long m : ms) {
            E.reset(); E.tree = true;
            Explorer ex;
            POINT msg = t.pt(m);
            ex.run([&] {
                E.counter = 0;
                at("CRS tuple #%ld branch %ld message %ldG", c, b, m);
                keypair_t k = d.KeyGen(B(b));
                ctxt_t ct = d.Enc(k.pk, B(b), msg);
                POINT r = d.Dec(k.sk, ct);
                step(3);
                MC_CHECK(t.idx(r) == m, "CRS (%ldG,%ldG,%ldG,%ldG), branch %ld, sk=%s: message %ldG decrypts to %s", tc.g0, tc.g1, tc.h0, tc.h1, b, k.sk.getRawValue().get_str().c_str(), m, show(r).c_str());
                MC_CHECK(t.idx(msg) == m, "Enc changed the message");
                outcome(cidx(t, ct));
            });
            state();
        }
    }
    sample("all n^4 CRS tuples x both branches x all keys x all (s,t), n=%ld", n);
}
// every setup the library itself produces, in every mode
PART(c09_setup)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    for (int mode = 0; mode < 3; mode++) for (long b = 0; b < 2; b++) for (long m = 0; m < n; m += (R.thorough() ? 1 : 3)) {
        // the first answers are split over the work units so that shards share the tree
        for (long first = 0; first < n * n; first++) {
            if (!mine()) continue;
            E.reset(); E.tree = true; Explorer ex;
            E.hook = [&](Draw& d) { if (E.counter < 2 && d.range == n) { d.value = E.counter ? first / n : first % n; return true; } return false; };
            ex.run([&] {
                E.counter = 0;
                at("mode %ld branch %ld message %ldG first draws %ld", (long)mode, b, m, first);
                DME_DDH* d = mode == 0 ? new DME_DDH(messy) : mode == 1 ? new DME_DDH(dec) : new DME_DDH();
                std::unique_ptr<DME_DDH> hold(d);
                keypair_t k = d->KeyGen(B(b));
                ctxt_t ct = d->Enc(k.pk, B(b), t.pt(m));
                step(4);
                POINT r = d->Dec(k.sk, ct);
                MC_CHECK(t.idx(r) == m, "mode %d, branch %ld: message %ldG decrypts to %s", mode, b, m, show(r).c_str());
                outcome(cidx(t, ct));
            });
            state();
        }
    }
}
// any interleaving of key generation, encryption and decryption over instances sharing a CRS
PART(c09_seq)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    int depth = R.thorough() ? 5 : 4;
    for (int mode = 0; mode < 3; mode++) for (int op0 = 0; op0 < 4; op0++) for (int sd = 1; sd <= 2; sd++) {
        if (!mine()) continue;
        Explorer ex;
        E.tree = false;
        ex.run([&] {
            E.reset(sd + 10 * mode);
            DME_DDH a(mode == 0 ? DME_DDH(crs_ddh_t(mkcrs(t, {2, 3, 1, n - 1}))) : mode == 1 ? DME_DDH(mkcrs(t, {2, 4, 3, md(6, n)})) : DME_DDH(mkcrs(t, {1, 3, 0, 2})));
            DME_DDH c(a.crs);
            DMHE_DDH e(c.crs);
            DME_DDH* in[3] = {&a, &c, &e};
            struct K { keypair_t k; long b; }; struct Ct { ctxt_t c; size_t k; long m; };
            std::vector<K> ks; std::vector<Ct> cs;
            at("mode %ld first op %ld seed %ld", (long)mode, (long)op0, (long)sd);
            for (int s = 0; s < depth; s++) {
                long op = s == 0 ? 0 : choose(ks.empty() ? 1 : 2);
                if (op == 0) { long ii = s == 0 ? op0 / 2 : choose(3), bb = s == 0 ? op0 % 2 : choose(2); ks.push_back({in[ii]->KeyGen(B(bb)), bb}); }
                else { size_t ii = choose(3), kk = ks.size() == 1 ? 0 : choose(ks.size()); long m = choose(2) ? 1 + s : 0; cs.push_back({in[ii]->Enc(ks[kk].k.pk, B(ks[kk].b), t.pt(m)), kk, md(m, n)}); }
                step();
                // all ciphertexts so far, on every instance
                for (auto& x : cs) for (int i = 0; i < 3; i++) {
                    POINT r = in[i]->Dec(ks[x.k].k.sk, x.c); step();
                    MC_CHECK(t.idx(r) == x.m, "after %d operations a ciphertext of %ldG decrypts on instance %d to %s", s + 1, x.m, i, show(r).c_str());
                }
            }
            state();
        });
        if (op0 == 1) sample("mode %d: %llu operation sequences of length %d over 3 instances", mode, (unsigned long long)ex.executions, depth);
    }
}
// standard curve: boundary values of every random draw
PART(c09_real)
{
    Real<Secp> g;
    std::vector<mpz_class> vals = {0, 1, 2, g.n - 1, pow2(255), pow2(128), pow2(64) - 1, g.n / 2};
    std::vector<Real<Secp>::XY> ms = {{true, 0, 0}, g.mulG(1), g.mulG(g.n - 1), g.mulG(pow2(200))};
    for (int mode = 0; mode < 3; mode++) for (int draw = -1; draw < 7; draw++) for (size_t v = 0; v < (draw < 0 ? 1 : vals.size()); v++) {
        if (!mine()) continue;
        at("real mode %ld draw %ld value #%ld", (long)mode, (long)draw, v);
        E.reset(100 + draw);
        if (draw >= 0) E.override_[draw] = vals[v];
        DME_DDH* d = mode == 0 ? new DME_DDH(messy) : mode == 1 ? new DME_DDH(dec) : new DME_DDH();
        std::unique_ptr<DME_DDH> hold(d);
        DME_DDH imp(d->crs);
        for (long b = 0; b < 2; b++) {
            const auto& m = ms[(v + draw + 1 + b) % ms.size()];
            if (b) { E.counter = 4 + (mode != 1); if (mode == 1) E.counter = 3; }
            keypair_t k = (draw & 1 ? imp : *d).KeyGen(B(b));
            ctxt_t ct = (draw & 2 ? imp : *d).Enc(k.pk, B(b), g.pt(m));
            POINT r = (draw & 4 ? imp : *d).Dec(k.sk, ct); step(3); state();
            MC_CHECK(Real<Secp>::same(r, m), "mode %d branch %ld with draw %d forced to %s: %s decrypts to %s", mode, b, draw, hx(vals[v]).c_str(), Real<Secp>::show(m).c_str(), show(r).c_str());
            outcome(r.isInf() ? mpz_class(0) : ct.u.getX().getRawValue());
        }
        exec();
    }
}

// ------------------------------------------------------------------ C10
static void c10_one(TS& t, DME_DDH& d, const Tup& tc, long id, bool joint)
{
    long n = t.n;
    for (long b = 0; b < 2; b++) {
        E.reset(); E.tree = true; Explorer kx;
        std::set<long> keys;
        // every key of branch b
        std::vector<std::pair<keypair_t, long>> ks;
        kx.run([&] { E.counter = 0; keypair_t k = d.KeyGen(B(b)); long i = pidx(t, k.pk); if (keys.insert(i).second) ks.push_back({k, k.sk.getRawValue().get_si()}); });
        for (auto& kp : ks) {
            if (kp.second == 0) continue;
            Dist<long> ref; bool have = false;
            for (long m = 0; m < n; m++) {
                Dist<long> dist; Explorer ex; POINT msg = t.pt(m);
                at("CRS #%ld key on branch %ld sk=%ld, message %ldG on the other branch", id, b, kp.second, m);
                E.reset(); E.tree = true;
                ex.run([&] {
                    E.counter = 0;
                    ctxt_t c = d.Enc(kp.first.pk, B(1 - b), msg); step();
                    long i = cidx(t, c);
                    MC_CHECK(i >= 0, "a ciphertext is not made of group elements");
                    dist.add(i); outcome(i);
                });
                state();
                MC_CHECK(dist.size() == (size_t)(n * n) && dist.flat(), "CRS (%ldG,%ldG,%ldG,%ldG), key %ld of branch %ld: encryptions of %ldG on the other branch take %zu of %ld values%s",
                         tc.g0, tc.g1, tc.h0, tc.h1, kp.second, b, m, dist.size(), n * n, dist.flat() ? "" : ", not equally likely");
                if (have) MC_CHECK(dist == ref, "ciphertext distribution depends on the message");
                ref = dist; have = true;
            }
            if (joint) {
                // two encryptions under one key: independent
                Dist<long> dist; Explorer ex; E.reset(); E.tree = true;
                ex.run([&] { E.counter = 0; long i = cidx(t, d.Enc(kp.first.pk, B(1 - b), t.pt(1))), j = cidx(t, d.Enc(kp.first.pk, B(1 - b), t.pt(2))); step(2); dist.add(i * n * n + j); });
                MC_CHECK(dist.size() == (size_t)(n * n * n * n) && dist.flat(), "two messy-branch encryptions are not independent: %zu joint values", dist.size());
            }
        }
    }
}
PART(c10_crs)
{
    if (!TS::require()) return;
    TS t; long n = t.n; long done = 0;
    for (long c = 0; c < n * n * n * n; c++) {
        Tup tc{c / (n * n * n), c / (n * n) % n, c / n % n, c % n};
        if (!messy_ok(t, tc)) continue;
        if (!mine()) continue;
        DME_DDH d(mkcrs(t, tc));
        c10_one(t, d, tc, c, done++ % 40 == 0);
    }
    sample("every non-DDH CRS tuple over a group of order %ld: ciphertext distribution per key and message", n);
}
// the library's own messy setup: what it produces is a messy CRS whenever it is non-degenerate, hides and has a working trapdoor
PART(c10_setup)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    for (long first = 0; first < n * n; first++) {
        if (!mine()) continue;
        E.reset(); E.tree = true; Explorer ex;
        ex.run([&] {
            E.counter = 0;
            // split the first two draws over the work units
            E.hook = [&](Draw& d) { if (E.counter < 2 && d.range == n) { d.value = E.counter ? first / n : first % n; return true; } return false; };
            DME_DDH d(messy);
            Tup tc = tup(t, d.crs); step();
            at("messy setup (%ld,%ld,%ld,%ld)", tc.g0, tc.g1, tc.h0, tc.h1);
            MC_CHECK(tc.g0 >= 0 && tc.g1 >= 0 && tc.h0 >= 0 && tc.h1 >= 0, "messy setup leaves the group");
            if (!messy_ok(t, tc)) throw Skip();
            keypair_t k0 = d.KeyGen(b0), k1 = d.KeyGen(b1); step(2);
            if (k0.sk.getRawValue() != 0) { branch_t f = d.FindMessy(k0.pk); step(); MC_CHECK(f == b1, "messy trapdoor names branch %d for a key of branch 0", (int)f); }
            if (k1.sk.getRawValue() != 0) { branch_t f = d.FindMessy(k1.pk); step(); MC_CHECK(f == b0, "messy trapdoor names branch %d for a key of branch 1", (int)f); }
            outcome(((tc.g0 * n + tc.g1) * n + tc.h0) * n + tc.h1);
            state();
        });
    }
    // and the distribution of the setup itself: uniform generators, independent exponents
    if (mine()) {
        Dist<long> d; Explorer ex; E.reset(); E.tree = true; E.hook = nullptr; long ddh = 0;
        ex.run([&] { E.counter = 0; DME_DDH s(messy); Tup c = tup(t, s.crs); step(); d.add(((c.g0 * n + c.g1) * n + c.h0) * n + c.h1); if (c.g0 > 0 && c.g1 > 0 && is_ddh(t, c)) ddh++; });
        mpq_class p = 0;
        for (auto& e : d.m) { long k = e.first; Tup c{k / (n * n * n), k / (n * n) % n, k / n % n, k % n}; if (messy_ok(t, c)) p += d.prob(k); }
        // non-degenerate with probability (1-1/n)^3 at least
        mpq_class lim(mpz_class((n - 1) * (n - 1) * (n - 1)), mpz_class(n * n * n));
        MC_CHECK(p >= lim, "messy setups are non-degenerate with probability %s only", p.get_str().c_str());
    }
}
// standard curve: the same key and message with different draws give unrelated ciphertexts, and each ciphertext consumes two full scalars
PART(c10_real)
{
    Real<Secp> g;
    for (int s = 0; s < 8; s++) {
        if (!mine()) continue;
        at("real messy seed %ld", (long)s);
        E.reset(s + 1);
        DME_DDH d(messy);
        for (long b = 0; b < 2; b++) {
            keypair_t k = d.KeyGen(B(b)); step();
            MC_CHECK(d.FindMessy(k.pk) == B(1 - b), "messy trapdoor names the wrong branch for a key of branch %ld", b);
            std::set<std::string> seen;
            for (int r = 0; r < 4; r++) {
                E.log.clear(); E.log_on = true;
                ctxt_t c = d.Enc(k.pk, B(1 - b), g.pt(g.mulG(5))); step(); state();
                E.log_on = false;
                double e = 0; for (auto& x : E.log) e += mpz_sizeinbase(x.range.get_mpz_t(), 2) - 1;
                MC_CHECK(e >= 508, "an encryption uses only %.0f bits of randomness", e);
                MC_CHECK(seen.insert(show(c.u)).second && seen.insert(show(c.mv)).second, "messy-branch ciphertexts repeat");
                MC_CHECK(!(d.Dec(k.sk, c) == g.pt(g.mulG(5))), "the messy branch decrypts");
                outcome(c.u.getX().getRawValue());
            }
        }
        exec();
    }
}

// ------------------------------------------------------------------ C11
PART(c11_setup)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    // every decryption-mode setup
    std::vector<std::vector<u64>> setups; { Explorer ex; E.reset(); E.tree = true; ex.run([&] { E.counter = 0; DME_DDH d(dec); std::vector<u64> v; for (auto& c : ex.path) v.push_back(c.idx); setups.push_back(v); }); }
    note("%zu decryption-mode setups", setups.size());
    for (size_t s = 0; s < setups.size(); s++) {
        if (!mine()) continue;
        E.reset(); E.tree = false;
        for (size_t k = 0; k < setups[s].size(); k++) E.override_[k] = (unsigned long)setups[s][k];
        DME_DDH d(dec);
        E.reset();
        Tup tc = tup(t, d.crs); step(); state();
        at("decryption setup #%ld (%ld,%ld,%ld,%ld)", s, tc.g0, tc.g1, tc.h0, tc.h1);
        MC_CHECK(tc.g0 >= 0 && tc.g1 >= 0 && tc.h0 >= 0 && tc.h1 >= 0, "decryption setup leaves the group");
        if (!dec_ok(t, tc)) { R.skipped++; continue; }
        MC_CHECK(is_ddh(t, tc), "decryption-mode CRS (%ldG,%ldG,%ldG,%ldG) is not a DDH tuple", tc.g0, tc.g1, tc.h0, tc.h1);
        Dist<long> k0, k1, tk; Explorer ex;
        E.tree = true;
        ex.run([&] { E.counter = 0; k0.add(pidx(t, d.KeyGen(b0).pk)); step(); });
        ex.run([&] { E.counter = 0; k1.add(pidx(t, d.KeyGen(b1).pk)); step(); });
        ex.run([&] { E.counter = 0; tk.add(pidx(t, std::get<0>(d.TrapKeyGen()))); step(); });
        MC_CHECK(k0 == k1, "CRS (%ldG,%ldG,%ldG,%ldG): keys of branch 0 (%zu values) and of branch 1 (%zu values) are distributed differently", tc.g0, tc.g1, tc.h0, tc.h1, k0.size(), k1.size());
        MC_CHECK(k0.size() == (size_t)n && k0.flat(), "public keys are not uniform over the %ld keys: %zu values", n, k0.size());
        MC_CHECK(tk == k0, "trapdoor public keys are distributed differently from ordinary ones");
        // sequences of two generations
        Dist<long> j[4];
        for (int q = 0; q < 4; q++) { Explorer e2; e2.run([&] { E.counter = 0; long a = pidx(t, d.KeyGen(B(q & 1)).pk), b = pidx(t, q & 2 ? d.KeyGen(B(q & 1 ? 0 : 1)).pk : std::get<0>(d.TrapKeyGen())); j[q].add(a * n * n + b); step(2); }); 
            MC_CHECK(j[q].size() == (size_t)(n * n) && j[q].flat() && j[q] == j[0], "two public keys of one instance are not independent (case %d)", q); }
        // the trapdoor opens both branches
        for (long b = 0; b < 2; b++) for (long m = 0; m < n; m++) {
            Explorer e3; POINT msg = t.pt(m);
            e3.run([&] {
                E.counter = 0;
                auto tr = d.TrapKeyGen();
                ctxt_t c = d.Enc(std::get<0>(tr), B(b), msg);
                POINT r = d.Dec(b ? std::get<2>(tr) : std::get<1>(tr), c); step(3);
                MC_CHECK(t.idx(r) == m, "CRS (%ldG,%ldG,%ldG,%ldG): trapdoor key of branch %ld decrypts %ldG to %s", tc.g0, tc.g1, tc.h0, tc.h1, b, m, show(r).c_str());
                outcome(cidx(t, c));
            });
        }
        E.tree = false;
        exec();
    }
    sample("every decryption-mode setup of a group of order %ld", n);
}
PART(c11_real)
{
    Real<Secp> g;
    std::vector<mpz_class> vals = {1, 2, g.n - 1, pow2(255), pow2(64), g.n / 2 + 1};
    for (int draw = -1; draw < 6; draw++) for (size_t v = 0; v < (draw < 0 ? 6 : vals.size()); v++) {
        if (!mine()) continue;
        at("real decryption mode draw %ld value #%ld", (long)draw, v);
        E.reset(50 + v); if (draw >= 0) E.override_[draw] = vals[v];
        DME_DDH d(dec);
        auto tr = d.TrapKeyGen();
        for (long b = 0; b < 2; b++) {
            auto m = g.mulG(vals[(v + b) % vals.size()]);
            ctxt_t c = d.Enc(std::get<0>(tr), B(b), g.pt(m));
            POINT r = d.Dec(b ? std::get<2>(tr) : std::get<1>(tr), c); step(2); state();
            MC_CHECK(Real<Secp>::same(r, m), "trapdoor key of branch %ld decrypts wrongly (draw %d forced to %s)", b, draw, hx(vals[v]).c_str());
            outcome(c.u.getX().getRawValue());
        }
        // both decryption exponents explain the same public key
        MC_CHECK(d.crs.g0 * std::get<1>(tr) == std::get<0>(tr).g && d.crs.h0 * std::get<1>(tr) == std::get<0>(tr).h, "first trapdoor key is not a branch-0 key");
        MC_CHECK(d.crs.g1 * std::get<2>(tr) == std::get<0>(tr).g && d.crs.h1 * std::get<2>(tr) == std::get<0>(tr).h, "second trapdoor key is not a branch-1 key");
        exec();
    }
}

// ------------------------------------------------------------------ C12
static void c12_msg(DME_DDH& d, CURVE& curve, const mpz_class& m, bool crypt, long id)
{
    mpz_class keep = m;
    POINT e = d.encode(m); step(); state();
    MC_CHECK(!e.isInf() && e.isValid(), "encoding of %s is not a finite curve point: %s", hx(m).c_str(), show(e).c_str());
    mpz_class back = d.decode(e); step();
    MC_CHECK(back == m && m == keep, "%s is encoded as %s which decodes to %s", hx(m).c_str(), show(e).c_str(), hx(back).c_str());
    outcome(e.getX().getRawValue());
    if (crypt) for (long b = 0; b < 2; b++) {
        E.reset(id * 2 + b + 1);
        keypair_t k = d.KeyGen(B(b));
        mpz_class r = d.DecDecode(k.sk, d.Enc(k.pk, B(b), m)); step(2);
        MC_CHECK(r == m, "%s encrypted on branch %ld decrypts to %s", hx(m).c_str(), b, hx(r).c_str());
    }
    exec();
}
PART(c12_toy)
{
    if (!toy_secp.on || FIELD_p(mpz_class(0)).getField() != toy_secp.p) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    E.reset(); CURVE c; DME_DDH d;
    mpz_class lim = toy_secp.p / 1024;
    MC_CHECK(lim.fits_slong_p(), "toy too large");
    for (long m = 0; m < lim.get_si(); m++) {
        at("toy message %ld", m);
        if (!mine()) continue;
        c12_msg(d, c, m, true, m);
    }
    sample("every message below %ld on the curve modulo %s", lim.get_si(), toy_secp.p.get_str().c_str());
}
static const char* hard[] = {
#include "hard_p256.inc"
};
static void c12_large()
{
    bool toy = toy_secp.on;
    if (toy && FIELD_p(mpz_class(0)).getField() != toy_secp.p) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    mpz_class p = toy ? toy_secp.p : Real<Secp>::parse(Secp::hex(0));
    mpz_class lim; mpz_fdiv_q_2exp(lim.get_mpz_t(), p.get_mpz_t(), 10);
    size_t nb = mpz_sizeinbase(lim.get_mpz_t(), 2);
    E.reset(); CURVE c; DME_DDH d;
    ZSet s;
    if (!toy) for (auto h : hard) s.add(Real<Secp>::parse(h));
    size_t nh = s.v.size();
    for (int i = 0; i < 300; i++) { s.add(i); if (i) s.add(lim - i); }
    for (size_t e = 0; e < nb; e++) for (int dd = -1; dd <= 1; dd++) { mpz_class z = pow2(e) + dd; if (z >= 0 && z < lim) s.add(z); }
    limb_patterns(s, R.thorough() ? std::vector<uint64_t>{0, 1, ~0ull, 1ull << 63, 1ull << 32, 0x5555555555555555ull} : std::vector<uint64_t>{0, 1, ~0ull, 1ull << 63}, 4, lim);
    // consecutive messages around structured bases: many different retry counts
    for (int base = 0; base < 6; base++) for (int i = 0; i < (R.thorough() ? 4000 : 250); i++) s.add(modz((pow2(40 * base) * 12345 + i), lim));
    // values that could be confused with an encoded form
    for (int i = 0; i < 64; i++) { s.add(modz(p / 2048 + i, lim)); s.add(modz(lim / 1024 + i, lim)); s.add(modz(lim - lim / 1024 - i, lim)); }
    note("message alphabet %zu (%zu with long retry runs)", s.v.size(), nh);
    for (size_t i = 0; i < s.v.size(); i++) {
        if (!mine()) continue;
        at("large message #%ld", i);
        if (s.v[i] >= lim) continue;
        c12_msg(d, c, s.v[i], i < nh || i % (toy ? 4 : 16) == 0, i);
    }
    if (nh) sample("message %s needs more than 20 candidate x-coordinates", hx(s.v[0]).c_str());
}
PART(c12_large) { c12_large(); }
// long runs of related messages on one object
PART(c12_runs)
{
    bool toy = toy_secp.on;
    if (toy && FIELD_p(mpz_class(0)).getField() != toy_secp.p) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    mpz_class p = toy ? toy_secp.p : Real<Secp>::parse(Secp::hex(0)), lim; mpz_fdiv_q_2exp(lim.get_mpz_t(), p.get_mpz_t(), 10);
    long len = R.thorough() ? 48000 : 12000; std::vector<mpz_class> base = {0, lim - 8 * len, lim / 3, pow2(64) - len / 2, pow2(100) * 77, pow2(128) - 3};
    for (size_t b = 0; b < base.size(); b++) for (int shape = 0; shape < 8; shape++) {
        if (!mine()) continue;
        DME_DDH d(messy); E.reset(b * 8 + shape);
        for (long i = 0; i < len; i++) {
            long o = shape == 0 ? i : shape == 1 ? len - i : shape == 2 ? i / 2 : shape == 3 ? i / 2 + i % 2 : shape == 4 ? 2 * i : shape == 5 ? 7 * i : shape == 6 ? (i % 2 ? i : len + i) : i / 3 + (i % 3 == 2 ? len : 0);
            mpz_class m = base[b] + o; at("base %ld shape %ld step %ld", b, (long)shape, i); if (m >= lim) continue;
            POINT e = d.encode(m); mpz_class r = d.decode(e); step(2); state();
            MC_CHECK(!e.isInf() && e.isValid(), "encoding of %s is not a finite curve point: %s", hx(m).c_str(), show(e).c_str());
            MC_CHECK(r == m, "%s is encoded as %s which decodes to %s", hx(m).c_str(), show(e).c_str(), hx(r).c_str());
        }
        exec(); outcome(b * 8 + shape);
    }
    sample("runs of %ld related messages from %zu bases", len, base.size());
}

// ------------------------------------------------------------------ C13
PART(c13_tree)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    std::vector<Tup> cs = {{2, 3, 1, n - 1}, {2, 4, 3, md(6, n)}, {1, 1, 0, 2}};
    for (size_t c = 0; c < cs.size(); c++) for (long b = 0; b < 2; b++) for (long m1 = 0; m1 < n; m1++) for (long m2 = 0; m2 < n; m2++) {
        if (!mine()) continue;
        DMHE_DDH d(mkcrs(t, cs[c]));
        E.reset(); E.tree = true; Explorer ex;
        ex.run([&] {
            E.counter = 0; at("CRS #%ld branch %ld messages %ldG %ldG", c, b, m1, m2);
            keypair_t k = d.KeyGen(B(b));
            ctxt_t x = d.Enc(k.pk, B(b), t.pt(m1)), y = d.Enc(k.pk, B(b), t.pt(m2));
            long xi = cidx(t, x), yi = cidx(t, y);
            ctxt_t z = d.Eval(x, y); step(4);
            POINT r = d.Dec(k.sk, z);
            MC_CHECK(t.idx(r) == md(m1 + m2, n), "evaluating encryptions of %ldG and %ldG on branch %ld decrypts to %s", m1, m2, b, show(r).c_str());
            MC_CHECK(cidx(t, x) == xi && cidx(t, y) == yi, "evaluation changed an input");
            outcome(cidx(t, z));
        });
        state();
    }
    E.tree = false;
}
PART(c13_pool)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    int depth = R.thorough() ? 4 : 3;
    std::vector<Tup> cs = {{2, 3, 1, n - 1}, {2, 4, 3, md(6, n)}};
    for (size_t c = 0; c < cs.size(); c++) for (long b = 0; b < 2; b++) for (long m1 = 0; m1 < n; m1++) for (long m2 = 0; m2 < n; m2++) {
        if (!mine()) continue;
        Explorer ex; E.tree = false;
        DMHE_DDH d(mkcrs(t, cs[c])), e(d.crs);
        E.reset(c * 7 + b + 1);
        keypair_t k = d.KeyGen(B(b));
        ctxt_t x = d.Enc(k.pk, B(b), t.pt(m1)), y = e.Enc(k.pk, B(b), t.pt(m2));
        ex.run([&] {
            std::vector<ctxt_t> pool = {x, y}; std::vector<long> v = {m1, m2};
            std::vector<long> ids = {cidx(t, x), cidx(t, y)};
            at("pool CRS #%ld branch %ld messages %ldG %ldG", c, b, m1, m2);
            for (int s = 0; s < depth; s++) {
                size_t i = choose(pool.size()), j = choose(pool.size());
                ctxt_t z = ((s & 1) ? d : e).Eval(pool[i], pool[j]); step();
                pool.push_back(z); v.push_back(md(v[i] + v[j], n)); ids.push_back(cidx(t, z));
                for (size_t q = 0; q < pool.size(); q++) {
                    MC_CHECK(t.idx(d.Dec(k.sk, pool[q])) == v[q], "evaluation sequence: ciphertext %zu decrypts to %s instead of %ldG", q, show(d.Dec(k.sk, pool[q])).c_str(), v[q]);
                    MC_CHECK(cidx(t, pool[q]) == ids[q], "evaluation sequence changed ciphertext %zu", q);
                }
            }
            // accumulating into one of the inputs
            ctxt_t acc = pool[0]; acc = d.Eval(acc, pool[1]); acc = d.Eval(pool.back(), acc); acc = d.Eval(acc, acc); step(3);
            MC_CHECK(t.idx(d.Dec(k.sk, acc)) == md(2 * (v[0] + v[1] + v.back()), n), "accumulating evaluation wrong");
            state();
        });
    }
    sample("all evaluation sequences of length %d over two base ciphertexts, self-evaluation included", depth);
}
PART(c13_real)
{
    Real<Secp> g;
    std::vector<Real<Secp>::XY> ms = {{true, 0, 0}, g.mulG(1), g.mulG(g.n - 1), g.mulG(2), g.mulG(pow2(200) + 12345)};
    for (int mode = 0; mode < 2; mode++) for (size_t i = 0; i < ms.size(); i++) for (size_t j = 0; j < ms.size(); j++) {
        if (!mine()) continue;
        at("real evaluation mode %ld messages #%ld #%ld", (long)mode, i, j);
        E.reset(i * 5 + j + 1);
        DMHE_DDH d(mode ? dec : messy);
        long b = (i + j) & 1;
        keypair_t k = d.KeyGen(B(b));
        ctxt_t x = d.Enc(k.pk, B(b), g.pt(ms[i])), y = d.Enc(k.pk, B(b), g.pt(ms[j]));
        auto want = g.add(ms[i], ms[j]);
        POINT r = d.Dec(k.sk, d.Eval(x, y)), r2 = d.Dec(k.sk, d.Eval(d.Eval(x, y), d.Eval(x, x))); step(4); state();
        MC_CHECK(Real<Secp>::same(r, want), "evaluation of #%zu and #%zu decrypts to %s", i, j, show(r).c_str());
        MC_CHECK(Real<Secp>::same(r2, g.add(want, g.add(ms[i], ms[i]))), "nested evaluation of #%zu and #%zu wrong", i, j);
        outcome(x.u.getX().getRawValue()); exec();
    }
    // integer messages: the sum of the encodings
}
