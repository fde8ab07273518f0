// Long histories on one object with the exact distributions of its next results taken again and again: what a
// counter, a table or a pool inside an object makes predictable after many calls shows as a distribution that is
// not the one the first calls have.
#include "grp.hpp"
#include "alpha.hpp"
#include "ecref.hpp"
#include "dmeutil.hpp"
#include "ot.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
using namespace mc;
using namespace dme;
static branch_t B(long b) { return b ? b1 : b0; }
static std::string ps(const POINT& p) { return p.isInf() ? "inf" : p.getX().getRawValue().get_str(36) + "," + p.getY().getRawValue().get_str(36); }
template <class K, class F> static Dist<K> all(F f) { Dist<K> d; Explorer ex; E.counter = 0; E.tree = true; ex.run([&] { E.counter = 0; d.add(f()); step(); }); E.tree = false; exec(); return d; }

// ------------------------------------------------------------------ C10
PART(c10_hist)
{
    if (!TS::require()) return;
    TS t; long n = t.n, rounds = (R.thorough() ? 3000 : 500);
    const Tup crs[] = {{2, 3, 2, 1}, {1, 1, 0, 2}, {1, 2, 3, 1}, {4, 1, 1, 4}};
    for (int how = 0; how < 8; how++) {
        if (!mine()) continue;
        Tup tc = crs[how % 4]; if (!messy_ok(t, tc)) { R.skipped++; continue; }
        E.reset(how + 1); DME_DDH d(mkcrs(t, tc)), d2(d);
        for (long i = 0; i < rounds; i++) {
            long b = how < 4 ? i & 1 : i / 3 & 1, key = 1 + i % (n - 1); at("encryption history %ld round %ld", (long)how, i);
            E.reset(i * 8 + how + 1); E.override_[0] = key; keypair_t k = d.KeyGen(B(b)); E.override_.clear(); const DME_DDH& e = how < 4 || i % 4 ? d : d2;
            if (k.sk.getRawValue() == 0) continue;
            Dist<long> ds[2]; for (int q = 0; q < 2; q++) ds[q] = all<long>([&] { return cidx(t, e.Enc(k.pk, B(1 - b), t.pt(i + q * (1 + i % (n - 1))))); });
            MC_CHECK(ds[0].size() == (size_t)(n * n) && ds[0].flat(), "after %ld encryptions by one scheme, those on the messy branch take %zu of %ld values%s", i * 2 * n * n, ds[0].size(), n * n, ds[0].flat() ? "" : ", not equally likely");
            MC_CHECK(ds[1] == ds[0], "after %ld encryptions by one scheme, those on the messy branch depend on the message", i * 2 * n * n);
            state(); outcome(tc.h0 * 1000 + i);
        }
    }
    sample("%ld distributions of messy-branch encryptions by one scheme, one after the other", rounds * 2);
}
PART(c10_long)
{
    if (toy_secp.on) return;
    for (int how = 0; how < 8; how++) {
        if (!mine()) continue;
        E.reset(how + 70); std::vector<std::unique_ptr<DME_DDH>> keep; std::set<std::string> seen; long N = 130 * (R.thorough() ? 8 : 1);
        for (long i = 0; i < N; i++) {
            at("messy set-up %ld of history %ld", i, (long)how); std::unique_ptr<DME_DDH> d(new DME_DDH(messy)); step();
            for (const POINT* p : {&d->crs.g0, &d->crs.g1, &d->crs.h0, &d->crs.h1}) MC_CHECK(!p->isInf() && p->isValid() && seen.insert(ps(*p)).second, "messy set-up %ld repeats a point of an earlier one", i);
            for (long b = 0; b < 2; b++) { keypair_t k = d->KeyGen(B(b)); MC_CHECK(d->FindMessy(k.pk) == B(1 - b), "messy set-up %ld: the trapdoor names branch %ld for a key of that branch", i, b); step(2); }
            if (how & 1) { if (keep.size() > 20) keep.erase(keep.begin() + i % 20); keep.push_back(std::move(d)); DME_DDH& o = *keep[i * 7 % keep.size()]; keypair_t k = o.KeyGen(B(i & 1)); MC_CHECK(o.FindMessy(k.pk) == B(1 - (i & 1)), "after messy set-up %ld the trapdoor of an earlier one fails", i); step(2); }
        }
        // and many keys under one
        DME_DDH d(messy); for (long i = 0; i < N * 3; i++) { at("key %ld of history %ld", i, (long)how); long b = i * i / 3 & 1; keypair_t k = d.KeyGen(B(b)); MC_CHECK(d.FindMessy(k.pk) == B(1 - b), "key %ld of one messy set-up: the trapdoor names its own branch %ld", i, b); MC_CHECK(seen.insert(ps(k.pk.g)).second && seen.insert(ps(k.pk.h)).second, "key %ld repeats a point", i); step(2); }
        state(); exec(); outcome(how);
    }
    sample("histories of 130 messy set-ups and 390 keys on the standard curve");
}
// ------------------------------------------------------------------ C11
PART(c11_hist)
{
    if (!TS::require()) return;
    TS t; long n = t.n, rounds = R.thorough() ? 12000 : 2000;
    for (int how = 0; how < 6; how++) {
        if (!mine()) continue;
        E.reset(how + 3); DME_DDH d(dec); while (!dec_ok(t, tup(t, d.crs))) d = DME_DDH(dec);
        for (long i = 0; i < rounds; i++) {
            at("key history %ld round %ld", (long)how, i);
            auto k0 = all<long>([&] { return pidx(t, d.KeyGen(b0).pk); }), k1 = all<long>([&] { return pidx(t, d.KeyGen(b1).pk); }), tk = all<long>([&] { return pidx(t, std::get<0>(d.TrapKeyGen())); });
            MC_CHECK(k0.size() == (size_t)n && k0.flat(), "after %ld key generations, keys of branch 0 take %zu of %ld values%s", i * 2 * n, k0.size(), n, k0.flat() ? "" : ", not equally likely");
            MC_CHECK(k0 == k1, "after %ld key generations, keys of branch 0 and of branch 1 are distributed differently", i * 2 * n); MC_CHECK(tk == k0, "after %ld trapdoor key generations, their keys are distributed differently", i * n);
            E.reset(i * 6 + how + 1); auto tr = d.TrapKeyGen();
            for (long b = 0; b < 2; b++) for (long m = 0; m < 2; m++) { POINT r = d.Dec(b ? std::get<2>(tr) : std::get<1>(tr), d.Enc(std::get<0>(tr), B(b), t.pt(i + m))); MC_CHECK(t.idx(r) == md(i + m, n), "after %ld trapdoor keys: the key of branch %ld decrypts to %s", i * (n + 1), b, show(r).c_str()); step(2); }
            state();
        }
        outcome(how);
    }
    sample("%ld distributions of the keys of one decryption-mode set-up, one after the other", rounds * 3);
}
PART(c11_long)
{
    if (toy_secp.on) return;
    for (int how = 0; how < 8; how++) {
        if (!mine()) continue;
        E.reset(how + 90); std::set<std::string> seen; std::vector<std::unique_ptr<DME_DDH>> keep; long N = 130 * (R.thorough() ? 8 : 1);
        auto opens = [&](DME_DDH& d, long i) { auto tr = d.TrapKeyGen(); const pkey_t& pk = std::get<0>(tr); step(5); MC_CHECK(d.crs.g0 * std::get<1>(tr) == pk.g && d.crs.h0 * std::get<1>(tr) == pk.h, "trapdoor key %ld: the first secret key is no branch-0 key", i); MC_CHECK(d.crs.g1 * std::get<2>(tr) == pk.g && d.crs.h1 * std::get<2>(tr) == pk.h, "trapdoor key %ld: the second secret key is no branch-1 key", i); MC_CHECK(seen.insert(ps(pk.g)).second, "trapdoor key %ld repeats a key", i); };
        if (how < 4) for (long i = 0; i < N; i++) {
            at("decryption set-up %ld of history %ld", i, (long)how); std::unique_ptr<DME_DDH> d(new DME_DDH(dec)); step();
            for (const POINT* p : {&d->crs.g0, &d->crs.g1, &d->crs.h0, &d->crs.h1}) MC_CHECK(!p->isInf() && p->isValid() && seen.insert(ps(*p)).second, "decryption set-up %ld repeats a point of an earlier one", i);
            opens(*d, i); if (how & 1) { if (keep.size() > 20) keep.erase(keep.begin() + i % 20); keep.push_back(std::move(d)); opens(*keep[i * 7 % keep.size()], i); }
        } else { DME_DDH d(dec); for (long i = 0; i < N * 2; i++) { at("trapdoor key %ld of history %ld", i, (long)how); opens(d, i); keypair_t k = d.KeyGen(B(i & 1)); step(); MC_CHECK(seen.insert(ps(k.pk.g)).second && seen.insert(ps(k.pk.h)).second, "key %ld repeats a point", i); } }
        state(); exec(); outcome(how);
    }
    sample("histories of 130 decryption set-ups and 260 trapdoor keys on the standard curve");
}
// ------------------------------------------------------------------ C15
PART(c15_hist)
{
    if (!TS::require()) return;
    TS t; long n = t.n, N2 = n * n; auto vidx = [&](const ot::ctxt_v_t& v) { long a = cidx(t, v[0]), b = cidx(t, v[1]); return a < 0 || b < 0 ? -1 : a * N2 + b; };
    const Tup cd[] = {{1, 2, 3, 1}, {2, 3, 2, 3}, {1, 1, 4, 4}}, cm[] = {{2, 3, 2, 1}, {1, 1, 0, 2}, {4, 1, 1, 4}};
    for (int how = 0; how < 6; how++) {
        if (!mine()) continue;
        if (how < 3) {
            if (!is_ddh(t, cd[how])) { R.skipped++; continue; }
            ot::OTrecv r(mkcrs(t, cd[how]));
            for (long i = 0; i < (R.thorough() ? 12000 : 2000); i++) { at("choice history %ld round %ld", (long)how, i); Dist<long> d[2]; for (int b = 0; b < 2; b++) d[b] = all<long>([&] { return pidx(t, r.selectMsg(B(b))); }); MC_CHECK(d[0] == d[1] && d[0].size() == (size_t)n, "after %ld selections of one receiver, its messages for the two choices are distributed differently", i * 2 * n); state(); }
        } else {
            if (!messy_ok(t, cm[how - 3])) { R.skipped++; continue; }
            ot::OTrecv r(mkcrs(t, cm[how - 3])); ot::OTsndr s(mkcrs(t, cm[how - 3]));
            for (long i = 0; i < (R.thorough() ? 200 : 24); i++) {
                at("transfer history %ld round %ld", (long)how, i); long b = i & 1; E.reset(i + 1); E.override_[0] = 1 + i % (n - 1); pkey_t pk = r.selectMsg(B(b)); E.override_.clear(); Dist<long> d0;
                for (long mu = 0; mu < 3; mu++) { auto d = all<long>([&] { return vidx(s.encMsgs(pk, t.pt(b ? mu * 2 : i), t.pt(b ? i : mu * 2))); }); if (mu == 0) d0 = d; else MC_CHECK(d == d0, "after %ld transfers of one sender, the ciphertexts depend on the message that was not chosen", (i * 3 + mu) * N2 * N2); state(); }
            }
        }
        outcome(how);
    }
    sample("distributions of the messages of one receiver and of one sender, one after the other");
}
PART(c15_long)
{
    if (!EcRef::ok<FIELD_p>()) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    for (int how = 0; how < 8; how++) {
        if (!mine()) continue;
        E.reset(how + 1); DME_DDH d(how & 1 ? messy : dec); ot::OTrecv r(d.crs), r2(d.crs); ot::OTsndr s(d.crs), s2(d.crs); std::set<std::string> seen; POINT m = d.crs.g0 + d.crs.g1, m1 = d.crs.h0; CURVE cv;
        for (long i = 0; i < 1200 * (R.thorough() ? 8 : 1); i++) {
            at("transfer %ld of history %ld", i, (long)how); long b = how < 4 ? i / 3 & 1 : i * i / 5 & 1; ot::OTrecv& rv = how & 2 && i % 3 == 1 ? r2 : r; ot::OTsndr& sd = how & 4 && i % 3 == 2 ? s2 : s;
            pkey_t pk = rv.selectMsg(B(b)); MC_CHECK(seen.insert(ps(pk.g)).second && seen.insert(ps(pk.h)).second, "selection %ld repeats a point of an earlier one", i);
            ot::ctxt_v_t c = sd.encMsgs(pk, m, how & 2 ? m : m1); for (auto& z : c) MC_CHECK(seen.insert(ps(z.u)).second && seen.insert(ps(z.mv)).second, "transfer %ld repeats a point of an earlier one", i);
            MC_CHECK(rv.decryptMsg(c) == (b && !(how & 2) ? m1 : m), "transfer %ld with choice %ld yields another message", i, b); step(3);
            // with messy strings the ciphertext that was not chosen is masked by a point of its own
            if (how & 1) { const dme::ctxt_t& o = c[1 - b]; POINT masked = o.mv - (1 - b && !(how & 2) ? m1 : m); MC_CHECK(seen.insert(ps(masked)).second && !masked.isInf(), "transfer %ld masks the message that was not chosen with a point used before", i); }
        }
        state(); exec(); outcome(how);
    }
    sample("histories of 1200 transfers: no point is sent twice");
}
// ------------------------------------------------------------------ C27
PART(c27_hist)
{
    if (!TS::require()) return;
    TS t; long q = t.n; using namespace sss;
    for (int how = 0; how < 4; how++) {
        if (!mine()) continue;
        ShamirSS o; size_t th = how < 2 ? 2 : 3, n = th + how % 2; long per = th == 2 ? q : q * q;
        for (long i = 0; i < (R.thorough() ? 24000 : 4000); i++) {
            at("sharing history %ld round %ld", (long)how, i); Dist<long> d[2];
            for (int k = 0; k < 2; k++) d[k] = all<long>([&] { share_v_t v = o.getShares(th, n, FIELD(md(k * (1 + i % (q - 1)), q))); long key = 0; for (size_t j = 0; j + 1 < th; j++) key = key * q + v[(j + i) % n].val.getRawValue().get_si(); return key; });
            MC_CHECK(d[0].size() == (size_t)per && d[0].flat(), "after %ld sharings (%zu,%zu), fewer than the threshold of shares take %zu of %ld values%s", i * 2 * per, th, n, d[0].size(), per, d[0].flat() ? "" : ", not equally likely");
            MC_CHECK(d[0] == d[1], "after %ld sharings (%zu,%zu), fewer than the threshold of shares depend on the secret", i * 2 * per, th, n); state();
        }
        outcome(how);
    }
    sample("distributions of the shares of one dealer, one after the other");
}
PART(c27_long)
{
    if (toy_secp.on) return;
    using namespace sss; mpz_class q = FIELD(mpz_class(0)).getField();
    for (int how = 0; how < 8; how++) {
        if (!mine()) continue;
        E.reset(how + 5); ShamirSS o, o2; std::set<mpz_class> seen; size_t fixed = how < 4 ? how + 2 : 0;
        for (long i = 0; i < 12000 * (R.thorough() ? 8 : 1); i++) {
            at("sharing %ld of history %ld", i, (long)how); size_t th = fixed ? fixed : 2 + i % 6, n = th + i % 3; mpz_class s = how & 1 ? mpz_class(7) : modz(pow2(i % 250) + i, q);
            share_v_t v = (how & 2 && i % 3 == 1 ? o2 : o).getShares(th, n, FIELD(s)); step(); MC_CHECK(v.size() == n, "sharing %ld has %zu shares", i, v.size());
            // coefficients by divided differences, starting at the secret
            std::vector<mpz_class> x{0}, y{s}; for (size_t j = 0; j + 1 < th; j++) { x.push_back(v[j].idx.getRawValue()); y.push_back(v[j].val.getRawValue()); }
            for (size_t l = 1; l < th; l++) { for (size_t j = th - 1; j >= l; j--) y[j] = modz((y[j] - y[j - 1]) * invz(modz(x[j] - x[j - l], q), q), q); }
            for (size_t l = 1; l < th; l++) MC_CHECK(y[l] != 0 && seen.insert(y[l]).second, "sharing %ld (%zu,%zu): difference %zu of the shares is %s, as in an earlier sharing or zero", i, th, n, l, hxz(y[l]).c_str());
            for (auto& z : v) MC_CHECK(z.val.getRawValue() != s && seen.insert(z.val.getRawValue()).second, "sharing %ld (%zu,%zu) repeats a share", i, th, n);
        }
        state(); exec(); outcome(how);
    }
    sample("histories of 12000 sharings: no share and no difference of shares repeats");
}
// ------------------------------------------------------------------ C25, C34
static void puda_history(bool hiding)
{
    if (!TS::require()) return;
    TS t; using namespace puda; long n = t.n;
    for (int how = 0; how < 8; how++) {
        if (!mine()) continue;
        E.reset(how + 2); Puda p; size_t u = 1 + how % 4; auto k = p.Setup(u);
        for (long i = 0; i < (hiding ? 60 : 3000) * (R.thorough() ? 6 : 1); i++) {
            int tm = (int)(how < 4 ? i + 1 : 1 + i % 7 * 13); at("history %ld period %ld round %ld", (long)how, (long)tm, i);
            if (how & 1 && i % 37 == 36) k = p.Setup(u);
            long h = t.idx(p.Tag(sk_t(mpz_class(0), tk_t(mpz_class(1))), 0, tm)); step(); if (h < 0) fail("a tag is not in the group"); if (h == 0) { R.skipped++; continue; }
            if (!hiding) {
                POINT1 sum; long ms = 0, tks = 0; const mpz_class& a = std::get<1>(k)[0].a;
                for (size_t j = 0; j < u; j++) { long m = (i * 7 + j * 11) % 5000; ms += m; tks += std::get<1>(k)[j].tk.getRawValue().get_si(); sum += p.Tag(std::get<1>(k)[j], m, tm); step(); }
                long w = md(h * tks + md(modz(a, mpz_class(n)).get_si(), n) * md(ms, n), n); MC_CHECK(t.idx(sum) == w, "round %ld, period %d: the combined tag of %zu users is %s, not the tag of their sum", i, tm, u, show(sum).c_str());
                MC_CHECK(p.Verify(std::get<3>(k), ms, sum, tm), "round %ld: verification rejects an honest aggregate", i); state();
            } else {
                std::set<long> c, g; long m = i * 31 % 65536;
                for (long e = 0; e < n; e++) { c.insert(t.idx(p.Enc(ek_t(mpz_class(e)), m, tm))); g.insert(t.idx(p.Tag(sk_t(std::get<1>(k)[0].a, tk_t(mpz_class(e))), m, tm))); step(2); }
                MC_CHECK(c.size() == (size_t)n && !c.count(-1), "round %ld, period %d: over all keys the encryptions of %ld take only %zu of %ld values", i, tm, m, c.size(), n);
                MC_CHECK(g.size() == (size_t)n && !g.count(-1), "round %ld, period %d: over all keys the tags of %ld take only %zu of %ld values", i, tm, m, g.size(), n); state();
            }
        }
        outcome(how); exec();
    }
    sample("histories of periods and set-ups on one object");
}
PART(c25_hist) { puda_history(false); }
PART(c34_hist) { puda_history(true); }
