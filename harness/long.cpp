// Long histories: thousands of calls on the same objects, operands cycling with every period of an alphabet, so that
// what only goes wrong after many calls, or when a table of earlier values is full, shows. One part per property.
#include "grp.hpp"
#include "alpha.hpp"
#include "ecref.hpp"
#include "dmeutil.hpp"
#include "dot.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include "elgamal.hpp"
#include "opprf.hpp"
using namespace mc;
using namespace dme;
static const int PERIODS[] = {1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257};
static branch_t B(long b) { return b ? b1 : b0; }
// index of step i in a history with period `per`: plain cycle, or cycle with every third step revisiting the first operand
static long idx_(long i, long per, int shape) { return (shape && i % 3 == 2 ? i / 3 % 2 : i) % per; }
#define HISTORIES(len) for (int per : PERIODS) for (int shape = 0; shape < 2; shape++) for (long LEN = (len) * (R.thorough() ? 8 : 1), once = 1; once; once = 0) if (mine())

// ------------------------------------------------------------------ fields
template <class F> static void field_history(bool division)
{
    mpz_class p = F(mpz_class(0)).getField(); ZSet ops; for (auto& z : residues(p, 1)) ops.add(z); size_t N = ops.v.size();
    HISTORIES(division ? 3000 : 20000) {
        at("field history period %ld shape %ld", (long)per, (long)shape);
        mpz_class a = modz(mpz_class("123456789abcdef123456789abcdef123456789", 16), p); F x(a), keep(a);
        for (long i = 0; i < LEN; i++) {
            mpz_class b = ops.v[(idx_(i, per, shape) * 7 + per) % N]; F y(b); mpz_class w;
            if (division) {
                if (b == 0) continue;
                switch (i % 3) { case 0: w = modz(a * invz(b, p), p); x = x / y; break; case 1: w = modz(a * invz(b, p), p); x /= y; break; case 2: { F z = y.invert(); w = invz(b, p); MC_CHECK(z.getRawValue() == w, "step %ld of a history with period %d: the inverse of %s is %s", i, per, hxz(b).c_str(), hxz(z.getRawValue()).c_str()); w = modz(a + w, p); x += z; break; } }
                if (w == 0) { w = 1; x = F(w); }
            } else switch (i % 5) { case 0: w = modz(a * b, p); x = x * y; break; case 1: w = modz(a + b, p); x += y; break; case 2: w = modz(a - b, p); x = x - y; break; case 3: w = modz(b - a, p); x = y - x; break; case 4: w = modz(a * b + a, p); x = x * y + x; break; }
            MC_CHECK(x.getRawValue() == w, "step %ld of a history with period %d: %s and %s give %s", i, per, hxz(a).c_str(), hxz(b).c_str(), hxz(x.getRawValue()).c_str());
            a = w; step();
        }
        MC_CHECK(keep.getRawValue() == modz(mpz_class("123456789abcdef123456789abcdef123456789", 16), p), "an element that was not used changed"); state(); exec(); outcome(a);
    }
}
PART(c01_long) { if (toy_secp.on) return; field_history<Secp::Fp>(false); field_history<Secp::Fn>(false); field_history<Bn::Fp>(false); field_history<Bn::Fn>(false); sample("histories of 20000 operations with 17 periods"); }
PART(c02_long) { if (toy_secp.on) return; field_history<Secp::Fp>(true); field_history<Secp::Fn>(true); field_history<Bn::Fp>(true); field_history<Bn::Fn>(true); sample("histories of 3000 divisions with 17 periods"); }

// ------------------------------------------------------------------ group
template <class T> static void group_history(int what)
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    Toy<T> t; typedef typename T::P P;
    HISTORIES(what == 1 ? 400 : 3000) {
        at("group history period %ld shape %ld", (long)per, (long)shape); P x = t.pt(1); long a = 1;
        for (long i = 0; i < LEN; i++) {
            long k = md(idx_(i, per, shape) * 7 + per, t.n), w = 0; P y = t.pt(k);
            if (what == 0) switch (i % 5) { case 0: x = x + y; w = a + k; break; case 1: x += y; w = a + k; break; case 2: x = x - y; w = a - k; break; case 3: x -= y; w = a - k; break; case 4: x = x.pointDouble(); w = 2 * a; break; }
            else if (what == 1) { long f = idx_(i, per, shape) * 31 + 2; if (i % 2) { x = y * mpz_class(f); w = k * f; } else { x = x * typename T::Fn(Z(f)); w = a * f; } }
            else {      // compression and curve equation
                if (k == 0) continue;
                MC_CHECK(y.isValid(), "step %ld: a point of the curve is not valid", i);
                P z = t.pt(1); z.setEncodedX(y.getEncodedX()); MC_CHECK(t.idx(z) == k, "step %ld of a history with period %d: the compressed form of %s is read as %s", i, per, show(y).c_str(), show(z).c_str());
                P bad(Z(t.pts[k].first), Z(md(t.pts[k].second + 1, t.p)), t.curve); MC_CHECK(bad.isValid() == (t.id.count(t.key(t.pts[k].first, md(t.pts[k].second + 1, t.p))) != 0), "step %ld: validity of %s", i, show(bad).c_str());
                w = a;
            }
            a = md(w, t.n); MC_CHECK(t.idx(x) == a, "step %ld of a history with period %d: %s instead of %ldG", i, per, show(x).c_str(), a); step();
            if (what == 1 && a == 0) { x = t.pt(1); a = 1; }
        }
        state(); exec(); outcome(a);
    }
}
PART(c03_long) { group_history<Secp>(0); group_history<Bn>(0); sample("histories of 3000 additions with 17 periods"); }
PART(c04_long) { group_history<Secp>(1); group_history<Bn>(1); sample("histories of 400 multiplications with 17 periods"); }
PART(c05_long) { group_history<Secp>(2); group_history<Bn>(2); sample("histories of 3000 membership tests with 17 periods"); }
PART(c06_long) { group_history<Secp>(2); group_history<Bn>(2); sample("histories of 3000 compressions with 17 periods"); }
// standard curves: a walk over all operations
template <class T> static void walk(int what)
{
    Real<T> g; typedef typename T::P P; typedef typename Real<T>::XY XY;
    for (int per : PERIODS) {
        if (!mine()) continue;
        std::vector<XY> q; std::vector<P> l; for (int i = 0; i < per; i++) { q.push_back(g.mulG(mpz_class(i * 1001 + per))); l.push_back(g.pt(q[i])); }
        XY a = q[0]; P x = l[0]; long len = (what == 1 ? 150 : 600) * (R.thorough() ? 8 : 1);
        for (long i = 0; i < len; i++) {
            at("walk with period %ld step %ld", (long)per, i); int k = i % per;
            if (what == 0) { if (i % 3 == 2) { a = g.add(a, g.neg(q[k])); x -= l[k]; } else { a = g.add(a, q[k]); if (i % 3) x += l[k]; else x = x + l[k]; } }
            else if (what == 1) { mpz_class f = modz(mpz_class(k + 3) * (g.n / 7), g.n); a = g.mul(q[k], f); x = l[k] * f; }
            else { P z = l[0]; z.setEncodedX(l[k].getEncodedX()); MC_CHECK(g.same(z, q[k]) && l[k].isValid(), "walk with period %d, step %ld: compression of %s", per, i, g.show(q[k]).c_str()); }
            MC_CHECK(g.same(x, a), "walk with period %d, step %ld: %s instead of %s", per, i, show(x).c_str(), g.show(a).c_str()); step();
        }
        state(); exec(); outcome(a.x);
    }
}
PART(c03_walk) { if (toy_secp.on) return; walk<Secp>(0); walk<Bn>(0); }
PART(c04_walk) { if (toy_secp.on) return; walk<Secp>(1); walk<Bn>(1); }
PART(c06_walk) { if (toy_secp.on) return; walk<Secp>(2); walk<Bn>(2); }

// ------------------------------------------------------------------ dual-mode encryption
PART(c09_long)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    for (int how = 0; how < 4; how++) HISTORIES(900) {
        at("scheme %ld period %ld shape %ld", (long)how, (long)per, (long)shape); E.reset(per * 8 + how * 2 + shape + 1);
        std::unique_ptr<DME_DDH> d(how == 0 ? new DME_DDH(messy) : how == 1 ? new DME_DDH(dec) : how == 2 ? new DME_DDH() : new DME_DDH(mkcrs(t, {2, 3, 7, 11})));
        struct Old { keypair_t k; ctxt_t c; long m; }; std::vector<Old> old; std::vector<keypair_t> keys; std::vector<long> kb;
        for (int i = 0; i < per; i++) { kb.push_back(i * i / 3 & 1); keys.push_back(d->KeyGen(B(kb[i]))); }
        for (long i = 0; i < LEN / (per == 1 ? 1 : 1); i++) {
            long k = idx_(i, per, shape), m = md(k * 5 + i / 7, n);
            if (i % 11 == 10) { keys[k] = d->KeyGen(B(kb[k])); step(); }
            ctxt_t c = d->Enc(keys[k].pk, B(kb[k]), t.pt(m)); POINT r = d->Dec(keys[k].sk, c); step(2);
            MC_CHECK(t.idx(r) == m, "call %ld with %d keys: %ldG decrypts to %s", i, per, m, show(r).c_str());
            if (i % 5 == 0) old.push_back({keys[k], c, m});
            if (!old.empty()) { Old& o = old[i * 7 % old.size()]; POINT z = d->Dec(o.k.sk, o.c); step(); MC_CHECK(t.idx(z) == o.m, "call %ld with %d keys: an earlier ciphertext of %ldG decrypts to %s", i, per, o.m, show(z).c_str()); }
        }
        state(); exec(); outcome(old.size());
    }
    sample("histories of 900 encryptions with up to 257 keys, in every mode");
}
PART(c12_long)
{
    FIELD_p probe(mpz_class(0)); mpz_class lim = probe.getField() >> 10; E.reset(3); DME_DDH d;
    HISTORIES(300) {
        at("messages of period %ld shape %ld", (long)per, (long)shape); ZSet ms; for (int i = 0; i < per; i++) ms.add(modz(pow2(i * 3 % 250) * (2 * i + 1) + i, lim));
        for (long i = 0; i < LEN; i++) { const mpz_class& m = ms.v[idx_(i, per, shape) % ms.v.size()]; POINT p = d.encode(m); MC_CHECK(!p.isInf() && p.isValid(), "call %ld: encoding of %s is not a finite point", i, hxz(m).c_str()); MC_CHECK(d.decode(p) == m, "call %ld: %s is decoded as %s", i, hxz(m).c_str(), hxz(d.decode(p)).c_str()); step(2); }
        state(); exec(); outcome(ms.v.back());
    }
    sample("histories of 300 encodings with up to 257 messages");
}
PART(c13_long)
{
    if (!TS::require()) return;
    TS t; long n = t.n; crs_ddh_t crs = mkcrs(t, {2, 3, 7, 11});
    HISTORIES(600) for (int b = 0; b < 2; b++) {
        at("sums with period %ld shape %ld branch %ld", (long)per, (long)shape, (long)b); E.reset(per * 4 + shape * 2 + b + 1); DMHE_DDH d(crs); keypair_t k = d.KeyGen(B(b));
        std::vector<ctxt_t> cs; std::vector<long> ms; for (int i = 0; i < per; i++) { ms.push_back(md(i * 7 + 2, n)); cs.push_back(d.Enc(k.pk, B(b), t.pt(ms[i]))); }
        ctxt_t acc = cs[0]; long sum = ms[0];
        for (long i = 0; i < LEN; i++) { long j = idx_(i, per, shape); acc = i % 2 ? d.Eval(acc, cs[j]) : d.Eval(cs[j], acc); sum = md(sum + ms[j], n); POINT r = d.Dec(k.sk, acc); step(2); MC_CHECK(t.idx(r) == sum, "after %ld evaluations over %d ciphertexts the sum %ldG decrypts to %s", i + 1, per, sum, show(r).c_str()); POINT q = d.Dec(k.sk, cs[j]); MC_CHECK(t.idx(q) == ms[j], "evaluation changed an operand"); }
        state(); exec(); outcome(sum);
    }
    sample("600 evaluations over up to 257 ciphertexts");
}

// ------------------------------------------------------------------ transfers
PART(c14_long)
{
    if (!TS::require()) return;
    TS t; long n = t.n; bool ints = t.p > 1000000;
    HISTORIES(500) {
        at("transfers period %ld shape %ld", (long)per, (long)shape); E.reset(per * 2 + shape + 1); DME_DDH d(shape ? messy : dec); ot::OTrecv r(d.crs), r2(d.crs); ot::OTsndr s(d.crs);
        for (long i = 0; i < LEN; i++) {
            long j = idx_(i, per, shape), b = j * j / 3 & 1; ot::OTrecv& rv = i % 7 == 6 ? r2 : r; pkey_t pk = rv.selectMsg(B(b)); MC_CHECK(rv.getBranch() == B(b), "call %ld: the receiver reports another choice than %ld", i, b);
            for (int k = 0; k < 1 + i % 3; k++) { long m0 = md(j * 3 + k, n), m1 = md(j + 5 * i + k, n); ot::ctxt_v_t c = s.encMsgs(pk, t.pt(m0), t.pt(m1)); POINT z = rv.decryptMsg(c); step(2); MC_CHECK(t.idx(z) == (b ? m1 : m0), "transfer %ld with choice %ld of (%ldG, %ldG) yields %s", i, b, m0, m1, show(z).c_str()); }
            step();
        }
        state(); exec(); outcome(per);
    }
    sample("histories of 500 selections with one to three transfers each"); (void)ints;
}
PART(c14_longint)
{
    if (!EcRef::ok<FIELD_p>()) return;
    HISTORIES(120) {
        at("integer transfers period %ld shape %ld", (long)per, (long)shape); E.reset(per * 2 + shape + 1); DME_DDH d(shape ? messy : dec); ot::OTrecv r(d.crs); ot::OTsndr s(d.crs);
        for (long i = 0; i < LEN; i++) {
            long j = idx_(i, per, shape), b = j * j / 3 & 1; pkey_t pk = r.selectMsg(B(b)); mpz_class m0 = pow2(j % 170) + i, m1 = pow2((j * 7 + 3) % 170) - 1;
            mpz_class z = r.decryptMsgDecode(s.encMsgs(pk, m0, m1)); step(3); MC_CHECK(z == (b ? m1 : m0), "transfer %ld with choice %ld of %s, %s yields %s", i, b, hxz(m0).c_str(), hxz(m1).c_str(), hxz(z).c_str());
        }
        state(); exec(); outcome(per);
    }
    sample("histories of 120 transfers of integers");
}
PART(c16_long)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    HISTORIES(160) {
        at("batches period %ld shape %ld", (long)per, (long)shape); E.reset(per * 2 + shape + 1); DME_DDH d(shape ? messy : dec); ot::DOTrecv r(d.crs); ot::DOTsndr s(d.crs), s2(d.crs); ot::DOTprxy p(d.crs);
        for (long i = 0; i < LEN; i++) {
            long j = idx_(i, per, shape), b = j & 1, k = 1 + j % 6, sum = 0; pkey_t pk = r.selectMsg(B(b)); std::vector<ot::ctxt_v_t> in;
            for (long q = 0; q < k; q++) { long m0 = md(j + q * 3, n), m1 = md(j * 5 + q + i, n); in.push_back((q & 1 ? s2 : s).encMsgs(pk, t.pt(m0), t.pt(m1))); sum += b ? m1 : m0; }
            POINT z = r.decryptMsg(p.aggregate(in)); step(k + 3); MC_CHECK(t.idx(z) == md(sum, n), "batch %ld of %ld transfers with choice %ld sums to %s instead of %ldG", i, k, b, show(z).c_str(), md(sum, n));
        }
        state(); exec(); outcome(per);
    }
    sample("histories of 160 batches on one proxy");
}

// ------------------------------------------------------------------ OPPRF: one pair of parties, many sessions
static void sessions(const std::function<void(long, long, long, opprf::OPPRFserver&, opprf::OPPRFclient&, const EcRef&, const EcRef::Q&)>& check, long len)
{
    static const long top = (1l << MSG_BITS) - 1; EcRef e;
    for (int per : {1, 3, 7, 17, 40}) for (long th : {0l, top / 2, top - 1, top}) {
        if (!mine()) continue;
        E.reset(per + th * 50 + 1); DME_DDH d(th & 1 ? messy : dec); CURVE cv; std::vector<POINT> S; std::vector<EcRef::Q> sq; for (int i = 0; i < 3; i++) { S.push_back(cv.getRandomPoint()); sq.push_back(EcRef::from(S[i])); }
        opprf::OPPRFserver s(th, d.crs); opprf::OPPRFclient c(d.crs);
        for (long i = 0; i < len * (R.thorough() ? 6 : 1); i++) {
            long j = i % per, x = (j * 3 + j / 2) & top; at("session %ld period %ld theta %ld x %ld", i, (long)per, th, x);
            s.setSecret(S[j % 3]); s.prepareKeysAndInputs(); c.setMessage(x);
            for (int r = MSG_BITS; r > 0; r--) c.runOTRound_end(r, s.runOTRound(r, c.runOTRound_start(r)));
            c.unmaskResult(s.sendEncryptedMasks()); step(3 * MSG_BITS + 2);
            check(i, th, x, s, c, e, sq[j % 3]); s.clean(); c.clean();
        }
        state(); exec(); outcome(per * 100 + th);
    }
    sample("%ld sessions of one pair of parties", len);
}
static void session_result(bool above)
{
    if (!EcRef::ok<FIELD_p>()) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    sessions([above](long i, long th, long x, opprf::OPPRFserver& s, opprf::OPPRFclient& c, const EcRef& e, const EcRef::Q& S) {
        if ((x > th) != above) return;
        EcRef::Q got = EcRef::from(c.getResult()), w = e.add(EcRef::from(s.getKOPPRF()), e.mul(S, mpz_class(x)));
        if (!above) MC_CHECK(got == w, "session %ld, theta %ld, x %ld: result %s instead of %s", i, th, x, EcRef::show(got).c_str(), EcRef::show(w).c_str());
        else MC_CHECK(!(got == w), "session %ld, theta %ld, x %ld above the threshold: the result is K + x*S", i, th, x);
    }, MSG_BITS >= 16 ? 12 : 120);
}
PART(c21_long) { session_result(false); }
PART(c22_long) { session_result(true); }
PART(c23_long)
{
    if (!EcRef::ok<FIELD_p>()) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    std::set<std::string> Ks;
    sessions([&](long i, long th, long x, opprf::OPPRFserver& s, opprf::OPPRFclient& c, const EcRef& e, const EcRef::Q& S) {
        if (i == 0) Ks.clear();
        EcRef::Q k = EcRef::from(s.getKOPPRF()), got = EcRef::from(c.getResult()), w = e.add(k, e.mul(S, mpz_class(x)));
        MC_CHECK(Ks.insert(EcRef::show(k)).second, "session %ld has the key point of an earlier session", i);
        MC_CHECK((got == w) == (x <= th), "session %ld, theta %ld, x %ld: result %s", i, th, x, EcRef::show(got).c_str());
    }, MSG_BITS >= 16 ? 10 : 100);
}

// ------------------------------------------------------------------ aggregation, sharing, ElGamal
PART(c24_long)
{
    if (!TS::require()) return;
    TS t; using namespace puda;
    HISTORIES(60) {
        at("rounds period %ld shape %ld", (long)per, (long)shape); E.reset(per * 2 + shape + 1); Puda p; long u = 2 + per % 3; auto k = p.Setup(u);
        for (long i = 0; i < LEN; i++) {
            long j = idx_(i, per, shape), sum = 0; int tm = (int)(j * 3 + 1 + i / 50); ctxt_v_t c; tag_v_t g; tag_t gs;
            if (i % 25 == 24) { k = p.Setup(u); step(); }
            for (long q = 0; q < u; q++) { long m = (j * 5 + q * 3) % 20; sum += m; c.push_back(p.Enc(std::get<0>(k)[q], m, tm)); g.push_back(p.Tag(std::get<1>(k)[q], m, tm)); gs += g[q]; step(2); }
            auto r = p.Agg(std::get<2>(k), c, g, tm); step(); MC_CHECK(r.first == sum && r.second == gs, "round %ld at time %d: sum %ld aggregates to %d", i, tm, sum, (int)r.first);
        }
        state(); exec(); outcome(per);
    }
    sample("histories of 60 rounds and set-ups on one object");
}
PART(c26_long)
{
    if (toy_secp.on) return;
    using namespace sss; mpz_class q = FIELD(mpz_class(0)).getField(); auto secrets = residues(q, 0);
    HISTORIES(120) {
        at("sharings period %ld shape %ld", (long)per, (long)shape); E.reset(per * 2 + shape + 1); ShamirSS o; std::vector<std::pair<share_v_t, mpz_class>> old;
        for (long i = 0; i < LEN; i++) {
            long j = idx_(i, per, shape); size_t t = 1 + j % 5, n = t + j / 5 % 4; mpz_class s = secrets[(j * 11 + per) % secrets.size()];
            share_v_t v = o.getShares(t, n, FIELD(s)); share_v_t sub(v.end() - t, v.end()); MC_CHECK(o.reconSecret(sub).getRawValue() == s, "sharing %ld (%zu,%zu) of %s reconstructs %s", i, t, n, hxz(s).c_str(), hxz(o.reconSecret(sub).getRawValue()).c_str());
            old.push_back({sub, s}); auto& z = old[i * 5 % old.size()]; MC_CHECK(o.reconSecret(z.first).getRawValue() == z.second, "after sharing %ld an earlier one reconstructs another secret", i); step(3);
        }
        state(); exec(); outcome(per);
    }
    sample("histories of 120 sharings");
}
PART(c29_long)
{
    if (!EcRef::ok<FIELD_p>()) return;
    using namespace elgamal; mpz_class lim = elgamal::FIELD_p(mpz_class(0)).getField() >> 20;
    HISTORIES(150) {
        at("ElGamal period %ld shape %ld", (long)per, (long)shape); E.reset(per * 2 + shape + 1); ElGamal g; std::vector<elgamal::keypair_t> ks; for (int i = 0; i < per; i++) ks.push_back(g.keyGen()); struct Old { elgamal::ctxt_t c; long k; mpz_class m; }; std::vector<Old> old;
        for (long i = 0; i < LEN; i++) {
            long j = idx_(i, per, shape); mpz_class m = modz(pow2(j % 170) * (i + 1) + j, lim); if (i % 13 == 12) ks.push_back(g.keyGen());
            auto c = g.encrypt(ks[j].pk, m); mpz_class r = g.decrypt(ks[j].sk, c); MC_CHECK(r == m, "encryption %ld: %s decrypts to %s", i, hxz(m).c_str(), hxz(r).c_str()); old.push_back({c, j, m});
            Old& o = old[i * 7 % old.size()]; MC_CHECK(g.decrypt(ks[o.k].sk, o.c) == o.m, "after encryption %ld an earlier ciphertext decrypts to something else", i); step(3);
        }
        state(); exec(); outcome(per);
    }
    sample("histories of 150 encryptions with up to 257 keys");
}
