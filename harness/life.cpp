// C30: copying, assigning and destroying objects in any order; memory safety; release of memory.
#include "dmeutil.hpp"
#include "ecref.hpp"
#include "ecc_bn254.hpp"
#include "ot.hpp"
#include "dot.hpp"
#include "opprf.hpp"
#include "puda.hpp"
#include "elgamal.hpp"
#include "shamirss.hpp"
#include "utilities.hpp"
#include <malloc.h>
#include <type_traits>
using namespace mc;
// Every sequence of: create, destroy, copy-construct, assign (self-assignment included) and use on two slots. M describes
// one kind of object:  Obj; State (model of one object, copied when the object is copied); Held (results that outlive it)
//   static Obj* make(int which, State&);  static void use(Obj&, State&, std::vector<Held>&, int i);  static void check(Held&)
// A third slot would only repeat patterns of two.
template <class M> static void lifecycle(int depth, const char* what)
{
    typedef typename M::Obj Obj; typedef typename M::State State; typedef typename M::Held Held;
    for (int o1 = 0; o1 < 12; o1++) for (int o2 = 0; o2 < 12; o2++) {
        if (!mine()) continue;
        Explorer ex;
        ex.run([&] {
            at("first operations: create, %ld, %ld", (long)o1, (long)o2); E.reset(o1 * 12 + o2 + 1);
            std::unique_ptr<Obj> s[2]; State st[2]; std::vector<Held> held;
            for (int i = 0; i < depth; i++) {
                // 0,1 create; 2,3 destroy; 4,5 copy-construct the other; 6,7 assign the other; 8,9 self-assign; 10,11 use
                long op = i == 0 ? 0 : i == 1 ? o1 : i == 2 ? o2 : choose(12); int k = op & 1, z = 1 - k;
                switch (op / 2) {
                case 0: if (s[k]) throw Skip(); st[k] = State(); s[k].reset(M::make(i, st[k])); break;
                case 1: if (!s[k]) throw Skip(); s[k].reset(); break;
                case 2: if (s[k] || !s[z]) throw Skip(); s[k].reset(new Obj(*s[z])); st[k] = st[z]; break;
                case 3: if (!s[k] || !s[z]) throw Skip(); if constexpr (std::is_copy_assignable<Obj>::value) { *s[k] = *s[z]; st[k] = st[z]; } else throw Skip(); break;
                case 4: if (!s[k]) throw Skip(); if constexpr (std::is_copy_assignable<Obj>::value) { Obj& same = *s[k]; *s[k] = same; } else throw Skip(); break;
                case 5: if (!s[k]) throw Skip(); M::use(*s[k], st[k], held, i); break;
                }
                step();
                for (int q = 0; q < 2; q++) if (s[q]) { M::inspect(*s[q], st[q]); step(); }
                for (auto& h : held) { M::check(h); step(); }
            }
            // what is left is destroyed in either order
            s[o1 & 1].reset(); for (auto& h : held) M::check(h); s[1 - (o1 & 1)].reset(); for (auto& h : held) M::check(h);
            state();
        });
        if (o1 == 5 && o2 == 11) sample("%s: %llu lifecycles of %d operations starting with create, copy, use", what, (unsigned long long)ex.executions, depth);
    }
}
template <class T> struct MCurve {
    typedef typename T::C Obj; struct State {}; struct Held {};
    static Obj* make(int, State&) { return new Obj; }
    static void inspect(Obj& c, State&)
    {
        Toy<T>& t = table();
        MC_CHECK(c.getPrime() == t.p && c.getOrder() == t.n && c.getA() == modz(Z(t.a), Z(t.p)) && c.getB() == modz(Z(t.b), Z(t.p)), "the curve's parameters changed");
        auto g = c.getDefaultGen(); MC_CHECK(g.curve == &c, "the generator of a copy does not refer to the copy");
        MC_CHECK(t.idx(g * Z(3)) == 3 % t.n && t.idx(g + g) == 2 % t.n && g.isValid(), "the generator of the curve does not work");
        MC_CHECK(c == *t.curve, "the copy does not equal the curve");
    }
    static void use(Obj& c, State&, std::vector<Held>&, int i)
    {
        Toy<T>& t = table(); typename T::P p = c.getRandomPoint(); long k = t.idx(p); MC_CHECK(k >= 0, "a random point is not on the curve");
        MC_CHECK(t.idx(p * Z(i)) == md(k * i, t.n) && t.idx(p - c.getDefaultGen()) == md(k - 1, t.n), "a point of the curve does not work");
        typename T::P e = c.evaluateP(typename T::Fp(Z(t.pts[1].first))); long w = t.idx(e); MC_CHECK(w == 1 || w == t.n - 1, "evaluateP does not work");
    }
    static void check(Held&) {}
    static Toy<T>& table() { static Toy<T> t; return t; }
};
PART(c30_curve) { if (Toy<Secp>::require()) lifecycle<MCurve<Secp>>(R.thorough() ? 7 : 6, "curves"); }
PART(c30_curve_bn) { if (Toy<Bn>::require()) lifecycle<MCurve<Bn>>(R.thorough() ? 7 : 6, "curves"); }

struct MDme {
    typedef dme::DME_DDH Obj; struct State { Tup t; int mode; }; struct Held { dme::keypair_t k; dme::ctxt_t c; long m; bool opens; };
    static TS& table() { static TS t; return t; }
    static Obj* make(int i, State& s) { s.mode = i % 3; Obj* d = s.mode == 0 ? new Obj(dme::messy) : s.mode == 1 ? new Obj(dme::dec) : new Obj(); s.t = tup(table(), d->crs); return d; }
    static void inspect(Obj& d, State& s)
    {
        Tup u = tup(table(), d.crs); MC_CHECK(u.g0 == s.t.g0 && u.g1 == s.t.g1 && u.h0 == s.t.h0 && u.h1 == s.t.h1, "the reference string of a copy differs");
        MC_CHECK(d.getCurve()->getOrder() == table().n, "the curve of a copy does not work");
    }
    static void use(Obj& d, State& s, std::vector<Held>& h, int i)
    {
        dme::branch_t b = i & 1 ? dme::b1 : dme::b0; long m = i % table().n;
        dme::keypair_t k = d.KeyGen(b); dme::ctxt_t c = d.Enc(k.pk, b, d.getCurve()->getDefaultGen() * Z(m)); h.push_back({k, c, m, true});
        if (s.mode == 0 && messy_ok(table(), s.t)) { dme::branch_t f = d.FindMessy(k.pk); long g = b == dme::b0 ? s.t.g0 : s.t.g1; if (table().idx(k.pk.g) > 0 && g > 0) MC_CHECK(f != b, "FindMessy of a copy is wrong"); }
        if (s.mode == 1 && dec_ok(table(), s.t)) { dme::pkey_t pk; dme::skey_t s0, s1; std::tie(pk, s0, s1) = d.TrapKeyGen(); dme::ctxt_t e = d.Enc(pk, dme::b0, d.getCurve()->getDefaultGen() * Z(m)); dme::keypair_t kp; kp.pk = pk; kp.sk = s0; h.push_back({kp, e, m, true}); }
    }
    static void check(Held& h)
    {
        TS& t = table(); dme::POINT p = h.c.mv - h.c.u * h.k.sk;
        MC_CHECK(t.idx(p) == h.m, "a ciphertext does not decrypt any more after its scheme was destroyed or reassigned: %s instead of %ldG", show(p).c_str(), h.m);
        dme::POINT q = h.k.pk.g + h.k.pk.h; MC_CHECK(t.idx(q) == md(t.idx(h.k.pk.g) + t.idx(h.k.pk.h), t.n), "a public key is not usable any more");
    }
};
PART(c30_dme) { if (TS::require()) lifecycle<MDme>(R.thorough() ? 6 : 5, "DME_DDH"); }

// receiver and sender of a transfer, and the aggregating proxy
struct MOt {
    struct Obj { ot::OTrecv r; ot::OTsndr s; ot::DOTprxy x; Obj(const dme::crs_ddh_t& c) : r(c), s(c), x(c) {} };
    struct State { long b = -1; dme::pkey_t pk; ot::ctxt_v_t c; long m[2]; };
    struct Held { ot::ctxt_v_t c; dme::pkey_t pk; };
    static dme::crs_ddh_t& crs() { static dme::crs_ddh_t c = mkcrs(MDme::table(), Tup{2, 3, 1, 4}); return c; }
    static Obj* make(int, State&) { return new Obj(crs()); }
    static void inspect(Obj& o, State& s)
    {
        if (s.b < 0) return;
        TS& t = MDme::table();
        MC_CHECK(o.r.getBranch() == s.b, "a copied receiver has another branch");
        dme::POINT q = o.r.decryptMsg(s.c); MC_CHECK(t.idx(q) == s.m[s.b], "a copied receiver receives %s instead of %ldG", show(q).c_str(), s.m[s.b]);
        ot::ctxt_v_t a = o.x.aggregate({s.c, s.c}); q = o.r.decryptMsg(a); MC_CHECK(t.idx(q) == md(2 * s.m[s.b], t.n), "the aggregate of a copied proxy is wrong");
    }
    static void use(Obj& o, State& s, std::vector<Held>& h, int i)
    {
        TS& t = MDme::table(); s.b = i >> 1 & 1; s.pk = o.r.selectMsg(s.b ? dme::b1 : dme::b0); s.m[0] = i % t.n; s.m[1] = (i * 2 + 1) % t.n;
        auto g = o.s.getCurve()->getDefaultGen(); s.c = o.s.encMsgs(s.pk, g * Z(s.m[0]), g * Z(s.m[1])); h.push_back({s.c, s.pk});
    }
    static void check(Held& h) { TS& t = MDme::table(); for (auto& c : h.c) MC_CHECK(t.idx(c.u + c.mv) == md(t.idx(c.u) + t.idx(c.mv), t.n) && t.idx(c.u * Z(2)) == md(2 * t.idx(c.u), t.n), "a ciphertext is not usable any more"); MC_CHECK(t.idx(h.pk.g - h.pk.h) == md(t.idx(h.pk.g) - t.idx(h.pk.h), t.n), "a public key is not usable any more"); }
};
PART(c30_ot) { if (TS::require()) lifecycle<MOt>(R.thorough() ? 6 : 5, "OT and aggregated OT"); }

struct MPuda {
    typedef puda::Puda Obj; typedef std::tuple<puda::ek_v_t, puda::sk_v_t, puda::ak_t, puda::vk_t> Keys;
    struct State { bool set = false; Keys k; }; struct Held { puda::ctxt_v_t c; puda::vk_t vk; puda::tag_t tag; std::vector<long> ix; };
    static Obj* make(int, State&) { return new Obj; }
    static void inspect(Obj& p, State& s)
    {
        if (!s.set) return;
        puda::ctxt_v_t c; puda::tag_v_t g; for (int i = 0; i < 2; i++) { c.push_back(p.Enc(std::get<0>(s.k)[i], i + 1, 7)); g.push_back(p.Tag(std::get<1>(s.k)[i], i + 1, 7)); }
        auto r = p.Agg(std::get<2>(s.k), c, g, 7); MC_CHECK(r.first == 3, "a copied scheme aggregates 1 and 2 to %d", (int)r.first);
    }
    static void use(Obj& p, State& s, std::vector<Held>& h, int i)
    {
        TS& t = MDme::table(); s.k = p.Setup(2); s.set = true; Held x; for (int j = 0; j < 2; j++) x.c.push_back(p.Enc(std::get<0>(s.k)[j], j, i)); x.vk = std::get<3>(s.k); x.tag = p.Tag(std::get<1>(s.k)[0], 1, i);
        for (auto& q : {x.c[0], x.c[1], x.vk.vk_1, x.vk.vk_2, x.tag}) x.ix.push_back(t.idx(q)); h.push_back(x);
    }
    static void check(Held& x)
    {
        TS& t = MDme::table(); int i = 0;
        for (auto& q : {x.c[0], x.c[1], x.vk.vk_1, x.vk.vk_2, x.tag}) { MC_CHECK(t.idx(q) == x.ix[i] && t.idx(q + q) == md(2 * x.ix[i], t.n) && t.idx(q * Z(3)) == md(3 * x.ix[i], t.n), "a point returned by the scheme is not usable any more"); i++; }
    }
};
PART(c30_puda) { if (TS::require()) lifecycle<MPuda>(R.thorough() ? 6 : 5, "PUDA"); }

struct MElg {
    typedef elgamal::ElGamal Obj; struct State {}; struct Held { elgamal::keypair_t k; elgamal::ctxt_t c; long m; };
    static Obj* make(int, State&) { return new Obj; }
    static void inspect(Obj& e, State&) { TS& t = MDme::table(); elgamal::keypair_t k = e.keyGen(); MC_CHECK(t.idx(k.pk) == modz(k.sk.getRawValue(), Z(t.n)).get_si(), "a copied object generates wrong keys"); }
    static void use(Obj& e, State&, std::vector<Held>& h, int i) { TS& t = MDme::table(); elgamal::keypair_t k = e.keyGen(); h.push_back({k, e.encrypt(k.pk, t.pt(i)), i % t.n}); }
    static void check(Held& h) { TS& t = MDme::table(); MC_CHECK(t.idx(h.c.mv - h.c.u * h.k.sk) == h.m, "a ciphertext does not decrypt any more"); MC_CHECK(t.idx(h.k.pk + h.k.pk) == md(2 * t.idx(h.k.pk), t.n), "a public key is not usable any more"); }
};
PART(c30_elgamal) { if (TS::require()) lifecycle<MElg>(R.thorough() ? 7 : 6, "ElGamal"); }

struct MSss {
    typedef sss::ShamirSS Obj; struct State {}; struct Held { sss::share_v_t v; long s; };
    static Obj* make(int, State&) { return new Obj; }
    static void inspect(Obj& o, State&) { sss::share_v_t v = o.getShares(2, 3, sss::FIELD(Z(1))); MC_CHECK(o.reconSecret(v).getRawValue() == 1, "a copied object does not work"); }
    static void use(Obj& o, State&, std::vector<Held>& h, int i) { h.push_back({o.getShares(2, 4, sss::FIELD(Z(i))), i % MDme::table().n}); }
    static void check(Held& h) { sss::ShamirSS o; MC_CHECK(o.reconSecret(h.v).getRawValue() == h.s, "shares do not reconstruct any more"); }
};
PART(c30_sss) { if (TS::require()) lifecycle<MSss>(R.thorough() ? 7 : 6, "Shamir"); }

// OPPRF: the parties are copied (or moved aside and assigned back) at every point of a session, the originals destroyed,
// and the session goes on with the copies; results outlive everything.
PART(c30_opprf)
{
    if (!EcRef::ok<dme::FIELD_p>()) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    EcRef e; using opprf::OPPRFserver; using opprf::OPPRFclient;
    int steps = 2 + 2 * MSG_BITS + 1;
    for (int at1 = 0; at1 <= steps; at1++) for (int who = 1; who < 4; who++) for (int how = 0; how < 3; how++) for (long x : {1l, 2l, 3l}) {
        if (MSG_BITS > 4 && (at1 * 7 + who * 5 + how * 3 + x) % (R.thorough() ? 5 : 19)) continue;
        if (!mine()) continue;
        at("copy after step %ld of party %ld way %ld input %ld", (long)at1, (long)who, (long)how, x); E.reset(at1 + who * 50 + how);
        dme::POINT S, res, K; dme::pkey_t pk; opprf::ot_ctxts_t c; opprf::symctxt_t m; long th = 2;
        {
            std::unique_ptr<dme::DME_DDH> d(new dme::DME_DDH); dme::crs_ddh_t crs = d->crs; S = d->getCurve()->getRandomPoint(); d.reset();
            std::unique_ptr<OPPRFserver> s(new OPPRFserver(th, crs)); std::unique_ptr<OPPRFclient> q(new OPPRFclient(crs));
            for (int i = 0; i <= steps; i++) {
                if (i == at1) {
                    if (who & 1) { if (how == 0) s.reset(new OPPRFserver(*s)); else if (how == 1) { std::unique_ptr<OPPRFserver> o(new OPPRFserver(5, crs)); *o = *s; s = std::move(o); } else { OPPRFserver o(*s); o.clean(); o.prepareKeysAndInputs(); OPPRFserver& same = *s; *s = same; } }
                    if (who & 2) { if (how == 0) q.reset(new OPPRFclient(*q)); else if (how == 1) { std::unique_ptr<OPPRFclient> o(new OPPRFclient(crs)); *o = *q; q = std::move(o); } else { OPPRFclient o(*q); o.clean(); o.setMessage(0); o.runOTRound_start(1); OPPRFclient& same = *q; *q = same; } }
                }
                if (i == 0) { s->setSecret(S); s->prepareKeysAndInputs(); }
                else if (i == 1) q->setMessage(x);
                else if (i < steps - 1 + 0) { int r = MSG_BITS - (i - 2) / 2; if (i % 2 == 0) { pk = q->runOTRound_start(r); c = s->runOTRound(r, pk); } else q->runOTRound_end(r, c); }
                else if (i == steps - 1) m = s->sendEncryptedMasks();
                else q->unmaskResult(m);
                step();
            }
            res = q->getResult(); K = s->getKOPPRF();
        }
        EcRef::Q w = e.add(EcRef::from(K), e.mul(EcRef::from(S), mpz_class(x)));
        if (x <= th) MC_CHECK(EcRef::from(res) == w, "input %ld: with copied parties the result is %s instead of %s", x, EcRef::show(EcRef::from(res)).c_str(), EcRef::show(w).c_str());
        else MC_CHECK(!(EcRef::from(res) == w), "the result above the threshold is K + x*S");
        // results outlive both parties
        MC_CHECK(EcRef::from(res + K) == e.add(EcRef::from(res), EcRef::from(K)) && EcRef::from(res * mpz_class(3)) == e.mul(EcRef::from(res), 3), "a result is not usable after its party was destroyed");
        state(); exec(); outcome(w.x);
    }
    sample("a session with either or both parties replaced by copies at every step");
}
// results of an object that is already gone
PART(c30_real)
{
    if (!mine()) return;
    EcRef e; std::vector<std::pair<dme::keypair_t, dme::ctxt_t>> v; std::vector<EcRef::Q> want;
    for (int mode = 0; mode < 2; mode++) for (int i = 0; i < 3; i++) { std::unique_ptr<dme::DME_DDH> d(new dme::DME_DDH(mode ? dme::dec : dme::messy)), f; if (i) f.reset(new dme::DME_DDH(*d)); if (i == 1) d.reset(); dme::DME_DDH& o = d ? *d : *f; dme::keypair_t k = o.KeyGen(dme::b0); dme::POINT P = o.getCurve()->getRandomPoint(); want.push_back(EcRef::from(P)); v.push_back({k, o.Enc(k.pk, dme::b0, P)}); step(); }
    for (size_t i = 0; i < v.size(); i++) { at("real results #%ld", i); dme::POINT p = v[i].second.mv - v[i].second.u * v[i].first.sk; MC_CHECK(EcRef::from(p) == want[i], "a ciphertext does not decrypt after its scheme is gone"); state(); exec(); }
    elgamal::keypair_t k; elgamal::ctxt_t c; { elgamal::ElGamal g; elgamal::ElGamal h(g); k = h.keyGen(); c = h.encrypt(k.pk, mpz_class(77)); } { elgamal::ElGamal g; MC_CHECK(g.decrypt(k.sk, c) == 77, "an ElGamal ciphertext does not decrypt"); } exec();
}

// ------------------------------------------------------------------ memory is released
static size_t in_use() { return mallinfo2().uordblks; }
template <class F> static void no_growth(const char* what, F f)
{
    const int N = 64;
    for (int i = 0; i < 8; i++) f();
    size_t a, b;
    for (int w = 0; w < 4; w++) {                       // a cache stops growing, a leak does not
        a = in_use(); for (int i = 0; i < N; i++) f(); b = in_use();
        if (b < a + N) break;
    }
    step(N); state();
    MC_CHECK(b < a + N, "%s: %d calls leave %zu bytes allocated", what, N, b - a);
    outcome(b - a);
}
static mpz_class content(size_t len) { mpz_class z = 0; for (size_t i = 0; i < len; i++) { z <<= 8; z += (i * 37 + 1) & 0xff; } return z; }
PART(c30_release)
{
#if defined(__SANITIZE_ADDRESS__)
    return;
#endif
    std::vector<mpz_class> keys = {0, 1, pow2(127), pow2(128) - 1, pow2(64)};
    for (size_t len = 0; len <= (R.thorough() ? 3000 : 600); len += (len < 300 ? 1 : 25)) {
        if (!mine()) continue;
        mpz_class z = content(len);
        at("release, %ld bytes", len);
        no_growth("getRawMpz and free", [&] { uint8_t* p = nullptr; utils::getRawMpz(&p, z); free(p); });
        std::vector<uint8_t> raw(len + 1, 7); no_growth("setRawMpz", [&] { utils::setRawMpz(raw.data(), len); });
        for (size_t k = 0; k < keys.size(); k += (len < 40 ? 1 : 4)) {
            aes::AES a; mpz_class c = a.encrypt(keys[k], z), cc = a.encryptCRC(keys[k], z);
            no_growth("AES::encrypt", [&] { a.encrypt(keys[k], z); });
            no_growth("AES::decrypt", [&] { a.decrypt(keys[k], c); });
            no_growth("AES::encryptCRC", [&] { a.encryptCRC(keys[k], z); });
            no_growth("AES::decryptCRC", [&] { a.decryptCRC(keys[k], cc); });
            no_growth("AES::decryptCRC of a corrupted ciphertext", [&] { a.decryptCRC(keys[k], cc ^ 4); });
            no_growth("AES::decryptCRC with another key", [&] { a.decryptCRC(keys[k] ^ 2, cc); });
            no_growth("AES::decryptCRC of arbitrary data", [&] { a.decryptCRC(keys[k], z); });
            no_growth("AES::decrypt of arbitrary data", [&] { a.decrypt(keys[k], z); });
        }
        no_growth("AES::init", [&] { aes::AES::init(std::string(16, 'x')); aes::AES::init(); });
        exec();
    }
    sample("memory in use before and after repeated calls, every length up to 300 bytes");
}
