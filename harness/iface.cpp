// C38: calls leave their arguments as they are and keep no hold of them. Every history is executed twice with the same
// randomness; in the second execution each argument is overwritten and destroyed as soon as the call returns.
#include "twin.hpp"
// all sequences of `depth` operations out of n, one work unit per (first, second)
template <class F> static void sequences(int n, int depth, F f)
{
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        if (!mine()) continue;
        long tot = 1; for (int k = 2; k < depth; k++) tot *= n;
        for (long c = 0; c < tot; c++) { std::vector<int> s = {i, j}; long z = c; for (int k = 2; k < depth; k++) { s.push_back(z % n); z /= n; } f(s); }
    }
}
static bool have() { if (!toy_secp.on || dme::FIELD_p(mpz_class(0)).getField() == toy_secp.p) return true; note("toy substitution not in effect"); R.exhaustive = false; return false; }
#define SH(T, ...) std::make_shared<T>(__VA_ARGS__)
PART(c38_dme)
{
    if (!have()) return;
    E.reset(5); static dme::CURVE cv; dme::DME_DDH m0(dme::messy), d0(dme::dec); dme::crs_ddh_t cs[2] = {m0.crs, d0.crs};
    auto once = [&](const std::vector<int>& s, int how) {
        at("set-up %ld operations %ld %ld %ld", (long)how, (long)s[0], (long)s[1], (long)(s.size() > 2 ? s[2] : -1));
        twins(how * 1000 + s[0] * 13 + s[1], [&](Tw& t) {
            auto d = how < 2 ? t("DME_DDH(mode)", [](dme::mode_t& m) { return SH(dme::DME_DDH, m); }, how ? dme::dec : dme::messy) : t("DME_DDH(crs)", [](dme::crs_ddh_t& c) { return SH(dme::DME_DDH, c); }, cs[how - 2]);
            t.note("crs", d->crs);
            dme::keypair_t k[2]; for (int b = 0; b < 2; b++) k[b] = t("KeyGen", [&](dme::branch_t& br) { return d->KeyGen(br); }, (dme::branch_t)b);
            dme::msg_t P = cv.getDefaultGen() * mpz_class(9); mpz_class z = 7; dme::ctxt_t c = t("Enc", [&](dme::pkey_t& pk, dme::branch_t& b, mpz_class& m) { return d->Enc(pk, b, m); }, k[0].pk, dme::b0, z); dme::skey_t sk = k[0].sk;
            int i = 0;
            for (int op : s) {
                i++; dme::branch_t b = (dme::branch_t)(i & 1);
                switch (op) {
                case 0: c = t("Enc(point)", [&](dme::pkey_t& pk, dme::branch_t& b, dme::msg_t& m) { return d->Enc(pk, b, m); }, k[b].pk, b, P); sk = k[b].sk; break;
                case 1: c = t("Enc(integer)", [&](dme::pkey_t& pk, dme::branch_t& b, mpz_class& m) { return d->Enc(pk, b, m); }, k[b].pk, b, mpz_class(z + i)); sk = k[b].sk; break;
                case 2: P = t("Dec", [&](dme::skey_t& sk, dme::ctxt_t& c) { return d->Dec(sk, c); }, sk, c); break;
                case 3: t("DecDecode", [&](dme::skey_t& sk, dme::ctxt_t& c) { return d->DecDecode(sk, c); }, sk, c); break;
                case 4: t("FindMessy", [&](dme::pkey_t& pk) { return d->FindMessy(pk); }, k[b].pk); break;
                case 5: { auto tr = t("TrapKeyGen", [&] { return d->TrapKeyGen(); }); if (how == 1) { k[0].pk = k[1].pk = std::get<0>(tr); k[0].sk = std::get<1>(tr); k[1].sk = std::get<2>(tr); } break; }
                case 6: k[b] = t("KeyGen", [&](dme::branch_t& br) { return d->KeyGen(br); }, b); break;
                case 7: P = t("encode", [&](mpz_class& m) { return d->encode(m); }, mpz_class(z * i)); break;
                case 8: t("decode", [&](dme::msg_t& m) { return d->decode(m); }, P); break;
                case 9: d = t("DME_DDH(crs)", [](dme::crs_ddh_t& c) { return SH(dme::DME_DDH, c); }, d->crs); break;
                }
            }
        });
    };
    for (int how = 0; how < 4; how++) sequences(10, 3, [&](const std::vector<int>& s) { if (how != 1) for (int op : s) if (op == 5 || (how != 0 && op == 4)) return; if (how == 1) for (int op : s) if (op == 4) return; once(s, how); });
    sample("every sequence of three operations of the dual-mode scheme, four kinds of set-up, arguments left alone and overwritten");
}
PART(c38_ot)
{
    if (!have()) return;
    E.reset(6); static dme::CURVE cv; dme::DME_DDH d0(dme::dec), m0(dme::messy); dme::POINT G = cv.getDefaultGen();
    for (int mode = 0; mode < 2; mode++) sequences(9, 3, [&](const std::vector<int>& s) {
        at("set-up %ld operations %ld %ld %ld", (long)mode, (long)s[0], (long)s[1], (long)(s.size() > 2 ? s[2] : -1));
        twins(mode * 500 + s[0] * 11 + s[1], [&](Tw& t) {
            dme::crs_ddh_t crs = mode ? d0.crs : m0.crs;
            auto r = t("OTrecv", [](dme::crs_ddh_t& c) { return SH(ot::OTrecv, c); }, crs); auto x = t("OTsndr", [](dme::crs_ddh_t& c) { return SH(ot::OTsndr, c); }, crs);
            auto p = t("DOTprxy", [](dme::crs_ddh_t& c) { return SH(ot::DOTprxy, c); }, crs);
            auto sel = [&](int b) { return t("selectMsg", [&](dme::branch_t& b) { return r->selectMsg(b); }, (dme::branch_t)b); };
            auto encp = [&](const dme::pkey_t& pk, int k) { return t("encMsgs(points)", [&](dme::pkey_t& pk, dme::msg_t& a, dme::msg_t& b) { return x->encMsgs(pk, a, b); }, pk, dme::msg_t(G * mpz_class(k)), dme::msg_t(G * mpz_class(k + 3))); };
            dme::pkey_t pk = sel(0); std::vector<ot::ctxt_v_t> cs; cs.push_back(encp(pk, 2)); int i = 0;
            for (int op : s) {
                i++;
                switch (op) {
                case 0: case 1: pk = sel(op); cs.clear(); cs.push_back(encp(pk, i)); break;
                case 2: cs.push_back(encp(pk, 10 * i)); break;
                case 3: cs.push_back(t("encMsgs(integers)", [&](dme::pkey_t& pk, mpz_class& a, mpz_class& b) { return x->encMsgs(pk, a, b); }, pk, mpz_class(i), mpz_class(i + 100))); break;
                case 4: t("decryptMsg", [&](ot::ctxt_v_t& c) { return r->decryptMsg(c); }, cs.back()); break;
                case 5: t("decryptMsgDecode", [&](ot::ctxt_v_t& c) { return r->decryptMsgDecode(c); }, cs.back()); break;
                case 6: cs.push_back(t("aggregate", [&](std::vector<ot::ctxt_v_t>& c) { return p->aggregate(c); }, cs)); break;
                case 7: t("aggregate(one)", [&](std::vector<ot::ctxt_v_t>& c) { return p->aggregate(c); }, std::vector<ot::ctxt_v_t>(1, cs[0])); break;
                case 8: cs.push_back(encp(pk, 0)); break;
                }
            }
            t("decryptMsg", [&](ot::ctxt_v_t& c) { return r->decryptMsg(c); }, cs.back());
        });
    });
    sample("every sequence of three operations of sender, receiver and proxy");
}
PART(c38_opprf)
{
    if (!have()) return;
    E.reset(7); static dme::CURVE cv; dme::DME_DDH d0(dme::dec), m0(dme::messy); const long TOP = (1l << MSG_BITS) - 1; bool all = MSG_BITS < 8;
    std::vector<std::pair<long, long>> prs; if (all) for (long a = 0; a <= TOP; a++) for (long b = 0; b <= TOP; b++) prs.push_back({a, b}); else { prs = {{1000, 999}, {1000, 1000}, {0x8000, 0x7fff}, {5, 0xffff}, {0x7fff, 0xffff}, {0xffff, 0}, {0, 0x1234}}; for (long a = 0xfff; a < TOP; a += 0x1111) prs.push_back({a, a & 1 ? a + 1 : a - 1}); }
    for (auto& pr : prs) for (int kind = 0; kind < (all ? 12 : 2); kind++) {
        if (!mine()) continue;
        long th = pr.first, x = pr.second; at("theta %ld x %ld kind %ld", th, x, (long)kind);
        twins(kind * 100 + th * 7 + x, [&](Tw& t) {
            dme::crs_ddh_t crs = kind & 1 ? d0.crs : m0.crs; dme::POINT S = kind % 3 == 2 ? cv.getDefaultGen() : cv.getDefaultGen() * mpz_class(12345 + kind);
            auto s = t("OPPRFserver", [](opprf::msg_t& th, dme::crs_ddh_t& c) { return SH(opprf::OPPRFserver, th, c); }, (opprf::msg_t)th, crs); auto c = t("OPPRFclient", [](dme::crs_ddh_t& c) { return SH(opprf::OPPRFclient, c); }, crs);
            auto session = [&](long x, int stop) {
                t("setMessage", [&](opprf::msg_t& x) { c->setMessage(x); }, (opprf::msg_t)x);
                for (int rd = MSG_BITS; rd > stop; rd--) {
                    dme::pkey_t pk = t("runOTRound_start", [&](short& r) { return c->runOTRound_start(r); }, (short)rd);
                    opprf::ot_ctxts_t o = t("runOTRound", [&](short& r, dme::pkey_t& pk) { return s->runOTRound(r, pk); }, (short)rd, pk);
                    t("runOTRound_end", [&](short& r, opprf::ot_ctxts_t& o) { c->runOTRound_end(r, o); }, (short)rd, o);
                }
                if (stop) return;
                opprf::symctxt_t m = t("sendEncryptedMasks", [&] { return s->sendEncryptedMasks(); });
                t("unmaskResult", [&](opprf::symctxt_t& m) { c->unmaskResult(m); }, m); t("getResult", [&] { return c->getResult(); }); t("getKOPPRF", [&] { return s->getKOPPRF(); });
            };
            t("setSecret", [&](dme::POINT& S) { s->setSecret(S); }, S); s->prepareKeysAndInputs();
            if (kind >= 6) { session(x ^ 1, 1); c->clean(); if (kind & 2) { s->clean(); t("setSecret", [&](dme::POINT& S) { s->setSecret(S); }, dme::POINT(S + S)); s->prepareKeysAndInputs(); } }
            session(x, 0);
            if (kind >= 3) { c->clean(); s->clean(); s->prepareKeysAndInputs(); session(TOP - x, 0); }
        });
    }
    sample("sessions of every threshold and input, repeated, aborted and re-prepared");
}
PART(c38_puda)
{
    if (!have()) return;
    sequences(8, 3, [&](const std::vector<int>& s) {
        at("operations %ld %ld %ld", (long)s[0], (long)s[1], (long)(s.size() > 2 ? s[2] : -1));
        for (size_t n = 1; n <= 3; n++) twins(n * 100 + s[0] * 9 + s[1], [&](Tw& t) {
            puda::Puda p; auto q = t("Setup", [&](size_t& n) { return p.Setup(n); }, n);
            auto& ek = std::get<0>(q); auto& sk = std::get<1>(q); auto& ak = std::get<2>(q); auto& vk = std::get<3>(q);
            puda::ctxt_v_t cs; puda::tag_v_t ts; int time = 1, i = 0; puda::msg_t sum = 0; puda::tag_t tag;
            auto enc = [&](size_t u, int m) { cs.push_back(t("Enc", [&](puda::ek_t& e, puda::msg_t& m, int& t) { return p.Enc(e, m, t); }, ek[u], (puda::msg_t)m, time)); ts.push_back(t("Tag", [&](puda::sk_t& k, puda::msg_t& m, int& t) { return p.Tag(k, m, t); }, sk[u], (puda::msg_t)m, time)); };
            auto round = [&](int b) { cs.clear(); ts.clear(); for (size_t u = 0; u < n; u++) enc(u, b + u); };
            auto agg = [&] { auto r = t("Agg", [&](puda::ak_t& a, puda::ctxt_v_t& c, puda::tag_v_t& g, int& t) { return p.Agg(a, c, g, t); }, ak, cs, ts, time); sum = r.first; tag = r.second; };
            round(3); agg();
            for (int op : s) {
                i++;
                switch (op) {
                case 0: time = i + 1; round(i); break;
                case 1: agg(); break;
                case 2: t("Verify", [&](puda::vk_t& k, puda::msg_t& m, puda::tag_t& g, int& t) { return p.Verify(k, m, g, t); }, vk, sum, tag, time); break;
                case 3: { auto w = t("Setup", [&](size_t& n) { return p.Setup(n); }, n); ek = std::get<0>(w); sk = std::get<1>(w); ak = std::get<2>(w); vk = std::get<3>(w); round(2); break; }
                case 4: std::reverse(cs.begin(), cs.end()); std::reverse(ts.begin(), ts.end()); agg(); break;
                case 5: time = -i; round(0); agg(); break;
                case 6: round(i * 2); agg(); break;
                case 7: t("Enc", [&](puda::ek_t& e, puda::msg_t& m, int& t) { return p.Enc(e, m, t); }, ek[0], (puda::msg_t)0xffff, time); break;
                }
            }
        });
    });
    sample("every sequence of three operations of one to three users");
}
PART(c38_sss)
{
    for (size_t n = 1; n <= 6; n++) for (size_t th = 1; th <= n; th++) {
        if (!mine()) continue;
        for (int k = 0; k < 6; k++) {
            at("threshold %ld of %ld kind %ld", th, n, (long)k);
            twins(n * 50 + th * 7 + k, [&](Tw& t) {
                sss::ShamirSS a; sss::FIELD sec(mpz_class(k == 0 ? mpz_class(0) : k == 1 ? mpz_class(-1) : pow2(40 * k)));
                auto give = [&](const sss::FIELD& f) { return t("getShares", [&](size_t& th, size_t& n, sss::FIELD& f) { return a.getShares(th, n, f); }, th, n, f); };
                auto rec = [&](const sss::share_v_t& v) { return t("reconSecret", [&](sss::share_v_t& v) { return a.reconSecret(v); }, v); };
                auto sh = give(sec); auto sh2 = give(sec + sss::FIELD(mpz_class(1)));
                for (u64 m = 1; m < (1u << n); m++) { sss::share_v_t v; for (size_t i = 0; i < n; i++) if (m >> i & 1) v.push_back((m & 1 ? sh : sh2)[i]); if (v.size() >= th) { rec(v); std::reverse(v.begin(), v.end()); rec(v); } }
            });
        }
    }
    sample("every subset of shares of up to six players, in both orders");
}
PART(c38_elgamal)
{
    if (!have()) return;
    E.reset(8); static elgamal::CURVE cv;
    sequences(6, 4, [&](const std::vector<int>& s) {
        at("operations %ld %ld %ld %ld", (long)s[0], (long)s[1], (long)s[2], (long)s[3]);
        twins(s[0] * 7 + s[1], [&](Tw& t) {
            elgamal::ElGamal e, e2; auto k = t("keyGen", [&] { return e.keyGen(); }), k2 = t("keyGen", [&] { return e2.keyGen(); }); mpz_class z = 5; int i = 0; auto enc = [&](elgamal::ElGamal& e, const mpz_class& z) { return t("encrypt(integer)", [&](elgamal::pkey_t& p, mpz_class& z) { return e.encrypt(p, z); }, k.pk, z); };
            auto c = enc(e, z);
            for (int op : s) {
                i++;
                switch (op) {
                case 0: k = t("keyGen", [&] { return e.keyGen(); }); c = enc(e, z + i); break;
                case 1: c = enc(e, z * i); break;
                case 2: t("encrypt(point)", [&](elgamal::pkey_t& p, elgamal::POINT& q) { return e.encrypt(p, q); }, k.pk, elgamal::POINT(cv.getDefaultGen() * mpz_class(i))); break;
                case 3: t("decrypt", [&](elgamal::skey_t& k, elgamal::ctxt_t& c) { return e.decrypt(k, c); }, k.sk, c); break;
                case 4: c = enc(e2, z + 2 * i); break;
                case 5: std::swap(k, k2); c = enc(e, 3); break;
                }
            }
            t("decrypt", [&](elgamal::skey_t& k, elgamal::ctxt_t& c) { return e2.decrypt(k, c); }, k.sk, c);
        });
    });
    sample("every sequence of four operations of two ElGamal objects");
}
static mpz_class bignum(size_t bytes, u64 k) { mpz_class r = 0; for (size_t i = 0; i < bytes; i++) { r <<= 8; r += (unsigned)(mix(k * 977 + i) & 0xff) | (i == 0); } return r; }
PART(c38_aes)
{
    sequences(7, 4, [&](const std::vector<int>& s) {
        for (size_t len : {1, 15, 16, 17, 40, 200}) {
            at("operations %ld %ld %ld %ld length %ld", (long)s[0], (long)s[1], (long)s[2], (long)s[3], len);
            twins(1, [&](Tw& t) {
                aes::AES a, b; aes::AES::init(); mpz_class k = bignum(16, 5), c = a.encryptCRC(k, bignum(len, 9)), z = bignum(len, len); int i = 0;
                for (int op : s) {
                    i++; aes::AES& o = i & 1 ? a : b;
                    switch (op) {
                    case 0: c = t("encrypt", [&](mpz_class& k, mpz_class& z) { return o.encrypt(k, z); }, k, mpz_class(z + i)); break;
                    case 1: c = t("encryptCRC", [&](mpz_class& k, mpz_class& z) { return o.encryptCRC(k, z); }, k, mpz_class(z + i)); break;
                    case 2: t("decrypt", [&](mpz_class& k, mpz_class& z) { return o.decrypt(k, z); }, k, c); break;
                    case 3: t("decryptCRC", [&](mpz_class& k, mpz_class& z) { return o.decryptCRC(k, z); }, k, c); break;
                    case 4: t("init", [&](string& v) { aes::AES::init(v); }, string("0123456789abcde") + (char)('0' + i)); c = o.encryptCRC(k, z); break;
                    case 5: k = bignum(i + 10, i); c = o.encryptCRC(k, z); break;
                    case 6: aes::AES::init(); c = o.encryptCRC(k, z); break;
                    }
                }
                t("decryptCRC", [&](mpz_class& k, mpz_class& z) { return a.decryptCRC(k, z); }, k, c);
            });
            aes::AES::init();
        }
    });
    sample("every sequence of four operations of two AES objects, six lengths");
}
// operators: operands other than the assigned one stay, results are objects of their own
template <class T> static void operators()
{
    if (!Toy<T>::require()) return;
    Toy<T> g; typedef typename T::Fp Fp; typedef typename T::Fn Fn; typedef typename T::P P; typedef typename T::C C;
    for (long i = 0; i < g.p; i++) {
        if (!mine()) continue;
        for (long j = 0; j < g.p; j++) twins(1, [&](Tw& t) {
            at("elements %ld %ld", i, j); Fp a{Z(i)}, b{Z(j)}; Fp acc = a;
            t("+", [](Fp& a, Fp& b) { return a + b; }, a, b); t("-", [](Fp& a, Fp& b) { return a - b; }, a, b); t("*", [](Fp& a, Fp& b) { return a * b; }, a, b); t("* integer", [](Fp& a, mpz_class& b) { return a * b; }, a, mpz_class(j - 3));
            t("-", [](Fp& a) { return -a; }, a); t("square", [](Fp& a) { return a.square(); }, a); t("==", [](Fp& a, Fp& b) { return a == b; }, a, b); t("getRawValue", [](Fp& a) { return a.getRawValue(); }, a); t("getField", [](Fp& a) { return a.getField(); }, a);
            if (j) { t("/", [](Fp& a, Fp& b) { return a / b; }, a, b); t("invert", [](Fp& b) { return b.invert(); }, b); }
            t("+=", [&](Fp& b) { acc += b; }, b); t.note("value", acc); t("-=", [&](Fp& b) { acc -= b; }, a); t.note("value", acc); t("*=", [&](Fp& b) { acc *= b; }, a); t.note("value", acc); t("*= integer", [&](mpz_class& b) { acc *= b; }, mpz_class(j)); t.note("value", acc); if (j) { t("/=", [&](Fp& b) { acc /= b; }, b); t.note("value", acc); }
            t("=", [&](Fp& b) { acc = b; }, b); t.note("value", acc); t("construct", [&](mpz_class& z) { return Fn(z); }, mpz_class(j)); t("copy", [&](Fp& z) { return Fp(z); }, b);
        });
    }
    for (long i = 0; i < g.n; i++) {
        if (!mine()) continue;
        for (long j = 0; j < g.n; j++) twins(1, [&](Tw& t) {
            at("points %ld %ld", i, j); P a = g.pt(i), b = g.pt(j), acc = a; C& c = *g.curve; Fn s{Z(j)};
            t("+", [](P& a, P& b) { return a + b; }, a, b); t("-", [](P& a, P& b) { return a - b; }, a, b); t("* integer", [](P& a, mpz_class& k) { return a * k; }, a, mpz_class(j - 2)); t("* scalar", [](P& a, Fn& k) { return a * k; }, a, s); t("pointDouble", [](P& a) { return a.pointDouble(); }, a);
            t("==", [](P& a, P& b) { return a == b; }, a, b); t("isValid", [](P& a) { return a.isValid(); }, a); t("getX", [](P& a) { return a.getX(); }, i ? a : c.getDefaultGen()); t("getY", [](P& a) { return a.getY(); }, i ? a : c.getDefaultGen());
            if (i) { mpz_class e = t("getEncodedX", [](P& a) { return a.getEncodedX(); }, a); P q; q.curve = &c; t("setEncodedX", [&](mpz_class& e) { q.setEncodedX(e); }, e); t.note("value", q); t("evaluateP", [&](Fp& x) { return c.evaluateP(x); }, a.getX()); t("evaluatePneg", [&](Fp& x) { return c.evaluatePneg(x); }, a.getX()); t("evaluatePy2", [&](Fp& x) { return c.evaluatePy2(x); }, a.getX());
                t("Point(integers)", [&](mpz_class& x, mpz_class& y) { return P(x, y, &c); }, a.getX().getRawValue(), a.getY().getRawValue()); t("Point(elements)", [&](Fp& x, Fp& y) { return P(x, y, &c); }, a.getX(), a.getY());
                t("Point(strings)", [&](string& x, string& y) { return P(x, y, &c, 10); }, a.getX().getRawValue().get_str(), a.getY().getRawValue().get_str()); t("Point(text)", [&](string& x, string& y) { return P(x.c_str(), y.c_str(), &c, 16); }, a.getX().getRawValue().get_str(16), a.getY().getRawValue().get_str(16)); }
            t("+=", [&](P& b) { acc += b; }, b); t.note("value", acc); t("-=", [&](P& b) { acc -= b; }, a); t.note("value", acc); t("=", [&](P& b) { acc = b; }, b); t.note("value", acc); t("copy", [](P& b) { return P(b); }, b);
        });
    }
}
PART(c38_ops) { if (toy_secp.on) operators<Secp>(); if (toy_bn.on) operators<Bn>(); sample("every operator on every pair of elements and of points of the small instances"); }
