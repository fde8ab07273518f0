// C29: ElGamal.
#include "grp.hpp"
#include "alpha.hpp"
#include "ecref.hpp"
#include "elgamal.hpp"
using namespace mc;
using namespace elgamal;
typedef Toy<Secp> TS;
// points on the complete table: every key, message and randomness
PART(c29_points)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    for (long sk = 0; sk < n; sk++) for (long m = 0; m < n; m++) {
        if (!mine()) continue;
        ElGamal e; E.reset(); E.tree = true; Explorer ex; Dist<std::pair<long, long>> d; POINT M = t.pt(m), pk = t.pt(sk);
        ex.run([&] {
            E.counter = 0; at("key %ld message %ldG", sk, m);
            ctxt_t c = e.encrypt(pk, M); step();
            long u = t.idx(c.u), v = t.idx(c.mv);
            MC_CHECK(u >= 0 && v >= 0 && md(v - sk * u, n) == m, "key %ld, message %ldG: ciphertext (%s, %s)", sk, m, show(c.u).c_str(), show(c.mv).c_str());
            POINT r = c.mv - c.u * FIELD_n(Z(sk)); MC_CHECK(t.idx(r) == m, "key %ld: %ldG is recovered as %s", sk, m, show(r).c_str());
            MC_CHECK(t.idx(M) == m && t.idx(pk) == sk, "encrypt changed an argument");
            d.add({u, v}); state(); outcome(u * n + v); });
        E.tree = false;
        if (!E.big_seen) MC_CHECK(d.flat() && (long)d.size() == n, "key %ld, message %ldG: the %zu ciphertexts over all randomness are not uniform", sk, m, d.size());
    }
    sample("every key, message point and encryption randomness in a group of order %ld", n);
}
PART(c29_keygen)
{
    if (!TS::require() || !mine()) return;
    TS t; ElGamal e; E.reset(); E.tree = true; Explorer ex; Dist<long> d; Dist<std::pair<long, long>> d2;
    ex.run([&] { E.counter = 0; at("keyGen"); keypair_t k = e.keyGen(); step(); long s = k.sk.getRawValue().get_si(); MC_CHECK(t.idx(k.pk) == s, "public key of secret %ld is %s", s, show(k.pk).c_str()); d.add(s); state(); });
    MC_CHECK(d.flat() && (long)d.size() == t.n, "the secret key is not uniform: %zu values of %ld", d.size(), t.n);
    ex.run([&] { E.counter = 0; ElGamal f; keypair_t k = e.keyGen(), l = f.keyGen(); step(2); d2.add({k.sk.getRawValue().get_si(), l.sk.getRawValue().get_si()}); MC_CHECK(t.idx(k.pk) == k.sk.getRawValue().get_si() && t.idx(l.pk) == l.sk.getRawValue().get_si(), "public key does not match"); state(); });
    MC_CHECK(d2.flat() && (long)d2.size() == t.n * t.n, "two key pairs are not independent");
    // two encryptions: fresh randomness
    Dist<std::pair<long, long>> d3;
    ex.run([&] { E.counter = 0; ctxt_t a = e.encrypt(t.pt(2), t.pt(1)), b = e.encrypt(t.pt(2), t.pt(1)); step(2); d3.add({t.idx(a.u), t.idx(b.u)}); });
    MC_CHECK(d3.flat() && (long)d3.size() == t.n * t.n, "two encryptions do not use independent randomness");
    E.tree = false; sample("the exact distribution of key pairs and of pairs of encryptions");
}
static bool ready(bool toy)
{
    if (toy != toy_secp.on) return false;
    if (toy && (!EcRef::ok<FIELD_p>() || FIELD_n(mpz_class(0)).getField() != toy_secp.n)) { note("toy substitution not in effect"); R.exhaustive = false; return false; }
    return true;
}
static std::vector<mpz_class> messages(const mpz_class& p, int level)
{
    ZSet s; mpz_class lim; mpz_fdiv_q_2exp(lim.get_mpz_t(), p.get_mpz_t(), 20);
    for (int i = 0; i < (level ? 64 : 8); i++) { s.add(i); s.add(lim - 1 - i); s.add(lim / 2 + i); }
    for (size_t e = 0; pow2(e) < lim; e += (level ? 1 : 9)) for (int d = -1; d <= 1; d++) { mpz_class z = pow2(e) + d; if (z >= 0 && z < lim) s.add(z); }
    return s.v;
}
static void ints(bool toy)
{
    if (!ready(toy)) return;
    EcRef e; auto ms = messages(e.p, toy || R.thorough() ? 1 : 0);
    std::vector<mpz_class> sks = {1, 2, e.n - 1, e.n / 2, e.n / 3, 0}, rs = {0, 1, e.n - 1, 2, e.n / 2};
    for (size_t i = 0; i < ms.size(); i++) {
        if (!mine()) continue;
        ElGamal g;
        for (size_t k = 0; k < sks.size(); k++) {
            if (!toy && !R.thorough() && k != i % sks.size()) continue;
            E.reset(i * 7 + k); E.override_[0] = sks[k]; keypair_t kp = g.keyGen(); step();
            MC_CHECK(EcRef::from(kp.pk) == e.mul(e.G(), kp.sk.getRawValue()), "public key of secret %s is %s", hxz(kp.sk.getRawValue()).c_str(), show(kp.pk).c_str());
            for (int r = -1; r < (int)rs.size(); r++) {
                at("message #%ld key #%ld randomness #%ld", i, k, (long)r);
                E.reset(i + r + 3); if (r >= 0) E.override_[0] = rs[r];
                ctxt_t c = g.encrypt(kp.pk, ms[i]); mpz_class d = g.decrypt(kp.sk, c); step(2); state();
                MC_CHECK(d == ms[i], "%s encrypted under the key of secret %s decrypts to %s", hxz(ms[i]).c_str(), hxz(kp.sk.getRawValue()).c_str(), hxz(d).c_str());
                MC_CHECK(e.on(EcRef::from(c.u)) && e.on(EcRef::from(c.mv)), "the ciphertext is not on the curve");
                outcome(d);
            }
        }
        exec();
    }
    sample("%zu integer messages over the whole range, boundary keys and randomness", ms.size());
}
// long runs of related messages on one object, with a short key and short randomness
PART(c29_runs)
{
    if (!ready(toy_secp.on)) return;
    EcRef e; mpz_class lim; mpz_fdiv_q_2exp(lim.get_mpz_t(), e.p.get_mpz_t(), 20);
    long len = R.thorough() ? 12000 : 2500; std::vector<mpz_class> base = {0, lim - 8 * len, lim / 3, pow2(64) - len / 2, pow2(100) * 77, pow2(128) - 3};
    for (size_t b = 0; b < base.size(); b++) for (int shape = 0; shape < 8; shape++) {
        if (!mine()) continue;
        ElGamal g; E.reset(b * 8 + shape + 1); E.override_[0] = 3; keypair_t k = g.keyGen();
        for (long i = 0; i < len; i++) {
            long o = shape == 0 ? i : shape == 1 ? len - i : shape == 2 ? i / 2 : shape == 3 ? i / 2 + i % 2 : shape == 4 ? 2 * i : shape == 5 ? 7 * i : shape == 6 ? (i % 2 ? i : len + i) : i / 3 + (i % 3 == 2 ? len : 0);
            mpz_class m = base[b] + o; at("base %ld shape %ld step %ld", b, (long)shape, i); if (m >= lim) continue;
            E.reset(i + 1); E.override_[0] = 2 + i % 5; ctxt_t c = g.encrypt(k.pk, m); mpz_class d = g.decrypt(k.sk, c); step(2); state();
            MC_CHECK(d == m, "%s encrypted under the key of secret %s decrypts to %s", hxz(m).c_str(), hxz(k.sk.getRawValue()).c_str(), hxz(d).c_str());
        }
        exec(); outcome(b * 8 + shape);
    }
    sample("runs of %ld related messages from %zu bases", len, base.size());
}
PART(c29_ints) { ints(true); }
PART(c29_real) { ints(false); }
PART(c29_small)
{
    if (!ready(true)) return;
    u64 top = R.thorough() ? 1u << 14 : 1u << 11; EcRef e;
    for (u64 b = 0; b < 32; b++) { if (!mine()) continue; ElGamal g; E.reset(b); keypair_t k = g.keyGen(); for (u64 m = b; m < top; m += 32) { at("message %ld", m); ctxt_t c = g.encrypt(k.pk, mpz_class((unsigned long)m)); mpz_class d = g.decrypt(k.sk, c); step(2); state(); MC_CHECK(d == (unsigned long)m, "%llu decrypts to %s", (unsigned long long)m, hxz(d).c_str()); } exec(); }
    sample("every message below %llu", (unsigned long long)top);
}
// sequences over two objects, two keys, points and integers; earlier ciphertexts are decrypted again after every step
PART(c29_seq)
{
    if (toy_secp.on ? !ready(true) : !ready(false)) return;
    EcRef e; int depth = toy_secp.on ? (R.thorough() ? 5 : 4) : 3; mpz_class lim; mpz_fdiv_q_2exp(lim.get_mpz_t(), e.p.get_mpz_t(), 20);
    std::vector<mpz_class> iv = {0, 1, lim - 1, mpz_class(lim / 3)};
    for (int o0 = 0; o0 < 10; o0++) for (int o1 = 0; o1 < (toy_secp.on ? 10 : 1); o1++) {
        if (!mine()) continue;
        Explorer ex;
        ex.run([&] {
            at("first operations %ld %ld", (long)o0, (long)o1); E.reset(o0 * 10 + o1 + 2);
            ElGamal g[2]; keypair_t k[2] = {g[0].keyGen(), g[1].keyGen()};
            struct C { ctxt_t c; skey_t sk; bool isint; mpz_class m; EcRef::Q q; }; std::vector<C> cs;
            for (int i = 0; i < depth; i++) {
                long op = i == 0 ? o0 : i == 1 && toy_secp.on ? o1 : choose(10); int o = op & 1, kk = op >> 1 & 1;
                if (op >= 8) k[o] = g[o].keyGen();
                else if (op < 4) { C c; c.isint = true; c.m = iv[(i + op) % 4]; c.sk = k[kk].sk; c.c = g[o].encrypt(k[kk].pk, c.m); cs.push_back(c); }
                else { C c; c.isint = false; static CURVE cv; POINT P = i == 0 ? POINT() : cv.getDefaultGen() * mpz_class(i * 7 + op); c.q = EcRef::from(P); c.sk = k[kk].sk; c.c = g[o].encrypt(k[kk].pk, P); cs.push_back(c); }
                step();
                for (auto& c : cs) { if (c.isint) { mpz_class d = g[o].decrypt(c.sk, c.c); MC_CHECK(d == c.m, "after %d operations %s decrypts to %s", i + 1, hxz(c.m).c_str(), hxz(d).c_str()); } else MC_CHECK(EcRef::from(c.c.mv - c.c.u * c.sk) == c.q, "after %d operations a point is not recovered", i + 1); step(); }
                for (size_t a = 0; a < cs.size(); a++) for (size_t b = 0; b < a; b++) MC_CHECK(!(EcRef::from(cs[a].c.u) == EcRef::from(cs[b].c.u)), "two encryptions use the same randomness");
            }
            state();
        });
        if (o0 == 0 && o1 == 0) sample("sequences of %d operations on two objects and two keys", depth);
    }
}
