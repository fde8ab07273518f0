// Affine short-Weierstrass arithmetic over GMP integers, written from the textbook formulas: the reference for results of
// protocols that run on curves too large for a table.
#pragma once
#include "mc.hpp"
struct EcRef {
    mpz_class p, a, b, gx, gy, n;
    struct Q { bool inf; mpz_class x, y; bool operator==(const Q& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
    static mpz_class hex(const char* h) { mpz_class r = 0; for (; *h; h++) r = r * 16 + (*h <= '9' ? *h - '0' : (*h | 32) - 'a' + 10); return r; }
    EcRef()
    {
        const mc::ToyParams& t = mc::toy_secp;
        if (t.on) { p = t.p; a = t.a; b = t.b; gx = t.gx; gy = t.gy; n = t.n; return; }
        p = hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"); a = p - 3;
        b = hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b");
        gx = hex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"); gy = hex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5");
        n = hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
    }
    mpz_class m(const mpz_class& z) const { mpz_class r; mpz_mod(r.get_mpz_t(), z.get_mpz_t(), p.get_mpz_t()); return r; }
    mpz_class iv(const mpz_class& z) const { mpz_class r; mpz_invert(r.get_mpz_t(), z.get_mpz_t(), p.get_mpz_t()); return r; }
    Q O() const { return {true, 0, 0}; }
    Q G() const { return {false, gx, gy}; }
    bool on(const Q& q) const { return q.inf || (q.x >= 0 && q.x < p && q.y >= 0 && q.y < p && m(q.y * q.y - q.x * q.x * q.x - a * q.x - b) == 0); }
    Q neg(const Q& q) const { return q.inf ? q : Q{false, q.x, m(-q.y)}; }
    Q add(const Q& u, const Q& v) const
    {
        if (u.inf) return v;
        if (v.inf) return u;
        mpz_class l;
        if (u.x == v.x) { if (m(u.y + v.y) == 0) return O(); l = m((3 * u.x * u.x + a) * iv(m(2 * u.y))); }
        else l = m((v.y - u.y) * iv(m(v.x - u.x)));
        mpz_class x = m(l * l - u.x - v.x);
        return {false, x, m(l * (u.x - x) - u.y)};
    }
    Q mul(const Q& q, const mpz_class& k0) const
    {
        mpz_class k = k0; Q r = O(), b_ = q; if (k < 0) { k = -k; b_ = neg(q); }
        for (long i = (long)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, b_); }
        return r;
    }
    template <class P> static Q from(const P& q) { if (q.isInf()) return {true, 0, 0}; return {false, q.getX().getRawValue(), q.getY().getRawValue()}; }
    static std::string show(const Q& q) { return q.inf ? "inf" : "(0x" + q.x.get_str(16) + ",0x" + q.y.get_str(16) + ")"; }
    // is the library running on these parameters?
    template <class F> static bool ok() { return !mc::toy_secp.on || F(mpz_class(0)).getField() == mc::toy_secp.p; }
};
