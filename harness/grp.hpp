// Reference models of the curve groups.
//  Toy<T>:  a complete table of a small prime-order curve, computed with machine integers only.
//  Real<T>: the standard curve, computed by OpenSSL's EC code.
#pragma once
#include "mc.hpp"
#include "ecc_secp256r1.hpp"
#include "ecc_bn254.hpp"
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/obj_mac.h>

struct Secp {
    typedef ecc::Curve_secp256r1 C; typedef ecc::Point_secp256r1 P;
    typedef field::Field_secp256r1_p Fp; typedef field::Field_secp256r1_n Fn;
    static const char* name() { return "secp256r1"; }
    static const char* hex(int i)
    {
        static const char* v[] = {"ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
            "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc",
            "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
            "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
            "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
            "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"};
        return v[i];
    }
    static mc::ToyParams& toy() { return mc::toy_secp; }
};
struct Bn {
    typedef ecc::Curve_bn254 C; typedef ecc::Point_bn254 P;
    typedef field::Field_bn254_p Fp; typedef field::Field_bn254_n Fn;
    static const char* name() { return "bn254"; }
    static const char* hex(int i)
    {
        static const char* v[] = {"2523648240000001BA344D80000000086121000000000013A700000000000013",
            "0", "2",
            "2523648240000001BA344D80000000086121000000000013A700000000000012", "1",
            "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D"};
        return v[i];
    }
    static mc::ToyParams& toy() { return mc::toy_bn; }
};

inline long md(long x, long p) { x %= p; return x < 0 ? x + p : x; }
inline long pw(long b, long e, long p) { long r = 1; b = md(b, p); while (e) { if (e & 1) r = r * b % p; b = b * b % p; e >>= 1; } return r; }
inline long inv(long a, long p) { return pw(a, p - 2, p); }
inline mpz_class Z(long v) { return mpz_class(v); }

template <class T> struct Toy {
    typedef typename T::P P; typedef typename T::C C; typedef typename T::Fp Fp; typedef typename T::Fn Fn;
    long p, a, b, n;
    std::vector<std::pair<long, long>> pts;     // pts[k] = k*G for k = 1..n-1; index 0 is infinity
    std::unordered_map<long, long> id;
    C* curve = nullptr;

    static bool avail()
    {
        if (!T::toy().on) return false;
        // the substitution must actually be in effect in the library
        if (Fp(mpz_class(0)).getField() != T::toy().p) return false;
        if (Fn(mpz_class(0)).getField() != T::toy().n) return false;
        C c;
        return c.getPrime() == T::toy().p && c.getOrder() == T::toy().n && c.getDefaultGen().getX().getRawValue() == T::toy().gx;
    }
    // called by every part that needs a toy curve: a part without its curve explores nothing and says so
    static bool require()
    {
        if (avail()) return true;
        if (!T::toy().on) return false;      // this job substitutes the other curve only
        mc::note("toy substitution for %s not in effect: part skipped", T::name());
        mc::R.exhaustive = false;
        return false;
    }
    Toy()
    {
        p = T::toy().p.get_si(); a = T::toy().a.get_si(); b = T::toy().b.get_si(); n = T::toy().n.get_si();
        pts.resize(n);
        long gx = T::toy().gx.get_si(), gy = T::toy().gy.get_si();
        pts[0] = {-1, -1};
        if (n > 1) pts[1] = {gx, gy};
        for (long k = 2; k < n; k++) {
            pts[k] = add_xy(pts[k - 1], pts[1]);
            if (pts[k].first < 0) { fprintf(stderr, "toy order wrong\n"); exit(2); }
        }
        if (n > 2 && add_xy(pts[n - 1], pts[1]).first >= 0) { fprintf(stderr, "toy order wrong (n)\n"); exit(2); }
        for (long k = 1; k < n; k++) id[key(pts[k].first, pts[k].second)] = k;
        curve = new C;
    }
    long key(long x, long y) const { return x * p + y; }
    std::pair<long, long> add_xy(std::pair<long, long> A, std::pair<long, long> B) const
    {
        if (A.first < 0) return B;
        if (B.first < 0) return A;
        long l;
        if (A.first == B.first) {
            if (md(A.second + B.second, p) == 0) return {-1, -1};
            l = md(md(3 * (A.first * A.first % p) + a, p) * inv(2 * A.second, p), p);
        } else
            l = md(md(B.second - A.second, p) * inv(md(B.first - A.first, p), p), p);
        long x = md(l * l - A.first - B.first, p);
        return {x, md(l * md(A.first - x, p) - A.second, p)};
    }
    P pt(long k) const
    {
        k = md(k, n);
        if (k == 0) return P();
        return P(Z(pts[k].first), Z(pts[k].second), curve);
    }
    // discrete logarithm of a library point; -1: not a canonical group element
    template <class Q> long idx(const Q& q) const
    {
        if (q.isInf()) return 0;
        mpz_class x = q.getX().getRawValue(), y = q.getY().getRawValue();
        if (x < 0 || y < 0 || x >= p || y >= p) return -1;
        auto it = id.find(key(x.get_si(), y.get_si()));
        return it == id.end() ? -1 : it->second;
    }
};

template <class T> std::string show(const T& q)
{
    if (q.isInf()) return "inf";
    return "(" + q.getX().getRawValue().get_str() + "," + q.getY().getRawValue().get_str() + ")";
}
inline std::string hx(const mpz_class& z) { return "0x" + z.get_str(16); }

template <class T> struct Real {
    typedef typename T::P P; typedef typename T::C C;
    mpz_class p, a, b, gx, gy, n;
    EC_GROUP* g; BN_CTX* ctx; C* curve;
    struct XY { bool inf; mpz_class x, y; };
    static BIGNUM* bn(const mpz_class& z) { BIGNUM* r = nullptr; BN_hex2bn(&r, z.get_str(16).c_str()); return r; }
    static mpz_class zz(const BIGNUM* b) { char* s = BN_bn2hex(b); mpz_class r; mpz_class z; r = 0; for (char* c = s; *c; c++) { int d = *c == '-' ? 0 : (*c <= '9' ? *c - '0' : (*c | 32) - 'a' + 10); r = r * 16 + d; } OPENSSL_free(s); return r; }
    static mpz_class parse(const char* h) { mpz_class r = 0; for (; *h; h++) r = r * 16 + (*h <= '9' ? *h - '0' : (*h | 32) - 'a' + 10); return r; }
    Real()
    {
        mpz_class* f[] = {&p, &a, &b, &gx, &gy, &n};
        for (int i = 0; i < 6; i++) *f[i] = parse(T::hex(i));
        ctx = BN_CTX_new();
        BIGNUM *P_ = bn(p), *A_ = bn(a), *B_ = bn(b), *X_ = bn(gx), *Y_ = bn(gy), *N_ = bn(n), *one = bn(mpz_class(1));
        g = EC_GROUP_new_curve_GFp(P_, A_, B_, ctx);
        EC_POINT* G = EC_POINT_new(g);
        if (!g || !EC_POINT_set_affine_coordinates(g, G, X_, Y_, ctx) || !EC_GROUP_set_generator(g, G, N_, one)) { fprintf(stderr, "oracle curve\n"); exit(2); }
        curve = new C;
    }
    EC_POINT* to(const XY& q) const
    {
        EC_POINT* r = EC_POINT_new(g);
        if (q.inf) { EC_POINT_set_to_infinity(g, r); return r; }
        BIGNUM *x = bn(q.x), *y = bn(q.y);
        if (!EC_POINT_set_affine_coordinates(g, r, x, y, ctx)) { EC_POINT_free(r); r = nullptr; }
        BN_free(x); BN_free(y);
        return r;
    }
    XY from(EC_POINT* q) const
    {
        XY r{true, 0, 0};
        if (!EC_POINT_is_at_infinity(g, q)) {
            BIGNUM *x = BN_new(), *y = BN_new();
            EC_POINT_get_affine_coordinates(g, q, x, y, ctx);
            r = XY{false, zz(x), zz(y)};
            BN_free(x); BN_free(y);
        }
        EC_POINT_free(q);
        return r;
    }
    mpz_class redn(const mpz_class& k) const { mpz_class r; mpz_mod(r.get_mpz_t(), k.get_mpz_t(), n.get_mpz_t()); return r; }
    XY mulG(const mpz_class& k) const { EC_POINT* r = EC_POINT_new(g); BIGNUM* b_ = bn(redn(k)); EC_POINT_mul(g, r, b_, nullptr, nullptr, ctx); BN_free(b_); return from(r); }
    XY mul(const XY& q, const mpz_class& k) const
    {
        EC_POINT *r = EC_POINT_new(g), *Q = to(q); BIGNUM* b_ = bn(redn(k));
        EC_POINT_mul(g, r, nullptr, Q, b_, ctx); BN_free(b_); EC_POINT_free(Q); return from(r);
    }
    XY add(const XY& u, const XY& v) const { EC_POINT *r = EC_POINT_new(g), *A = to(u), *B = to(v); EC_POINT_add(g, r, A, B, ctx); EC_POINT_free(A); EC_POINT_free(B); return from(r); }
    XY neg(const XY& u) const { if (u.inf) return u; return XY{false, u.x, u.y == 0 ? mpz_class(0) : mpz_class(p - u.y)}; }
    P pt(const XY& q) const { return q.inf ? P() : P(q.x, q.y, curve); }
    template <class Q> static bool same(const Q& q, const XY& r)
    {
        if (q.isInf() != r.inf) return false;
        return r.inf || (q.getX().getRawValue() == r.x && q.getY().getRawValue() == r.y);
    }
    static std::string show(const XY& q) { return q.inf ? "inf" : "(" + q.x.get_str(16) + "," + q.y.get_str(16) + ")"; }
    // true if the library is running on the standard parameters
    static bool require() { return !T::toy().on; }
};
