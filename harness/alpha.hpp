// Structured alphabets of large integers: every combination of boundary limbs, neighbourhoods of powers of two and of
// a modulus, inverses and fractions of small numbers, and families that agree on most of their representation.
#pragma once
#include "mc.hpp"
inline std::string hxz(const mpz_class& z) { std::string s = z.get_str(16); return s.size() > 200 ? "0x" + s.substr(0, 100) + "...(" + std::to_string(s.size()) + " digits)" : "0x" + s; }
inline mpz_class U64(uint64_t v) { mpz_class r = (unsigned long)(v >> 32); r <<= 32; r += (unsigned long)(v & 0xffffffffu); return r; }
inline mpz_class pow2(unsigned long e) { mpz_class r = 1; r <<= e; return r; }
inline mpz_class modz(const mpz_class& a, const mpz_class& m) { mpz_class r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
inline mpz_class invz(const mpz_class& a, const mpz_class& m) { mpz_class r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
struct ZSet {
    std::vector<mpz_class> v;
    std::set<std::string> seen;
    void add(const mpz_class& z) { if (seen.insert(z.get_str(62)).second) v.push_back(z); }
};
inline void limb_patterns(ZSet& s, const std::vector<uint64_t>& limbs, int n, const mpz_class& mod)
{
    size_t tot = 1; for (int i = 0; i < n; i++) tot *= limbs.size();
    for (size_t c = 0; c < tot; c++) {
        mpz_class z = 0; size_t k = c;
        for (int i = 0; i < n; i++) { z <<= 64; z += U64(limbs[k % limbs.size()]); k /= limbs.size(); }
        s.add(mod == 0 ? z : modz(z, mod));
    }
}
// residues of m on which arithmetic is most likely to go wrong
inline std::vector<mpz_class> residues(const mpz_class& m, int level)
{
    ZSet s;
    for (int i = 0; i < (level > 1 ? 40 : 12); i++) { s.add(modz(i, m)); s.add(modz(m - i, m)); s.add(modz(m / 2 + i, m)); s.add(modz(m / 2 - i, m)); }
    std::vector<uint64_t> l = {0, 1, ~0ull};
    if (level >= 1) { l.push_back(1ull << 63); l.push_back(1ull << 32); }
    if (level >= 2) { l.push_back(0xffffffffull); l.push_back(0x8000000080000000ull); }
    limb_patterns(s, l, 4, m);
    size_t nb = mpz_sizeinbase(m.get_mpz_t(), 2);
    size_t stepb = level >= 1 ? 1 : 8;
    for (size_t e = 0; e <= nb; e += stepb) { s.add(modz(pow2(e), m)); if (level >= 2) { s.add(modz(pow2(e) - 1, m)); s.add(modz(pow2(e) + 1, m)); s.add(modz(m - pow2(e), m)); } }
    for (int k = 2; k < (level >= 1 ? 20 : 6); k++) { s.add(modz(m / k, m)); s.add(modz(m / k + 1, m)); s.add(invz(mpz_class(k), m)); s.add(modz(-invz(mpz_class(k), m), m)); }
    mpz_class r; mpz_sqrt(r.get_mpz_t(), m.get_mpz_t());
    for (int i = -2; i <= 2; i++) s.add(modz(r + i, m));
    return s.v;
}
// families that coincide in all but one limb
inline std::vector<mpz_class> lookalikes(const mpz_class& m)
{
    ZSet s;
    mpz_class base("123456789abcdef0fedcba9876543210123456789abcdef0fedcba987654321", 16);
    base = modz(base, m / 4);
    s.add(base);
    for (int l = 0; l < 4; l++) { mpz_class t = base ^ pow2(64 * l + 5); s.add(modz(t, m)); }
    s.add(modz(base ^ pow2(247), m));
    s.add(modz(m - base, m));
    s.add(modz(base + 1, m));
    mpz_class low; mpz_tdiv_r_2exp(low.get_mpz_t(), base.get_mpz_t(), 64); s.add(low);
    mpz_tdiv_r_2exp(low.get_mpz_t(), base.get_mpz_t(), 32); s.add(low);
    s.add(0); s.add(1); s.add(m - 1);
    return s.v;
}
// dense integers of many limbs and both signs
inline std::vector<mpz_class> hugeints(int level)
{
    ZSet s;
    std::vector<int> limbs; for (int l = 4; l <= 18; l++) limbs.push_back(l);
    for (int l : {20, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 79, 80, 95, 96, 97, 127, 128, 129, 160, 200, 255, 256, 257}) limbs.push_back(l);
    if (level) for (int l : {300, 383, 384, 385, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 1600, 2048}) limbs.push_back(l);
    for (int l : limbs) for (int kind = 0; kind < 5; kind++) for (int off : {0, 1, 31}) {
        mpz_class z = 0;
        for (int i = 0; i < l; i++) { unsigned long w = kind == 0 ? mc::mix(i * 977 + l * 31 + off) : kind == 1 ? ~0ul : kind == 2 ? (i == 0 || i == l - 1) : kind == 3 ? (i < l / 2 ? mc::mix(i + 5) : 0) : (i % 3 ? 0 : mc::mix(i * 7 + 1)); z <<= 64; z += mpz_class(w); }
        if (z == 0) z = 1;
        z >>= off; s.add(z); s.add(-z);
    }
    return s.v;
}
// integers of every sign and size, far beyond the modulus included
inline std::vector<mpz_class> integers(const mpz_class& m, int level)
{
    ZSet s;
    for (auto& z : residues(m, level >= 1 ? 1 : 0)) { s.add(z); s.add(-z); }
    for (int k = 1; k <= 5; k++) for (int d = -3; d <= 3; d++) { s.add(m * k + d); s.add(-m * k + d); }
    for (int k = 1; k <= 3; k++) for (int d = -1; d <= 1; d++) { mpz_class sq = m * m * k + d; s.add(sq); s.add(-sq); s.add(sq * m); s.add(-sq * m); }
    for (unsigned e = 0; e < 700; e += (level >= 1 ? 1 : 7)) for (int d = -1; d <= 1; d++) { s.add(pow2(e) + d); s.add(-pow2(e) + d); }
    for (unsigned e : {1024u, 1536u, 2048u, 2560u, 4096u}) { s.add(pow2(e)); s.add(-pow2(e)); s.add(pow2(e) - 1); s.add(m * pow2(e)); s.add(-m * pow2(e)); s.add(m * pow2(e) + 1); s.add(m * pow2(e) - 1); }
    for (auto& z : hugeints(level)) s.add(z);
    return s.v;
}
// sizes of large collections: every small one, powers of two and of ten and their neighbours
inline std::vector<long> manysizes(long dense, long top)
{
    std::set<long> s; for (long i = 1; i <= dense; i++) s.insert(i);
    for (long b = 16; b <= top; b *= 2) for (long d = -1; d <= 2; d++) { s.insert(b + d); s.insert(b + b / 2 + d); }
    for (long b = 100; b <= top; b *= 10) for (long k = 1; k < 10 && b * k <= top; k++) for (long d = -1; d <= 1; d++) s.insert(b * k + d);
    while (*s.rbegin() > top + 2) s.erase(*s.rbegin());
    return std::vector<long>(s.begin(), s.end());
}
