#pragma once
#include "mc.hpp"
#include "alpha.hpp"
// CRC-32C from its definition: reflected polynomial 0x1EDC6F41, one bit at a time
inline uint32_t ref_crc(uint32_t c, const uint8_t* b, size_t n)
{
    static uint32_t tab[256]; static bool init = false;
    if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t r = i; for (int k = 0; k < 8; k++) r = r & 1 ? (r >> 1) ^ 0x82F63B78u : r >> 1; tab[i] = r; } init = true; }
    for (size_t i = 0; i < n; i++) c = tab[(c ^ b[i]) & 0xff] ^ (c >> 8);
    return c;
}
inline std::vector<uint8_t> zbytes(const mpz_class& z, size_t min_len = 0)
{
    size_t n = z == 0 ? 0 : (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8;
    std::vector<uint8_t> r(n < min_len ? min_len : n);
    size_t m = r.size();
    for (size_t i = 0; i < n; i++) r[m - 1 - i] = mpz_getlimbn(z.get_mpz_t(), i / 8) >> (8 * (i % 8)) & 0xff;
    return r;
}
inline mpz_class bytesz(const uint8_t* b, size_t n) 
{
    mpz_class r = 0; size_t m = (n + 7) / 8;
    if (!m) return r;
    mp_limb_t* l = mpz_limbs_write(r.get_mpz_t(), m); memset(l, 0, 8 * m);
    for (size_t i = 0; i < n; i++) l[i / 8] |= (mp_limb_t)b[n - 1 - i] << (8 * (i % 8));
    mpz_limbs_finish(r.get_mpz_t(), m);
    return r;
}
inline bool ref_valid(const std::vector<uint8_t>& f) // f has at least 4 bytes
{
    size_t n = f.size() - 4;
    uint32_t v = f[n] | f[n + 1] << 8 | f[n + 2] << 16 | (uint32_t)f[n + 3] << 24;
    return ref_crc(0, f.data(), n) == v;
}
inline mpz_class ref_frame(const mpz_class& n)
{
    auto b = zbytes(n); uint32_t c = ref_crc(0, b.data(), b.size());
    mpz_class r = n; for (int i = 0; i < 4; i++) { r <<= 8; r += (c >> (8 * i)) & 0xff; }
    return r;
}
// deterministic content of a given byte length, top byte non-zero
inline mpz_class pattern(size_t len, int kind)
{
    mpz_class r = 0;
    for (size_t i = 0; i < len; i++) {
        unsigned v = kind == 0 ? mc::mix(i * 31 + len) & 0xff : kind == 1 ? 0xff : kind == 2 ? 0 : kind == 3 ? (i & 1 ? 0 : 0x80) : kind == 4 ? (i * 37 + 1) & 0xff : mc::mix(i + kind * 1000003) & 0xff;
        if (i == 0 && v == 0) v = 1;
        r <<= 8; r += v;
    }
    return r;
}
