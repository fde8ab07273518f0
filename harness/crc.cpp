// C17, C18: CRC framing.
#include "crcref.hpp"
#include <string.h>
#include "crc.hpp"
using namespace mc;
#if defined(__SANITIZE_ADDRESS__)
static const bool ASAN = true;
#else
static const bool ASAN = false;
#endif

// calls the implementation on bytes ending exactly at the end of a heap block, at the given alignment
struct Buf {
    uint8_t* raw; uint8_t* p; size_t n;
    Buf(size_t len, size_t off) : n(len) { raw = (uint8_t*)malloc(len + off ? len + off : 1); p = raw + off; }
    ~Buf() { free(raw); }
};
static void one(const Buf& b, uint32_t start, const char* what)
{
    uint32_t got = calculate_crc32c(start, b.p, b.n), want = ref_crc(start, b.p, b.n); step();
    MC_CHECK(got == want, "%s: CRC-32C of %zu bytes (address %% 16 = %zu, start %08x) is %08x, not %08x", what, b.n, (size_t)((uintptr_t)b.p & 15), start, got, want);
}
// every position and every byte value, all alignments: reaches every entry of every table
PART(c17_tables)
{
    size_t top = ASAN ? 24 : (R.thorough() ? 72 : 40);
    for (size_t off = 0; off < 16; off++) for (size_t len = 1; len <= top; len++) {
        if (!mine()) continue;
        Buf b(len, off);
        for (size_t pos = 0; pos < len; pos++) for (unsigned v = 0; v < 256; v += (ASAN ? 5 : 1)) {
            at("length %ld offset %ld position %ld value %ld", len, off, pos, (long)v);
            memset(b.p, 0, len); b.p[pos] = v;
            one(b, 0, "single byte"); if (v < 4) one(b, 0xffffffffu, "single byte");
            state();
        }
        exec(); outcome(len * 16 + off);
    }
    sample("every byte value at every position of buffers of up to %zu bytes at all 16 alignments", top);
}
// all lengths
PART(c17_lengths)
{
    size_t top = ASAN ? 400 : (R.thorough() ? 6000 : 1200);
    static const uint32_t starts[] = {0, 0xffffffffu, 1, 0x80000000u, 0x82F63B78u, 0x12345678u, 0xff, 0xff000000u};
    for (size_t len = 0; len <= top; len++) {
        if (!mine()) continue;
        for (size_t off = 0; off < 9; off++) {
            at("length %ld offset %ld", len, off);
            Buf b(len, off);
            for (int k = 0; k < 3; k++) {
                for (size_t i = 0; i < len; i++) b.p[i] = k == 0 ? mix(i + len * 7) & 0xff : k == 1 ? 0xff : 0;
                for (uint32_t s : starts) { one(b, s, "pattern"); state(); }
                auto keep = std::vector<uint8_t>(b.p, b.p + len);
                calculate_crc32c(7, b.p, len);
                MC_CHECK(!len || !memcmp(keep.data(), b.p, len), "the buffer was changed");
            }
            outcome(ref_crc(0, b.p, len));
        }
        exec();
    }
}
// all buffers of up to two bytes (three in the thorough tier), all start values of an alphabet
PART(c17_small)
{
    for (unsigned hi = 0; hi < 256; hi++) {
        if (!mine()) continue;
        at("small buffers %ld", (long)hi);
        Buf b1(1, 0), b2(2, 1), b3(3, 2);
        for (uint32_t s : {0u, 0xffffffffu, 0x82F63B78u}) {
            b1.p[0] = hi; one(b1, s, "one byte");
            for (unsigned lo = 0; lo < 256; lo++) {
                b2.p[0] = hi; b2.p[1] = lo; one(b2, s, "two bytes"); state();
                if (R.thorough() && !ASAN) for (unsigned x = 0; x < 256; x++) { b3.p[0] = hi; b3.p[1] = lo; b3.p[2] = x; one(b3, s, "three bytes"); state(); }
            }
        }
        // every start value whose bytes are of one kind: the register is fully mixed
        for (unsigned lo = 0; lo < 256; lo++) { b1.p[0] = 0; one(b1, hi << 24 | lo << 8, "start value"); one(b1, hi << 16 | lo, "start value"); }
        exec(); outcome(hi);
    }
}
// every way of cutting a buffer into two or three pieces
PART(c17_pieces)
{
    size_t top = ASAN ? 20 : (R.thorough() ? 64 : 36);
    for (size_t len = 0; len <= top; len++) for (size_t off = 0; off < 8; off++) {
        if (!mine()) continue;
        at("pieces length %ld offset %ld", len, off);
        Buf b(len, off);
        for (size_t i = 0; i < len; i++) b.p[i] = mix(i * 3 + off) & 0xff;
        for (uint32_t s : {0u, 0xffffffffu}) {
            uint32_t want = ref_crc(s, b.p, len);
            for (size_t i = 0; i <= len; i++) for (size_t j = i; j <= len; j++) {
                uint32_t c = calculate_crc32c(s, b.p, i); c = calculate_crc32c(c, b.p + i, j - i); c = calculate_crc32c(c, b.p + j, len - j); step(3); state();
                MC_CHECK(c == want, "%zu bytes at offset %zu cut at %zu and %zu: %08x, not %08x", len, off, i, j, c, want);
            }
        }
        exec(); outcome(len * 8 + off);
    }
    sample("all cuts into three pieces of buffers of up to %zu bytes at 8 alignments", top);
}
static void round_trip(const mpz_class& n)
{
    mpz_class keep = n, f = appendCRC(n); step();
    MC_CHECK(validateCRC(f), "the frame %s of %s does not validate", hxz(f).c_str(), hxz(n).c_str());
    mpz_class r = removeCRC(f); step(2); state();
    MC_CHECK(r == n && n == keep, "removing the checksum from the frame of %s gives %s", hxz(n).c_str(), hxz(r).c_str());
    outcome(f);
}
// every small integer
PART(c17_frames_small)
{
    u64 top = ASAN ? 1u << 14 : R.thorough() ? 1u << 27 : 1u << 22;
    u64 blk = top / 256;
    for (u64 b = 0; b < 256; b++) { if (!mine()) continue; for (u64 i = 0; i < blk; i++) { if (i % 4096 == 0) at("small integers from %ld", b * blk + i); round_trip(mpz_class((unsigned long)(b * blk + i))); } exec(); }
    sample("every integer below %llu", (unsigned long long)top);
}
// integers of every length
PART(c17_frames)
{
    size_t top = ASAN ? 300 : R.thorough() ? 3000 : 900;
    for (size_t len = 0; len <= top; len++) {
        if (!mine()) continue;
        at("integers of %ld bytes", len);
        for (int k = 0; k < 12; k++) round_trip(pattern(len, k));
        if (len) for (int d = -2; d <= 2; d++) { mpz_class z = pow2(8 * len) + d; round_trip(z); z = pow2(8 * len - 1) + d; if (z >= 0) round_trip(z); }
        // leading byte of every value, trailing zero bytes, and integers whose checksum has zero bytes
        if (len && len <= 40) for (unsigned v = 1; v < 256; v++) { mpz_class z = v; z <<= 8 * (len - 1); round_trip(z); round_trip(z + 1); }
        exec();
    }
    // nested frames
    if (mine()) { mpz_class z = 5; for (int i = 0; i < 60; i++) { mpz_class f = appendCRC(z); MC_CHECK(removeCRC(f) == z, "nested frame"); z = f; step(2); } for (int i = 0; i < 60; i++) { MC_CHECK(validateCRC(z), "nested frame %d does not validate", i); z = removeCRC(z); step(2); } MC_CHECK(z == 5, "nested frames do not unwind"); exec(); }
}
// integers whose checksum ends in or starts with zero bytes: found by construction from the reference
PART(c17_frames_zero)
{
    for (unsigned hi = 0; hi < 64; hi++) {
        if (!mine()) continue;
        at("zero checksum bytes block %ld", (long)hi);
        // n = hi.x where x is chosen such that the checksum takes a given value (all-zero, single bytes)
        for (unsigned v = 0; v < 64; v++) {
            uint32_t target = v < 16 ? (v ? 1u << (v * 2) : 0) : v < 48 ? 0xffu << ((v % 4) * 8) : v * 0x01010101u;
            // solve for four trailing bytes: the map is affine and invertible, invert it by processing backwards
            uint8_t b[12] = {1, (uint8_t)hi, 7, 9};
            uint32_t c = ref_crc(0, b, 4);
            // brute force over bytes, most significant table entry first
            uint32_t reg = target; uint8_t idx[4];
            for (int i = 3; i >= 0; i--) { unsigned j = 0; for (; j < 256; j++) { uint8_t z = j; uint32_t t = ref_crc(0, &z, 1); if ((t >> 24) == (reg >> 24)) break; } uint8_t z = j; uint32_t t = ref_crc(0, &z, 1); reg = ((reg ^ t) << 8); idx[i] = j; }
            uint32_t cur = c;
            for (int i = 0; i < 4; i++) { b[4 + i] = idx[i] ^ (cur & 0xff); cur = ref_crc(cur, b + 4 + i, 1); }
            if (cur != target) { note("inversion of the checksum failed"); R.exhaustive = false; continue; }
            round_trip(bytesz(b, 8));
        }
        exec();
    }
}

// lengths around every power of two, from 2^10 up
PART(c17_long)
{
    int top = ASAN ? 17 : R.thorough() ? 27 : 22;
    for (int e = 10; e <= top; e++) for (int d = -9; d <= 17; d++) {
        if (e > 18 && d % 4 && d != 17 && d != -1) continue;
        if (!mine()) continue;
        size_t len = ((size_t)1 << e) + d;
        for (size_t off = 0; off < (e <= 16 ? 4u : 1u); off++) {
            at("length %ld offset %ld", len, off);
            Buf b(len, off + (e > 16 ? (size_t)(d + 9) % 8 : 0));
            for (size_t i = 0; i < len; i++) b.p[i] = mix(i / 8 + len * 7) >> (8 * (i % 8)) & 0xff;
            one(b, off ? 0xffffffffu : 0, "long buffer"); state();
            outcome(ref_crc(0, b.p + len - 100, 100));
        }
        if (e <= 17) round_trip(bytesz(std::vector<uint8_t>(len, 0xA7 + d).data(), len));
        exec();
    }
    sample("lengths 2^k - 9 .. 2^k + 17 for k = 10..%d; frames to 2^17 bytes", top);
}
// ------------------------------------------------------------------ C18
static mpz_class gframe; static std::vector<uint8_t> gb;
static bool start_frame(const mpz_class& n)
{
    gframe = appendCRC(n); step();
    MC_CHECK(validateCRC(gframe), "the frame of %s does not validate", hxz(n).c_str());
    return true;
}
static void rejected(const mpz_class& x, const char* what, long a, long b)
{
    bool v = validateCRC(x); step();
    MC_CHECK(!v, "frame %s with %s flipped (%ld, %ld) is accepted", hxz(gframe).c_str(), what, a, b);
}
PART(c18_flips)
{
    size_t top = ASAN ? 12 : R.thorough() ? 160 : 48;
    for (size_t len = 0; len <= top; len++) for (int k = 0; k < (ASAN ? 1 : len <= 20 ? 5 : 2); k++) {
        if (!mine()) continue;
        mpz_class n = pattern(len, k); start_frame(n); state();
        size_t bits = 8 * (len + 4);
        for (size_t i = 0; i < bits; i++) {
            at("payload %ld bytes kind %ld bit %ld", len, (long)k, i);
            mpz_class x = gframe; mpz_combit(x.get_mpz_t(), i);
            rejected(x, "one bit", i, -1);
            for (size_t j = 0; j < i; j++) { mpz_combit(x.get_mpz_t(), j); rejected(x, "two bits", i, j); mpz_combit(x.get_mpz_t(), j); }
        }
        outcome(gframe); exec();
    }
    sample("all single and double bit flips of frames of payloads of up to %zu bytes", top);
}
// long frames: every single bit, and every pair at a distance of an alphabet
PART(c18_long)
{
    std::vector<size_t> lens = {200, 255, 256, 257, 511, 512, 1000}; if (R.thorough()) for (size_t l : {2048, 4096, 9000, 20000}) lens.push_back(l);
    for (size_t l : lens) for (int part = 0; part < 16; part++) {
        if (!mine()) continue;
        mpz_class n = pattern(l, 0); start_frame(n); state();
        size_t bits = 8 * (l + 4);
        for (size_t i = part; i < bits; i += 16) {
            at("payload %ld bytes bit %ld", l, i);
            mpz_class x = gframe; mpz_combit(x.get_mpz_t(), i); rejected(x, "one bit", i, -1);
            for (size_t d : {1u, 2u, 7u, 8u, 9u, 31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 255u, 1023u, 1024u, 2047u, 2048u, 4095u}) if (i + d < bits) { mpz_combit(x.get_mpz_t(), i + d); rejected(x, "two bits", i, i + d); mpz_combit(x.get_mpz_t(), i + d); }
        }
        outcome(gframe); exec();
    }
}
// very long frames: one- and two-bit flips at an alphabet of positions
PART(c18_verylong)
{
    for (int e = 11; e <= (ASAN ? 13 : R.thorough() ? 20 : 17); e++) for (int d : {-5, -4, -1, 0, 3, 12}) {
        if (!mine()) continue;
        size_t l = ((size_t)1 << e) + d, bits = 8 * (l + 4);
        start_frame(bytesz(std::vector<uint8_t>(l, 0x5B + d).data(), l)); state();
        std::vector<size_t> pos;
        for (size_t i = 0; i < (e > 14 ? 4u : 64u); i++) { pos.push_back(i); pos.push_back(bits - 1 - i); }
        for (size_t k = 6; (1ull << k) < bits; k++) for (size_t x : {(1ull << k), bits - (1ull << k), (1ull << k) - 1, (1ull << k) + 1}) if (x < bits && (e <= 14 || x == (1ull << k) || x == bits - (1ull << k))) pos.push_back(x);
        for (size_t i = 0; i < pos.size(); i++) {
            at("frame of %ld bytes, bit %ld", l + 4, pos[i]);
            mpz_class x = gframe; mpz_combit(x.get_mpz_t(), pos[i]); rejected(x, "one bit", pos[i], -1);
            size_t j = pos[(i * 7 + 5) % pos.size()]; if (j != pos[i]) { mpz_combit(x.get_mpz_t(), j); if (!ref_valid(zbytes(x, 4))) rejected(x, "two bits", pos[i], j); }
        }
        outcome(gframe); exec();
    }
    sample("frames of 2^11 to 2^17 bytes, flips at both ends and around every power of two");
}
// bursts: every non-empty pattern in a window of w bits at every position; patterns of up to four bits and of full runs in windows of 32 bits
static void apply(mpz_class& x, uint64_t pat, size_t pos) { mpz_class p = U64(pat); p <<= pos; x ^= p; }
PART(c18_bursts)
{
    int w = ASAN ? 8 : R.thorough() ? 16 : 11;
    for (size_t len : {0u, 1u, 3u, 8u, 15u, 16u, 21u}) for (int k = 0; k < (ASAN ? 1 : 2); k++) {
        size_t bits = 8 * (len + 4);
        for (size_t pos = 0; pos < bits; pos++) {
            if (!mine()) continue;
            start_frame(pattern(len, k)); state();
            at("payload %ld bytes window at bit %ld", len, pos);
            // patterns whose lowest bit is set: the others occur at later positions
            for (uint64_t p = 1; p < (1ull << w); p += 2) { if (pos + 64 - __builtin_clzll(p) > bits) continue; mpz_class x = gframe; apply(x, p, pos); rejected(x, "a burst", p, pos); }
            if (ASAN) continue;
            for (int a = 1; a < 32; a++) {
                if (pos + a >= bits) continue;
                uint64_t e = 1ull | 1ull << a, full = a == 31 ? 0xffffffffull : (1ull << (a + 1)) - 1;
                mpz_class x = gframe; apply(x, full, pos); rejected(x, "a run", full, pos);
                x = gframe; apply(x, full & 0x55555555ull | e, pos); rejected(x, "a burst", full & 0x55555555ull | e, pos);
                for (int b = 1; b < a; b++) {
                    x = gframe; apply(x, e | 1ull << b, pos); rejected(x, "a burst", e | 1ull << b, pos);
                    for (int c = 1; c < b; c++) { uint64_t q = e | 1ull << b | 1ull << c; x = gframe; apply(x, q, pos); rejected(x, "a burst", q, pos);
                        q = full & ~(1ull << b | 1ull << c); x = gframe; apply(x, q, pos); rejected(x, "a burst", q, pos); }
                }
            }
            outcome(pos * 64 + len); exec();
        }
    }
    sample("every error pattern in windows of %d bits at every position, and all patterns of up to 4 bits (and their complements) in windows of 32 bits", w);
}
// all 2^24 (2^32 in the thorough tier) patterns in one window
PART(c18_window)
{
    int w = R.thorough() ? 32 : 25;
    mpz_class n = pattern(9, 0);
    for (u64 b = 0; b < 256; b++) {
        if (!mine()) continue;
        start_frame(n); state();
        u64 blk = (1ull << w) / 256;
        size_t pos = 29;
        mpz_class base = gframe, x = gframe; mpz_ptr X = x.get_mpz_t();
        for (u64 i = b * blk; i < (b + 1) * blk; i++) {
            if (!i) continue;
            if ((i & 0xffff) == 0) at("window pattern %ld", i);
            // x = base with the pattern at bit `pos` flipped, by limb arithmetic
            u64 l0 = mpz_getlimbn(base.get_mpz_t(), 0) ^ (i << pos), l1 = mpz_getlimbn(base.get_mpz_t(), 1) ^ (i >> (64 - pos));
            u64 limbs[2] = {l0, l1}; mpz_import(X, 2, -1, 8, 0, 0, limbs);
            bool v = validateCRC(x);
            if (v) rejected(x, "a window pattern", i, pos);
        }
        step(blk); exec(); outcome(b);
    }
    sample("every one of 2^%d error patterns in one window", w);
}
// the verdict on arbitrary integers
static void verdict(const mpz_class& m)
{
    auto f = zbytes(m, 4); bool want = ref_valid(f), got = validateCRC(m); step(); state();
    MC_CHECK(got == want, "validation of %s says %d, its checksum says %d", hxz(m).c_str(), got, want);
    outcome(got * 2 + (f.size() > 4));
}
PART(c18_any)
{
    u64 top = ASAN ? 1u << 16 : R.thorough() ? 1ull << 28 : 1u << 22, blk = top / 256;
    for (u64 b = 0; b < 256; b++) {
        if (!mine()) continue;
        for (u64 i = b * blk; i < (b + 1) * blk; i++) { if (i % 4096 == 0) at("integers from %ld", i); verdict(mpz_class((unsigned long)i)); }
        // around valid frames and truncations of them
        for (size_t len = b; len < (ASAN ? 256 : 1024); len += 256) for (int k = 0; k < 6; k++) {
            at("neighbourhood of a frame of %ld bytes", len);
            mpz_class n = pattern(len, k), f = appendCRC(n);
            for (int d = -3; d <= 3; d++) if (f + d >= 0) verdict(f + d);
            for (int c = 1; c <= 40; c++) { mpz_class t; mpz_fdiv_q_2exp(t.get_mpz_t(), f.get_mpz_t(), c); verdict(t); mpz_fdiv_r_2exp(t.get_mpz_t(), f.get_mpz_t(), 8 * (len + 4) > (size_t)c ? 8 * (len + 4) - c : 0); verdict(t); t = f << c; verdict(t); }
            verdict(n);
            // byte-wise truncation from both ends, all lengths
            if (len <= 64) for (size_t c = 0; c <= len + 4; c++) { mpz_class t; mpz_fdiv_q_2exp(t.get_mpz_t(), f.get_mpz_t(), 8 * c); verdict(t); mpz_fdiv_r_2exp(t.get_mpz_t(), f.get_mpz_t(), 8 * c); verdict(t); }
            // removing a checksum never reads outside
            mpz_class r = removeCRC(f), r2 = removeCRC(n); step(2);
            MC_CHECK(r == n, "removing the checksum does not return the payload");
        }
        // byte-swapped checksums, other start values
        for (size_t len = 1 + b; len < 1024; len += 256) { mpz_class n = pattern(len, 0), f = ref_frame(n); auto v = zbytes(f, 4); std::swap(v[v.size() - 1], v[v.size() - 4]); std::swap(v[v.size() - 2], v[v.size() - 3]); verdict(bytesz(v.data(), v.size()));
            auto nb = zbytes(n); uint32_t c = ~ref_crc(~0u, nb.data(), nb.size()); mpz_class g = n; for (int i = 0; i < 4; i++) { g <<= 8; g += (c >> (8 * i)) & 0xff; } verdict(g); }
        exec();
    }
    sample("every integer below %llu, and truncations and shifts of frames of every length", (unsigned long long)top);
}

// ------------------------------------------------------------------ C30
#include <malloc.h>
template <class F> static void no_growth(const char* what, F f)
{
    const int N = 64;
    for (int i = 0; i < 8; i++) f();
    size_t a, b;
    for (int w = 0; w < 4; w++) {                       // a cache stops growing, a leak does not
        a = mallinfo2().uordblks; for (int i = 0; i < N; i++) f(); b = mallinfo2().uordblks;
        if (b < a + N) break;
    }
    step(N); state();
    MC_CHECK(b < a + N, "%s: %d calls leave %zu bytes allocated", what, N, b - a);
}
PART(c30_crc_release)
{
    if (ASAN) return;
    for (size_t len = 0; len <= 600; len += (len < 200 ? 1 : 20)) {
        if (!mine()) continue;
        at("release, %ld bytes", len);
        for (int k = 0; k < 3; k++) {
            mpz_class z = pattern(len, k), f = appendCRC(z);
            no_growth("appendCRC", [&] { appendCRC(z); });
            no_growth("validateCRC", [&] { validateCRC(f); });
            no_growth("validateCRC of a corrupted frame", [&] { validateCRC(f ^ 2); });
            no_growth("validateCRC of arbitrary data", [&] { validateCRC(z); });
            no_growth("removeCRC", [&] { removeCRC(f); });
        }
        exec();
    }
    sample("memory in use before and after repeated calls, every length up to 200 bytes");
}
// ------------------------------------------------------------------ long histories of calls: operands cycling with every period of an alphabet
static const int PERIODS[] = {1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1000, 1025};
static long revisit(long i, long per, int shape) { return (shape && i % 3 == 2 ? i / 3 % 2 : i) % per; }

PART(c17_calls)
{
    for (int per : PERIODS) for (int shape = 0; shape < 2; shape++) {
        if (!mine()) continue;
        std::vector<mpz_class> ns, fs; for (int i = 0; i < per; i++) { ns.push_back(pattern(i * 3 % 41, i % 4 ? 5 + i : 0)); fs.push_back(ref_frame(ns.back())); }
        long len = (ASAN ? 3000 : 30000) * (R.thorough() ? 8 : 1);
        for (long i = 0; i < len; i++) {
            at("call %ld period %ld shape %ld", i, (long)per, (long)shape); long k = revisit(i, per, shape); mpz_class f = appendCRC(ns[k]); step(3);
            MC_CHECK(f == fs[k], "call %ld of a history with period %d: the frame of %s is %s", i, per, hxz(ns[k]).c_str(), hxz(f).c_str());
            MC_CHECK(validateCRC(f), "call %ld of a history with period %d: the frame %s does not validate", i, per, hxz(f).c_str());
            mpz_class r = removeCRC(i % 2 ? f : fs[k * 7 % per]); MC_CHECK(r == ns[i % 2 ? k : k * 7 % per], "call %ld of a history with period %d: removing a checksum gives %s", i, per, hxz(r).c_str());
            if (i % 5 == 0) { auto b = zbytes(ns[k]); uint32_t got = calculate_crc32c(i, b.data(), b.size()); MC_CHECK(got == ref_crc(i, b.data(), b.size()), "call %ld of a history with period %d: checksum %08x", i, per, got); step(); }
        }
        state(); exec(); outcome(per * 2 + shape);
    }
    sample("histories of 30000 framings with 19 periods");
}
PART(c18_calls)
{
    for (int per : PERIODS) for (int shape = 0; shape < 2; shape++) {
        if (!mine()) continue;
        std::vector<mpz_class> fs; for (int i = 0; i < per; i++) fs.push_back(ref_frame(pattern(1 + i * 3 % 41, i % 4 ? 5 + i : 0)));
        long len = (ASAN ? 3000 : 30000) * (R.thorough() ? 8 : 1);
        for (long i = 0; i < len; i++) {
            at("call %ld period %ld shape %ld", i, (long)per, (long)shape); long k = revisit(i, per, shape); size_t nb = mpz_sizeinbase(fs[k].get_mpz_t(), 2);
            mpz_class bad = fs[k]; size_t bit = (i * 13 + k) % nb; mpz_combit(bad.get_mpz_t(), bit); if (bad == 0) continue;
            if (i % 4) { MC_CHECK(!validateCRC(bad), "call %ld of a history with period %d: the frame %s with bit %zu flipped validates", i, per, hxz(fs[k]).c_str(), bit); }
            else MC_CHECK(validateCRC(fs[k]), "call %ld of a history with period %d: the frame %s does not validate", i, per, hxz(fs[k]).c_str());
            step();
        }
        state(); exec(); outcome(per * 2 + shape);
    }
    sample("histories of 30000 validations with 19 periods");
}
