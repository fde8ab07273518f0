// C28: integers to bytes and back.
#include "crcref.hpp"
#include "utilities.hpp"
using namespace mc;
#if defined(__SANITIZE_ADDRESS__)
static const bool ASAN = true;
#else
static const bool ASAN = false;
#endif
typedef std::vector<uint8_t> Bytes;
struct Buf { uint8_t* p = nullptr; size_t n = 0; void drop() { if (p) free(p); p = nullptr; } };
static Buf to(const mpz_class& z)
{
    Buf b; mpz_class copy = z; b.n = utils::getRawMpz(&b.p, z); step();
    MC_CHECK(copy == z, "the conversion changed the integer");
    return b;
}
static void same(const Buf& b, const mpz_class& z)
{
    Bytes w = zbytes(z);
    MC_CHECK(b.n == w.size(), "%s has %zu bytes, reported %zu", hxz(z).c_str(), w.size(), b.n);
    for (size_t i = 0; i < w.size(); i++) MC_CHECK(b.p[i] == w[i], "byte %zu of %s is %02x", i, hxz(z).c_str(), b.p[i]);
}
static void from(const uint8_t* p, size_t n, const mpz_class& z)
{
    // exactly n bytes are handed over
    uint8_t* q = (uint8_t*)malloc(n); if (n) memcpy(q, p, n);
    mpz_class r = utils::setRawMpz(q, n); step();
    bool kept = n == 0 || !memcmp(p, q, n); if (n) memset(q, 0xEE, n); free(q);
    MC_CHECK(kept, "the conversion changed the bytes");
    MC_CHECK(r == z && r >= 0, "%zu bytes of %s convert to %s", n, hxz(z).c_str(), hxz(r).c_str());
    state();
}
static void both(const mpz_class& z)
{
    Buf b = to(z); same(b, z); from(b.p, b.n, z); b.drop();
}
PART(c28_small)
{
    u64 top = ASAN ? 1u << 16 : R.thorough() ? 1u << 24 : 1u << 20;
    for (u64 b = 0; b < 64; b++) { if (!mine()) continue; for (u64 i = b * (top / 64); i < (b + 1) * (top / 64); i++) { if (i % 4096 == 0) at("integers from %ld", i); both(mpz_class((unsigned long)i)); } exec(); }
    sample("every integer below %llu", (unsigned long long)top);
}
PART(c28_bytes)
{
    // all byte strings of up to two bytes (three in the thorough tier), with up to 9 leading zero bytes; empty input
    for (size_t lead = 0; lead <= 9; lead++) {
        if (!mine()) continue;
        for (int len = 0; len <= (R.thorough() && lead < 2 && !ASAN ? 3 : 2); len++) for (u64 v = 0; v < 1ull << 8 * len; v += (ASAN && len == 2 ? 7 : 1)) {
            Bytes b(lead, 0); for (int i = len; i-- > 0;) b.push_back(v >> 8 * i & 0xff);
            if (v % 256 == 0) at("leading zeros %ld length %ld value %ld", lead, (long)len, v);
            from(b.data(), b.size(), mpz_class((unsigned long)v));
        }
        exec();
    }
    mpz_class z = utils::setRawMpz(nullptr, 0); MC_CHECK(z == 0, "no bytes convert to %s", hxz(z).c_str());
    sample("every byte string of up to two bytes with up to nine leading zeros");
}
PART(c28_lengths)
{
    size_t top = R.thorough() ? 9000 : 2100;
    for (size_t len = 0; len <= top; len++) {
        if (!mine()) continue;
        for (int kind = 0; kind < 6; kind++) {
            at("length %ld kind %ld", len, (long)kind);
            mpz_class z = pattern(len, kind); both(z);
            Bytes b = zbytes(z, len); for (size_t lead : {1u, 3u, 8u, 17u}) { Bytes c(lead, 0); c.insert(c.end(), b.begin(), b.end()); from(c.data(), c.size(), z); }
            Bytes zeros(len, 0); from(zeros.data(), len, 0);
        }
        if (len) { both(pow2(8 * len) - 1); both(pow2(8 * len)); both(pow2(8 * len - 1)); for (int e = 0; e < 8; e++) both(pow2(8 * (len - 1) + e)); }
        exec();
    }
    for (size_t e = 0; e < (R.thorough() ? 4096u : 1100u); e++) { if (!mine()) continue; at("power %ld", e); both(pow2(e)); both(pow2(e) - 1); both(pow2(e) + 1); for (size_t f = 0; f < e; f += 13) both(pow2(e) + pow2(f)); exec(); }
    sample("every length up to %zu bytes", top);
}
PART(c28_long)
{
    for (int e = 12; e <= (ASAN ? 16 : R.thorough() ? 20 : 17); e++) for (int d = -9; d <= 9; d++) {
        if (!mine()) continue;
        size_t len = ((size_t)1 << e) + d; at("length %ld", len);
        Bytes b(len, 0xC5 + d); for (size_t i = 0; i < len; i += 61) b[i] = mix(i + d);
        if (!b[0]) b[0] = 1;
        mpz_class z; mpz_import(z.get_mpz_t(), len, 1, 1, 0, 0, b.data());
        both(z); b.insert(b.begin(), 3, 0); from(b.data(), b.size(), z); exec();
    }
    sample("lengths 2^k - 9 .. 2^k + 9 from k = 12");
}
// runs of zero bytes before, between and after other bytes
PART(c28_zeros)
{
    auto num = [](const Bytes& b) { mpz_class z = 0; for (uint8_t x : b) z = z * 256 + x; return z; };
    long big = R.thorough() ? 200 : 72, small = ASAN ? 9 : 19;
    for (long lead = 0; lead <= big; lead++) {
        if (!mine()) continue;
        for (long gap = 0; gap <= (lead < 20 ? big : small); gap++) for (long tail = 0; tail <= small; tail++) for (int v = 0; v < 3; v++) {
            at("zeros %ld %ld %ld", lead, gap, tail);
            Bytes b(lead, 0); b.push_back(v == 0 ? 1 : v == 1 ? 0x80 : 0xff); b.insert(b.end(), gap, 0); if (v != 1 || gap % 2) b.push_back(gap + 1); b.insert(b.end(), tail, v == 2 ? 0xff : 0);
            mpz_class z = num(b); from(b.data(), b.size(), z); if (lead == 0 || tail == 0) both(z);
        }
        exec();
    }
    // one byte alone at every position of every length
    for (long len = 1; len <= (R.thorough() ? 600 : 280); len++) {
        if (!mine()) continue;
        for (long pos = 0; pos < len; pos++) { at("byte %ld of %ld", pos, len); Bytes b(len, 0); b[pos] = len % 255 + 1; from(b.data(), len, num(Bytes(b.begin() + pos, b.end()))); }
        exec();
    }
    // long runs of leading zeros
    for (long lead = big; lead <= (R.thorough() ? 20000 : 4200); lead++) {
        if (!mine()) continue;
        at("leading zeros %ld", lead); Bytes b(lead, 0); for (long t : {1l, 2l, 3l, 5l, 8l, 11l}) { Bytes c(b); for (long i = 0; i < t; i++) c.push_back(i * 5 + 1); from(c.data(), c.size(), num(Bytes(c.begin() + lead, c.end()))); }
        exec();
    }
    sample("zero runs of up to %ld bytes in front, inside and behind", big);
}
// several conversions alive at once
PART(c28_seq)
{
    std::vector<mpz_class> v = {0, 1, 255, 256, pow2(64) - 1, pow2(64), pattern(33, 0)};
    int depth = R.thorough() ? 5 : 4;
    for (size_t o0 = 0; o0 < v.size(); o0++) {
        if (!mine()) continue;
        Explorer ex;
        ex.run([&] {
            at("first %ld", o0); std::vector<std::pair<Buf, size_t>> live;
            for (int i = 0; i < depth; i++) {
                size_t nv = v.size(), op = i == 0 ? o0 : choose(nv + live.size() + (live.empty() ? 0 : 1));
                if (op < nv) live.push_back({to(v[op]), op});
                else if (op < nv + live.size()) { live[op - nv].first.drop(); live.erase(live.begin() + (op - nv)); step(); }
                else { Buf& b = live[0].first; if (b.n) { b.p[0] ^= 0x55; b.p[b.n - 1] ^= 0x55; b.p[0] ^= 0x55; b.p[b.n - 1] ^= 0x55; } mpz_class keep = v[live[0].second]; }
                for (auto& l : live) { same(l.first, v[l.second]); from(l.first.p, l.first.n, v[l.second]); }
            }
            // overwrite one buffer: the others and the integers stay
            for (size_t k = 0; k < live.size(); k++) { if (live[k].first.n) memset(live[k].first.p, 0xEE, live[k].first.n); for (size_t j = k + 1; j < live.size(); j++) same(live[j].first, v[live[j].second]); }
            for (auto& l : live) l.first.drop();
        });
        if (o0 == 0) sample("%llu sequences of %d conversions and releases", (unsigned long long)ex.executions, depth);
    }
}
// ------------------------------------------------------------------ long histories of calls
static const int PERIODS[] = {1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1000, 1025};
static long revisit(long i, long per, int shape) { return (shape && i % 3 == 2 ? i / 3 % 2 : i) % per; }

PART(c28_calls)
{
    for (int per : PERIODS) for (int shape = 0; shape < 2; shape++) {
        if (!mine()) continue;
        std::vector<mpz_class> ns; std::vector<std::vector<uint8_t>> bs; for (int i = 0; i < per; i++) { ns.push_back(pattern(i * 3 % 41, i % 4 ? 5 + i : 0)); bs.push_back(zbytes(ns.back())); }
        for (long i = 0; i < 30000 * (R.thorough() ? 8 : 1) / (ASAN ? 10 : 1); i++) {
            at("call %ld period %ld shape %ld", i, (long)per, (long)shape); long k = revisit(i, per, shape), j = k * 7 % per; Buf b = to(ns[k]); same(b, ns[k]);
            std::vector<uint8_t> f(bs[j]); if (i % 2) f.insert(f.begin(), i % 5, 0);
            from(f.data(), f.size(), ns[j]); b.drop();
        }
        state(); exec(); outcome(per * 2 + shape);
    }
    sample("histories of 30000 conversions with 19 periods");
}
