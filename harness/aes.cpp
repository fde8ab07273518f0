// C19, C20: AES and checked AES.
#include "crcref.hpp"
#include <openssl/evp.h>
#include "aes.hpp"
using namespace mc;
using aes::AES;
#if defined(__SANITIZE_ADDRESS__)
static const bool ASAN = true;
#else
static const bool ASAN = false;
#endif
typedef std::vector<uint8_t> Bytes;

// AES-128-CTR from single block encryptions
static Bytes keystream(const mpz_class& key, const std::string& iv, size_t n)
{
    Bytes k = zbytes(key, 16), ctr(iv.begin(), iv.end()), out;
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); int l;
    EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, k.data(), nullptr); EVP_CIPHER_CTX_set_padding(c, 0);
    while (out.size() < n) {
        uint8_t b[32]; EVP_EncryptUpdate(c, b, &l, ctr.data(), 16);
        out.insert(out.end(), b, b + 16);
        for (int i = 15; i >= 0 && ++ctr[i] == 0; i--) ;
    }
    EVP_CIPHER_CTX_free(c); out.resize(n); return out;
}
static Bytes lowbytes(const mpz_class& z, size_t n) { mpz_class t; mpz_fdiv_r_2exp(t.get_mpz_t(), z.get_mpz_t(), 8 * n); return zbytes(t, n); }
static std::vector<mpz_class> keys(int level)
{
    ZSet s;
    s.add(mpz_class("2b7e151628aed2a6abf7158809cf4f3c", 16)); s.add(0); s.add(pow2(128) - 1); s.add(1); s.add(pow2(120)); s.add(pow2(127)); s.add(pow2(64) + 5); s.add(pow2(119) + 12345);
    if (level) for (int l = 1; l <= 16; l++) for (int k : {0, 1, 3}) s.add(pattern(l, k));
    if (level > 1) for (int e = 0; e < 128; e++) { s.add(pow2(e)); s.add(pow2(128) - 1 - pow2(e)); }
    return s.v;
}
static std::vector<std::string> ivs()
{
    std::vector<std::string> v = {std::string(16, '\0'), std::string(16, '\xff'), std::string("0123456789abcdef"), std::string(15, '\xff') + '\xfe'};
    std::string z(16, '\0'); z[0] = 'A'; v.push_back(z); z = std::string(16, '\0'); z[15] = 1; v.push_back(z);
    z = std::string(16, '\xff'); z[0] = 0; v.push_back(z); z = "\x01\x02\x03\x04\x05\x06\x07"; z.resize(16, '\0'); z[9] = 5; v.push_back(z);
    return v;
}
static void round19(AES& a, const mpz_class& k, const mpz_class& pt, const std::string& iv, size_t ivn)
{
    mpz_class c = a.encrypt(k, pt); step();
    Bytes p = zbytes(pt), ks = keystream(k, iv, p.size()), low = lowbytes(c, p.size());
    for (size_t i = 0; i < p.size(); i++) MC_CHECK((low[i] ^ ks[i]) == p[i], "key %s, IV #%zu: byte %zu of the encryption of %s is not AES-128-CTR (ciphertext %s)", hxz(k).c_str(), ivn, i, hxz(pt).c_str(), hxz(c).c_str());
    mpz_class d = a.decrypt(k, c); step(); state();
    MC_CHECK(d == pt, "key %s, IV #%zu: %s is encrypted to %s, which decrypts to %s", hxz(k).c_str(), ivn, hxz(pt).c_str(), hxz(c).c_str(), hxz(d).c_str());
    outcome(c);
}
static void round20(AES& a, const mpz_class& k, const mpz_class& pt, size_t ivn)
{
    mpz_class c = a.encryptCRC(k, pt), d = a.decryptCRC(k, c); step(2); state();
    MC_CHECK(d == pt, "key %s, IV #%zu: checked encryption of %s is %s, which decrypts to %s", hxz(k).c_str(), ivn, hxz(pt).c_str(), hxz(c).c_str(), hxz(d).c_str());
    outcome(c);
}
template <class F> static void lengths(F f)
{
    size_t top = ASAN ? 300 : R.thorough() ? 2500 : 700;
    auto ks = keys(0); auto iv = ivs();
    for (size_t len = 0; len <= top; len++) {
        if (!mine()) continue;
        AES a;
        for (size_t v = 0; v < iv.size(); v += (len < 100 ? 1 : 3)) {
            if (v) AES::init(iv[v]); else AES::init();
            for (size_t k = 0; k < ks.size(); k += (len < 100 ? 1 : 2)) for (int kind = 0; kind < (len < 100 ? 4 : 2); kind++) { at("length %ld IV #%ld key #%ld kind %ld", len, v, k, (long)kind); f(a, ks[k], pattern(len, kind), iv[v], v); }
        }
        exec();
    }
}
PART(c19_lengths) { lengths([](AES& a, const mpz_class& k, const mpz_class& p, const std::string& iv, size_t v) { round19(a, k, p, iv, v); }); sample("plaintexts of every byte length, 8 keys, 8 IVs, 4 contents"); }
PART(c20_lengths) { lengths([](AES& a, const mpz_class& k, const mpz_class& p, const std::string&, size_t v) { round20(a, k, p, v); }); sample("plaintexts of every byte length, 8 keys, 8 IVs, 4 contents"); }

// long plaintexts
static std::vector<size_t> longlens()
{
    std::vector<size_t> v; for (size_t l = 720; l < (ASAN ? 3000u : 20000u); l += l / 7) v.push_back(l);
    for (size_t l : {1000u, 1500u, 2000u, 3000u, 4000u, 5000u, 6000u, 10000u, 12288u, 20000u}) v.push_back(l);
    if (!ASAN) for (size_t l : {30000u, 65520u, 65535u, 65540u, 100000u}) v.push_back(l);
    return v;
}
// lengths around powers of two
template <class F> static void longs(F f)
{
    auto ks = keys(0); auto iv = ivs();
    for (int e = 9; e <= (ASAN ? 14 : R.thorough() ? 20 : 17); e++) for (int d : {-17, -16, -5, -4, -1, 0, 1, 12, 16}) {
        if (!mine()) continue;
        size_t len = ((size_t)1 << e) + d, v = (e + d + 32) % iv.size(), k = (e * 3 + d + 32) % ks.size(); AES a;
        if (v) AES::init(iv[v]); else AES::init();
        at("length %ld IV #%ld key #%ld", len, v, k); f(a, ks[k], bytesz(Bytes(len, 0x91 + d).data(), len), iv[v], v); exec();
    }
    // lengths that are not near powers of two, every length class modulo the block
    for (size_t len : longlens()) for (size_t j = 0; j < 4; j++) {
        if (!mine()) continue;
        size_t L = len + 5 * j, v = (L + j) % iv.size(), k = (L / 7 + j) % ks.size(); AES a;
        if (v) AES::init(iv[v]); else AES::init();
        at("length %ld IV #%ld key #%ld", L, v, k); f(a, ks[k], pattern(L, j), iv[v], v); exec();
    }
    AES::init();
}
PART(c19_long) { longs([](AES& a, const mpz_class& k, const mpz_class& p, const std::string& iv, size_t v) { round19(a, k, p, iv, v); }); sample("lengths around 2^9 .. 2^17 bytes"); }
PART(c20_long) { longs([](AES& a, const mpz_class& k, const mpz_class& p, const std::string&, size_t v) { round20(a, k, p, v); }); }
template <class F> static void keysweep(F f)
{
    auto iv = ivs(); auto ks = keys(2);
    std::vector<mpz_class> pts = {0, 1, 255, 256, pow2(64) + 1, pow2(127), pow2(128) - 1, pow2(128), pattern(37, 0)};
    for (size_t k = 0; k < ks.size(); k++) {
        if (!mine()) continue;
        AES a;
        for (size_t v = 0; v < iv.size(); v++) { AES::init(iv[v]); for (size_t i = 0; i < pts.size(); i++) { at("key #%ld IV #%ld text #%ld", k, v, i); f(a, ks[k], pts[i], iv[v], v); } }
        exec();
    }
    // every key of one and two bytes
    for (unsigned hi = 0; hi < 256; hi++) {
        if (!mine()) continue;
        AES a; AES::init();
        for (unsigned lo = 0; lo < 256; lo += (ASAN ? 17 : 1)) { at("key %ld", (long)(hi << 8 | lo)); f(a, mpz_class(hi << 8 | lo), pattern(1 + lo % 21, 0), iv[0], 0); }
        exec();
    }
}
PART(c19_keys) { keysweep([](AES& a, const mpz_class& k, const mpz_class& p, const std::string& iv, size_t v) { round19(a, k, p, iv, v); }); sample("every key below 2^16, and keys of every length and single bit"); }
PART(c20_keys) { keysweep([](AES& a, const mpz_class& k, const mpz_class& p, const std::string&, size_t v) { round20(a, k, p, v); }); }

// every small plaintext
template <class F> static void small(F f)
{
    auto ks = keys(0); auto iv = ivs();
    u64 top = ASAN ? 1u << 12 : R.thorough() ? 1u << 20 : 1u << 16, blk = top / 64;
    for (u64 b = 0; b < 64; b++) for (size_t k = 0; k < 4; k++) {
        if (!mine()) continue;
        AES a; AES::init();
        for (u64 i = b * blk; i < (b + 1) * blk; i++) { if (i % 256 == 0) at("plaintexts from %ld key #%ld", i, k); f(a, ks[k], mpz_class((unsigned long)i), iv[0], 0); }
        exec();
    }
}
PART(c19_small) { small([](AES& a, const mpz_class& k, const mpz_class& p, const std::string& iv, size_t v) { round19(a, k, p, iv, v); }); sample("every plaintext below 2^16 under four keys"); }
PART(c20_small) { small([](AES& a, const mpz_class& k, const mpz_class& p, const std::string&, size_t v) { round20(a, k, p, v); }); }

// plaintexts chosen such that the encrypted data starts with, ends with or consists of zero (or marker-like) bytes
PART(c19_lead)
{
    auto ks = keys(1); auto iv = ivs();
    for (size_t k = 0; k < ks.size(); k++) {
        if (!mine()) continue;
        AES a;
        for (size_t v = 0; v < iv.size(); v++) {
            AES::init(iv[v]);
            for (size_t len = 1; len <= 70; len += (len < 20 ? 1 : 7)) {
                Bytes s = keystream(ks[k], iv[v], len);
                for (int fill = 0; fill < 6; fill++) for (size_t z = 1; z <= len; z++) {
                    at("key #%ld IV #%ld length %ld leading %ld fill %ld", k, v, len, z, (long)fill);
                    Bytes p = s;                             // data = keystream: ciphertext bytes all zero
                    static const uint8_t lead[6] = {0, 1, 0xff, 2, 0, 1};
                    for (size_t i = 0; i < z; i++) p[i] ^= lead[fill];
                    for (size_t i = z; i < len; i++) p[i] ^= fill < 4 ? 0x5a : fill == 4 ? 0 : 0x80;
                    if (p[0] == 0) continue;                 // not the minimal representation of an integer of this length
                    round19(a, ks[k], bytesz(p.data(), len), iv[v], v);
                }
            }
        }
        exec();
    }
    sample("plaintexts whose encryption starts with any number of 00, 01, 02 or ff bytes");
}
// the same for checked encryption: search payloads whose frame encrypts to leading zeros
PART(c20_lead)
{
    auto ks = keys(1); auto iv = ivs();
    for (size_t k = 0; k < ks.size(); k++) {
        if (!mine()) continue;
        AES a;
        for (size_t v = 0; v < 4; v++) {
            AES::init(iv[v]);
            for (size_t len = 1; len <= 40; len++) for (size_t z = 1; z <= len; z++) for (int l = 0; l < 3; l++) {
                at("key #%ld IV #%ld length %ld leading %ld", k, v, len, z);
                Bytes p = keystream(ks[k], iv[v], len);
                for (size_t i = 0; i < z; i++) p[i] ^= l == 2 ? 0xff : l;
                for (size_t i = z; i < len; i++) p[i] ^= 0xc3;
                if (p[0] == 0) continue;
                round20(a, ks[k], bytesz(p.data(), len), v);
            }
        }
        exec();
    }
}
// the IV before any initialisation, in a fresh process
PART(c19_default)
{
    if (!mine()) return;
    AES a; auto iv = ivs(); auto ks = keys(1);
    for (size_t k = 0; k < ks.size(); k++) for (size_t len = 0; len < 40; len++) { at("default IV key #%ld length %ld", k, len); round19(a, ks[k], pattern(len, 0), iv[0], 0); }
    exec();
}
// every sequence of initialisations and operations; two objects share the IV
template <class ENC, class DEC> static void ivseq(bool ref, ENC enc, DEC dec)
{
    auto iv = ivs();
    std::vector<mpz_class> ks = {mpz_class("2b7e151628aed2a6abf7158809cf4f3c", 16), mpz_class(77)};
    int depth = R.thorough() ? 6 : 5;
    for (int o0 = 0; o0 < 4; o0++) for (int set = 0; set < 3; set++) {
        if (!mine()) continue;
        Explorer ex;
        ex.run([&] {
            AES::init(); int cur = 0; AES a, b;
            struct C { mpz_class c, p; int k, iv; }; std::vector<C> cs;
            at("IV sequence first %ld set %ld", (long)o0, (long)set);
            for (int s = 0; s < depth; s++) {
                long op = s == 0 ? o0 : choose(7);
                if (op == 0) { AES::init(); cur = 0; }
                else if (op < 3) { cur = set * 2 + op; AES::init(iv[cur]); }
                else if (op < 7) {
                    AES& o = op & 1 ? a : b; int k = op >= 5;
                    mpz_class p = pattern(1 + 7 * s, 0), c = enc(o, ks[k], p);
                    if (ref) { Bytes pb = zbytes(p), kk = keystream(ks[k], iv[cur], pb.size()), low = lowbytes(c, pb.size()); for (size_t i = 0; i < pb.size(); i++) MC_CHECK((low[i] ^ kk[i]) == pb[i], "after %d operations the encryption does not use IV #%d", s, cur); }
                    cs.push_back({c, p, k, cur});
                }
                step();
                for (auto& c : cs) if (c.iv == cur) for (AES* o : {&a, &b}) { mpz_class d = dec(*o, ks[c.k], c.c); step(); MC_CHECK(d == c.p, "after %d operations %s decrypts to %s", s + 1, hxz(c.p).c_str(), hxz(d).c_str()); }
                // with another key checked decryption returns zero
                if (!ref) for (auto& c : cs) { mpz_class d = dec(a, ks[1 - c.k], c.c); step(); MC_CHECK(d == 0, "another key opens a ciphertext"); if (c.iv != cur) { d = dec(a, ks[c.k], c.c); MC_CHECK(d == 0, "another IV opens a ciphertext"); step(); } }
            }
            state(); outcome(ex.hash());
        });
        if (o0 == 0) sample("%llu operation sequences of length %d over IV changes, two objects and two keys", (unsigned long long)ex.executions, depth);
    }
}
PART(c19_iv) { ivseq(true, [](AES& o, const mpz_class& k, const mpz_class& p) { return o.encrypt(k, p); }, [](AES& o, const mpz_class& k, const mpz_class& c) { return o.decrypt(k, c); }); }
PART(c20_iv) { ivseq(false, [](AES& o, const mpz_class& k, const mpz_class& p) { return o.encryptCRC(k, p); }, [](AES& o, const mpz_class& k, const mpz_class& c) { return o.decryptCRC(k, c); }); }

// ------------------------------------------------------------------ C20: rejection
// would the data `d` (bytes of an encryption under key, IV) legitimately validate?
static bool legit(const mpz_class& key, const std::string& iv, Bytes d)
{
    Bytes ks = keystream(key, iv, d.size());
    for (size_t i = 0; i < d.size(); i++) d[i] ^= ks[i];
    while (d.size() < 4) d.insert(d.begin(), 0);
    return ref_valid(d);
}
PART(c20_wrongkey)
{
    auto ks = keys(R.thorough() ? 2 : 1); auto iv = ivs();
    for (size_t k = 0; k < ks.size(); k++) for (size_t v = 0; v < 3; v++) {
        if (!mine()) continue;
        AES a; AES::init(iv[v]);
        for (size_t len : {1u, 2u, 4u, 12u, 16u, 20u, 33u, 124u}) {
            mpz_class p = pattern(len, 0), c = a.encryptCRC(ks[k], p); step();
            Bytes data = lowbytes(c, zbytes(ref_frame(p)).size());
            auto wrong = [&](const mpz_class& w, long id) {
                at("key #%ld IV #%ld length %ld other key #%ld", k, v, len, id);
                if (w == ks[k]) return;
                mpz_class d = a.decryptCRC(w, c); step(); state();
                MC_CHECK(d == 0 || legit(w, iv[v], data), "%s under key %s decrypts under key %s to %s", hxz(p).c_str(), hxz(ks[k]).c_str(), hxz(w).c_str(), hxz(d).c_str());
                outcome(d == 0); };
            for (size_t w = 0; w < ks.size(); w++) wrong(ks[w], w);
            for (int e = 0; e < 128; e++) wrong(ks[k] ^ pow2(e), 1000 + e);
            wrong(ks[k] >> 8, 2000); wrong(modz(ks[k] << 8, pow2(128)), 2001); wrong(modz(ks[k] + 1, pow2(128)), 2002);
        }
        exec();
    }
    sample("every pair of keys of the alphabet and every key at Hamming distance one");
}
// Zero is due unless the altered data carries a valid checksum itself (a checksum cannot tell; zero bytes after a valid
// frame keep it valid): the library prefixes the data by one marker byte.
static std::string cur_iv(16, '\0');
static bool carries_checksum(const mpz_class& k, const mpz_class& c)
{
    Bytes b = zbytes(c);
    if (legit(k, cur_iv, b)) return true;
    if (!b.empty()) { b.erase(b.begin()); if (legit(k, cur_iv, b)) return true; }
    return false;
}
static void must_reject(AES& a, const mpz_class& k, const mpz_class& c, const char* what, long x, long y)
{
    mpz_class d = a.decryptCRC(k, c); step();
    if (d != 0 && carries_checksum(k, c)) { R.skipped++; return; }
    MC_CHECK(d == 0, "ciphertext with %s (%ld, %ld) is accepted: %s decrypts to %s", what, x, y, hxz(c).c_str(), hxz(d).c_str());
}
PART(c20_flips)
{
    auto ks = keys(0); auto iv = ivs();
    size_t top = ASAN ? 6 : R.thorough() ? 60 : 20;
    for (size_t len = 1; len <= top; len++) for (size_t k = 0; k < (ASAN ? 1 : 3); k++) {
        if (!mine()) continue;
        AES a; AES::init(iv[len % 3]); cur_iv = iv[len % 3];
        mpz_class p = pattern(len, k), c = a.encryptCRC(ks[k], p); step(); state();
        size_t bits = 8 * zbytes(ref_frame(p)).size();
        for (size_t i = 0; i < bits; i++) {
            at("length %ld key #%ld bit %ld", len, k, i);
            mpz_class x = c; mpz_combit(x.get_mpz_t(), i); must_reject(a, ks[k], x, "one bit flipped", i, -1);
            for (size_t j = 0; j < i; j++) { mpz_combit(x.get_mpz_t(), j); must_reject(a, ks[k], x, "two bits flipped", i, j); mpz_combit(x.get_mpz_t(), j); }
            // bursts
            uint64_t w = ASAN ? 4 : 8;
            for (uint64_t q = 1; q < (1ull << w); q += 2) { if (i + 64 - __builtin_clzll(q) > bits) continue; mpz_class y = c, m = U64(q); m <<= i; y ^= m; must_reject(a, ks[k], y, "a burst flipped", q, i); }
            for (int e = 1; e < 32; e++) if (i + e < bits) for (uint64_t q : {(2ull << e) - 1, 1ull | 1ull << e, ((2ull << e) - 1) & 0x55555555ull | 1ull << e, ((2ull << e) - 1) & 0x0f0f0f0full | 1ull << e}) { mpz_class y = c, m = U64(q); m <<= i; y ^= m; must_reject(a, ks[k], y, "a burst flipped", q, i); }
        }
        exec(); outcome(c);
    }
    // long ciphertexts: every single bit
    for (size_t len : {100u, 125u, 128u, 200u, 600u}) {
        if (!mine()) continue;
        AES a; AES::init(); cur_iv = iv[0]; mpz_class p = pattern(len, 0), c = a.encryptCRC(ks[0], p);
        for (size_t i = 0; i < 8 * (len + 4); i++) { at("length %ld bit %ld", len, i); mpz_class x = c; mpz_combit(x.get_mpz_t(), i); must_reject(a, ks[0], x, "one bit flipped", i, -1); mpz_combit(x.get_mpz_t(), (i + 65) % (8 * (len + 4))); must_reject(a, ks[0], x, "two bits flipped", i, i + 65); }
        exec(); outcome(c);
    }
    sample("all one- and two-bit flips and bursts in encryptions of plaintexts of up to %zu bytes", top);
}
// Long ciphertexts with many contents: bits near every boundary and across the whole length.
PART(c20_verylong)
{
    auto ks = keys(0); auto iv = ivs();
    for (size_t len : longlens()) for (size_t k = 0; k < (R.thorough() ? 96u : 40u); k++) {
        if (k >= (len > 30000 ? 3u : len > 9000 ? 8u : len > 4200 ? 16u : 96u)) continue;
        if (!mine()) continue;
        size_t L = len + k % 19; AES a; AES::init(iv[k % iv.size()]); cur_iv = iv[k % iv.size()]; const mpz_class& key = ks[k % ks.size()];
        mpz_class p = pattern(L, k % 4); p += k * 65537;
        mpz_class c = a.encryptCRC(key, p); step(); state();
        std::vector<size_t> pos; size_t bits = 8 * zbytes(ref_frame(p)).size();
        for (size_t b = 0; b < 40; b += L > 9000 ? 13 : 3) { pos.push_back(b); pos.push_back(bits - 1 - b); }
        for (size_t b = 1024 + k; b < bits; b += 4096 + (bits / 16)) pos.push_back(b);
        for (size_t b : pos) {
            at("length %ld content #%ld bit %ld", L, k, b);
            mpz_class x = c; mpz_combit(x.get_mpz_t(), b); must_reject(a, key, x, "one bit flipped", b, -1);
            mpz_combit(x.get_mpz_t(), b ? b - 1 : 1); must_reject(a, key, x, "two bits flipped", b, b ? b - 1 : 1);
        }
        for (size_t w = 0; w < ks.size(); w++) if (ks[w] != key) { at("length %ld content #%ld key #%ld", L, k, w); must_reject(a, ks[w], c, "another key", w, -1); }
        must_reject(a, key, c >> 8, "its last byte cut off", 8, -1); must_reject(a, key, c >> 40, "its last bytes cut off", 40, -1);
        MC_CHECK(a.decryptCRC(key, c) == p, "a plaintext of %zu bytes does not come back", L);
        outcome(c); exec();
    }
    sample("%zu lengths from 720 bytes to 100 kB with dozens of contents", longlens().size());
}
PART(c20_garbage)
{
    auto ks = keys(0); auto iv = ivs();
    // truncations
    for (size_t len = 1; len <= (ASAN ? 40 : 150); len++) {
        if (!mine()) continue;
        AES a; AES::init(); cur_iv = iv[0];
        for (size_t k = 0; k < 3; k++) {
            mpz_class p = pattern(len, k % 2), c = a.encryptCRC(ks[k], p); size_t total = zbytes(c).size(); step();
            for (size_t cut = 1; cut <= total; cut++) {
                at("length %ld key #%ld cut %ld", len, k, cut);
                mpz_class t; mpz_fdiv_q_2exp(t.get_mpz_t(), c.get_mpz_t(), 8 * cut); must_reject(a, ks[k], t, "trailing bytes cut", cut, 0);
                mpz_fdiv_r_2exp(t.get_mpz_t(), c.get_mpz_t(), 8 * (total - cut)); must_reject(a, ks[k], t, "leading bytes cut", cut, 0); state();
            }
            for (size_t cut = 1; cut < 40; cut++) { mpz_class t; mpz_fdiv_q_2exp(t.get_mpz_t(), c.get_mpz_t(), cut); must_reject(a, ks[k], t, "trailing bits cut", cut, 0); t = c << cut; must_reject(a, ks[k], t, "zero bits appended", cut, 0); }
            mpz_class e = c << 8; must_reject(a, ks[k], e + 0x41, "a byte appended", 1, 0);
        }
        exec();
    }
    // integers that are no ciphertexts
    u64 top = ASAN ? 1u << 11 : R.thorough() ? 1u << 22 : 1u << 18, blk = top / 64;
    for (u64 b = 0; b < 64; b++) {
        if (!mine()) continue;
        AES a; AES::init(); cur_iv = iv[0];
        for (u64 i = b * blk; i < (b + 1) * blk; i++) { if (i % 256 == 0) at("integers from %ld", i); must_reject(a, ks[i % 3], mpz_class((unsigned long)i), "an arbitrary value", i, 0); state(); }
        for (size_t len = 1 + b; len < 400; len += 64) for (int kind = 0; kind < 5; kind++) { at("garbage of %ld bytes", len); must_reject(a, ks[kind % 3], pattern(len, kind), "an arbitrary value", len, kind); must_reject(a, ks[kind % 3], pow2(8 * len) + pattern(len, kind), "an arbitrary value", len, kind); }
        exec();
    }
    sample("all truncations, and every integer below %llu", (unsigned long long)top);
}
// ------------------------------------------------------------------ long histories of calls
static const int PERIODS[] = {1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1000, 1025};
static long revisit(long i, long per, int shape) { return (shape && i % 3 == 2 ? i / 3 % 2 : i) % per; }

template <class F> static void calls(F f, long base)
{
    auto iv = ivs();
    for (int per : PERIODS) for (int shape = 0; shape < 2; shape++) for (int how = 0; how < 2; how++) {
        if (!mine()) continue;
        AES::init(iv[2]); AES o[2]; long len = base * (R.thorough() ? 8 : 1) / (ASAN ? 10 : 1); std::vector<mpz_class> ks, ps; for (int i = 0; i < per; i++) { ks.push_back(how ? modz(pattern(16, 50 + i), pow2(128)) : modz(pattern(1 + i % 16, 5 + i / 16), pow2(128))); ps.push_back(pattern(i * 5 % 37, 5 + i)); }
        for (long i = 0; i < len; i++) { at("call %ld period %ld shape %ld", i, (long)per, (long)shape); long k = revisit(i, per, shape), p = how ? i % 7 % per : k; f(o[i % 3 == 0], ks[k], ps[p], ps[(i * 3 + 1) % per], ks[(i * 5 + 2) % per], i); }
        state(); exec(); outcome(per * 4 + shape * 2 + how);
    }
    AES::init();
    sample("histories of %ld calls with 19 periods", base);
}
PART(c19_calls)
{
    calls([](AES& o, const mpz_class& k, const mpz_class& p, const mpz_class& q, const mpz_class& k2, long i) {
        round19(o, k, p, ivs()[2], 2); if (i % 3 == 0) { mpz_class c = o.encrypt(k2, q), d = o.decrypt(k2, c); MC_CHECK(d == q, "call %ld: key %s: %s decrypts to %s", i, hxz(k2).c_str(), hxz(q).c_str(), hxz(d).c_str()); step(2); } }, 4000);
}
PART(c20_calls)
{
    calls([](AES& o, const mpz_class& k, const mpz_class& p, const mpz_class& q, const mpz_class& k2, long i) {
        round20(o, k, p, 2); mpz_class c = o.encryptCRC(k, p), d = o.decryptCRC(k, c); MC_CHECK(d == p, "call %ld: %s decrypts to %s", i, hxz(p).c_str(), hxz(d).c_str()); step(2);
        if (k2 != k && p != 0) { mpz_class e = o.decryptCRC(k2, c); step(); MC_CHECK(e != p, "call %ld: the checked encryption of %s decrypts with another key", i, hxz(p).c_str()); }
        mpz_class b = c; mpz_combit(b.get_mpz_t(), i % 8); step(); MC_CHECK(o.decryptCRC(k, b) == 0, "call %ld: a checked encryption with a flipped bit decrypts to something", i);
        (void)q; }, 4000);
}
