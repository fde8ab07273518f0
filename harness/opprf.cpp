// C21 - C23: oblivious programmable PRF with a threshold.
#include "alpha.hpp"
#include "ecref.hpp"
#include "opprf.hpp"
#include <unordered_map>
#include <functional>
using namespace mc;
using opprf::OPPRFserver;
using opprf::OPPRFclient;
static const long TOP = (1l << MSG_BITS) - 1;
static bool ready(long bits)
{
    if (bits && MSG_BITS != bits) { note("OPPRF message width override not in effect: part skipped"); R.exhaustive = false; return false; }
    if (!EcRef::ok<dme::FIELD_p>()) { note("toy substitution not in effect"); R.exhaustive = false; return false; }
    return true;
}
// Every order the server can send three ciphertexts in. std::shuffle of three elements scales one word of entropy to
// six values, std::random_shuffle reduces two calls of rand(), a shuffle by hand asks for numbers below 2 and 3.
static void enumerate_shuffles(u64 vary = 0)
{
    static long pend, words; pend = -1; words = 0;
    E.hook = [vary](Draw& d) {
        if (d.kind == 'r') { if (pend < 0) { long v = choose(6); d.value = v % 2; pend = v / 2; } else { d.value = pend; pend = -1; } return true; }
        if (d.kind == 'd') { if (words++ >= 4) return false; d.value = (mpz_class((unsigned long)choose(6)) * d.range + d.range / 2) / 6 + (vary ? mix(vary * 64 + words) % 0x8000000 : 0); return true; }
        if (d.range <= 6) { d.value = (unsigned long)choose(d.range.get_ui()); return true; }
        return false;
    };
}
static EcRef::Q before_mask;   // the result of the last run before its mask
static void run(OPPRFserver& s, OPPRFclient& c, long x)
{
    c.setMessage(x);
    for (int r = MSG_BITS; r > 0; r--) { dme::pkey_t pk = c.runOTRound_start(r); opprf::ot_ctxts_t t = s.runOTRound(r, pk); c.runOTRound_end(r, t); step(3); }
    before_mask = EcRef::from(c.getResult());
    c.unmaskResult(s.sendEncryptedMasks()); step();
}
static EcRef::Q want(const EcRef& e, OPPRFserver& s, const EcRef::Q& S, long x) { return e.add(EcRef::from(s.getKOPPRF()), e.mul(S, mpz_class(x))); }
#define SHOW(q) EcRef::show(q).c_str()
static void check_result(const EcRef& e, OPPRFserver& s, OPPRFclient& c, const EcRef::Q& S, long th, long x, bool below)
{
    EcRef::Q got = EcRef::from(c.getResult()), w = want(e, s, S, x);
    MC_CHECK(e.on(got), "theta %ld, x %ld: the result %s is not on the curve", th, x, SHOW(got));
    if (below) MC_CHECK(got == w, "theta %ld, x %ld: result %s instead of K + x*S = %s", th, x, SHOW(got), SHOW(w));
    else {
        MC_CHECK(!(got == w), "theta %ld, x %ld above the threshold: the result is K + x*S", th, x);
        // a client takes the mask it opened with either sign
        MC_CHECK(!(e.add(e.add(before_mask, before_mask), e.neg(got)) == w), "theta %ld, x %ld above the threshold: the opposite of the opened mask gives K + x*S", th, x);
    }
    outcome(got.x); state();
}
// The most a client with input x can learn by decryption: it opens its branch of every transfer and tries every key
// it has on every symmetric ciphertext. Returns what the final masks open to.
struct Known { std::vector<mpz_class> keys; std::vector<int> opened; std::vector<mpz_class> masks; int foreign = 0; std::vector<int> pos; std::vector<dme::POINT> prfs; };
static Known attack(OPPRFserver& s, const dme::crs_ddh_t& crs, long x, const std::vector<mpz_class>& older = {}, bool* during_masks = nullptr, const EcRef::Q* Kx = nullptr)
{
    ot::OTrecv r(crs); aes::AES a; Known k;
    auto tryall = [&](const mpz_class& c, std::vector<mpz_class>& fresh, int& n, int i) {
        for (auto& key : k.keys) { mpz_class d = a.decryptCRC(key, c); if (d != 0) { n++; fresh.push_back(d); k.pos.push_back(i); } }
        for (auto& key : older) if (a.decryptCRC(key, c) != 0) k.foreign++; };
    for (int rd = MSG_BITS; rd > 0; rd--) {
        dme::pkey_t pk = r.selectMsg(x >> (rd - 1) & 1 ? dme::b1 : dme::b0);
        opprf::ot_ctxts_t t = s.runOTRound(rd, pk); step(2);
        std::vector<mpz_class> fresh; int n = 0;
        if (rd == MSG_BITS) { fresh.push_back(r.decryptMsgDecode(t.ctxt[0])); n = 1; }
        else for (int i = 0; i < 3; i++) tryall(r.decryptMsgDecode(t.ctxt[i]), fresh, n, i);
        k.prfs.push_back(r.decryptMsg(t.cprf));
        for (auto& f : fresh) k.keys.push_back(f);
        k.opened.push_back(n);
    }
    int n = 0, i = 0;
    if (Kx) {   // a mask at infinity has no encoding
        EcRef e; EcRef::Q m = *Kx; for (auto& p : k.prfs) m = e.add(m, e.neg(EcRef::from(p)));
        if (m.inf) throw Skip();
    }
    if (during_masks) *during_masks = true;
    opprf::symctxt_t ms = s.sendEncryptedMasks();
    if (during_masks) *during_masks = false;
    for (auto& c : ms) tryall(c, k.masks, n, i++);
    k.opened.push_back(n); step();
    return k;
}
// does the encoded point, with either sign, equal q?
static bool enc_is(const mpz_class& m, const EcRef::Q& q) { return !q.inf && (m >> 1) == q.x; }

struct Setup { dme::crs_ddh_t crs; dme::POINT S; EcRef::Q s; };
static Setup setup(const EcRef& e, u64 seed, int secret = 0)
{
    E.reset(seed); dme::DME_DDH d = seed % 6 == 0 ? dme::DME_DDH() : dme::DME_DDH(seed % 2 ? dme::messy : dme::dec); static dme::CURVE cv;
    dme::POINT S = secret == 3 ? dme::POINT() : secret == 1 ? cv.getDefaultGen() : secret == 2 ? cv.getDefaultGen() * mpz_class(-1) : cv.getRandomPoint();
    return {d.crs, S, EcRef::from(S)};
}
template <class F> static void pairs(bool above, F f)
{
    for (long th = 0; th <= TOP; th++) for (long x = 0; x <= TOP; x++) { if ((x > th) != above) continue; if (!mine()) continue; f(th, x); }
}
static void plain_pair(const EcRef& e, long th, long x, u64 seed, int secret)
{
    Setup u = setup(e, seed, secret); at("theta %ld x %ld seed %ld secret %ld", th, x, seed, (long)secret);
    E.reset(seed * 17 + th * 3 + x);
    OPPRFserver s(th, u.crs); OPPRFclient c(u.crs); s.setSecret(u.S); s.prepareKeysAndInputs();
    run(s, c, x); check_result(e, s, c, u.s, th, x, x <= th); exec();
}
static void all_pairs(bool above, long bits)
{
    if (!ready(bits)) return;
    EcRef e;
    pairs(above, [&](long th, long x) { int ns = bits <= 3 ? (R.thorough() ? 24 : 6) : bits == 4 ? (R.thorough() ? 6 : 1) : 1; for (u64 sd = 1; sd <= (u64)ns; sd++) plain_pair(e, th, x, sd, (th + x + sd) % 3); });
    sample("every pair of threshold and input of %ld bits %s the threshold", bits, above ? "above" : "up to");
}
PART(c21_pairs) { all_pairs(false, MSG_BITS); }
PART(c22_pairs) { all_pairs(true, MSG_BITS); }
// 16 bits: thresholds and inputs around every bit
static std::vector<std::pair<long, long>> wide(bool above, int level)
{
    std::vector<std::pair<long, long>> v; std::set<std::pair<long, long>> seen;
    std::vector<long> ths = {0, 1, 1000, 0x7fff, 0x8000, 0x5555, 0xaaaa, 0xfffe, 0xffff, 0x00ff, 0xff00};
    if (level) for (int b = 0; b < 16; b++) { ths.push_back(1 << b); ths.push_back((1 << b) - 1); ths.push_back(0xffff ^ 1 << b); }
    auto add = [&](long th, long x) { if (x < 0 || x > 0xffff || (x > th) != above) return; if (seen.insert({th, x}).second) v.push_back({th, x}); };
    for (long th : ths) {
        for (long x : {0l, 1l, th - 1, th, th + 1, th / 2, 0xffffl, 0x7fffl, 0x8000l}) add(th, x);
        for (int b = 0; b < 16; b += (level ? 1 : 3)) { add(th, th ^ 1 << b); if (level > 1) { add(th, (th >> b << b)); add(th, th | ((1 << b) - 1)); add(th, (th ^ 1 << b) | ((1 << b) - 1)); add(th, (th ^ 1 << b) >> b << b); } }
    }
    return v;
}
static void wide_pairs(bool above)
{
    if (!ready(16)) return;
    EcRef e; auto v = wide(above, R.thorough() ? 2 : 0);
    for (size_t i = 0; i < v.size(); i++) { if (!mine()) continue; plain_pair(e, v[i].first, v[i].second, 1 + i % 5, i % 3); }
    sample("%zu pairs of 16-bit thresholds and inputs around every bit", v.size());
}
PART(c21_wide) { wide_pairs(false); }
PART(c22_wide) { wide_pairs(true); }
// 16 bits: a set of pairs such that at every bit position every combination of W threshold bits and W input bits occurs
// with the input equal to, already below and already above the threshold in the higher bits
static std::vector<std::pair<long, long>> windows(bool above, int W)
{
    std::set<long> todo; std::vector<std::pair<long, long>> v, cand;
    auto cover = [&](long th, long x) {
        std::vector<long> r;
        for (int i = 16 - W; i >= 0; i--) { long pt = th >> (i + W), px = x >> (i + W); r.push_back(((((long)i * 3 + (pt == px ? 0 : px < pt ? 1 : 2)) << W | (th >> i & ((1 << W) - 1))) << W) | (x >> i & ((1 << W) - 1))); }
        return r; };
    u64 z = 12345;
    for (int i = 0; i < (W > 3 ? 60000 : 20000); i++) { z = mix(z + i); long th = z & 0xffff, x; int eq = (z >> 16) % 17; long low = (1l << (16 - eq)) - 1; x = (th & ~low) | ((z >> 32) & low); x &= 0xffff; if ((x > th) == above) cand.push_back({th, x}); }
    for (auto& c : cand) for (long k : cover(c.first, c.second)) todo.insert(k);
    // the first difference at every position, below every combination of H equal bits
    int H = W + 2;
    for (int i = 0; i < 16; i++) for (long w = 0; w < 1l << std::min(H, 15 - i); w++) { z = mix(z + w); long keep = ((2l << std::min(H, 15 - i)) - 1) << i, th = (z & 0xffff & ~keep) | w << (i + 1) | (above ? 0 : 1l << i), x = (th ^ 1l << i) ^ (z >> 20 & ((1l << i) - 1)); v.push_back({th, x}); }
    for (size_t need = 16 - W + 1; need > 0; need--) for (auto& c : cand) { auto k = cover(c.first, c.second); size_t n = 0; for (long q : k) n += todo.count(q); if (n >= need) { for (long q : k) todo.erase(q); v.push_back(c); } }
    return v;
}
static void window_pairs(bool above)
{
    if (!ready(16)) return;
    EcRef e; int W = R.thorough() ? 4 : 3; auto v = windows(above, W);
    for (size_t i = 0; i < v.size(); i++) { if (!mine()) continue; plain_pair(e, v[i].first, v[i].second, 1 + i % 6, i % (above ? 3 : 4)); }
    sample("%zu pairs with every window of %d threshold and input bits at every position, after every comparison so far", v.size(), W);
}
PART(c21_windows) { window_pairs(false); }
PART(c22_windows) { window_pairs(true); }
static void real_pairs(bool above)
{
    if (toy_secp.on || !ready(16)) return;
    EcRef e; std::vector<std::pair<long, long>> v;
    for (long th : {0l, 1000l, 0x8000l, 0xffffl, 0x7fffl, 0xfffel}) for (long x : {0l, th, th + 1, th - 1, 0xffffl}) if (x >= 0 && x <= 0xffff && (x > th) == above) v.push_back({th, x});
    for (size_t i = 0; i < v.size(); i++) { if (i % (R.thorough() ? 1 : 3)) continue; if (!mine()) continue; plain_pair(e, v[i].first, v[i].second, 1 + i, i % 3); }
}
PART(c21_real) { real_pairs(false); }
PART(c22_real) { real_pairs(true); }
// every order of the shuffled ciphertexts
static void shuffles(bool above)
{
    if (!ready(0)) return;
    EcRef e;
    pairs(above, [&](long th, long x) {
        Setup u = setup(e, 3 + th, 0); Explorer ex; if (MSG_BITS > 2 && !R.thorough()) ex.bound = 1; else if (MSG_BITS > 3) ex.bound = 2;
        ex.run([&] {
            at("theta %ld x %ld", th, x); E.reset(th * 5 + x + 1); enumerate_shuffles();
            OPPRFserver s(th, u.crs); OPPRFclient c(u.crs); s.setSecret(u.S); s.prepareKeysAndInputs();
            run(s, c, x); check_result(e, s, c, u.s, th, x, x <= th); });
        if (th == TOP && x == TOP) sample("%llu combinations of shuffles per pair", (unsigned long long)ex.executions); });
}
PART(c21_shuffles) { shuffles(false); }
PART(c22_shuffles) { shuffles(true); }
// every single draw of the parties forced to boundary values
static void draws(bool above)
{
    if (!ready(0)) return;
    EcRef e;
    std::vector<mpz_class> kv = {1, 255, 256, pow2(64), pow2(120) - 1, pow2(120), pow2(127), pow2(128) - 1, mpz_class("00ff00ff00ff00ff00ff00ff00ff00", 16)}, mv = {0, 1, e.n - 1, 2};
    pairs(above, [&](long th, long x) {
        Setup u = setup(e, 4 + x, 0);
        std::vector<Draw> log; u64 first = 0, prepared = 0;
        auto session = [&](long draw, const mpz_class& v, bool record) {
            E.reset(th * 7 + x + 2); if (draw >= 0) E.override_[draw] = v; if (record) { E.log_on = true; E.log.clear(); }
            OPPRFserver s(th, u.crs); OPPRFclient c(u.crs); s.setSecret(u.S); if (record) first = E.counter; s.prepareKeysAndInputs(); if (record) prepared = E.counter;
            run(s, c, x); check_result(e, s, c, u.s, th, x, x <= th); exec();
            if (record) { log = E.log; E.log_on = false; E.log.clear(); } };
        at("theta %ld x %ld", th, x); session(-1, 0, true);
        for (size_t d = 0; d < log.size(); d++) {
            if (d >= prepared && !R.thorough() && (d + th + x) % 4) continue;
            bool key = log[d].kind == 'b' || log[d].range == pow2(128);
            for (auto& v : key ? kv : mv) { if (!key && v == 0 && !(d >= first && d < prepared)) continue;   // a mask at infinity has no encoding
                at("theta %ld x %ld draw %ld value %ld", th, x, d, v.get_ui()); session(d, v, false); }
        }
    });
    sample("each draw of a session in turn at every boundary value, keys of 1 to 16 bytes included");
}
PART(c21_draws) { draws(false); }
PART(c22_draws) { draws(true); }

// C22: what the client can open
static void learn(long th, long x, const EcRef& e, u64 seed)
{
    Setup u = setup(e, 5 + seed, 0); at("theta %ld x %ld seed %ld", th, x, seed);
    // the draw that determines the session key point
    EcRef::Q K[2], res[2]; std::vector<mpz_class> mk[2]; std::vector<long> kd; std::vector<mpz_class> vals;
    E.reset(seed * 13 + 1); u64 first, last; EcRef::Q base;
    { OPPRFserver s(th, u.crs); s.setSecret(u.S); first = E.counter; s.prepareKeysAndInputs(); last = E.counter; base = EcRef::from(s.getKOPPRF()); }
    long kdraw = -1;
    for (u64 d = first; d < last && kdraw < 0; d++) { E.reset(seed * 13 + 1); E.override_[d] = 987654321; OPPRFserver s(th, u.crs); s.setSecret(u.S); s.prepareKeysAndInputs(); if (!(EcRef::from(s.getKOPPRF()) == base)) kdraw = d; step(); }
    MC_CHECK(kdraw >= 0, "the session key point does not depend on anything drawn for the session");
    for (int v = 0; v < 2; v++) {
        auto prep = [&](OPPRFserver& s) { s.setSecret(u.S); s.prepareKeysAndInputs(); };
        auto start = [&] { E.reset(seed * 13 + 1); if (v) E.override_[kdraw] = 987654321; };
        { start(); OPPRFserver s(th, u.crs); prep(s); OPPRFclient c(u.crs); run(s, c, x); res[v] = EcRef::from(c.getResult()); K[v] = EcRef::from(s.getKOPPRF()); }
        start(); OPPRFserver s(th, u.crs); prep(s);
        Known k = attack(s, u.crs, x);
        for (size_t i = 0; i < k.opened.size(); i++) MC_CHECK(k.opened[i] == 1, "theta %ld, x %ld: the client's keys open %d %s", th, x, k.opened[i], i == (size_t)MSG_BITS ? "of the three masks" : "ciphertexts of a round");
        mk[v] = k.masks;
        // a mask that yields K + x*S in combination with what the transfers gave
        EcRef::Q w = want(e, s, u.s, x);
        if (x > th) {
            MC_CHECK(!(res[v] == w), "theta %ld, x %ld: the result above the threshold is K + x*S", th, x);
            // the opened mask is the difference of two points the client knows
            MC_CHECK(!enc_is(mk[v][0], K[v]), "theta %ld, x %ld: the mask opened above the threshold is the key point", th, x);
        }
    }
    MC_CHECK(!(K[0] == K[1]), "forcing the draw did not change the key point");
    if (x > th) {
        MC_CHECK(res[0] == res[1], "theta %ld, x %ld: the result above the threshold changes with the server's key point", th, x);
        MC_CHECK(mk[0] == mk[1], "theta %ld, x %ld: the mask the client opens above the threshold changes with the server's key point", th, x);
    } else {
        EcRef::Q d0 = e.add(res[0], e.neg(K[0])), d1 = e.add(res[1], e.neg(K[1]));
        MC_CHECK(d0 == d1, "theta %ld, x %ld: the result does not follow the key point", th, x);
    }
    state(); exec(2); outcome(res[0].x);
}
PART(c22_learn)
{
    if (!ready(0)) return;
    EcRef e;
    if (MSG_BITS < 16) { for (long th = 0; th <= TOP; th++) for (long x = 0; x <= TOP; x++) for (u64 sd = 1; sd <= (MSG_BITS < 4 ? (R.thorough() ? 12u : 4u) : 1u); sd++) { if (!mine()) continue; learn(th, x, e, sd); } sample("every pair: two key points, all else equal, and the closure of the client's keys under decryption"); }
    else { auto v = wide(true, R.thorough() ? 1 : 0); for (size_t i = 0; i < v.size(); i++) { if (i % (R.thorough() ? 1 : 3)) continue; if (!mine()) continue; learn(v[i].first, v[i].second, e, i); } }
}

// ------------------------------------------------------------------ C23
// x class relative to theta, secret, complete or aborted
PART(c23_seq)
{
    if (!ready(0)) return;
    EcRef e; int depth = MSG_BITS >= 16 ? (R.thorough() ? 3 : 2) : R.thorough() ? 4 : 3;
    std::vector<long> ths = MSG_BITS >= 16 ? std::vector<long>{0x6000} : std::vector<long>{1, TOP / 2, TOP - 1};
    // ops: 0..5 full session with x class (0, theta, theta+1) and secret; 6, 7: aborted after one round / before the masks
    for (long th : ths) for (int o0 = 0; o0 < 8; o0++) for (int o1 = 0; o1 < 8; o1++) {
        if (!mine()) continue;
        Explorer ex; Setup u = setup(e, 21 + th, 0); Setup u2 = setup(e, 22 + th, 0);
        dme::POINT Sec[2] = {u.S, u2.S}; EcRef::Q sec[2] = {u.s, u2.s};
        ex.run([&] {
            at("theta %ld first sessions %ld %ld", th, (long)o0, (long)o1);
            E.reset(o0 * 8 + o1 + 5); OPPRFserver s(th, u.crs); OPPRFclient c(u.crs);
            std::vector<mpz_class> older; std::vector<EcRef::Q> Ks;
            for (int i = 0; i < depth; i++) {
                long op = i == 0 ? o0 : i == 1 ? o1 : choose(8);
                long x = op < 6 ? (op % 3 == 0 ? (i + op) % (th + 1) : op % 3 == 1 ? th : th + 1 + i % (TOP - th)) : op == 6 ? 0 : TOP;
                int q = op < 6 ? op / 3 : i & 1;
                s.setSecret(Sec[q]); s.prepareKeysAndInputs();
                EcRef::Q K = EcRef::from(s.getKOPPRF());
                for (auto& k : Ks) MC_CHECK(!(k == K), "session %d has the key point of an earlier session", i);
                Ks.push_back(K);
                if (op < 6) {
                    run(s, c, x);
                    EcRef::Q got = EcRef::from(c.getResult()), w = want(e, s, sec[q], x);
                    if (x <= th) MC_CHECK(got == w, "theta %ld, session %d with x %ld: result %s instead of %s", th, i, x, SHOW(got), SHOW(w));
                    else MC_CHECK(!(got == w) && e.on(got), "theta %ld, session %d with x %ld above the threshold: %s", th, i, x, SHOW(got));
                    outcome(got.x);
                } else {
                    c.setMessage(x);
                    for (int r = MSG_BITS; r > (op == 6 ? MSG_BITS - 1 : 0); r--) { dme::pkey_t pk = c.runOTRound_start(r); c.runOTRound_end(r, s.runOTRound(r, pk)); step(3); }
                }
                // keys of earlier sessions are useless
                if (MSG_BITS < 16 || i == depth - 1 || i == 0) {
                    Known k = attack(s, u.crs, x, older);
                    MC_CHECK(k.foreign == 0, "theta %ld, session %d: keys of earlier sessions open %d of its ciphertexts", th, i, k.foreign);
                    for (size_t j = 0; j < k.opened.size(); j++) MC_CHECK(k.opened[j] == 1, "theta %ld, session %d, x %ld: the keys open %d ciphertexts of step %zu", th, i, x, k.opened[j], j);
                    for (auto& z : k.keys) older.push_back(z);
                }
                s.clean(); c.clean(); step(2);
                MC_CHECK(c.getResult().isInf(), "the result of a session is still there after clean()");
            }
            state();
        });
        if (o0 == 0 && o1 == 0) sample("all sequences of %d sessions: x below, at, above the threshold, two secrets, aborted sessions", depth);
    }
}
// sessions under related secrets: the same, the opposite, the double, infinity, the generator, or none set again; on one server or on two
PART(c23_secrets)
{
    if (!ready(0)) return;
    EcRef e; int depth = MSG_BITS >= 16 ? 2 : 3; long th = MSG_BITS >= 16 ? 0xb5c3 : TOP - 1;
    for (int o0 = 0; o0 < 7; o0++) for (int o1 = 0; o1 < 7; o1++) for (int two = 0; two < 2; two++) {
        if (!mine()) continue;
        Explorer ex; Setup u = setup(e, 41, 0); static dme::CURVE other;
        std::vector<dme::POINT> Sec = {u.S, u.S * mpz_class(-1), u.S + u.S, dme::POINT(), other.getDefaultGen(), dme::POINT(u.S.getX(), u.S.getY(), &other)};
        ex.run([&] {
            at("secrets %ld %ld servers %ld", (long)o0, (long)o1, (long)two + 1); E.reset(o0 * 7 + o1 + 77);
            OPPRFserver sv[2] = {OPPRFserver(th, u.crs), OPPRFserver(th, u.crs)}; OPPRFclient c(u.crs); int cur[2] = {-1, -1};
            for (int i = 0; i < depth; i++) {
                int op = i == 0 ? o0 : i == 1 ? o1 : (int)choose(7), w = two ? i & 1 : 0; OPPRFserver& s = sv[w];
                if (op == 6 && cur[w] < 0) op = 0;
                if (op < 6) { dme::POINT t = Sec[op]; s.setSecret(t); cur[w] = op; }
                s.prepareKeysAndInputs(); long x = i == 0 ? th : (op * 5 + i * 3 + 1) % (th + 1);
                run(s, c, x); EcRef::Q got = EcRef::from(c.getResult()), W = want(e, s, EcRef::from(Sec[cur[w]]), x); state();
                MC_CHECK(got == W, "session %d with secret #%d and input %ld: result %s instead of %s", i + 1, cur[w], x, SHOW(got), SHOW(W));
                s.clean(); c.clean(); step(2); outcome(got.x);
            }
        });
        if (o0 == 0 && o1 == 0 && !two) sample("all sequences of %d sessions over 7 related secrets, one server or two in turn", depth);
    }
}
// two independent pairs of parties, every interleaving of their steps
PART(c23_interleave)
{
    if (!ready(0)) return;
    EcRef e; long pairsx[][4] = {{1, 1, 2, 3}, {TOP, 2, 0, 0}, {0, 1, TOP - 1, TOP}, {TOP / 2, TOP / 2, TOP / 2, TOP / 2 + 1}};
    for (int c0 = 0; c0 < 4; c0++) for (int lead = 0; lead < 8; lead++) {
        if (!mine()) continue;
        Explorer ex; if (MSG_BITS > 2) ex.bound = R.thorough() ? 3 : 2;
        Setup u[2] = {setup(e, 31 + c0, 0), setup(e, 32 + c0, 0)};
        if (c0 & 1) u[1].crs = u[0].crs;
        ex.run([&] {
            at("pairs #%ld first steps %ld", (long)c0, (long)lead); E.reset(c0 * 8 + lead + 9);
            struct Party { OPPRFserver s; OPPRFclient c; long x; int pc; dme::pkey_t pk; opprf::ot_ctxts_t t; };
            Party p[2] = {{OPPRFserver(pairsx[c0][0], u[0].crs), OPPRFclient(u[0].crs), pairsx[c0][1], 0, {}, {}}, {OPPRFserver(pairsx[c0][2], u[1].crs), OPPRFclient(u[1].crs), pairsx[c0][3], 0, {}, {}}};
            int end = 1 + 2 * MSG_BITS, done = 0;     // prepare; per round: start + server, end; the last also unmasks
            while (p[0].pc < end || p[1].pc < end) {
                int k = p[0].pc >= end ? 1 : p[1].pc >= end ? 0 : done < 3 ? lead >> done & 1 : (int)choose(2);
                done++; Party& q = p[k]; step();
                if (q.pc == 0) { q.s.setSecret(u[k].S); q.s.prepareKeysAndInputs(); q.c.setMessage(q.x); }
                else { int r = MSG_BITS - (q.pc - 1) / 2; if (q.pc % 2) { q.pk = q.c.runOTRound_start(r); q.t = q.s.runOTRound(r, q.pk); } else { q.c.runOTRound_end(r, q.t); if (r == 1) q.c.unmaskResult(q.s.sendEncryptedMasks()); } }
                q.pc++;
            }
            for (int k = 0; k < 2; k++) check_result(e, p[k].s, p[k].c, u[k].s, pairsx[c0][2 * k], p[k].x, p[k].x <= pairsx[c0][2 * k]);
        });
        if (c0 == 0 && lead == 0) sample("%llu interleavings per leading pattern", (unsigned long long)ex.executions);
    }
}

// ------------------------------------------------------------------ C33
// Where the client finds the ciphertext it can open, over the orders the server can choose. The distribution is exact
// when the server scales or reduces its random words itself; another generator between the words and the order makes
// it a sample of that generator, so only what such a generator cannot miss is demanded.
static void judge_orders(const std::vector<std::vector<int>>& seen, long th, long x, bool joint)
{
    size_t m = seen[0].size(); double n = seen.size();
    for (size_t j = 0; j < m; j++) {
        long c[3] = {0, 0, 0}; for (auto& v : seen) c[v[j]]++;
        for (int p = 0; p < 3; p++) MC_CHECK(c[p] >= (joint ? 0.5 : 0.15) * n / 3, "theta %ld, x %ld: message %zu of %zu has the openable ciphertext at positions 0, 1, 2 in %ld, %ld, %ld of %.0f executions", th, x, j + 1, m, c[0], c[1], c[2], n);
        for (size_t k = 0; k < j && joint; k++) {
            long d[9] = {0}; for (auto& v : seen) d[v[j] * 3 + v[k]]++;
            for (int p = 0; p < 9; p++) MC_CHECK(d[p] >= 0.25 * n / 9, "theta %ld, x %ld: the positions in messages %zu and %zu are %d and %d in only %ld of %.0f executions", th, x, k + 1, j + 1, p % 3, p / 3, d[p], n);
        }
    }
    if (joint) { std::set<std::vector<int>> all(seen.begin(), seen.end()); size_t want = 1; for (size_t j = 0; j < m; j++) want *= 3; MC_CHECK(all.size() == want, "theta %ld, x %ld: only %zu of %zu combinations of positions occur", th, x, all.size(), want); for (auto& v : all) { u64 h = th * 64 + x; for (int p : v) h = h * 3 + p; outcome(h); } }
}
static std::vector<int> positions(const Setup& u, long th, long x, u64 seed)
{
    OPPRFserver s(th, u.crs); dme::POINT S = u.S; s.setSecret(S); s.prepareKeysAndInputs();
    Known k = attack(s, u.crs, x);
    MC_CHECK(k.pos.size() == (size_t)MSG_BITS, "theta %ld, x %ld: the client opens %zu ciphertexts in %d messages", th, x, k.pos.size(), MSG_BITS);
    state(); (void)seed;
    return k.pos;
}
PART(c33_order)
{
    if (!ready(0)) return;
    EcRef e; u64 need = R.thorough() ? 900 : MSG_BITS == 2 ? 250 : 430;
    for (long th = 0; th <= TOP; th++) for (long x = 0; x <= TOP; x++) {
        if (MSG_BITS > 2 && !R.thorough() && (th * (TOP + 1) + x) % 7) continue;
        if (!mine()) continue;
        Setup u = setup(e, 6 + th, 0); std::vector<std::vector<int>> seen;
        for (u64 round = 1; seen.size() < need; round++) {
            Explorer ex; u64 before = seen.size();
            ex.run([&] { at("theta %ld x %ld", th, x); E.reset(seen.size() * 64 + th * 8 + x + 1); enumerate_shuffles(round); seen.push_back(positions(u, th, x, round)); });
            if (seen.size() - before > 4000) break;
        }
        E.hook = nullptr;
        judge_orders(seen, th, x, true);
        if (th == TOP && x == TOP) sample("%zu orders of the %d shuffled messages per pair of threshold and input", seen.size(), MSG_BITS);
    }
}
PART(c33_wide)
{
    if (!ready(16)) return;
    EcRef e; std::vector<std::pair<long, long>> v = {{1000, 999}, {1000, 1000}, {1000, 1001}, {0, 0xffff}, {0xffff, 0}, {0x5555, 0xaaaa}, {0xffff, 0xffff}, {0x8000, 0x7fff}};
    for (size_t i = 0; i < v.size(); i++) {
        if (!mine()) continue;
        long th = v[i].first, x = v[i].second; Setup u = setup(e, 6 + i, 0); std::vector<std::vector<int>> seen;
        for (u64 r = 0; r < (R.thorough() ? 360u : 72u); r++) {
            at("theta %ld x %ld run %ld", th, x, r); E.reset(i * 1000 + r + 1);
            // every message takes each of the six values of its word in some execution
            u64 w = 0; long pend = -1;
            E.hook = [&](Draw& d) {
                if (d.kind != 'r' && d.kind != 'd' && d.range > 6) return false;
                u64 c = (r + w++) % 6;
                if (d.kind == 'r') { if (pend < 0) { d.value = c % 2; pend = c / 2; } else { d.value = pend; pend = -1; w--; } }
                else if (d.kind == 'd') d.value = (mpz_class((unsigned long)c) * d.range + d.range / 2) / 6 + mix(r * 64 + w) % 0x8000000;
                else d.value = mix(r * 99 + w) % d.range.get_ui();
                return true; };
            seen.push_back(positions(u, th, x, r)); exec();
        }
        E.hook = nullptr; judge_orders(seen, th, x, false);
    }
    sample("16 bit inputs: every position occurs in every message");
}

// ------------------------------------------------------------------ C36
static std::string ptstr(const dme::POINT& p) { return p.isInf() ? "inf" : p.getX().getRawValue().get_str(36) + "," + p.getY().getRawValue().get_str(36); }
// total variation distance
template <class K> static mpq_class distance(const Dist<K>& a, const Dist<K>& b)
{
    mpq_class t = 0; for (auto& e : a.m) { mpq_class q = a.prob(e.first) - b.prob(e.first); if (q > 0) t += q; }
    return t;
}
// Draws from a small range are enumerated while `on`.
static bool* enumerate_small(bool* masks_ = nullptr)
{
    static bool on, masks; on = masks = false; static bool* pm; pm = masks_;
    E.hook = [](Draw& d) { masks = pm && *pm; if ((!on && !masks) || d.range > 64 || d.kind == 'r' || d.kind == 'd') return false; if (masks) d.value = 1 + (unsigned long)choose(d.range.get_ui() - 1); else d.value = (unsigned long)choose(d.range.get_ui()); return true; };
    return &on;
}
// everything the server receives in one or two sessions has the same distribution for every input
PART(c36_client)
{
    if (!ready(0)) return;
    EcRef e; if (e.n > 20) return;
    long th = TOP / 2; std::map<int, Dist<std::string>> first;
    for (int sessions = 1; sessions <= (MSG_BITS == 2 ? 2 : 1); sessions++) for (int used = 0; used < 2; used++) {
        if (!mine()) continue;
        Dist<std::string> ref; std::string refname; long combos = 1; for (int i = 0; i < sessions; i++) combos *= TOP + 1;
        E.reset(7); dme::DME_DDH d(dme::dec); dme::POINT S = d.getCurve()->getDefaultGen() * mpz_class(2);
        for (long xs = 0; xs < combos; xs++) {
            Dist<std::string> dist; Explorer ex;
            ex.run([&] {
                at("%ld sessions inputs #%ld client %s", (long)sessions, xs, (long)used); E.reset(xs * 2 + used + 3); bool& on = *enumerate_small();
                OPPRFserver s(th, d.crs); OPPRFclient c(d.crs); std::string v; long q = xs;
                if (used) { dme::POINT T = S; s.setSecret(T); s.prepareKeysAndInputs(); c.setMessage(th); for (int r = MSG_BITS; r > 0; r--) c.runOTRound_end(r, s.runOTRound(r, c.runOTRound_start(r))); s.clean(); c.clean(); }
                for (int i = 0; i < sessions; i++, q /= TOP + 1) {
                    dme::POINT T = S; s.setSecret(T); s.prepareKeysAndInputs(); c.setMessage(q % (TOP + 1));
                    for (int r = MSG_BITS; r > 0; r--) { on = true; dme::pkey_t pk = c.runOTRound_start(r); on = false; v += ptstr(pk.g) + "/" + ptstr(pk.h) + " "; opprf::ot_ctxts_t t = s.runOTRound(r, pk); on = true; c.runOTRound_end(r, t); on = false; step(3); }
                    EcRef::Q m = e.add(e.add(EcRef::from(s.getKOPPRF()), e.mul(EcRef::from(T), mpz_class(q % (TOP + 1)))), e.neg(EcRef::from(c.getResult())));
                    if (!m.inf) { c.unmaskResult(s.sendEncryptedMasks()); step(); }      // a mask at infinity has no encoding
                    s.clean(); c.clean();
                }
                dist.add(v); });
            E.hook = nullptr; state(); outcome(dist.size() * 100 + xs);
            if (xs == 0) ref = dist;
            else MC_CHECK(dist == ref, "%d sessions%s: what the server receives for the inputs %ld, %ld is not distributed as for the inputs 0, 0", sessions, used ? " after an earlier one" : "", xs % (TOP + 1), xs / (TOP + 1));
        }
    }
    sample("all inputs and all randomness of a client in one and two sessions of %d bits", MSG_BITS);
}
// what the client can open tells of K and S only K + x*S (input within the threshold) or nothing (above it)
PART(c36_server)
{
    if (!ready(0)) return;
    EcRef e; if (e.n > 20) return;
    long n = e.n.get_si();
    for (long th = 0; th <= TOP; th++) for (long x = 0; x <= TOP; x++) for (int used = 0; used < 2; used++) {
        if (MSG_BITS > 2 && !(th == 5 && (x == 3 || x == 6)) && !(R.thorough() && (th == 2 || th == 7))) continue;
        if (MSG_BITS > 2 && used) continue;
        if (used && ((th * 3 + x) % 4 || !R.thorough()) && !(th == x && th == 1) && !(th == 0 && x == TOP)) continue;
        if (!mine()) continue;
        Setup u = setup(e, 4, 0); bool below = x <= th;
        std::vector<Dist<std::string>> joint, views, results;
        for (long sec = 1; sec < (MSG_BITS > 2 ? 3 : n); sec++) {
            dme::CURVE* cv = new dme::CURVE; dme::POINT S = cv->getDefaultGen() * mpz_class(sec); EcRef::Q sq = EcRef::from(S);
            Dist<std::string> j, v, q; Explorer ex;
            ex.run([&] {
                at("theta %ld x %ld secret %ldG", th, x, sec); E.reset(th * 5 + x + 1); static bool masks; masks = false; bool& on = *enumerate_small(&masks);
                OPPRFserver s(th, u.crs); dme::POINT T = S; s.setSecret(T);
                if (used) { s.prepareKeysAndInputs(); EcRef::Q K0 = e.add(EcRef::from(s.getKOPPRF()), e.mul(sq, mpz_class(x))); attack(s, u.crs, x, {}, nullptr, &K0); s.clean(); s.setSecret(T); }
                on = true; s.prepareKeysAndInputs(); on = false;
                EcRef::Q K = EcRef::from(s.getKOPPRF()), Kx = e.add(K, e.mul(sq, mpz_class(x)));
                Known k = attack(s, u.crs, x, {}, &masks, &Kx);
                MC_CHECK(k.masks.size() == 1, "theta %ld, x %ld: the client opens %zu masks", th, x, k.masks.size());
                std::string view; for (auto& p : k.prfs) view += ptstr(p) + " "; view += k.masks[0].get_str(36);
                std::string key = EcRef::show(below ? Kx : K);
                j.add(key + " " + view); v.add(view); q.add(key); });
            E.hook = nullptr; state(); outcome(j.size() * 64 + sec);
            joint.push_back(j); views.push_back(v); results.push_back(q);
            delete cv;
        }
        // with the blinding point at infinity (probability 1/n) nothing is hidden; above the threshold the executions left
        // out (true mask at infinity, probability 1/n) are another set for each secret
        mpq_class slack(below ? 1 : 2, n); slack.canonicalize();
        for (size_t i = 0; i < joint.size(); i++) {
            for (size_t k = 0; k < i; k++) { mpq_class t = distance(joint[i], joint[k]), t2 = distance(joint[k], joint[i]); MC_CHECK(t <= slack && t2 <= slack, "theta %ld, x %ld%s: what the client opens together with the %s changes with the server's secret (%zuG, %zuG; distance %s)", th, x, used ? ", second session" : "", below ? "result" : "key point", k + 1, i + 1, t.get_str().c_str()); }
            if (below) continue;
            // independent of the key point: compare with the product of the two distributions
            mpq_class t = 0; for (auto& a : results[i].m) for (auto& b : views[i].m) { mpq_class d = results[i].prob(a.first) * views[i].prob(b.first) - joint[i].prob(a.first + " " + b.first); if (d > 0) t += d; }
            MC_CHECK(t <= slack, "theta %ld, x %ld above the threshold: what the client opens depends on the key point (distance %s)", th, x, t.get_str().c_str());
        }
    }
    sample("every pair of threshold and input, secret point, and all randomness a session is prepared with, in a group of order %ld", n);
}
// any width: the PRF points of the rounds are blinded by draws of their own (a matching that leaves out what blinds them all)
PART(c36_blinding)
{
    if (!ready(0)) return;
    EcRef e; std::vector<std::pair<long, long>> v = {{0, 0}, {TOP / 3, TOP / 3}, {TOP, TOP}, {TOP / 2, TOP / 2 + 1}, {1, TOP}};
    for (size_t i = 0; i < v.size(); i++) for (int used = 0; used < 2; used++) {
        if (MSG_BITS >= 16 && !R.thorough() && (i % 2 || (used && i != 4))) continue;
        if (!mine()) continue;
        long th = v[i].first, x = v[i].second; Setup u = setup(e, 9 + i, 0);
        u64 first = 0, last = 0;
        auto opened = [&](long draw) {
            E.reset(i * 2 + used + 1); if (draw >= 0) E.override_[draw] = 987654321;
            OPPRFserver s(th, u.crs); dme::POINT T = u.S; s.setSecret(T);
            if (used) { s.prepareKeysAndInputs(); attack(s, u.crs, TOP - x); s.clean(); s.setSecret(T); }
            first = E.counter; s.prepareKeysAndInputs(); last = E.counter;
            std::vector<std::string> r; for (auto& p : attack(s, u.crs, x).prfs) r.push_back(ptstr(p)); exec(); return r; };
        at("theta %ld x %ld session %ld", th, x, (long)used); auto base = opened(-1); u64 f = first, l = last; std::vector<std::vector<int>> moves(MSG_BITS);
        for (u64 d = f; d < l; d++) { at("theta %ld x %ld session %ld draw %ld", th, x, (long)used, d); auto o = opened(d); int n = 0; for (int j = 0; j < MSG_BITS; j++) n += o[j] != base[j]; if (n < MSG_BITS) for (int j = 0; j < MSG_BITS; j++) if (o[j] != base[j]) moves[j].push_back(d); }
        std::map<int, int> owner; std::function<bool(int, std::set<int>&)> assign = [&](int j, std::set<int>& seen) { for (int d : moves[j]) if (seen.insert(d).second) { if (!owner.count(d) || assign(owner[d], seen)) { owner[d] = j; return true; } } return false; };
        for (int j = 0; j < MSG_BITS; j++) { std::set<int> seen; MC_CHECK(assign(j, seen), "theta %ld, x %ld: the PRF point of round %d has no blinding draw that is not also another round's", th, x, MSG_BITS - j); }
        for (int j = 0; j < MSG_BITS; j++) for (int k = 0; k < j; k++) MC_CHECK(base[j] != base[k], "theta %ld, x %ld: rounds %d and %d open the same PRF point", th, x, MSG_BITS - k, MSG_BITS - j);
        state(); outcome(std::hash<std::string>()(base[0]));
    }
    sample("each draw the server prepares a session with flipped alone");
}

// every input of the full width: the client's choice messages, one after the other, under the same draws. Their exponents
// must be those of input 0; where they are not, every message must still have a draw of its own.
PART(c36_inputs)
{
    if (!ready(16)) return;
    EcRef e; if (e.n > 100000) return;
    long n = e.n.get_si(); std::unordered_map<unsigned long, long> logs; auto code = [&](const mpz_class& x, const mpz_class& y) { return x.get_ui() * 2 + (y * 2 > e.p); };
    { EcRef::Q q = e.O(); for (long i = 0; i < n; i++, q = e.add(q, e.G())) if (i) logs[code(q.x, q.y)] = i; }
    auto log = [&](const dme::POINT& q) { if (q.isInf()) return 0l; auto i = logs.find(code(q.getX().getRawValue(), q.getY().getRawValue())); MC_CHECK(i != logs.end(), "%s is not a group element", SHOW(EcRef::from(q))); return i->second; };
    auto inv = [&](long a) { mpz_class r, z = a; mpz_invert(r.get_mpz_t(), z.get_mpz_t(), e.n.get_mpz_t()); return r.get_si(); };
    u64 seed = 3; std::vector<long> ref, g, h;
    E.reset(seed); dme::DME_DDH d(dme::dec);
    for (auto* q : {&d.crs.g0, &d.crs.g1}) g.push_back(log(*q));
    for (auto* q : {&d.crs.h0, &d.crs.h1}) h.push_back(log(*q));
    if (!g[0] || !g[1] || !h[0] || !h[1]) { note("degenerate reference string"); R.exhaustive = false; return; }
    std::vector<long> gi = {inv(g[0]), inv(g[1])};
    // a fresh client, one that has run before, and one that was aborted
    auto exps = [&](OPPRFclient& c, long x, long draw, long val, u64& used) {
        E.reset(seed + 5); if (draw >= 0) E.override_[draw] = val;
        c.setMessage(x); std::vector<long> r;
        for (int rd = MSG_BITS; rd > 0; rd--) {
            dme::pkey_t pk = c.runOTRound_start(rd); step(); int b = x >> (rd - 1) & 1; long a = log(pk.g) * gi[b] % n;
            MC_CHECK(log(pk.h) == a * h[b] % n, "x %ld, round %d: the choice message is not a key for its branch", x, rd); r.push_back(a);
        }
        used = E.counter; return r; };
    u64 used = 0; { OPPRFclient c(d.crs); ref = exps(c, 0, -1, 0, used); }
    for (long blk = 0; blk < 256; blk++) {
        if (!mine()) continue;
        OPPRFclient kept(d.crs); long flips = 0;
        for (long lo = 0; lo < 256; lo++) {
            long x = blk * 256 + lo; at("x %ld", x); OPPRFclient fresh(d.crs); OPPRFclient& c = lo % 4 ? kept : fresh; if (lo % 4 == 2) c.clean();
            auto r = exps(c, x, -1, 0, used); state();
            if (r == ref || flips > 40) continue;
            flips++; std::vector<std::vector<int>> moves(MSG_BITS); u64 last = used;
            for (u64 dr = 0; dr < last; dr++) { std::set<int> m; for (long v0 : {12345l, 777l, 31001l}) { u64 w; long v = 1 + v0 % (n - 1); auto o = exps(c, x, dr, v, w); for (int j = 0; j < MSG_BITS; j++) if (o[j] != r[j]) m.insert(j); } for (int j : m) moves[j].push_back(dr); }
            std::map<int, int> owner; std::function<bool(int, std::set<int>&)> assign = [&](int j, std::set<int>& seen) { for (int q : moves[j]) if (seen.insert(q).second) { if (!owner.count(q) || assign(owner[q], seen)) { owner[q] = j; return true; } } return false; };
            for (int j = 0; j < MSG_BITS; j++) { std::set<int> seen; MC_CHECK(assign(j, seen), "x %ld: the choice message of round %d has no draw that is not also another round's", x, MSG_BITS - j); }
        }
        exec(); outcome(blk);
    }
    sample("every 16-bit input: 16 choice messages each, on fresh and used clients");
}
// ------------------------------------------------------------------ long histories of one server
PART(c33_long)
{
    if (!ready(0)) return;
    EcRef e; const long pairs[][2] = {{1, 0}, {1, 1}, {1, 2}, {2, 3}, {0, 0}, {3, 3}}; const long rounds = MSG_BITS == 2 ? 720 : 216, win = 72;
    for (auto& pr : pairs) for (int same = 0; same < 2; same++) {
        if (!mine()) continue;
        long th = pr[0], x = pr[1]; Setup u = setup(e, 11 + th * 4 + x, 0); E.reset(th * 100 + x * 2 + same + 1); OPPRFserver s(th, u.crs); dme::POINT S = u.S; s.setSecret(S); if (same) s.prepareKeysAndInputs(); std::vector<std::vector<int>> seen;
        for (long r = 0; r < rounds; r++) {
            at("theta %ld x %ld session %ld", th, x, r); if (!same) s.prepareKeysAndInputs();
            u64 w = 0; long pend = -1;
            E.hook = [&](Draw& d) {
                if (d.kind != 'r' && d.kind != 'd' && d.range > 6) return false;
                u64 c = (r + w++) % 6;
                if (d.kind == 'r') { if (pend < 0) { d.value = c % 2; pend = c / 2; } else { d.value = pend; pend = -1; w--; } }
                else if (d.kind == 'd') d.value = (mpz_class((unsigned long)c) * d.range + d.range / 2) / 6 + mix(r * 64 + w) % 0x8000000;
                else d.value = mix(r * 99 + w) % d.range.get_ui();
                return true; };
            Known k = attack(s, u.crs, x); E.hook = nullptr; exec();
            MC_CHECK(k.pos.size() == (size_t)MSG_BITS, "theta %ld, x %ld: the client opens %zu ciphertexts in session %ld", th, x, k.pos.size(), r); seen.push_back(k.pos);
            if (!same) s.clean();
            if ((r + 1) % win == 0) { judge_orders(seen, th, x, false); seen.clear(); }
        }
        state();
    }
    sample("%ld sessions of one server: every position occurs in every message of each %ld", rounds, win);
}
// everything that is sent in a long history differs
PART(c36_long)
{
    if (!ready(0)) return;
    EcRef e; long N = (MSG_BITS == 2 ? 400 : MSG_BITS == 3 ? 250 : 30) * (R.thorough() ? 4 : 1);
    for (int k = 0; k < 8; k++) {
        if (!mine()) continue;
        long th = k * 5 % (TOP + 1); Setup u = setup(e, 21 + k, 0); E.reset(900 + k); OPPRFserver s(th, u.crs), s2(th, u.crs); OPPRFclient c(u.crs), c2(u.crs); dme::POINT S = u.S, S2 = u.S; s.setSecret(S); s2.setSecret(S2);
        std::set<std::string> pks, us, prf, keys, masks;
        for (long i = 0; i < N; i++) {
            bool two = k & 1 && i % 3 == 1; OPPRFserver& sv = two ? s2 : s; OPPRFclient& cl = two ? c2 : c; long x = k < 4 ? (i * 3 + i / 5) % (TOP + 1) : th; at("theta %ld session %ld x %ld", th, i, x);
            sv.prepareKeysAndInputs(); cl.setMessage(x);
            for (int r = MSG_BITS; r > 0; r--) {
                dme::pkey_t pk = cl.runOTRound_start(r); MC_CHECK(pks.insert(ptstr(pk.g)).second && pks.insert(ptstr(pk.h)).second, "session %ld, round %d: the client's choice message repeats a point of an earlier one", i, r);
                opprf::ot_ctxts_t t = sv.runOTRound(r, pk); step(2); auto chk = [&](const ot::ctxt_v_t& v) { for (auto& z : v) { MC_CHECK(us.insert(ptstr(z.u)).second, "session %ld, round %d: two of the server's ciphertexts share their randomness", i, r); MC_CHECK(us.insert(ptstr(z.mv)).second, "session %ld, round %d: two of the server's ciphertexts coincide", i, r); } };
                for (auto& v : t.ctxt) chk(v);
                chk(t.cprf); cl.runOTRound_end(r, t);
            }
            opprf::symctxt_t ms = sv.sendEncryptedMasks(); cl.unmaskResult(ms); step(2); for (auto& m : ms) MC_CHECK(masks.insert(m.get_str(36)).second, "session %ld: the server sends a mask again", i);
            EcRef::Q got = EcRef::from(cl.getResult()); MC_CHECK(masks.insert(SHOW(got)).second, "session %ld: the result is one of an earlier session", i);
            if (x > th) MC_CHECK(!(got == want(e, sv, u.s, x)), "session %ld: theta %ld, x %ld above the threshold: the result is K + x*S", i, th, x);
            sv.clean(); cl.clean();
        }
        state(); exec(); outcome(k);
    }
    sample("%ld sessions of one or two pairs of parties: no point of a choice message, ciphertext or mask occurs twice", N);
}
