// C35: every randomised operation draws randomness of its own.
#include "grp.hpp"
#include "alpha.hpp"
#include "dmeutil.hpp"
#include "ot.hpp"
#include "dot.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include "elgamal.hpp"
#include "utilities.hpp"
using namespace mc;

// Long-lived objects of one execution; every operation exists on two objects of its kind.
struct World {
    typedef ecc::Curve_secp256r1 C;
    C c[2]; ecc::Curve_bn254 b[2]; dme::DME_DDH d[2]; ot::OTrecv r[2]; ot::OTsndr s[2]; sss::ShamirSS h[2]; elgamal::ElGamal e[2]; puda::Puda p[2];
    dme::POINT P(long k) { return c[0].getDefaultGen() * mpz_class(k); }
    World(C& base, const dme::crs_ddh_t& crs) : d{crs, crs}, r{crs, crs}, s{crs, crs} {}
};
// reference strings: all different; equal second points; equal generators; decryption mode; both equal
static const int NCRS = 5, CRS[NCRS][4] = {{1, 2, 3, 1}, {1, 2, 5, 5}, {1, 1, 3, 5}, {1, 2, 3, 6}, {1, 1, 4, 4}};
static dme::crs_ddh_t fixed(ecc::Curve_secp256r1& c, int k) { auto g = c.getDefaultGen(); return dme::crs_ddh_t(g * mpz_class(CRS[k][0]), g * mpz_class(CRS[k][1]), g * mpz_class(CRS[k][2]), g * mpz_class(CRS[k][3])); }
static bool onCrs(int op) { return op >= 4 && op <= 10; }
static const int NOPS = 19;
static const char* NAMES[NOPS] = {"random scalar", "random point", "key pair of ElGamal", "encryption of ElGamal", "key generation for branch 0", "key generation for branch 1", "encryption under branch 0", "encryption under branch 1",
    "selection of message 0", "selection of message 1", "encryption of two messages", "random message", "set-up for one user", "sharing among two", "sharing among three", "messy set-up", "decryption set-up", "random integer", "random point of bn254"};
typedef std::vector<mpz_class> Val;
static void put(Val& v, const dme::POINT& p) { if (p.isInf()) { v.push_back(-1); v.push_back(-1); } else { v.push_back(p.getX().getRawValue()); v.push_back(p.getY().getRawValue()); } }
template <class F> static void putf(Val& v, const F& f) { v.push_back(f.getRawValue()); }
// what the operation makes up: values from which every draw of it can be told
static Val act(World& w, int op, int obj)
{
    Val v; step(); ecc::Curve_secp256r1& c = w.c[obj];
    switch (op) {
    case 0: putf(v, c.getRandomScalar()); break;
    case 1: put(v, c.getRandomPoint()); break;
    case 2: putf(v, w.e[obj].keyGen().sk); break;
    case 3: put(v, w.e[obj].encrypt(w.P(3), w.P(1)).u); break;
    case 4: putf(v, w.d[obj].KeyGen(dme::b0).sk); break;
    case 5: putf(v, w.d[obj].KeyGen(dme::b1).sk); break;
    case 6: { auto x = w.d[obj].Enc(dme::pkey_t(w.P(1), w.P(3)), dme::b0, w.P(2)); put(v, x.u); put(v, x.mv); break; }
    case 7: { auto x = w.d[obj].Enc(dme::pkey_t(w.P(1), w.P(3)), dme::b1, w.P(2)); put(v, x.u); put(v, x.mv); break; }
    case 8: case 9: { auto k = w.r[obj].selectMsg(op == 8 ? dme::b0 : dme::b1); put(v, k.g); put(v, k.h); break; }
    case 10: for (auto& x : w.s[obj].encMsgs(dme::pkey_t(w.P(1), w.P(3)), w.P(2), w.P(2))) { put(v, x.u); put(v, x.mv); } break;
    case 11: put(v, w.s[obj].getRandomMsg()); break;
    case 12: { auto k = w.p[obj].Setup(1); putf(v, std::get<0>(k)[0]); putf(v, std::get<1>(k)[0].tk); v.push_back(std::get<1>(k)[0].a); put(v, w.p[obj].Tag(puda::sk_t(mpz_class(0), puda::tk_t(mpz_class(1))), 0, 1)); break; }
    case 13: putf(v, w.h[obj].getShares(2, 2, sss::FIELD(mpz_class(3)))[0].val); break;
    case 14: { auto s = w.h[obj].getShares(3, 3, sss::FIELD(mpz_class(3))); putf(v, s[0].val); putf(v, s[1].val); break; }
    case 15: case 16: { dme::DME_DDH m(op == 15 ? dme::messy : dme::dec); put(v, m.crs.g0); put(v, m.crs.g1); put(v, m.crs.h0); put(v, m.crs.h1); break; }
    case 17: v.push_back(utils::getRandom(toy_secp.on ? 2 : 128)); break;
    case 18: { auto q = w.b[obj].getRandomPoint(); if (q.isInf()) v.push_back(-1); else { putf(v, q.getX()); putf(v, q.getY()); } break; }
    }
    return v;
}
static std::string str(const Val& v) { std::string s; for (auto& z : v) s += z.get_str(36) + ","; return s; }
struct History { std::vector<std::pair<int, int>> ops; int crs = 0; std::string name() const { std::string s = crs ? "reference string number " + std::to_string(crs) : std::string(); for (auto& o : ops) s += std::string(s.empty() ? "" : ", ") + NAMES[o.first] + (o.second ? " on the second object" : ""); return s; } };
static std::vector<Val> perform(const History& h)
{
    static ecc::Curve_secp256r1 base; World w(base, fixed(base, h.crs)); E.counter = 0; E.words = 0; if (E.log_on) E.log.clear();
    std::vector<Val> v; for (auto& o : h.ops) v.push_back(act(w, o.first, o.second));
    return v;
}
// small group: the joint distribution of a history's outcomes is the product of the operations' own distributions
static Dist<std::string>& single(int op, int crs)
{
    static std::map<std::pair<int, int>, Dist<std::string>> memo; std::pair<int, int> key(op, onCrs(op) ? crs : 0); auto it = memo.find(key); if (it != memo.end()) return it->second;
    Dist<std::string>& d = memo[key]; Explorer ex; E.reset(); E.tree = true; E.max_draws = 24;
    ex.run([&] { d.add(str(perform({{{op, 0}}, crs})[0])); });
    E.tree = false; return d;
}
static int draws(int op) { static int n[NOPS]; if (!n[op]) { E.reset(); perform({{{op, 0}}}); n[op] = 1 + (int)E.counter; } return n[op] - 1; }
static void product(const History& h)
{
    std::map<std::vector<std::string>, mpq_class> want; want[{}] = 1;
    for (auto& o : h.ops) { std::map<std::vector<std::string>, mpq_class> nx; auto& s = single(o.first, h.crs); for (auto& a : want) for (auto& b : s.m) { auto k = a.first; k.push_back(b.first); nx[k] = a.second * s.prob(b.first); } want.swap(nx); }
    Dist<std::vector<std::string>> d; Explorer ex; E.reset(); E.tree = true; E.max_draws = 24 * h.ops.size();
    ex.run([&] { std::vector<std::string> k; for (auto& v : perform(h)) k.push_back(str(v)); d.add(k); });
    E.tree = false; state(); outcome(std::hash<std::string>()(h.name()) ^ d.size());
    if (E.big_seen) { note("a draw was too large to enumerate"); R.exhaustive = false; E.big_seen = false; return; }
    for (auto& w : want) { mpq_class p = d.prob(w.first); MC_CHECK(p == w.second, "%s: results %s | %s occur together with probability %s instead of %s", h.name().c_str(), w.first[0].c_str(), w.first.back().c_str(), p.get_str().c_str(), w.second.get_str().c_str()); }
    MC_CHECK(d.size() == want.size(), "%s: results occur together that do not occur alone", h.name().c_str());
}
static bool toyready() { if (!toy_secp.on) return false; return Toy<Secp>::require(); }
PART(c35_pairs)
{
    if (!toyready()) return;
    long n = toy_secp.n.get_si(); double limit = R.thorough() ? 4.2e5 : 2e4;
    for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) for (int same = 0; same < 2; same++) {
        if (!same && (a >= 15 || b >= 15)) continue;
        if (!mine()) continue;
        double size = 1; for (int i = 0; i < draws(a) + draws(b); i++) size *= n;
        at("operations %ld %ld objects %ld", (long)a, (long)b, (long)same);
        if (size > limit) { R.skipped++; continue; }
        for (int k = 0; k < (onCrs(a) || onCrs(b) ? NCRS : 1); k++) product({{{a, 0}, {b, same ? 0 : 1}}, k});
    }
    sample("joint distributions of all pairs of %d randomised operations on the same and on different objects, up to %.0f executions each", NOPS, limit);
}
PART(c35_triples)
{
    if (!toyready()) return;
    long n = toy_secp.n.get_si(); double limit = R.thorough() ? 2e4 : 700;
    for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) for (int c = 0; c < NOPS; c++) {
        if (!mine()) continue;
        double size = 1; for (int i = 0; i < draws(a) + draws(b) + draws(c); i++) size *= n;
        at("operations %ld %ld %ld", (long)a, (long)b, (long)c);
        if (size > limit) { R.skipped++; continue; }
        for (int k = 0; k < (onCrs(a) && onCrs(b) && onCrs(c) ? NCRS : 1); k++) product({{{a, 0}, {b, 0}, {c, (a + b) % 2}}, k});
    }
    sample("joint distributions of triples of operations, up to %.0f executions each", limit);
}
// standard curve: every operation follows a draw, no draw is followed by two operations, no result repeats
static void independent(const History& h, u64 seed)
{
    E.reset(seed); auto base = perform(h); u64 nd = E.counter; std::vector<int> hit(base.size()); state();
    for (size_t i = 0; i < base.size(); i++) for (size_t j = 0; j < i; j++) for (auto& x : base[i]) for (auto& y : base[j]) MC_CHECK(x != y || x.get_str(2).size() < 100, "%s: results %zu and %zu share the value %s", h.name().c_str(), j + 1, i + 1, hxz(x).c_str());
    for (size_t i = 0; i < base.size(); i++) for (size_t j = 0; j < base[i].size(); j++) for (size_t k = 0; k < j; k++) MC_CHECK(base[i][j] != base[i][k], "%s: result %zu repeats the value %s", h.name().c_str(), i + 1, hxz(base[i][j]).c_str());
    for (u64 d = 0; d < nd; d++) {
        E.reset(seed); E.override_[d] = mpz_class("123456789123456789"); auto v = perform(h); exec(); int n = 0; size_t w = 0;
        for (size_t i = 0; i < v.size(); i++) if (v[i] != base[i]) { hit[i]++; if (n++) fail("%s: results %zu and %zu follow the same draw", h.name().c_str(), w + 1, i + 1); w = i; }
    }
    for (size_t i = 0; i < base.size(); i++) { MC_CHECK(hit[i] > 0, "%s: result %zu (%s) does not follow any draw", h.name().c_str(), i + 1, NAMES[h.ops[i].first]); outcome(base[i][0]); }
}
PART(c35_real)
{
    if (toy_secp.on) return;
    for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) for (int k = 0; k < (R.thorough() ? 3 : 1); k++) {
        if (!mine()) continue;
        at("operations %ld %ld", (long)a, (long)b);
        History h; if (k == 0) h.ops = {{a, 0}, {b, 0}, {a, 0}, {b, 1}}; else if (k == 1) h.ops = {{a, 0}, {a, 0}, {b, 0}, {a, 1}, {b, 0}}; else h.ops = {{a, 0}, {b, 1}, {b, 1}, {a, 1}, {a, 0}, {a, 0}};
        for (h.crs = 0; h.crs < (onCrs(a) && onCrs(b) ? NCRS : 1); h.crs++) independent(h, 3 + a * 20 + b);
    }
    // long histories: nothing repeats after many calls either
    for (int a = 0; a < NOPS; a++) {
        if (!mine()) continue;
        at("many times operation %ld", (long)a); E.reset(7 + a);
        int n = (R.thorough() ? 20000 : 2400) / (1 + draws(a)); E.reset(7 + a);
        std::set<mpz_class> seen; History h; for (int i = 0; i < n; i++) h.ops.push_back({a, i % 3 == 2});
        auto v = perform(h); exec();
        for (int i = 0; i < n; i++) for (auto& z : v[i]) { MC_CHECK(z.get_str(2).size() > 100, "%s number %d gives %s", NAMES[a], i, hxz(z).c_str()); MC_CHECK(seen.insert(z).second, "%s number %d repeats the value %s", NAMES[a], i, hxz(z).c_str()); }
    }
    sample("every pair of operations, each twice: each draw flipped alone; hundreds of repetitions of each operation");
}
