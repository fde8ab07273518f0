// Bounded explicit-state / stateless exploration runtime used by every harness in this directory.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <memory>
#include <algorithm>

namespace mc {

typedef uint64_t u64;
typedef int64_t i64;

// ------------------------------------------------------------------ run state
struct PartEnd {};                      // thrown after a violation: the part stops there
struct Skip {};                         // thrown by explorer bodies: this execution is out of the property's domain

struct Run {
    std::string part, tier = "quick", toy = "real";
    u64 shard = 0, nshards = 1;
    i64 only = -1;                      // replay: execute this work unit only
    u64 unit = 0;                       // work-unit counter (replay granularity)
    bool thorough() const { return tier == "thorough"; }
    // coverage, measured
    u64 states = 0, transitions = 0, execs = 0, skipped = 0, known = 0;
    std::unordered_set<u64> outcomes;
    std::vector<std::string> samples;
    std::vector<std::string> notes;
    std::set<std::string> known_seen;
    bool exhaustive = true;
    u64 violations = 0;
};
extern Run R;

// progress marker used by the hang watchdog and by the crash handler
extern volatile u64 g_progress;
extern const char* g_fmt;
extern long g_arg[10];
extern int g_narg;

inline void at0(const char* f) { g_fmt = f; g_narg = 0; g_progress = g_progress + 1; }
template <class... A> inline void at(const char* f, A... a)
{
    long v[] = {(long)a...};
    g_fmt = f; g_narg = sizeof...(a);
    for (size_t i = 0; i < sizeof...(a); i++) g_arg[i] = v[i];
    g_progress = g_progress + 1;
}
inline void at(const char* f) { at0(f); }
std::string where();

// A build that is many times slower than expected ends early, and says so, instead of running into the deadline.
bool over_budget();
// Work unit: returns true if this process executes it.
inline bool mine()
{
    u64 u = R.unit++;
    g_progress = g_progress + 1;
    if (R.only >= 0) return (i64)u == R.only;
    return u % R.nshards == R.shard && !over_budget();
}

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// A violation that may be listed as a known finding: recorded under `key`, exploration goes on.
void finding(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)

void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

inline u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline void outcome(u64 h) { if (R.outcomes.size() < 2000000) R.outcomes.insert(mix(h)); }
inline void outcome(const mpz_class& z) { outcome(mpz_size(z.get_mpz_t()) ? mix(mpz_getlimbn(z.get_mpz_t(), 0)) ^ mpz_getlimbn(z.get_mpz_t(), mpz_size(z.get_mpz_t()) - 1) * 31 : 0); }
inline void step(u64 n = 1) { R.transitions += n; }
inline void state(u64 n = 1) { R.states += n; }
inline void exec(u64 n = 1) { R.execs += n; g_progress = g_progress + 1; }

// ------------------------------------------------------------------ parts
typedef void (*PartFn)();
struct PartReg { PartReg(const char* n, PartFn f); };
#define PART(name) static void part_##name(); static mc::PartReg reg_##name(#name, part_##name); static void part_##name()

// ------------------------------------------------------------------ explorer
// Depth-first enumeration of all answers at the choice points of one execution.
// `bound` limits the number of choices that differ from answer 0 (the default answer).
struct Explorer {
    struct C { u64 idx, width; };
    std::vector<C> path;
    size_t pos = 0;
    long bound = -1;                    // -1: unbounded
    u64 executions = 0, points = 0;
    u64 choose(u64 width);
    bool next();
    // Runs body once per choice sequence. Skip thrown by the body: the execution does not count.
    template <class F> void run(F body)
    {
        path.clear();
        Explorer* old = active; active = this;
        struct Restore { Explorer* o; ~Restore() { active = o; } } restore{old};
        do {
            pos = 0;
            try { body(); executions++; R.execs++; } catch (Skip&) { R.skipped++; }
            g_progress = g_progress + 1;
        } while (next());
    }
    std::string str() const;
    mpz_class den() const { mpz_class d = 1; for (size_t i = 0; i < pos && i < path.size(); i++) d *= (unsigned long)path[i].width; return d; }
    u64 hash() const { u64 h = 7; for (auto& c : path) h = mix(h ^ c.idx) + c.width; return h; }
    static Explorer* active;
};
// Exact probability distribution of an observable over all explored executions.
template <class K> struct Dist {
    std::map<K, std::map<u64, u64>> m;  // outcome -> (denominator of the path probability -> count)
    void add(const K& k)
    {
        mpz_class d = Explorer::active ? Explorer::active->den() : mpz_class(1);
        m[k][d.fits_ulong_p() ? d.get_ui() : mix(mpz_getlimbn(d.get_mpz_t(), 0) * 31 + mpz_getlimbn(d.get_mpz_t(), 1))]++;
    }
    mpq_class prob(const K& k) const
    {
        mpq_class s = 0; auto it = m.find(k);
        if (it == m.end()) return s;
        for (auto& e : it->second) { mpq_class q(mpz_class((unsigned long)e.second), mpz_class((unsigned long)e.first)); q.canonicalize(); s += q; }
        return s;
    }
    bool operator==(const Dist& o) const
    {
        if (m.size() != o.m.size()) return false;
        auto a = m.begin(); auto b = o.m.begin();
        for (; a != m.end(); ++a, ++b) { if (!(a->first == b->first)) return false; if (a->second != b->second && prob(a->first) != o.prob(a->first)) return false; }
        return true;
    }
    // every outcome has the same probability
    bool flat() const
    {
        if (m.empty()) return false;
        const auto& f = m.begin()->second; mpq_class pf = prob(m.begin()->first);
        for (auto& e : m) if (e.second != f && prob(e.first) != pf) return false;
        return true;
    }
    size_t size() const { return m.size(); }
    void clear() { m.clear(); }
};
inline u64 choose(u64 width) { return Explorer::active ? Explorer::active->choose(width) : 0; }

// ------------------------------------------------------------------ environment: every random source of the library
struct Draw { char kind; mpz_class range; mpz_class value; };   // kind: 'm' urandomm, 'b' urandomb, 'r' rand(), 'd' word of std::random_device
struct Env {
    bool tree = false;                  // enumerate small draws through the active explorer
    u64 tree_limit = 1 << 12;
    u64 max_draws = 4000;               // per execution in tree mode; beyond that the execution is cut (Skip)
    bool passthrough = false;           // leave the library its real random sources
    bool log_on = false;
    std::vector<Draw> log;
    u64 counter = 0;                    // number of draws since reset
    u64 words = 0;                      // number of words of rand() and std::random_device since reset
    u64 seed = 1;
    std::map<u64, mpz_class> override_; // draw number -> forced answer (reduced into the range)
    // optional hook: decides a draw; return true if handled
    std::function<bool(Draw&)> hook;
    bool big_seen = false;              // a draw too large to enumerate was answered by default in tree mode
    void reset(u64 s = 1) { counter = words = 0; seed = s; log.clear(); override_.clear(); hook = nullptr; big_seen = false; }
};
extern Env E;
mpz_class default_answer(const mpz_class& range);  // next deterministic non-zero default answer below range

// ------------------------------------------------------------------ toy substitution
// With MC_TOY_SECP / MC_TOY_BN set to "p:a:b:gx:gy:n", every string literal of the library that denotes one of
// the standard curve constants parses to the corresponding small parameter.
struct ToyParams { bool on = false; mpz_class p, a, b, gx, gy, n; };
extern ToyParams toy_secp, toy_bn;

} // namespace mc
