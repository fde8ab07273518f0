#include "mc.hpp"
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <exception>
#include <typeinfo>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*cb)(void));
#define MC_ASAN 1
#endif

namespace mc {
Run R;
Env E;
ToyParams toy_secp, toy_bn;
volatile u64 g_progress = 0;
const char* g_fmt = "start";
long g_arg[10];
int g_narg = 0;
Explorer* Explorer::active = nullptr;
static double hang_limit = 40;

std::string where()
{
    char b[512];
    snprintf(b, sizeof b, g_fmt, g_arg[0], g_arg[1], g_arg[2], g_arg[3], g_arg[4], g_arg[5], g_arg[6], g_arg[7], g_arg[8], g_arg[9]);
    std::string s = b;
    if (Explorer::active) s += " choices=" + Explorer::active->str();
    for (auto& c : s) if (c == '\n') c = ' ';
    return s;
}

static void emit(const char* tag, const char* key, const std::string& msg)
{
    std::string m = msg;
    for (auto& c : m) if (c == '\n' || c == '\t') c = ' ';
    printf("%s\t%s\t%s\t%llu\t%llu\t%s\t%s\n", tag, R.part.c_str(), R.toy.c_str(), (unsigned long long)R.shard,
           (unsigned long long)(R.unit ? R.unit - 1 : 0), key, m.c_str());
    fflush(stdout);
}

void fail(const char* fmt, ...)
{
    char b[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    R.violations++;
    emit("V", "-", std::string(b) + "  [at " + where() + "]");
    throw PartEnd();
}

void finding(const char* key, const char* fmt, ...)
{
    R.known++;
    if (!R.known_seen.insert(key).second) return;
    char b[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    emit("V", key, std::string(b) + "  [at " + where() + "]");
}

void sample(const char* fmt, ...)
{
    if (R.samples.size() >= 4) return;
    char b[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    R.samples.push_back(b);
}
void note(const char* fmt, ...)
{
    char b[1024];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    R.notes.push_back(b);
}

bool over_budget()
{
    static const time_t start = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec; }();
    static bool over = false;
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    if (!over && t.tv_sec - start > (R.thorough() ? 2400 : 200)) { over = true; R.exhaustive = false; note("time budget of this process used up: the remaining units were not run"); }
    return over;
}
static std::map<std::string, PartFn>& parts() { static std::map<std::string, PartFn> m; return m; }
PartReg::PartReg(const char* n, PartFn f) { parts()[n] = f; }

u64 Explorer::choose(u64 width)
{
    if (width <= 1) return 0;
    points++;
    if (pos < path.size()) {
        if (path[pos].width != width) {
            // An execution prefix did not replay: the library's draws depend on something other than its
            // inputs and the answers it was given.
            emit("V", "-", "replaying the same answers diverged: choice point " + std::to_string(pos) + " had width " +
                 std::to_string(path[pos].width) + ", now " + std::to_string(width) + "  [at " + where() + "]");
            R.violations++;
            throw PartEnd();
        }
        return path[pos++].idx;
    }
    if (path.size() > 200000) { emit("V", "-", "more than 200000 choice points in one execution [at " + where() + "]"); throw PartEnd(); }
    path.push_back({0, width});
    R.states++;                         // a new node of the choice tree
    pos++;
    return 0;
}

bool Explorer::next()
{
    path.resize(pos);                   // answers after the last one consumed are void
    long dev = 0;
    if (bound >= 0) for (auto& c : path) dev += c.idx != 0;
    while (!path.empty()) {
        C& c = path.back();
        if (c.idx + 1 < c.width) {
            if (bound < 0 || c.idx != 0 || dev + 1 <= bound) { c.idx++; return true; }
        }
        if (c.idx) dev--;
        path.pop_back();
    }
    return false;
}

std::string Explorer::str() const
{
    std::string s;
    size_t n = pos < path.size() ? pos : path.size();
    size_t last = 0;
    for (size_t i = 0; i < n; i++) if (path[i].idx) last = i + 1;
    for (size_t i = 0; i < last && i < 64; i++) s += (i ? "," : "") + std::to_string(path[i].idx);
    return "(" + s + ") of " + std::to_string(n);
}

mpz_class default_answer(const mpz_class& range)
{
    mpz_class v;
    for (int tries = 0; tries < 64; tries++) {
        size_t bits = mpz_sizeinbase(range.get_mpz_t(), 2) + 64;
        v = 0;
        for (size_t i = 0; i < bits; i += 64) {
            u64 w = mix(mix(E.seed * 0x1000003 + E.counter) + i * 977 + tries * 7919);
            mpz_mul_2exp(v.get_mpz_t(), v.get_mpz_t(), 64);
            mpz_class t; mpz_import(t.get_mpz_t(), 1, 1, 8, 0, 0, &w);
            v += t;
        }
        mpz_mod(v.get_mpz_t(), v.get_mpz_t(), range.get_mpz_t());
        if (v != 0 || range == 1) break;
    }
    return v;
}

static void answer(mpz_ptr rop, char kind, const mpz_class& range)
{
    Draw d{kind, range, 0};
    bool done = false;
    auto it = E.override_.find(E.counter);
    if (it != E.override_.end()) {
        mpz_mod(d.value.get_mpz_t(), it->second.get_mpz_t(), range.get_mpz_t());
        done = true;
    }
    if (!done && E.hook) done = E.hook(d);
    if (!done && E.tree && Explorer::active) {
        if (E.counter >= E.max_draws) throw Skip();
        if (range <= (unsigned long)E.tree_limit) { d.value = (unsigned long)choose(range.get_ui()); done = true; }
        else E.big_seen = true;
    }
    if (!done) d.value = default_answer(range);
    E.counter++;
    if (E.log_on) E.log.push_back(d);
    mpz_set(rop, d.value.get_mpz_t());
}

// ---- constants
struct Known { const char* hex; bool bn; int which; };
static const Known known[] = {
    {"ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", false, 0},
    {"ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", false, 1},
    {"5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", false, 2},
    {"6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", false, 3},
    {"4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", false, 4},
    {"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", false, 5},
    {"2523648240000001ba344d80000000086121000000000013a700000000000013", true, 0},
    {"2523648240000001ba344d80000000086121000000000013a700000000000012", true, 3},
    {"2523648240000001ba344d8000000007ff9f800000000010a10000000000000d", true, 5},
};
static const int NK = sizeof known / sizeof *known;
static mpz_class* known_val;            // parsed standard values
static mpz_class* known_to;             // substitutes
static bool known_on[NK];

static void parse_toy(const char* env, ToyParams& t)
{
    const char* s = getenv(env);
    if (!s || !*s) return;
    mpz_class* f[] = {&t.p, &t.a, &t.b, &t.gx, &t.gy, &t.n};
    std::string str(s);
    size_t pos = 0;
    for (int i = 0; i < 6; i++) {
        size_t e = str.find(':', pos);
        std::string tok = str.substr(pos, e == std::string::npos ? e : e - pos);
        *f[i] = mpz_class(0);
        for (char ch : tok) *f[i] = *f[i] * 10 + (ch - '0');
        if (e == std::string::npos && i < 5) { fprintf(stderr, "bad %s\n", env); exit(2); }
        pos = e + 1;
    }
    t.on = true;
}
} // namespace mc

using namespace mc;

extern "C" {
int __real___gmpz_set_str(mpz_ptr, const char*, int);
int __real___gmpz_init_set_str(mpz_ptr, const char*, int);
}

static bool toy_ready = false, toy_any = false;
static void toy_init()
{
    toy_ready = true;
    parse_toy("MC_TOY_SECP", toy_secp);
    parse_toy("MC_TOY_BN", toy_bn);
    toy_any = toy_secp.on || toy_bn.on;
    known_val = new mpz_class[NK];
    known_to = new mpz_class[NK];
    for (int i = 0; i < NK; i++) {
        __real___gmpz_set_str(known_val[i].get_mpz_t(), known[i].hex, 16);
        ToyParams& t = known[i].bn ? toy_bn : toy_secp;
        known_on[i] = t.on;
        mpz_class* f[] = {&t.p, &t.a, &t.b, &t.gx, &t.gy, &t.n};
        known_to[i] = *f[known[i].which];
    }
}

// Substitution is by value, not by spelling; the memo only avoids re-parsing the same text.
static bool substitute(mpz_ptr r, const char* s, int base)
{
    struct Memo { char text[96]; int base; signed char k; };
    static Memo memo[64];
    size_t len = strlen(s);
    bool memoable = len >= 32 && len < sizeof memo[0].text;
    Memo* m = nullptr;
    if (memoable) {
        u64 h;
        memcpy(&h, s + len - 8, 8);
        u64 h2; memcpy(&h2, s + 8, 8);
        m = &memo[mix(h ^ h2 * 3) & 63];
        if (m->base == base && !memcmp(m->text, s, len + 1)) {
            if (m->k < 0) return false;
            mpz_set(r, known_to[(int)m->k].get_mpz_t());
            return true;
        }
    }
    mpz_class v;
    if (__real___gmpz_set_str(v.get_mpz_t(), s, base) != 0) return false;
    int k = -1;
    for (int i = 0; i < NK; i++) if (known_on[i] && v == known_val[i]) { k = i; break; }
    if (m) { memcpy(m->text, s, len + 1); m->base = base; m->k = k; }
    if (k < 0) return false;
    mpz_set(r, known_to[k].get_mpz_t());
    return true;
}

extern "C" int __wrap___gmpz_set_str(mpz_ptr r, const char* s, int base)
{
    if (!toy_ready) toy_init();
    if (toy_any && s && substitute(r, s, base)) return 0;
    return __real___gmpz_set_str(r, s, base);
}
extern "C" int __wrap___gmpz_init_set_str(mpz_ptr r, const char* s, int base)
{
    if (!toy_ready) toy_init();
    if (toy_any && s) {
        mpz_init(r);
        if (substitute(r, s, base)) return 0;
        return __real___gmpz_set_str(r, s, base);
    }
    return __real___gmpz_init_set_str(r, s, base);
}
// Before main() and in processes that explore the real random sources (C32) nothing is replaced.
static bool env_started;
static bool environment_live() { return env_started && !E.passthrough; }
extern "C" {
void __real___gmpz_urandomm(mpz_ptr, gmp_randstate_ptr, mpz_srcptr);
void __real___gmpz_urandomb(mpz_ptr, gmp_randstate_ptr, mp_bitcnt_t);
void __real___gmpz_rrandomb(mpz_ptr, gmp_randstate_ptr, mp_bitcnt_t);
}
extern "C" void __wrap___gmpz_urandomm(mpz_ptr rop, gmp_randstate_ptr s, mpz_srcptr n)
{
    if (!environment_live()) return __real___gmpz_urandomm(rop, s, n);
    answer(rop, 'm', mpz_class(n));
}
extern "C" void __wrap___gmpz_urandomb(mpz_ptr rop, gmp_randstate_ptr s, mp_bitcnt_t bits)
{
    if (!environment_live()) return __real___gmpz_urandomb(rop, s, bits);
    mpz_class r = 1;
    mpz_mul_2exp(r.get_mpz_t(), r.get_mpz_t(), bits);
    answer(rop, 'b', r);
}
extern "C" void __wrap___gmpz_rrandomb(mpz_ptr rop, gmp_randstate_ptr s, mp_bitcnt_t bits)
{
    if (!environment_live()) return __real___gmpz_rrandomb(rop, s, bits);
    __wrap___gmpz_urandomb(rop, s, bits);
}
// rand() and words of the system's entropy source: counted apart, so that generators that are seeded once and kept
// do not shift the numbering of the other draws
static u64 word_answer(char kind, u64 range)
{
    Draw d{kind, mpz_class((unsigned long)range), mpz_class((unsigned long)(mix(E.seed * 31 + E.words * 7 + 5) % range))};
    if (E.hook) E.hook(d);
    E.words++;
    return d.value.get_ui();
}
extern "C" {
int __real_rand();
long __real_random();
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
int __wrap_rand() { return environment_live() ? (int)word_answer('r', 1ull << 31) : __real_rand(); }
long __wrap_random() { return environment_live() ? (long)word_answer('r', 1ull << 31) : __real_random(); }
unsigned long long entropy_words;
// words of entropy held constant, except for one bit ("word:bit"), for C32
unsigned mc_entropy_word()
{
    const char* spec = getenv("VERIF_C32_WORDS");
    unsigned long long i = entropy_words++; unsigned v = (unsigned)(mix(i + 0x5eed) >> 16);
    unsigned long long q; int bit;
    if (spec && sscanf(spec, "%llu:%d", &q, &bit) == 2 && q == i) v ^= 1u << bit;
    return v;
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* s)
{
    if (environment_live()) return (unsigned)word_answer('d', 1ull << 32);
    return getenv("VERIF_C32_WORDS") ? mc_entropy_word() : __real__ZNSt13random_device9_M_getvalEv(s);
}
}

// ---- crash, hang
static void report_raw(const char* tag, int code)
{
    // best effort: the process is about to die
    std::string w = where();
    printf("%s\t%s\t%s\t%llu\t%llu\t-\t%s %d  [at %s]\n", tag, R.part.c_str(), R.toy.c_str(), (unsigned long long)R.shard,
           (unsigned long long)(R.unit ? R.unit - 1 : 0), tag[0] == 'C' ? "crashed, code" : "no progress, cpu seconds", code, w.c_str());
    fflush(stdout);
}
static void on_signal(int s) { static int again; if (again++) _exit(98); report_raw("C", s); _exit(98); }
#ifdef MC_ASAN
static void on_asan() { static int again; if (again++) return; report_raw("C", 1000); }
#endif
static void on_tick(int)
{
    static u64 last = ~0ull; static int same = 0;
    if (g_progress != last) { last = g_progress; same = 0; return; }
    if (++same >= hang_limit) { report_raw("H", same); _exit(97); }
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

int main(int argc, char** argv)
{
    if (!toy_ready) toy_init();
    env_started = true;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--part") R.part = v;
        else if (k == "--tier") R.tier = v;
        else if (k == "--toy") R.toy = v;
        else if (k == "--shard") R.shard = strtoull(v.c_str(), 0, 10);
        else if (k == "--nshards") R.nshards = strtoull(v.c_str(), 0, 10);
        else if (k == "--only") R.only = strtoll(v.c_str(), 0, 10);
        else if (k == "--hang") hang_limit = atof(v.c_str());
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
    }
    auto it = parts().find(R.part);
    if (it == parts().end()) { fprintf(stderr, "no part %s\n", R.part.c_str()); return 2; }

    static char altstack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
#ifdef MC_ASAN
    __asan_set_death_callback(on_asan);
#else
    struct rlimit rl = {3ull << 30, 3ull << 30};
    setrlimit(RLIMIT_AS, &rl);
#endif
    sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART;
    sigaction(SIGPROF, &sa, 0);
    struct itimerval tv = {{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &tv, 0);

    try { it->second(); }
    catch (PartEnd&) {}
    catch (Skip&) {}
    catch (std::exception& e) { R.violations++; emit("V", "-", std::string("exception ") + e.what() + "  [at " + where() + "]"); }
    catch (...) { R.violations++; emit("V", "-", "unknown exception  [at " + where() + "]"); }

    std::string smp, nts;
    for (auto& s : R.samples) smp += (smp.empty() ? "" : ",") + jstr(s);
    for (auto& s : R.notes) nts += (nts.empty() ? "" : ",") + jstr(s);
    printf("S\t{\"part\":%s,\"toy\":%s,\"shard\":%llu,\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"skipped\":%llu,"
           "\"outcomes\":%llu,\"units\":%llu,\"known\":%llu,\"exhaustive\":%s,\"samples\":[%s],\"notes\":[%s]}\n",
           jstr(R.part).c_str(), jstr(R.toy).c_str(), (unsigned long long)R.shard, (unsigned long long)R.states,
           (unsigned long long)R.transitions, (unsigned long long)R.execs, (unsigned long long)R.skipped,
           (unsigned long long)R.outcomes.size(), (unsigned long long)R.unit, (unsigned long long)R.known,
           R.exhaustive ? "true" : "false", smp.c_str(), nts.c_str());
    fflush(stdout);
    _exit(R.violations ? 1 : 0);
}
