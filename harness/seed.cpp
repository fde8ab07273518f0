// C32: secrets differ between runs of a program and between the library's random generators.
// Real processes with the real random sources; clock, process numbers and address layout are the same in every one.
#include "grp.hpp"
#include "ot.hpp"
#include "opprf.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include "elgamal.hpp"
#include "utilities.hpp"
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
using namespace mc;

// ------------------------------------------------------------------ a frozen environment for child processes
static bool frozen() { static int f = -1; if (f < 0) f = getenv("VERIF_C32") != nullptr; return f; }
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) noexcept { if (!frozen()) return syscall(SYS_clock_gettime, c, t); t->tv_sec = 1700000000; t->tv_nsec = 123456789; return 0; }
int gettimeofday(struct timeval* t, void*) noexcept { if (!frozen()) { struct timespec s; int r = syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; } return r; } if (t) { t->tv_sec = 1700000000; t->tv_usec = 123456; } return 0; }
time_t time(time_t* t) noexcept { time_t v; if (frozen()) v = 1700000000; else { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); v = s.tv_sec; } if (t) *t = v; return v; }
clock_t clock() noexcept { if (frozen()) return 4242; struct timespec s; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * CLOCKS_PER_SEC + s.tv_nsec / 1000; }
clock_t times(struct tms* t) noexcept { if (frozen()) { if (t) memset(t, 0, sizeof *t); return 4242; } return syscall(SYS_times, t); }
pid_t getpid() noexcept { return frozen() ? 4242 : (pid_t)syscall(SYS_getpid); }
pid_t getppid() noexcept { return frozen() ? 4241 : (pid_t)syscall(SYS_getppid); }
}

extern "C" {
unsigned mc_entropy_word();
extern unsigned long long entropy_words;
ssize_t getrandom(void* b, size_t n, unsigned flags) { if (!getenv("VERIF_C32_WORDS")) return syscall(SYS_getrandom, b, n, flags); for (size_t i = 0; i < n; i += 4) { unsigned w = mc_entropy_word(); memcpy((char*)b + i, &w, std::min<size_t>(4, n - i)); } return n; }
int getentropy(void* b, size_t n) noexcept { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
}

// ------------------------------------------------------------------ what a child does
typedef std::vector<std::pair<std::string, std::string>> Out;   // (kind, value)
static std::string xy(const dme::POINT& p) { return p.isInf() ? "inf" : p.getX().getRawValue().get_str(16); }
template <class P> static std::string x1(P p) { return p.isInf() ? "inf" : p.getX().getRawValue().get_str(16); }
static std::string num(const mpz_class& z) { return z.get_str(16); }
static const char OPS[] = "spkSPKgGhMdNEToOwmeuxX";
struct Child {
    Out out;
    std::unique_ptr<ecc::Curve_secp256r1> c; std::unique_ptr<ecc::Curve_bn254> b; std::unique_ptr<dme::DME_DDH> d; std::unique_ptr<opprf::OPPRFserver> srv;
    ecc::Curve_secp256r1& C() { if (!c) c.reset(new ecc::Curve_secp256r1); return *c; }
    ecc::Curve_bn254& B() { if (!b) b.reset(new ecc::Curve_bn254); return *b; }
    void put(const char* k, const std::string& v) { out.push_back({k, v}); }
    // fixed public inputs: multiples of the generator
    dme::POINT pt(long k) { return C().getDefaultGen() * mpz_class(k); }
    dme::crs_ddh_t fixed() { return dme::crs_ddh_t(pt(2), pt(3), pt(5), pt(7)); }
    dme::DME_DDH& D() { if (!d) d.reset(new dme::DME_DDH(fixed())); return *d; }
    opprf::OPPRFserver& V() { if (!srv) { srv.reset(new opprf::OPPRFserver(77, fixed())); opprf::G_t s = pt(11); srv->setSecret(s); srv->prepareKeysAndInputs(); } return *srv; }
    void op(char o)
    {
        switch (o) {
        case 's': put("scalar of secp256r1", num(C().getRandomScalar().getRawValue())); break;
        case 'p': put("point of secp256r1", x1(C().getRandomPoint())); break;
        case 'k': put("key pair of secp256r1", num(C().generateKeyPair().sk)); break;
        case 'S': put("scalar of bn254", num(B().getRandomScalar().getRawValue())); break;
        case 'P': put("point of bn254", x1(B().getRandomPoint())); break;
        case 'K': put("key pair of bn254", num(B().generateKeyPair().sk)); break;
        case 'x': { ecc::Curve_secp256r1 f; put("scalar of a new curve secp256r1", num(f.getRandomScalar().getRawValue())); put("point of a new curve secp256r1", x1(f.getRandomPoint())); break; }
        case 'X': { ecc::Curve_bn254 f; put("scalar of a new curve bn254", num(f.getRandomScalar().getRawValue())); put("point of a new curve bn254", x1(f.getRandomPoint())); break; }
        case 'g': put("256 random bits", num(utils::getRandom(256))); break;
        case 'G': put("128 random bits", num(utils::getRandom(128))); break;
        case 'h': { sss::ShamirSS s; auto v = s.getShares(2, 3, sss::FIELD(mpz_class(5))); put("share of a secret", num(v[0].val.getRawValue())); break; }
        case 'M': { dme::DME_DDH m(dme::messy); for (auto* p : {&m.crs.g0, &m.crs.g1, &m.crs.h0, &m.crs.h1}) put("messy reference string", x1(*p)); break; }
        case 'd': { dme::DME_DDH m(dme::dec); for (auto* p : {&m.crs.g0, &m.crs.g1, &m.crs.h0, &m.crs.h1}) put("decryption reference string", x1(*p)); break; }
        case 'N': { auto k = D().KeyGen(dme::b1); put("dual-mode secret key", num(k.sk.getRawValue())); put("dual-mode public key", x1(k.pk.g)); break; }
        case 'E': { auto x = D().Enc(dme::pkey_t(pt(13), pt(17)), dme::b0, pt(19)); put("dual-mode ciphertext", x1(x.u)); put("dual-mode ciphertext", x1(x.mv)); break; }
        case 'T': { dme::DME_DDH m(dme::dec); auto t = m.TrapKeyGen(); put("trapdoor key", num(std::get<1>(t).getRawValue())); break; }
        case 'o': { ot::OTrecv r(fixed()); auto k = r.selectMsg(dme::b0); put("transfer choice", x1(k.g)); put("transfer choice", x1(k.h)); break; }
        case 'O': { ot::OTsndr r(fixed()); for (auto& x : r.encMsgs(dme::pkey_t(pt(13), pt(17)), pt(19), pt(23))) { put("transfer ciphertext", x1(x.u)); put("transfer ciphertext", x1(x.mv)); } put("transfer message", x1(r.getRandomMsg())); break; }
        case 'w': V(); put("OPPRF offset", x1(V().getKOPPRF())); srv.reset(); break;
        case 'm': {   // the order of the masks: positions of the two ciphertexts that do not change
            std::map<std::string, int> n; std::vector<opprf::symctxt_t> all;
            for (int i = 0; i < 64; i++) { all.push_back(V().sendEncryptedMasks()); for (auto& x : all.back()) n[num(x)]++; }
            std::string first, order;
            for (auto& m : all) for (int i = 0; i < 3; i++) { std::string v = num(m[i]); if (n[v] < 32) continue; if (first.empty()) first = v; if (v == first) order += char('0' + i); }
            for (auto& m : all) for (int i = 0; i < 3; i++) if (n[num(m[i])] < 32) order += char('0' + i);
            put("order of the masks", order);
            for (auto& m : n) if (m.second >= 32) put("encrypted mask", m.first);
            break; }
        case 'e': { elgamal::ElGamal g; auto k = g.keyGen(); put("ElGamal key", num(k.sk.getRawValue())); auto x = g.encrypt(pt(13), pt(19)); put("ElGamal ciphertext", x1(x.u)); put("ElGamal ciphertext", x1(x.mv)); break; }
        case 'u': { puda::Puda p; auto s = p.Setup(3); for (auto& e : std::get<0>(s)) put("aggregation user key", num(e.getRawValue())); for (auto& k : std::get<1>(s)) put("aggregation tag key", num(k.tk.getRawValue())); put("aggregation tag key", num(std::get<1>(s)[0].a)); put("verification key", x1(std::get<3>(s).vk_1)); put("verification key", x1(std::get<3>(s).vk_2)); break; }
        }
    }
};
PART(c32_child)
{
    E.passthrough = true;
    const char* h = getenv("VERIF_C32"); if (!h) return;
    Child c;
    for (; *h; h++) c.op(*h);
    for (auto& o : c.out) printf("X\t%s\t%s\n", o.first.c_str(), o.second.c_str());
    printf("W\t%llu\n", (unsigned long long)entropy_words);
}

// ------------------------------------------------------------------ exploring processes
struct Ran { Out out; u64 words = 0; };
static Ran child(const std::string& history, const std::string& words = "")
{
    int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe");
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (!pid) {
        dup2(fd[1], 1); close(fd[0]); close(fd[1]);
        struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &off, 0);
        setenv("VERIF_C32", history.c_str(), 1);
        if (words.empty()) unsetenv("VERIF_C32_WORDS"); else setenv("VERIF_C32_WORDS", words.c_str(), 1);
        personality(ADDR_NO_RANDOMIZE);
        execl("/proc/self/exe", "run", "--part", "c32_child", (char*)0);
        _exit(127);
    }
    close(fd[1]);
    std::string s; char buf[65536]; ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) s.append(buf, k);
    close(fd[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "history %s: the process ends with status %d", history.c_str(), st);
    Ran r; size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p); std::string l = s.substr(p, e - p); p = e + 1;
        size_t a = l.find('\t'), b = l.find('\t', a + 1);
        if (l[0] == 'X') r.out.push_back({l.substr(a + 1, b - a - 1), l.substr(b + 1)});
        if (l[0] == 'W') r.words = strtoull(l.c_str() + 2, 0, 10);
    }
    MC_CHECK(!r.out.empty() || history.empty(), "history %s: no output", history.c_str());
    step(r.out.size()); state();
    return r;
}
// every history of operations up to a depth, each repeated, in two processes: no secret occurs twice anywhere
static void processes(int depth)
{
    std::string ops = OPS;
    std::vector<std::string> hs{""};
    for (size_t i = 0; i < hs.size(); i++) if ((int)hs[i].size() < depth) for (char o : ops) hs.push_back(hs[i] + o);
    for (auto& h : hs) {
        if (h.empty() || ((int)h.size() < depth && depth > 1 && h.size() != 1)) continue;
        if (!mine()) continue;
        at("history %s", h.c_str());
        std::map<std::string, std::pair<std::string, int>> seen;
        for (int run = 0; run < 2; run++) {
            // an order of masks belongs to one server, its encrypted masks to one key: they are listed once
            std::string hh = h + h; std::string ex; for (char o : hh) if (o != 'm' || ex.find('m') == std::string::npos) ex += o;
            Ran r = child(ex); exec();
            for (auto& o : r.out) {
                auto it = seen.find(o.second);
                if (it != seen.end()) MC_CHECK(false, "operations %s: the %s %s%s equals the %s of %s", h.c_str(), o.first.c_str(), o.second.substr(0, 24).c_str(), o.second.size() > 24 ? "..." : "", it->second.first.c_str(), it->second.second == run ? "the same process" : "another process started at the same time");
                seen[o.second] = {o.first, run};
            }
        }
        outcome(std::hash<std::string>()(h));
    }
    sample("histories of up to %d of %zu operations, executed twice in each of two processes with frozen clock and process number", depth, ops.size());
}
// one operation hundreds of times in each of two processes
PART(c32_long)
{
    for (char o : std::string("spkSPKgGhMdNETowoOeuxX")) for (int dup = 0; dup < 1; dup++) {
        if (!mine()) continue;
        bool cheap = strchr("sSgGpPkKhxX", o); bool slow = strchr("w", o);
        size_t n = (R.thorough() ? 10 : 1) * (cheap ? 4200 : slow ? 60 : 700); at("operation %ld %ld times", (long)o, n);
        std::map<std::string, std::pair<int, size_t>> seen;
        for (int run = 0; run < 2; run++) {
            Ran r = child(std::string(n, o)); exec();
            for (size_t i = 0; i < r.out.size(); i++) {
                auto it = seen.emplace(r.out[i].second, std::make_pair(run, i)).first;
                MC_CHECK(it->second == std::make_pair(run, i), "value %zu (%s) of %zu times operation %c equals value %zu of %s", i + 1, r.out[i].first.c_str(), n, o, it->second.second + 1, it->second.first == run ? "the same process" : "another process started at the same time");
            }
        }
        outcome(n * 256 + o);
    }
    sample("hundreds to thousands of repetitions of each operation in two processes");
}
PART(c32_one) { processes(1); }
PART(c32_two) { processes(2); }
PART(c32_three) { processes(3); }
// With the system's entropy held constant, every secret must depend on at least 128 of its bits. Entropy obtained in
// a way the harness does not control makes the two executions differ; nothing is then claimed.
PART(c32_entropy)
{
    std::string ops = "spkSPKgGhMdNETowuexX";
    for (char o : ops) {
        std::string h(1, o);
        if (!mine()) continue;
        at("entropy of %s", h.c_str());
        Ran a = child(h, "-"), b = child(h, "-");
        if (a.out != b.out) { note("operation %c draws entropy from a source that is not controlled", o); R.exhaustive = false; continue; }
        MC_CHECK(a.words >= 4, "the %s depends on %llu words of entropy only", a.out[0].first.c_str(), (unsigned long long)a.words);
        std::vector<std::set<std::string>> vals(a.out.size());
        for (size_t i = 0; i < vals.size(); i++) vals[i].insert(a.out[i].second);
        int every = R.thorough() ? 1 : 4;
        for (u64 q = 0; q < a.words && q < 64; q++) for (int bit = 0; bit < 32; bit += every) {
            Ran f = child(h, std::to_string(q) + ":" + std::to_string(bit)); exec();
            MC_CHECK(f.out.size() == vals.size(), "a changed word of entropy changes the number of results");
            for (size_t i = 0; i < vals.size(); i++) vals[i].insert(f.out[i].second);
        }
        for (size_t i = 0; i < vals.size(); i++) {
            MC_CHECK(vals[i].size() > 128u / every, "the %s takes %zu values when %llu single bits of the entropy are changed", a.out[i].first.c_str(), vals[i].size(), (unsigned long long)a.words * 32 / every);
            outcome(vals[i].size());
        }
    }
    sample("each bit of the first 64 words of entropy flipped (quick: every fourth), for every kind of secret");
}
