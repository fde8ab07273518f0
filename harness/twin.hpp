// Twin executions: every history runs twice with the same randomness; in the second, each argument is overwritten and
// destroyed as soon as the call returns.
#pragma once
#include "dmeutil.hpp"
#include "ecc_bn254.hpp"
#include "ot.hpp"
#include "dot.hpp"
#include "opprf.hpp"
#include "puda.hpp"
#include "elgamal.hpp"
#include "shamirss.hpp"
#include "utilities.hpp"
#include "aes.hpp"
#include <type_traits>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
using std::string;
// ------------------------------------------------------------------ serialisation and overwriting
static void ser(string& s, const mpz_class& z) { s += z.get_str(16) + ";"; }
static void scr(mpz_class& z) { for (size_t i = 0; i < mpz_size(z.get_mpz_t()); i++) const_cast<mp_limb_t*>(mpz_limbs_read(z.get_mpz_t()))[i] = 0x5a5a5a5a5a5a5a5aul; z = -z - 77; }
template <class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type ser(string& s, const T& v) { s += std::to_string((long)v) + ";"; }
template <class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type scr(T& v) { v = (T)((long)v ^ 1); }
static void ser(string& s, const string& v) { s += std::to_string(v.size()) + ":" + v + ";"; }
static void scr(string& v) { for (auto& c : v) c ^= 0x55; }
template <class F> static void ser(string& s, const field::PrimeField<F>& f) { ser(s, f.getRawValue()); ser(s, f.getField()); }
template <class F> static void scr(field::PrimeField<F>& f) { static_cast<F&>(f) = static_cast<F&>(f) + F(mpz_class(1)); }
template <class A, class P, class B, class C> static void ser(string& s, const ecc::Point<A, P, B, C>& q) { if (q.isInf()) s += "inf;"; else { ser(s, q.getX()); ser(s, q.getY()); } }
template <class A, class P, class B, class C> static void scr(ecc::Point<A, P, B, C>& q) { P& p = static_cast<P&>(q); A* c = p.curve; p = p.isInf() ? P(mpz_class(3), mpz_class(4), c) : P(mpz_class(p.getX().getRawValue() + 1), mpz_class(p.getY().getRawValue() + 1), c); }
static void ser(string& s, const dme::crs_ddh_t& c) { ser(s, c.g0); ser(s, c.g1); ser(s, c.h0); ser(s, c.h1); }
static void scr(dme::crs_ddh_t& c) { scr(c.g0); scr(c.g1); scr(c.h0); scr(c.h1); }
static void ser(string& s, const dme::pkey_t& c) { ser(s, c.g); ser(s, c.h); }
static void scr(dme::pkey_t& c) { scr(c.g); scr(c.h); }
static void ser(string& s, const dme::keypair_t& c) { ser(s, c.pk); ser(s, c.sk); }
static void ser(string& s, const dme::ctxt_t& c) { ser(s, c.u); ser(s, c.mv); }
static void scr(dme::ctxt_t& c) { scr(c.u); scr(c.mv); }
static void ser(string& s, const elgamal::ctxt_t& c) { ser(s, c.u); ser(s, c.mv); }
static void scr(elgamal::ctxt_t& c) { scr(c.u); scr(c.mv); }
static void ser(string& s, const elgamal::keypair_t& c) { ser(s, c.pk); ser(s, c.sk); }
static void ser(string& s, const sss::share_t& c) { ser(s, c.idx); ser(s, c.val); }
static void scr(sss::share_t& c) { scr(c.idx); scr(c.val); }
static void ser(string& s, const puda::sk_t& c) { ser(s, c.a); ser(s, c.tk); }
static void scr(puda::sk_t& c) { scr(c.a); scr(c.tk); }
static void ser(string& s, const puda::vk_t& c) { ser(s, c.vk_1); ser(s, c.vk_2); }
static void scr(puda::vk_t& c) { scr(c.vk_1); scr(c.vk_2); }
template <class T> static void ser(string& s, const std::vector<T>& v) { s += std::to_string(v.size()) + "["; for (auto& e : v) ser(s, e); s += "]"; }
template <class T> static void scr(std::vector<T>& v) { for (auto& e : v) scr(e); }
template <class T, size_t N> static void ser(string& s, const std::array<T, N>& v) { for (auto& e : v) ser(s, e); }
template <class T, size_t N> static void scr(std::array<T, N>& v) { for (auto& e : v) scr(e); }
template <class A, class B> static void ser(string& s, const std::pair<A, B>& v) { ser(s, v.first); ser(s, v.second); }
template <class... A> static void ser(string& s, const std::tuple<A...>& v) { std::apply([&](auto&... e) { (ser(s, e), ...); }, v); }
static void ser(string& s, const opprf::ot_ctxts_t& c) { ser(s, c.ctxt); ser(s, c.cprf); }
static void scr(opprf::ot_ctxts_t& c) { scr(c.ctxt); scr(c.cprf); }
template <class T> static string str(const T& v) { string s; ser(s, v); return s; }
// ------------------------------------------------------------------ one execution
struct Tw {
    bool second; std::vector<string> log; std::vector<std::shared_ptr<void>> kept;
    template <class F, class... A> auto operator()(const char* name, F f, const A&... a)
    {
        auto own = std::make_tuple(std::make_shared<A>(a)...);
        std::vector<string> before; std::apply([&](auto&... p) { (before.push_back(str(*p)), ...); }, own);
        auto done = [&] {
            size_t i = 0; step();
            auto unchanged = [&](const string& now) { MC_CHECK(now == before[i], "%s changes its argument %zu from %s to %s", name, i + 1, before[i].substr(0, 300).c_str(), now.substr(0, 300).c_str()); i++; };
            std::apply([&](auto&... p) { (unchanged(str(*p)), ...); }, own);
            if (second) std::apply([&](auto&... p) { ((scr(*p), p.reset()), ...); }, own);
            else std::apply([&](auto&... p) { (kept.push_back(p), ...); }, own);
        };
        typedef typename std::invoke_result<F, A&...>::type Ret;
        if constexpr (std::is_void<Ret>::value) { std::apply([&](auto&... p) { f(*p...); }, own); done(); log.push_back(name); }
        else { Ret r = std::apply([&](auto&... p) { return f(*p...); }, own); done(); note(name, r); return r; }
    }
    template <class T> auto note(const char* name, const T& r) -> decltype(ser(std::declval<string&>(), r), void()) { log.push_back(string(name) + " = " + str(r)); }
    template <class T> void note(const char* name, const std::shared_ptr<T>&) { log.push_back(name); }
};
// one execution in a process of its own: state that outlives an execution inside the library (a generator seeded once) is
// the same at the start of both
template <class F> static std::vector<string> apart(u64 seed, bool second, F f)
{
    int fd[2]; std::vector<string> v; fflush(stdout); if (pipe(fd)) return v;
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); freopen("/dev/null", "w", stdout); Tw t{second};
        try { E.reset(seed); f(t); } catch (...) { _exit(1); }
        for (auto& l : t.log) { u64 n = l.size(); if (write(fd[1], &n, 8) != 8) _exit(1); for (size_t o = 0; o < n;) { ssize_t w = write(fd[1], l.data() + o, n - o); if (w <= 0) _exit(1); o += w; } }
        _exit(0);
    }
    close(fd[1]); string all; char buf[4096]; ssize_t r; while ((r = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, r);
    close(fd[0]); int st = 1; waitpid(pid, &st, 0);
    if (st == 0) for (size_t o = 0; o + 8 <= all.size();) { u64 n; memcpy(&n, all.data() + o, 8); v.push_back(all.substr(o + 8, n)); o += 8 + n; }
    return v;
}
template <class F> static void twins(u64 seed, F f)
{
    Tw a{false}, b{true}; E.reset(seed); f(a); E.reset(seed); f(b);
    exec(2); state(a.log.size()); outcome(std::hash<string>()(a.log.back()));
    if (a.log == b.log) return;
    auto la = apart(seed, false, f), lb = apart(seed, true, f);
    if (la.empty() || lb.empty()) { MC_CHECK(la.size() == lb.size(), "an execution fails only %s the arguments of earlier calls overwritten", la.empty() ? "without" : "with"); return; }
    for (size_t i = 0; i < la.size() && i < lb.size(); i++)
        MC_CHECK(la[i] == lb[i], "with the arguments of earlier calls overwritten, call %zu: %s; with them left alone: %s", i + 1, lb[i].substr(0, 300).c_str(), la[i].substr(0, 300).c_str());
    MC_CHECK(la.size() == lb.size(), "the two executions differ in length");
}
