// C37: what operator<< writes for field elements, points and curves.
#include "grp.hpp"
#include "alpha.hpp"
#include <sstream>
using namespace mc;
static const int BASES[3] = {10, 16, 8};
template <class V> static std::string text(const V& v, int base, std::ostringstream* into = nullptr)
{
    std::ostringstream own; std::ostringstream& o = into ? *into : own; size_t n0 = o.str().size();
    if (base == 16) o << std::hex; else if (base == 8) o << std::oct; else o << std::dec;
    auto f = o.flags(); std::ostream& r = o << v;
    MC_CHECK(&r == &o && o.good() && o.flags() == f, "printing %s leaves the stream in another state", text(v, 10).c_str());
    step(); return o.str().substr(n0);
}
// words of letters and digits, without the labels in front of '='
static std::vector<std::string> words(const std::string& s)
{
    std::vector<std::string> v; std::string w;
    for (size_t i = 0; i <= s.size(); i++) {
        char c = i < s.size() ? s[i] : ' ';
        if (isalnum((unsigned char)c) || c == '-') { w += tolower(c); continue; }
        if (!w.empty() && c != '=') v.push_back(w);
        w.clear();
    }
    return v;
}
// the numbers appear as whole words, in this order
static void shows(const char* what, const std::string& s, const std::vector<mpz_class>& nums, int base)
{
    auto w = words(s); size_t i = 0;
    for (auto& z : nums) {
        std::string t = z.get_str(base);
        while (i < w.size() && w[i] != t) i++;
        MC_CHECK(i < w.size(), "%s is printed as \"%s\" in base %d, which lacks %s", what, s.substr(0, 400).c_str(), base, t.c_str());
        i++;
    }
}
struct Distinct {                       // different values have different texts, equal values the same
    std::map<std::string, std::string> by_text, by_val;
    void add(const std::string& val, const std::string& txt)
    {
        auto a = by_text.emplace(txt, val); MC_CHECK(a.first->second == val, "\"%s\" is printed for both %s and %s", txt.substr(0, 300).c_str(), val.c_str(), a.first->second.c_str());
        auto b = by_val.emplace(val, txt); MC_CHECK(b.first->second == txt, "%s is printed as \"%s\" and as \"%s\"", val.c_str(), txt.substr(0, 300).c_str(), b.first->second.substr(0, 300).c_str());
    }
};
template <class F> static std::string fkey(const F& f) { return f.getRawValue().get_str(16) + " mod " + f.getField().get_str(16); }
template <class P> static std::string pkey(const P& q) { return q.isInf() ? "infinity" : "(" + q.getX().getRawValue().get_str(16) + "," + q.getY().getRawValue().get_str(16) + ")"; }
static Distinct DF[3], DP[3];
template <class F> static void field1(const F& f, const mpz_class& v, const mpz_class& m)
{
    for (int i = 0; i < 3; i++) {
        std::string s = text(f, BASES[i]), k = v.get_str(16) + " mod " + m.get_str(16);
        MC_CHECK(f.getRawValue() == v && f.getField() == m, "printing changed the element %s to %s", k.c_str(), fkey(f).c_str());
        shows(k.c_str(), s, {v, m}, BASES[i]); DF[i].add(k, s);
    }
    state(); outcome(v);
}
template <class P> static void point1(const P& q, const P& same)
{
    std::string k = pkey(same);
    for (int i = 0; i < 3; i++) {
        std::string s = text(q, BASES[i]);
        MC_CHECK(pkey(q) == k && q.curve == same.curve, "printing changed the point %s to %s", k.c_str(), pkey(q).c_str());
        if (!q.isInf()) shows(k.c_str(), s, {q.getX().getRawValue(), q.getY().getRawValue()}, BASES[i]);
        DP[i].add(k, s);
    }
    state(); outcome(q.isInf() ? mpz_class(0) : q.getX().getRawValue());
}
template <class C> static void curve1(const C& c, const mpz_class& p, const mpz_class& a, const mpz_class& b, const mpz_class& n)
{
    for (int base : BASES) { std::string s = text(c, base); shows("the curve", s, {p, modz(a, p), modz(b, p), n, 1}, base); C d = c; MC_CHECK(text(d, base) == s && c == d, "a copy of the curve prints differently"); }
    state();
}
template <class T> static void toy_one()
{
    if (!Toy<T>::require()) return;
    Toy<T> t; typedef typename T::Fp Fp; typedef typename T::Fn Fn; typedef typename T::P P;
    if (mine()) {
        for (long v = -2 * t.p; v <= 3 * t.p; v++) { at("value %ld", v); Fp f{mpz_class(v)}; field1(f, modz(v, Z(t.p)), Z(t.p)); Fn g{mpz_class(v)}; field1(g, modz(v, Z(t.n)), Z(t.n)); }
        curve1(*t.curve, Z(t.p), Z(t.a), Z(t.b), Z(t.n)); exec();
    }
    // results of operations, printed before and after: what is printed is the present value
    for (long x = 0; x < t.p; x++) {
        if (!mine()) continue;
        for (long y = 0; y < t.p; y++) {
            at("operands %ld %ld", x, y); Fp a{Z(x)}, b{Z(y)}; field1(a, Z(x), Z(t.p));
            a += b; field1(a, Z(md(x + y, t.p)), Z(t.p)); a -= b; field1(a, Z(x), Z(t.p)); a *= b; field1(a, Z(md(x * y, t.p)), Z(t.p));
            if (y) { a /= b; field1(a, Z(x), Z(t.p)); field1(b.invert(), Z(inv(y, t.p)), Z(t.p)); }
            field1(b - a, Z(md(y - md(y ? x : x * y, t.p), t.p)), Z(t.p)); field1(-b, Z(md(-y, t.p)), Z(t.p)); a = b; field1(a, Z(y), Z(t.p)); exec();
        }
    }
    for (long i = 0; i < t.n; i++) {
        if (!mine()) continue;
        for (long j = 0; j < t.n; j++) {
            at("points %ld %ld", i, j); P a = t.pt(i), b = t.pt(j); point1(a, t.pt(i)); auto like = [&](const P& q, long k) { P w = t.pt(k); w.curve = q.curve; point1(q, w); };
            like(a + b, i + j); like(a - b, i - j); a += b; like(a, i + j); a -= b; like(a, i); a = b; like(a, j); like(a.pointDouble(), 2 * j); like(b * mpz_class(i), i * j); a *= mpz_class(0); like(a, 0); exec();
        }
    }
}
PART(c37_toy) { if (toy_secp.on) toy_one<Secp>(); if (toy_bn.on) toy_one<Bn>(); sample("every element, point and the curve of the small instances in three bases, before and after every binary operation"); }
template <class T> static void real_one()
{
    Real<T> r; typedef typename T::Fp Fp; typedef typename T::Fn Fn; typedef typename T::P P;
    auto rp = residues(r.p, 1), rn = residues(r.n, 1);
    for (size_t i = 0; i < rp.size() || i < rn.size(); i++) {
        if (!mine()) continue;
        at("residue #%ld", i);
        if (i < rp.size()) { field1(Fp(rp[i]), rp[i], r.p); Fp a(rp[i]); a += Fp(mpz_class(1)); field1(a, modz(rp[i] + 1, r.p), r.p); a = -a; field1(a, modz(-rp[i] - 1, r.p), r.p); }
        if (i < rn.size()) { field1(Fn(rn[i]), rn[i], r.n); Fn a(rn[i]); a *= Fn(mpz_class(3)); field1(a, modz(rn[i] * 3, r.n), r.n); }
        exec();
    }
    auto ks = residues(r.n, 0);
    for (size_t i = 0; i < ks.size(); i++) {
        if (!mine()) continue;
        auto q = r.mulG(ks[i]); at("multiple #%ld", i);
        P a = r.pt(q); point1(a, r.pt(q)); P m = r.pt(r.neg(q)); point1(m, r.pt(r.neg(q)));
        P s = a - a; MC_CHECK(s.isInf(), "P - P is %s", pkey(s).c_str()); point1(s, P()); a += a; auto d = r.pt(r.add(q, q)); d.curve = a.curve; point1(a, d); exec();
    }
    // coordinates that need not lie on the curve: the printed text is about the object, short and long coordinates together
    for (size_t i = 0; i < rp.size(); i += 7) {
        if (!mine()) continue;
        for (size_t j = 0; j < rp.size(); j += 5) { at("coordinates #%ld #%ld", i, j); P a(rp[i], rp[j], r.curve); point1(a, a); }
        exec();
    }
    if (mine()) curve1(*r.curve, r.p, r.a, r.b, r.n);
}
PART(c37_real) { real_one<Secp>(); real_one<Bn>(); sample("boundary residues, multiples of the generator and coordinate pairs of both standard curves in three bases"); }
// every sequence of prints, one stream per object or one for all: each text is what the object prints alone
PART(c37_seq)
{
    typedef Secp::Fp Fp; typedef Secp::Fn Fn; typedef Secp::P P; typedef Bn::Fp Gp; typedef Bn::P Q;
    static Secp::C c; static Bn::C d;
    mpz_class p = c.getPrime(), n = c.getOrder();
    std::vector<std::function<std::string(int, std::ostringstream*)>> pr;
    auto add = [&](auto v) { auto k = std::make_shared<decltype(v)>(v); pr.push_back([k](int b, std::ostringstream* o) { return text(*k, b, o); }); };
    for (mpz_class z : {mpz_class(0), mpz_class(1), mpz_class(p - 1), mpz_class(p / 3)}) { add(Fp(z)); add(Gp(z)); }
    add(Fn(mpz_class(n - 1))); add(Fn(mpz_class(1)));
    P G = c.getDefaultGen(); Q H = d.getDefaultGen();
    for (int k : {0, 1, 2, -1, 5}) { add(P(G * mpz_class(k))); add(Q(H * mpz_class(k))); }
    add(P(mpz_class(0), mpz_class(0), &c)); add(P(mpz_class(0), mpz_class(1), &c)); add(P(mpz_class(1), mpz_class(0), &c)); add(c); add(d);
    std::vector<std::array<std::string, 3>> alone; for (auto& f : pr) alone.push_back({f(10, nullptr), f(16, nullptr), f(8, nullptr)});
    size_t N = pr.size(); int depth = R.thorough() ? 3 : 3;
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
        if (!mine()) continue;
        for (size_t k = 0; k < N; k++) for (int bm = 0; bm < 27; bm += (i + j + k) % 3 + 1) for (int one = 0; one < 2; one++) {
            size_t s[3] = {i, j, k}; int b[3] = {bm % 3, bm / 3 % 3, bm / 9}; std::ostringstream o;
            at("objects %ld %ld %ld bases #%ld one stream %ld", i, j, k, (long)bm, (long)one);
            for (int z = 0; z < depth; z++) { std::string t = pr[s[z]](BASES[b[z]], one ? &o : nullptr); MC_CHECK(t == alone[s[z]][b[z]], "print %d is \"%s\" instead of \"%s\"", z + 1, t.substr(0, 300).c_str(), alone[s[z]][b[z]].substr(0, 300).c_str()); state(); }
            exec();
        }
    }
    sample("every sequence of three prints of %zu objects, in sequences of bases, to one stream and to several", N);
}
