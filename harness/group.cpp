// C03 - C07: curve groups.
#include "grp.hpp"
#include "alpha.hpp"
#include <tuple>
#include "dme.hpp"
using namespace mc;

// ------------------------------------------------------------------ alphabets of real points
template <class T> typename Real<T>::XY lift(const Real<T>& g, const mpz_class& x0, bool neg, bool search = true)
{
    mpz_class x = modz(x0, g.p);
    for (int i = 0; i < 200; i++, x = modz(x + 1, g.p)) {
        mpz_class rhs = modz(x * x * x + g.a * x + g.b, g.p), y;
        if (rhs != 0 && mpz_legendre(rhs.get_mpz_t(), g.p.get_mpz_t()) == 1) {
            mpz_class e = (g.p + 1) / 4;
            mpz_powm(y.get_mpz_t(), rhs.get_mpz_t(), e.get_mpz_t(), g.p.get_mpz_t());
            if (neg) y = g.p - y;
            return typename Real<T>::XY{false, x, y};
        }
        if (!search) break;
    }
    return typename Real<T>::XY{true, 0, 0};
}
template <class T> std::vector<typename Real<T>::XY> points(const Real<T>& g, int level)
{
    std::vector<typename Real<T>::XY> v;
    std::set<std::string> seen;
    auto put = [&](const typename Real<T>::XY& q) { if (seen.insert(Real<T>::show(q)).second) v.push_back(q); };
    put({true, 0, 0});
    for (int k = 1; k <= (level ? 20 : 5); k++) { put(g.mulG(k)); put(g.mulG(g.n - k)); }
    put(g.mulG(g.n / 2)); put(g.mulG(g.n / 2 + 1)); put(g.mulG(invz(2, g.n))); put(g.mulG(invz(3, g.n)));
    for (int e = 8; e < 256; e += level ? 16 : 80) { put(g.mulG(pow2(e))); put(g.mulG(g.n - pow2(e))); }
    // coordinates with special shapes
    std::vector<mpz_class> xs;
    std::vector<mpz_class> all = residues(g.p, 0);
    size_t stride = level ? 1 : 6;
    for (size_t i = 0; i < all.size(); i += stride) xs.push_back(all[i]);
    for (auto& x : lookalikes(g.p)) xs.push_back(x);
    for (size_t i = 0; i < xs.size(); i++) { auto q = lift(g, xs[i], i & 1); put(q); if (i % 3 == 0) put(g.neg(q)); }
    return v;
}
// points sharing most of x, sharing y, opposite, equal
template <class T> std::vector<typename Real<T>::XY> alike_points(const Real<T>& g)
{
    std::vector<typename Real<T>::XY> v;
    auto q = lift(g, mpz_class("1111222233334444555566667777888899990000aaaabbbbccccdddd00000000", 16), false);
    v.push_back(q); v.push_back(g.neg(q));
    for (int sh : {200, 136, 72}) for (int j = 1; j < 40; j++) { mpz_class x = modz(q.x ^ (mpz_class(j) << sh), g.p); auto r = lift(g, x, false, false); if (!r.inf) { v.push_back(r); break; } }
    v.push_back(g.mulG(1)); v.push_back(g.mulG(g.n - 1)); v.push_back({true, 0, 0});
    return v;
}

// ------------------------------------------------------------------ C03
template <class T> void c03_toy_()
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    typedef typename T::P P;
    Toy<T> t; typename T::C other;
    long n = t.n;
    for (long i = 0; i < n; i++) {
        if (!mine()) continue;
        for (long j = 0; j < n; j++) for (int cross = 0; cross < 2; cross++) {
            at("toy add i=%ld j=%ld second-curve-object=%ld", i, j, cross);
            P a = t.pt(i), b = t.pt(j), c;
            if (cross) b.curve = b.isInf() ? nullptr : &other;
            state();
#define EXP(expr, k, what) do { step(); auto res_ = (expr); MC_CHECK(t.idx(res_) == md(k, n), "%s: %s of %ldG and %ldG gives %s", T::name(), what, i, j, show(res_).c_str()); \
            MC_CHECK(t.idx(a) == i && t.idx(b) == j, "%s: %s of %ldG and %ldG changed an operand", T::name(), what, i, j); \
            MC_CHECK(res_.isValid(), "%s: %s of %ldG and %ldG is not valid", T::name(), what, i, j); } while (0)
            EXP(a + b, i + j, "P+Q"); EXP(a - b, i - j, "P-Q");
            { P w = a; P& r = (w += b); MC_CHECK(&r == &w, "+= does not return its target"); EXP(w, i + j, "P+=Q"); }
            { P w = a; P& r = (w -= b); MC_CHECK(&r == &w, "-= does not return its target"); EXP(w, i - j, "P-=Q"); }
            // results are usable as operands again
            EXP((a + b) + a, 2 * i + j, "(P+Q)+P"); EXP((a - b) - a, -j, "(P-Q)-P"); EXP((a - b) + b, i, "(P-Q)+Q"); EXP((a + b) - b, i, "(P+Q)-Q");
            outcome(i * n + j);
        }
        P a = t.pt(i), b = a; long j = i;
        EXP(a + a, 2 * i, "P+P same object"); EXP(a - a, 0, "P-P same object"); EXP(a.pointDouble(), 2 * i, "double");
        EXP(a.pointDouble().pointDouble(), 4 * i, "double twice");
        { P w = a; w += w; EXP(w, 2 * i, "P+=P same object"); }
        { P w = a; w -= w; EXP(w, 0, "P-=P same object"); w += a; EXP(w, i, "(P-P)+P"); w = w; EXP(w, i, "self assignment"); }
        { P w = a; w = w.pointDouble(); EXP(w, 2 * i, "P=2P"); }
        if (i == 2) sample("%s: all operands with 2G, 2 curve objects, aliasing", T::name());
        exec();
    }
}
PART(c03_toy) { c03_toy_<Secp>(); c03_toy_<Bn>(); }

// all operation sequences on two registers up to a depth, from every state (graph closure), library state carried along
template <class T> void c03_machine_()
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    typedef typename T::P P;
    Toy<T> t; long n = t.n;
    int depth = R.thorough() ? 4 : 3;
    // instruction: 0 r0+=r1 1 r1+=r0 2 r0-=r1 3 r1-=r0 4 r0=2r0 5 r1=r0 6 r0+=r0 7 r0-=r0 8 r0=r1+r0 9 r1=r0-r1 10 r0=r0*3
    const int NI = 11;
    for (long s = 0; s < n * n; s++) {
        if (!mine()) continue;
        state();
        long tot = 1; for (int d = 0; d < depth; d++) tot *= NI;
        for (long seq = 0; seq < tot; seq++) {
            at("toy point machine start=%ld seq=%ld", s, seq);
            long v[2] = {s / n, s % n};
            P r[2] = {t.pt(v[0]), t.pt(v[1])};
            long q = seq;
            for (int d = 0; d < depth; d++, q /= NI) {
                switch (q % NI) {
                case 0: r[0] += r[1]; v[0] += v[1]; break;
                case 1: r[1] += r[0]; v[1] += v[0]; break;
                case 2: r[0] -= r[1]; v[0] -= v[1]; break;
                case 3: r[1] -= r[0]; v[1] -= v[0]; break;
                case 4: r[0] = r[0].pointDouble(); v[0] *= 2; break;
                case 5: r[1] = r[0]; v[1] = v[0]; break;
                case 6: r[0] += r[0]; v[0] *= 2; break;
                case 7: r[0] -= r[0]; v[0] = 0; break;
                case 8: r[0] = r[1] + r[0]; v[0] += v[1]; break;
                case 9: r[1] = r[0] - r[1]; v[1] = v[0] - v[1]; break;
                case 10: r[0] = r[0] * mpz_class(3); v[0] *= 3; break;
                }
                v[0] = md(v[0], n); v[1] = md(v[1], n);
                step();
                MC_CHECK(t.idx(r[0]) == v[0] && t.idx(r[1]) == v[1], "%s: registers started at (%ldG,%ldG); after step %d of sequence %ld they are %s, %s, expected %ldG, %ldG",
                         T::name(), s / n, s % n, d, seq, show(r[0]).c_str(), show(r[1]).c_str(), v[0], v[1]);
            }
            R.execs++;
        }
    }
}
PART(c03_machine) { c03_machine_<Secp>(); c03_machine_<Bn>(); }

template <class T> void c03_real_()
{
    typedef typename T::P P; typedef typename Real<T>::XY XY;
    Real<T> g;
    auto pts = points(g, R.thorough() ? 1 : 0);
    note("%s point alphabet %zu", T::name(), pts.size());
    for (size_t i = 0; i < pts.size(); i++) {
        if (!mine()) continue;
        P a = g.pt(pts[i]);
        for (size_t j = 0; j < pts.size(); j++) {
            at("real add i=#%ld j=#%ld", i, j);
            P b = g.pt(pts[j]);
            XY s = g.add(pts[i], pts[j]), d = g.add(pts[i], g.neg(pts[j]));
            state(); step(2);
            P rs = a + b, rd = a - b;
            MC_CHECK(Real<T>::same(rs, s), "%s: %s + %s gives %s", T::name(), Real<T>::show(pts[i]).c_str(), Real<T>::show(pts[j]).c_str(), show(rs).c_str());
            MC_CHECK(Real<T>::same(rd, d), "%s: %s - %s gives %s", T::name(), Real<T>::show(pts[i]).c_str(), Real<T>::show(pts[j]).c_str(), show(rd).c_str());
            P w = a; w += b; MC_CHECK(Real<T>::same(w, s), "%s: += differs from + for %s and %s", T::name(), Real<T>::show(pts[i]).c_str(), Real<T>::show(pts[j]).c_str());
            w = a; w -= b; MC_CHECK(Real<T>::same(w, d), "%s: -= differs from - for %s and %s", T::name(), Real<T>::show(pts[i]).c_str(), Real<T>::show(pts[j]).c_str());
            MC_CHECK(Real<T>::same(a, pts[i]) && Real<T>::same(b, pts[j]), "%s: operands changed", T::name());
        }
        XY d2 = g.add(pts[i], pts[i]);
        MC_CHECK(Real<T>::same(a.pointDouble(), d2), "%s: doubling %s gives %s", T::name(), Real<T>::show(pts[i]).c_str(), show(a.pointDouble()).c_str());
        P w = a; w += w; MC_CHECK(Real<T>::same(w, d2), "%s: P+=P on one object wrong for %s", T::name(), Real<T>::show(pts[i]).c_str());
        w = a; w -= w; MC_CHECK(w.isInf(), "%s: P-=P on one object not infinity for %s", T::name(), Real<T>::show(pts[i]).c_str());
        if (i == 3) sample("%s: %s with %zu points", T::name(), Real<T>::show(pts[i]).c_str(), pts.size());
        step(3); exec();
    }
}
PART(c03_real) { c03_real_<Secp>(); c03_real_<Bn>(); }

// ordered pairs and triples of operations on look-alike points of both curves, in one process
struct GOp { std::function<std::string()> run; };
template <class T> void c03_ops(Real<T>& g, std::vector<GOp>& out, bool mulops)
{
    typedef typename T::P P; typedef typename Real<T>::XY XY;
    auto v = alike_points(g);
    auto* pts = new std::vector<XY>(v);
    Real<T>* gp = &g;
    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) for (int op = 0; op < 2; op++) {
        if (mulops) continue;
        XY want = op ? g.add(v[i], g.neg(v[j])) : g.add(v[i], v[j]);
        out.push_back({[=]() -> std::string {
            P a = gp->pt((*pts)[i]), b = gp->pt((*pts)[j]);
            P r = op ? a - b : a + b;
            if (Real<T>::same(r, want)) return "";
            return std::string(T::name()) + ": " + show(a) + (op ? " - " : " + ") + show(b) + " gives " + show(r);
        }});
    }
    if (!mulops) for (size_t i = 0; i < v.size(); i++) {
        XY want = g.add(v[i], v[i]);
        out.push_back({[=]() -> std::string { P a = gp->pt((*pts)[i]); P r = a.pointDouble(); return Real<T>::same(r, want) ? "" : std::string(T::name()) + ": doubling " + show(a) + " gives " + show(r); }});
    }
    if (mulops) {
        std::vector<mpz_class> ks = {mpz_class(3), mpz_class(3) + pow2(64), mpz_class(3) + pow2(32), g.n - 3, mpz_class(-3), mpz_class("9e3779b97f4a7c15f39cc0605cedc834", 16)};
        for (size_t i = 0; i < v.size() && i < 6; i++) for (auto& k : ks) {
            XY want = g.mul(v[i], k);
            out.push_back({[=]() -> std::string { P a = gp->pt((*pts)[i]); P r = a * k; return Real<T>::same(r, want) ? "" : std::string(T::name()) + ": " + show(a) + " * " + hx(k) + " gives " + show(r); }});
        }
    }
}
static void run_seqs(std::vector<GOp>& ops, int depth)
{
    size_t n = ops.size();
    note("operation alphabet %zu, depth %d", n, depth);
    for (size_t i = 0; i < n; i++) {
        if (!mine()) continue;
        for (size_t j = 0; j < n; j++) for (size_t k = 0; k < (depth > 2 ? n : 1); k++) {
            at("operation sequence %ld,%ld,%ld", i, j, k);
            state(); exec(); step(depth);
            for (size_t x : {i, j, k}) { if (x == k && depth < 3 && &x) { } }
            size_t s[3] = {i, j, k};
            for (int d = 0; d < depth; d++) { std::string e = ops[s[d]].run(); MC_CHECK(e.empty(), "%s (operation %d of a sequence)", e.c_str(), d + 1); }
        }
    }
}
PART(c03_seq)
{
    static Real<Secp> gs; static Real<Bn> gb;
    std::vector<GOp> ops; c03_ops(gs, ops, false); c03_ops(gb, ops, false);
    run_seqs(ops, 2);
}
PART(c04_seq)
{
    static Real<Secp> gs; static Real<Bn> gb;
    std::vector<GOp> ops; c03_ops(gs, ops, true); c03_ops(gb, ops, true);
    run_seqs(ops, 2);
}

// ------------------------------------------------------------------ C04
template <class T> void c04_toy_()
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    typedef typename T::P P; typedef typename T::Fn Fn;
    Toy<T> t; long n = t.n;
    for (long i = 0; i < n; i++) {
        if (!mine()) continue;
        for (long k = -3 * n; k <= 3 * n; k++) {
            at("toy mul i=%ld k=%ld", i, k);
            P a = t.pt(i); long w = md(i * md(k, n), n);
            state();
#define MX(expr, what) do { step(); auto res_ = (expr); MC_CHECK(t.idx(res_) == w, "%s: %s with %ldG and k=%ld gives %s", T::name(), what, i, k, show(res_).c_str()); \
            MC_CHECK(t.idx(a) == i, "%s: %s changed the base point", T::name(), what); MC_CHECK(res_.isValid(), "%s: %s gives an invalid point", T::name(), what); } while (0)
            MX(a * Z(k), "P*mpz"); MX(a * Fn(Z(k)), "P*field"); MX(a * (int)k, "P*int"); MX(a * (long)k, "P*long");
            { P q = a; P& r = (q *= Fn(Z(k))); MC_CHECK(&r == &q, "*= does not return its target"); MX(q, "P*=field"); }
            { P q = a; q = q * Z(k); MX(q, "P=P*k"); }
            // the result is a full group element again
            P q = a * Z(k); q += a; step();
            MC_CHECK(t.idx(q) == md(w + i, n), "%s: (k*P)+P wrong for %ldG and k=%ld", T::name(), i, k);
            MC_CHECK(t.idx((a * Z(k)) * Fn(Z(2))) == md(2 * w, n), "%s: 2*(k*P) wrong for %ldG and k=%ld", T::name(), i, k);
            outcome(w * n + i);
        }
        for (int e = 0; e < 300; e++) for (int d = -1; d <= 1; d++) for (int sg = -1; sg <= 1; sg += 2) {
            mpz_class k = (pow2(e) + d) * sg; P a = t.pt(i); step();
            mpz_class w = modz(k * i, n);
            MC_CHECK(t.idx(a * k) == w.get_si(), "%s: P*mpz with %ldG and k=%s wrong", T::name(), i, hx(k).c_str());
        }
        if (i == 1) sample("%s: G with every k in [-%ld, %ld] in every form", T::name(), 3 * n, 3 * n);
        exec();
    }
    // distributivity over both arguments, through the library's own addition
    for (long i = 0; i < n; i++) {
        if (!mine()) continue;
        for (long j = 0; j < n; j++) for (long k = 0; k < n; k++) {
            at("toy distributive i=%ld j=%ld k=%ld", i, j, k);
            step(2);
            MC_CHECK(((t.pt(i) + t.pt(j)) * Z(k)) == (t.pt(i) * Z(k) + t.pt(j) * Z(k)), "%s: k(P+Q) != kP+kQ for %ld %ld %ld", T::name(), i, j, k);
            MC_CHECK((t.pt(i) * Z(j + k)) == (t.pt(i) * Z(j) + t.pt(i) * Z(k)), "%s: (k+l)P != kP+lP for %ld %ld %ld", T::name(), i, j, k);
        }
        exec();
    }
}
PART(c04_toy) { c04_toy_<Secp>(); c04_toy_<Bn>(); }

template <class T> void c04_real_()
{
    typedef typename T::P P; typedef typename T::Fn Fn; typedef typename Real<T>::XY XY;
    Real<T> g;
    ZSet ks;
    for (auto& z : residues(g.n, R.thorough() ? 1 : 0)) { ks.add(z); }
    for (int e = 0; e <= 260; e += R.thorough() ? 1 : 3) for (int d = -1; d <= 1; d++) { ks.add(pow2(e) + d); ks.add(-pow2(e) + d); ks.add(g.n - pow2(e) + d); ks.add(g.n + pow2(e) + d); }
    for (int m = 1; m <= 4; m++) for (int d = -3; d <= 3; d++) { ks.add(g.n * m + d); ks.add(-g.n * m + d); ks.add(g.p * m + d); }
    for (unsigned e : {512u, 513u, 1024u, 2000u}) { ks.add(pow2(e)); ks.add(-pow2(e) - 1); }
    // runs of ones, sparse and alternating digit strings
    for (int a = 1; a < 256; a += 17) for (int b = 0; b + a <= 256; b += 31) ks.add((pow2(a) - 1) << b);
    for (int w = 2; w < 20; w++) { mpz_class z = 0; for (int e = 0; e < 256; e += w) z += pow2(e); ks.add(modz(z, g.n)); }
    if (R.thorough()) for (int a = 0; a < 256; a += 2) for (int b = a + 1; b < 256; b += 5) ks.add(pow2(a) + pow2(b));
    note("%s scalar alphabet %zu", T::name(), ks.v.size());
    std::vector<XY> bases = {g.mulG(1), lift(g, mpz_class(0), true), g.mulG(g.n - 7), {true, 0, 0}};
    std::vector<P> bp; for (auto& b : bases) bp.push_back(g.pt(b));
    for (size_t i = 0; i < ks.v.size(); i++) {
        if (!mine()) continue;
        const mpz_class& k = ks.v[i];
        for (size_t b = 0; b < bases.size(); b++) {
            if (b >= 1 && b < 3 && !R.thorough() && (i + b) % 4) continue;
            at("real mul k=#%ld base=#%ld", i, b);
            XY w = g.mul(bases[b], k);
            P r = (i & 1) ? bp[b] * k : bp[b] * Fn(k);
            state(); step();
            MC_CHECK(Real<T>::same(r, w), "%s: %s * %s gives %s, expected %s", T::name(), Real<T>::show(bases[b]).c_str(), hx(k).c_str(), show(r).c_str(), Real<T>::show(w).c_str());
            MC_CHECK(Real<T>::same(bp[b], bases[b]), "%s: multiplication changed the base point", T::name());
        }
        if (i == 40) sample("%s: k=%s", T::name(), hx(k).c_str());
        exec();
    }
    for (auto& q : points(g, 0)) {
        if (!mine()) continue;
        for (int k : {0, 1, 2, -1, -2, 3, 65535, -65536, 0x7fffffff, (int)0x80000000}) {
            at("real mul int k=%ld", (long)k);
            XY w = g.mul(q, k); step(); state();
            MC_CHECK(Real<T>::same(g.pt(q) * k, w), "%s: %s * %d wrong", T::name(), Real<T>::show(q).c_str(), k);
            P a = g.pt(q); a *= Fn(mpz_class(k)); MC_CHECK(Real<T>::same(a, w), "%s: %s *= %d wrong", T::name(), Real<T>::show(q).c_str(), k);
        }
        exec();
    }
}
// scalars of very many limbs and both signs, in every form
template <class T> void c04_huge_()
{
    typedef typename T::P P; typedef typename T::Fn Fn; typedef typename Real<T>::XY XY;
    Real<T> g; std::vector<XY> bases = {g.mulG(1), g.mulG(g.n - 7)}; auto ks = hugeints(R.thorough());
    for (size_t i = 0; i < ks.size(); i++) {
        if (!mine()) continue;
        at("huge scalar #%ld", i); const XY& b = bases[i / 2 % 2]; const P p = g.pt(b); mpz_class k = ks[i]; XY w = g.mul(b, k);
        P r = p * k, q = p; q *= Fn(k); step(2); state();
        MC_CHECK(Real<T>::same(r, w), "%s: %s * %s wrong", T::name(), Real<T>::show(b).c_str(), hx(k).c_str());
        MC_CHECK(Real<T>::same(q, w), "%s: %s *= %s wrong", T::name(), Real<T>::show(b).c_str(), hx(k).c_str());
        MC_CHECK(k == ks[i] && Real<T>::same(p, b), "%s: an operand changed", T::name()); exec();
    }
    sample("%s: %zu integers of up to %d limbs and both signs", T::name(), ks.size(), R.thorough() ? 2048 : 257);
}
PART(c04_huge) { c04_huge_<Secp>(); c04_huge_<Bn>(); }
PART(c04_real) { c04_real_<Secp>(); c04_real_<Bn>(); }

// ------------------------------------------------------------------ C05
template <class T> void c05_toy_()
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    typedef typename T::P P; typedef typename T::Fp Fp;
    Toy<T> t; long p = t.p;
    for (long x = 0; x < p; x++) {
        if (!mine()) continue;
        for (long y = 0; y < p; y++) {
            at("toy validity x=%ld y=%ld", x, y);
            bool on = md(y * y - (x * x % p * x + t.a * x + t.b), p) == 0;
            state();
#define VX(expr, what) do { step(); P q_ = (expr); MC_CHECK(q_.isValid() == on, "%s: point (%ld,%ld) built from %s is reported %s", T::name(), x, y, what, on ? "invalid" : "valid"); \
            MC_CHECK(!q_.isInf() && q_.getX().getRawValue() == x && q_.getY().getRawValue() == y, "%s: point (%ld,%ld) built from %s has coordinates %s", T::name(), x, y, what, show(q_).c_str()); } while (0)
            VX(P(Fp(Z(x)), Fp(Z(y)), t.curve), "field elements"); VX(P(Z(x), Z(y), t.curve), "integers");
            VX(P(Z(x - p), Z(y + 5 * p), t.curve), "unreduced integers"); VX(P(Z(x + p), Z(y - 3 * p), t.curve), "unreduced integers");
            for (int base : {2, 3, 8, 10, 16, 36}) VX(P(Z(x).get_str(base), Z(y + p).get_str(base), t.curve, base), "strings");
            VX(P(Z(x - p).get_str(), Z(y).get_str(), t.curve), "decimal strings"); VX(P(Z(x).get_str().c_str(), Z(y - p).get_str().c_str(), t.curve), "C strings");
            outcome(on);
        }
        exec();
    }
    MC_CHECK(P().isValid(), "%s: infinity is reported invalid", T::name());
    typename T::C& c = *t.curve;
    P G = c.getDefaultGen();
    MC_CHECK(t.idx(G) == 1 && G.isValid() && (G * c.getOrder()).isInf(), "%s: generator wrong on the toy curve", T::name());
    MC_CHECK(c.getAField() == Fp(Z(t.a)) && c.getBField() == Fp(Z(t.b)), "%s: coefficient accessors wrong", T::name());
    E.reset(); E.tree = true;
    Explorer ex;
    if (mine()) ex.run([&] { E.counter = 0; P q = c.getRandomPoint(); step(); MC_CHECK(q.isValid(), "%s: a sampled point is invalid: %s", T::name(), show(q).c_str()); });
    for (long x = -p; x < 2 * p; x++) { P q = c.evaluateP(Fp(Z(x))), r = c.evaluatePneg(Fp(Z(x))); step(2); MC_CHECK(q.isValid() && r.isValid(), "%s: lifting x=%ld gives an invalid point", T::name(), x); }
}
PART(c05_toy) { c05_toy_<Secp>(); c05_toy_<Bn>(); }

template <class T> void c05_real_()
{
    typedef typename T::P P; typedef typename T::Fp Fp; typedef typename T::Fn Fn; typedef typename T::C C;
    Real<T> g; C c;
    if (mine()) {
        MC_CHECK(c.getPrime() == g.p, "%s: prime is %s", T::name(), hx(c.getPrime()).c_str());
        MC_CHECK(modz(c.getA(), g.p) == g.a && c.getAField().getRawValue() == g.a, "%s: a is %s", T::name(), hx(c.getA()).c_str());
        MC_CHECK(c.getB() == g.b && c.getBField().getRawValue() == g.b, "%s: b is %s", T::name(), hx(c.getB()).c_str());
        MC_CHECK(c.getOrder() == g.n, "%s: order is %s", T::name(), hx(c.getOrder()).c_str());
        P G = c.getDefaultGen();
        MC_CHECK(G.getX().getRawValue() == g.gx && G.getY().getRawValue() == g.gy && !G.isInf(), "%s: generator is %s", T::name(), show(G).c_str());
        MC_CHECK(G.isValid() && (G * g.n).isInf() && !(G * (g.n - 1)).isInf(), "%s: generator order wrong", T::name());
        MC_CHECK(Fp(mpz_class(1)).getField() == g.p && Fn(mpz_class(1)).getField() == g.n && Fp().getField() == g.p && Fn().getField() == g.n, "%s: field moduli wrong", T::name());
        MC_CHECK(P().isValid() && P().isInf(), "%s: default point is not a valid infinity", T::name());
        C copy(c); C assigned; assigned = c;
        MC_CHECK(copy.getOrder() == g.n && assigned.getPrime() == g.p && assigned.getDefaultGen().isValid(), "%s: copied curve wrong", T::name());
        step(9); exec();
    }
    auto pts = points(g, R.thorough() ? 1 : 0);
    note("%s point alphabet %zu", T::name(), pts.size());
    for (size_t i = 0; i < pts.size(); i++) {
        if (!mine()) continue;
        if (pts[i].inf) continue;
        at("real validity point #%ld", i);
        const mpz_class &x = pts[i].x, &y = pts[i].y;
        auto on = [&](const mpz_class& u, const mpz_class& v) { mpz_class w = modz(v * v - (u * u * u + g.a * u + g.b), g.p); return w == 0; };
        auto chk = [&](const P& q, const mpz_class& u, const mpz_class& v, const char* how) {
            step();
            MC_CHECK(q.isValid() == on(u, v), "%s: (%s,%s) built from %s is reported %s", T::name(), hx(u).c_str(), hx(v).c_str(), how, q.isValid() ? "valid" : "invalid");
            MC_CHECK(q.getX().getRawValue() == modz(u, g.p) && q.getY().getRawValue() == modz(v, g.p), "%s: (%s,%s) built from %s has coordinates %s", T::name(), hx(u).c_str(), hx(v).c_str(), how, show(q).c_str());
        };
        chk(P(x, y, &c), x, y, "integers"); chk(P(Fp(x), Fp(y), &c), x, y, "field elements");
        for (int base : {2, 7, 10, 16, 32, 36, 62}) chk(P(x.get_str(base), y.get_str(base), &c, base), x, y, "strings");
        chk(P(x.get_str(), y.get_str(), &c), x, y, "decimal strings"); chk(P(x.get_str(16).c_str(), y.get_str(16).c_str(), &c, 16), x, y, "C strings");
        for (int k = -2; k <= 2; k++) chk(P(x + g.p * k, y - g.p * k, &c), x, y, "unreduced integers");
        chk(P(x, g.p - y, &c), x, g.p - y, "integers"); chk(P(y, x, &c), y, x, "swapped coordinates"); chk(P(g.p - x, y, &c), g.p - x, y, "negated x");
        for (int e = 0; e < 256; e++) { mpz_class u = x ^ pow2(e), v = y ^ pow2(e); chk(P(u, y, &c), u, y, "one flipped bit of x"); chk(P(x, v, &c), x, v, "one flipped bit of y"); }
        // results of operations
        P q = g.pt(pts[i]);
        for (auto& r : alike_points(g)) { P s = g.pt(r); step(2); MC_CHECK((q + s).isValid() && (q - s).isValid(), "%s: an operation on %s returned an invalid point", T::name(), show(q).c_str()); }
        MC_CHECK(q.pointDouble().isValid() && (q * mpz_class(1000003)).isValid(), "%s: an operation on %s returned an invalid point", T::name(), show(q).c_str());
        state(); exec();
    }
    // sampled points, with extreme answers of the random source
    for (int k = 0; k < 40; k++) {
        if (!mine()) continue;
        E.reset(k + 1);
        if (k < 8) E.override_[0] = k < 4 ? mpz_class(k) : mpz_class(g.n - 8 + k);
        P q = c.getRandomPoint(); step();
        MC_CHECK(q.isValid(), "%s: a sampled point is invalid: %s", T::name(), show(q).c_str());
        exec();
    }
}
PART(c05_real) { c05_real_<Secp>(); c05_real_<Bn>(); }

// points with the same coordinates on curves that differ in one coefficient, checked one after the other
template <class T> struct AnyCurve : T::C { AnyCurve(const mpz_class& a, const mpz_class& b) { this->a = a; this->b = b; } };
template <class T> void c05_curves_()
{
    typedef typename T::P P; typedef typename T::C C;
    bool toy = T::toy().on;
    if (toy && !Toy<T>::avail()) { Toy<T>::require(); return; }
    C std_; mpz_class p = std_.getPrime(), a0 = modz(std_.getA(), p), b0 = std_.getB();
    std::vector<std::pair<mpz_class, mpz_class>> ab, xy;
    if (toy) {
        long q = p.get_si();
        for (long a = 0; a < q; a++) for (long b = 0; b < q; b++) if (q < 10 || a == a0 || b == b0 || (a + b) % 5 == 0) ab.push_back({a, b});
        for (long x = 0; x < q; x++) for (long y = 0; y < q; y++) if (q < 10 || (x * 7 + y) % 11 < 3) xy.push_back({x, y});
    } else {
        for (int i = -2; i <= 2; i++) { ab.push_back({a0, b0 + i}); ab.push_back({modz(a0 + i, p), b0}); }
        ab.push_back({a0, 0}); ab.push_back({0, b0}); ab.push_back({a0, b0 ^ pow2(200)}); ab.push_back({modz(a0 ^ pow2(130), p), b0}); ab.push_back({b0, a0});
        P G = std_.getDefaultGen(); mpz_class gx = G.getX().getRawValue(), gy = G.getY().getRawValue();
        for (auto& c : std::vector<std::pair<mpz_class, mpz_class>>(ab)) ab.push_back({c.first, modz(gy * gy - gx * gx * gx - c.first * gx, p)});   // on which the generator lies
        xy.push_back({gx, gy}); xy.push_back({gx, p - gy}); xy.push_back({gy, gx}); xy.push_back({gx, gy + 1});
        P D = G + G; xy.push_back({D.getX().getRawValue(), D.getY().getRawValue()});
    }
    std::vector<std::unique_ptr<AnyCurve<T>>> cs; for (auto& c : ab) cs.emplace_back(new AnyCurve<T>(c.first, c.second));
    auto on = [&](size_t c, const mpz_class& x, const mpz_class& y) { return modz(y * y - x * x * x - ab[c].first * x - ab[c].second, p) == 0; };
    for (size_t i = 0; i < ab.size(); i++) {
        if (!mine()) continue;
        for (size_t j = 0; j < ab.size(); j++) for (size_t k = 0; k < xy.size(); k++) {
            if (toy && p > 10 && ab[i].first != ab[j].first && ab[i].second != ab[j].second) continue;
            at("%s curves %ld %ld point %ld", T::name(), i, j, k);
            auto& c = xy[k]; auto& d = xy[(k + i) % xy.size()]; bool same = i % 2; std::pair<mpz_class, mpz_class> e = same ? c : d; if (!same && j % 2) { e = c; e.second = modz(-c.second, p); }
            P u(c.first, c.second, static_cast<C*>(cs[i].get())), v(e.first, e.second, static_cast<C*>(cs[j].get())); step(2); state();
            bool vu = u.isValid(), vv = v.isValid();
            MC_CHECK(vu == on(i, c.first, c.second), "%s: on the curve with a=%s, b=%s the point (%s,%s) is reported %s", T::name(), hx(ab[i].first).c_str(), hx(ab[i].second).c_str(), hx(c.first).c_str(), hx(c.second).c_str(), vu ? "valid" : "invalid");
            MC_CHECK(vv == on(j, e.first, e.second), "%s: on the curve with a=%s, b=%s the point (%s,%s) is reported %s", T::name(), hx(ab[j].first).c_str(), hx(ab[j].second).c_str(), hx(e.first).c_str(), hx(e.second).c_str(), vv ? "valid" : "invalid");
            outcome(vu * 2 + vv);
        }
        exec();
    }
    sample("%s: %zu curves, all pairs, %zu points", T::name(), ab.size(), xy.size());
}
PART(c05_curves) { c05_curves_<Secp>(); c05_curves_<Bn>(); }

// ------------------------------------------------------------------ C06
template <class T> void c06_toy_()
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    typedef typename T::P P; typedef typename T::Fp Fp;
    Toy<T> t; long p = t.p, n = t.n; typename T::C other;
    std::map<std::string, long> enc;
    for (long i = 1; i < n; i++) {
        if (!mine()) continue;
        P q = t.pt(i);
        mpz_class e = q.getEncodedX(); step(); state();
        MC_CHECK(t.idx(q) == i, "%s: encoding changed the point", T::name());
        for (long j = 0; j < n; j++) for (int form = 0; form < 2; form++) {
            at("toy compression i=%ld into j=%ld", i, j);
            P w = t.pt(j); w.curve = form ? &other : t.curve;
            w.setEncodedX(e); step();
            MC_CHECK(t.idx(w) == i, "%s: %ldG compresses to %s which decompresses (into a point that was %ldG) to %s", T::name(), i, hx(e).c_str(), j, show(w).c_str());
            MC_CHECK(w == q && w.isValid(), "%s: decompressed %ldG not equal to the original", T::name(), i);
            MC_CHECK(t.idx(w + q) == md(2 * i, n) && t.idx(w - q) == 0, "%s: decompressed %ldG is not usable", T::name(), i);
            MC_CHECK(w.getEncodedX() == e, "%s: recompressing gives a different encoding", T::name());
        }
        outcome(e); exec();
    }
    for (long i = 1; i < n; i++) { auto r = enc.emplace(t.pt(i).getEncodedX().get_str(), i); MC_CHECK(r.second, "%s: %ldG and %ldG have the same encoding", T::name(), i, r.first->second); step(); }
    // lifting: every integer, reduced or not, against the table of the whole curve (not only the subgroup)
    typename T::C& c = *t.curve;
    for (long x = -2 * p; x < 3 * p; x++) {
        if (!mine()) continue;
        at("toy lift x=%ld", x);
        long xr = md(x, p), rhs = md(xr * xr % p * xr + t.a * xr + t.b, p);
        bool ex = rhs == 0 || pw(rhs, (p - 1) / 2, p) == 1;
        P a = c.evaluateP(Fp(Z(x))), b = c.evaluatePneg(Fp(Z(x))); step(3); state();
        MC_CHECK(c.evaluatePy2(Fp(Z(x))).getRawValue() == rhs, "%s: right-hand side at x=%ld is %s", T::name(), x, c.evaluatePy2(Fp(Z(x))).getRawValue().get_str().c_str());
        MC_CHECK(a.isInf() == !ex && b.isInf() == !ex, "%s: lifting x=%ld: existence wrong", T::name(), x);
        if (ex) {
            MC_CHECK(a.getX().getRawValue() == xr && b.getX().getRawValue() == xr && a.isValid() && b.isValid(), "%s: lifting x=%ld gives %s / %s", T::name(), x, show(a).c_str(), show(b).c_str());
            mpz_class s = modz(a.getY().getRawValue() + b.getY().getRawValue(), p);
            MC_CHECK(s == 0, "%s: the two lifts of x=%ld are not opposite", T::name(), x);
            MC_CHECK((a + b).isInf(), "%s: the two lifts of x=%ld do not sum to infinity", T::name(), x);
        }
        exec();
    }
}
PART(c06_toy) { c06_toy_<Secp>(); c06_toy_<Bn>(); }
template <class T> void c06_real_()
{
    typedef typename T::P P; typedef typename T::Fp Fp;
    Real<T> g; typename T::C& c = *g.curve; typename T::C other;
    auto pts = points(g, 1);
    note("%s point alphabet %zu", T::name(), pts.size());
    std::map<std::string, size_t> seen;
    std::vector<P> targets = {g.pt(g.mulG(5)), g.pt({true, 0, 0}), g.pt(g.mulG(g.n - 1)), c.getDefaultGen()};
    targets[1].curve = g.curve; targets[2].curve = &other;
    for (size_t i = 0; i < pts.size(); i++) {
        if (pts[i].inf) continue;
        bool m = mine();
        if (!m) continue;
        for (int sg = 0; sg < 2; sg++) {
            at("real compression point #%ld sign %ld", i, sg);
            auto xy = sg ? g.neg(pts[i]) : pts[i];
            P q = g.pt(xy);
            mpz_class e = q.getEncodedX(); step(); state();
            MC_CHECK(Real<T>::same(q, xy), "%s: encoding changed the point", T::name());
            for (auto& tg : targets) {
                P w = tg; w.setEncodedX(e); step();
                MC_CHECK(Real<T>::same(w, xy) && w == q && w.isValid(), "%s: %s compresses to %s which decompresses to %s", T::name(), show(q).c_str(), hx(e).c_str(), show(w).c_str());
            }
            P self = q; self.setEncodedX(g.pt(g.neg(xy)).getEncodedX());
            MC_CHECK(Real<T>::same(self, g.neg(xy)), "%s: decompressing the opposite point into %s gives %s", T::name(), show(q).c_str(), show(self).c_str());
            outcome(e);
        }
        exec();
    }
    for (size_t i = 0; i < pts.size(); i++) if (!pts[i].inf) {
        std::string e = g.pt(pts[i]).getEncodedX().get_str();
        auto r = seen.emplace(e, i);
        MC_CHECK(r.second, "%s: %s and %s have the same encoding", T::name(), Real<T>::show(pts[i]).c_str(), Real<T>::show(pts[r.first->second]).c_str());
    }
    std::vector<mpz_class> xs = residues(g.p, R.thorough() ? 2 : 1);
    for (auto& z : integers(g.p, 0)) xs.push_back(z);
    for (size_t i = 0; i < xs.size(); i++) {
        if (!mine()) continue;
        at("real lift x=#%ld", i);
        mpz_class x = modz(xs[i], g.p), rhs = modz(x * x * x + g.a * x + g.b, g.p);
        bool ex = rhs == 0 || mpz_legendre(rhs.get_mpz_t(), g.p.get_mpz_t()) == 1;
        P a = c.evaluateP(Fp(xs[i])), b = c.evaluatePneg(Fp(xs[i])); step(3); state(); outcome(ex);
        MC_CHECK(c.evaluatePy2(Fp(xs[i])).getRawValue() == rhs, "%s: right-hand side at x=%s wrong", T::name(), hx(xs[i]).c_str());
        MC_CHECK(a.isInf() == !ex && b.isInf() == !ex, "%s: lifting x=%s: existence wrong", T::name(), hx(xs[i]).c_str());
        if (ex) {
            mpz_class s = modz(a.getY().getRawValue() + b.getY().getRawValue(), g.p);
            MC_CHECK(a.getX().getRawValue() == x && b.getX().getRawValue() == x && a.isValid() && b.isValid() && s == 0, "%s: lifting x=%s gives %s / %s", T::name(), hx(xs[i]).c_str(), show(a).c_str(), show(b).c_str());
        }
        exec();
    }
}
PART(c06_real) { c06_real_<Secp>(); c06_real_<Bn>(); }

// ------------------------------------------------------------------ C07
template <class T> void c07_pts(const std::vector<typename T::P>& v, const char* what)
{
    // an element equals another exactly when both are infinity, or both finite with the same residues
    for (size_t i = 0; i < v.size(); i++) {
        if (!mine()) continue;
        for (size_t j = 0; j < v.size(); j++) {
            at("point equality #%ld #%ld", i, j);
            bool want = v[i].isInf() == v[j].isInf() && (v[i].isInf() || (v[i].getX().getRawValue() == v[j].getX().getRawValue() && v[i].getY().getRawValue() == v[j].getY().getRawValue()));
            state(); step();
            bool got = v[i] == v[j];
            MC_CHECK(got == want, "%s %s: %s == %s is %s", T::name(), what, show(v[i]).c_str(), show(v[j]).c_str(), got ? "true" : "false");
        }
        typename T::P c(v[i]), d; d = v[i];
        MC_CHECK(c == v[i] && d == v[i], "%s: a copy of %s is not equal to it", T::name(), show(v[i]).c_str());
        typename T::P keep(v[i]);
        if (!c.isInf() && c.isValid()) { c = c + c; MC_CHECK(d == keep && v[i] == keep, "%s: changing a copy changed the source", T::name()); }
        exec();
    }
}
template <class T> void c07_toy_()
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    typedef typename T::P P;
    Toy<T> t; static typename T::C other;
    std::vector<P> v;
    v.push_back(P());
    { P z; z.curve = t.curve; v.push_back(z); }
    v.push_back(t.pt(1) + t.pt(t.n - 1)); v.push_back(t.pt(1) - t.pt(1));
    for (long x = 0; x < t.p; x++) for (long y = 0; y < t.p; y++) v.push_back(P(Z(x), Z(y), (x + y) % 2 ? &other : t.curve));
    c07_pts<T>(v, "toy");
}
PART(c07_toy) { c07_toy_<Secp>(); c07_toy_<Bn>(); }
template <class T> void c07_real_()
{
    typedef typename T::P P;
    Real<T> g; static typename T::C other;
    std::vector<P> v;
    v.push_back(P()); { P z; z.curve = g.curve; v.push_back(z); }
    v.push_back(P(mpz_class(0), mpz_class(0), g.curve));
    for (auto& q : points(g, 0)) { v.push_back(g.pt(q)); }
    auto q = g.mulG(123456789);
    for (int e = 0; e < 256; e++) { v.push_back(P(q.x ^ pow2(e), q.y, &other)); v.push_back(P(q.x, q.y ^ pow2(e), g.curve)); }
    v.push_back(P(q.y, q.x, g.curve)); v.push_back(P(q.x, q.y, &other)); v.push_back(P(q.x + g.p, q.y - g.p, g.curve));
    v.push_back(P(q.x, mpz_class(g.p - q.y), g.curve));
    c07_pts<T>(v, "real");
    // curves: same parameters equal, any changed parameter different
    struct X : T::C { void set(int i, const mpz_class& d) { (i == 0 ? this->prime : i == 1 ? this->a : i == 2 ? this->b : i == 3 ? this->order : this->cofactor) += d; } };
    for (int i = 0; i < 5; i++) for (int b = 0; b < 250; b += 3) {
        typename T::C c1, c2; X c3; c3.set(i, pow2(b));
        step(3);
        const typename T::C& c3r = c3;
        MC_CHECK(c1 == c2 && c1 == c1, "%s: two curves with the same parameters compare different", T::name());
        MC_CHECK(!(c1 == c3r) && !(c3r == c1), "%s: curves differing in parameter %d compare equal", T::name(), i);
    }
    exec();
}
PART(c07_real) { c07_real_<Secp>(); c07_real_<Bn>(); }
// every pair of curves over a small set of values for each of the five parameters
template <class T> void c07_curves_()
{
    typedef typename T::C C;
    struct X : C { X(const mpz_class* v) { this->prime = v[0]; this->a = v[1]; this->b = v[2]; this->order = v[3]; this->cofactor = v[4]; } };
    C std_; std::vector<std::vector<mpz_class>> sets = {{1, 2, 3}, {std_.getPrime(), std_.getOrder(), std_.getB()}, {0, mpz_class(2 * std_.getOrder()), std_.getOrder()}, {-1, 1, 0}};
    for (size_t s = 0; s < sets.size(); s++) {
        std::vector<std::vector<mpz_class>> t; std::vector<std::unique_ptr<C>> c;
        for (int i = 0; i < 243; i++) { std::vector<mpz_class> v; for (int k = 0, q = i; k < 5; k++, q /= 3) v.push_back(sets[s][q % 3]); t.push_back(v); c.emplace_back(new X(v.data())); }
        for (int i = 0; i < 243; i++) {
            if (!mine()) continue;
            for (int j = 0; j < 243; j++) { at("%s curve parameters set %ld tuples %ld %ld", T::name(), s, (long)i, (long)j); step(); state(); MC_CHECK((*c[i] == *c[j]) == (i == j), "%s: curves with parameters #%d and #%d (in base 3 the choices for cofactor, order, b, a, prime) compare %s", T::name(), i, j, i == j ? "different" : "equal"); outcome(i == j); }
            exec();
        }
    }
    sample("%s: all pairs of 243 curves, four sets of values", T::name());
}
PART(c07_curves) { c07_curves_<Secp>(); c07_curves_<Bn>(); }

// composites: every pair of tuples over a small component set that contains equal, opposite, infinite and foreign-object points
using namespace dme;
static std::vector<POINT> comp()
{
    static CURVE a, b;
    POINT G = a.getDefaultGen();
    POINT G2 = b.getDefaultGen();
    POINT D = G + G, N = POINT() + (G * mpz_class(-1));
    return {POINT(), G, G2, D, N, D - G};      // G, G2, D-G are mathematically equal
}
template <class X> static X& same(X& x) { return x; }
static bool peq(const POINT& p, const POINT& q) { return p.isInf() == q.isInf() && (p.isInf() || (p.getX().getRawValue() == q.getX().getRawValue() && p.getY().getRawValue() == q.getY().getRawValue())); }
PART(c07_tuples)
{
    auto v = comp(); size_t n = v.size();
    std::vector<FIELD_n> s; for (long k : {0L, 1L, 2L}) s.push_back(FIELD_n(mpz_class(k)));
    s.push_back(FIELD_n(FIELD_n(mpz_class(0)).getField() + 1)); s.push_back(FIELD_n(mpz_class(-1)));
    auto feq = [&](size_t i, size_t j) { return s[i].getRawValue() == s[j].getRawValue(); };
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) {
        if (!mine()) continue;
        pkey_t pk(v[a], v[b]); dme::ctxt_t ct(v[a], v[b]);
        for (size_t c = 0; c < n; c++) for (size_t d = 0; d < n; d++) {
            at("tuple (%ld,%ld) vs (%ld,%ld)", a, b, c, d);
            bool want = peq(v[a], v[c]) && peq(v[b], v[d]);
            pkey_t pk2(v[c], v[d]), pk3; dme::ctxt_t ct2(v[c], v[d]), ct3;
            step(2); state();
            MC_CHECK((pk == pk2) == want, "public keys (%zu,%zu) and (%zu,%zu) compare %s", a, b, c, d, want ? "different" : "equal");
            MC_CHECK((ct == ct2) == want, "ciphertexts (%zu,%zu) and (%zu,%zu) compare %s", a, b, c, d, want ? "different" : "equal");
            pk3 = pk; ct3 = ct; pkey_t pk4(pk); dme::ctxt_t ct4(ct);
            MC_CHECK(pk3 == pk && pk4 == pk && ct3 == ct && ct4 == ct, "a copy is not equal to its source");
            pk3.g = v[c]; pk3.h = v[d]; ct3.u = v[c]; ct3.mv = v[d];
            MC_CHECK(peq(pk.g, v[a]) && peq(pk.h, v[b]) && peq(ct.u, v[a]) && peq(ct.mv, v[b]) && pk4 == pk && ct4 == ct, "changing a copy changed its source");
            pk3 = pk2; pk3 = pk3; MC_CHECK(pk3 == pk2 && (pk3 == pk) == want, "assignment over an old value");
            ct3 = ct2; ct3 = same(ct3); MC_CHECK(ct3 == ct2 && peq(ct3.u, v[c]) && peq(ct3.mv, v[d]) && (ct3 == ct) == want, "a ciphertext assigned over an old value or to itself changes");
            // CRS: the pair of components at every position, key pair with every secret
            for (int pos = 0; pos < 4; pos++) {
                POINT x[4] = {v[1], v[3], v[4], v[1]}, y[4] = {v[1], v[3], v[4], v[1]};
                x[pos] = v[a]; y[pos] = v[c]; x[(pos + 1) % 4] = v[b]; y[(pos + 1) % 4] = v[d];
                crs_ddh_t c1(x[0], x[1], x[2], x[3]), c2(y[0], y[1], y[2], y[3]), c3; c3 = c1;
                step();
                MC_CHECK((c1 == c2) == want, "CRSs differing at %d/%d compare %s", pos, (pos + 1) % 4, want ? "different" : "equal");
                MC_CHECK(c3 == c1 && peq(c3.g0, x[0]) && peq(c3.g1, x[1]) && peq(c3.h0, x[2]) && peq(c3.h1, x[3]), "CRS copy wrong");
                c3 = c2; c3 = same(c3); MC_CHECK((c3 == c1) == want && c3 == c2 && peq(c1.g0, x[0]) && peq(c3.g0, y[0]) && peq(c3.g1, y[1]) && peq(c3.h0, y[2]) && peq(c3.h1, y[3]), "CRS assignment wrong");
            }
            for (size_t k = 0; k < s.size(); k++) for (size_t l = 0; l < s.size(); l++) {
                step();
                keypair_t kp(pk, s[k]), kp2(pk2, s[l]), kp3; kp3 = kp; kp3 = same(kp3);
                MC_CHECK((kp == kp2) == (want && feq(k, l)), "key pairs with secrets #%zu #%zu compare wrongly", k, l);
                MC_CHECK(kp3 == kp && kp3.sk == s[k], "key pair copy wrong");
            }
        }
        exec();
    }
    for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) {
        td_dec_ddh_t d1(s[i]), d2(s[j]), d3; d3 = d1; d3 = same(d3); step();
        MC_CHECK((d1 == d2) == feq(i, j) && d3 == d1, "decryption trapdoors #%zu #%zu compare wrongly", i, j);
        for (size_t k = 0; k < s.size(); k++) for (size_t l = 0; l < s.size(); l++) {
            td_messy_ddh_t m1(s[i], s[j]), m2(s[k], s[l]), m3; m3 = m1; m3 = same(m3); step(); state();
            MC_CHECK((m1 == m2) == (feq(i, k) && feq(j, l)) && m3 == m1, "messy trapdoors (%zu,%zu) (%zu,%zu) compare wrongly", i, j, k, l);
        }
    }
    for (size_t i = 0; i < n; i++) { POINT p = v[i]; p = same(p); MC_CHECK(peq(p, v[i]), "a point assigned to itself changes"); }
    for (size_t i = 0; i < s.size(); i++) { FIELD_n f = s[i]; f = same(f); MC_CHECK(f.getRawValue() == s[i].getRawValue() && f == s[i], "a residue assigned to itself changes"); }
    sample("public keys, ciphertexts, CRSs, key pairs over 6 component points (4 distinct) and 5 secrets (3 distinct)");
}
