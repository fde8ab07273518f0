// C01, C02: the four prime fields as register machines against integer arithmetic modulo the prime.
#include "grp.hpp"
#include "alpha.hpp"
using namespace mc;

struct FSp { typedef field::Field_secp256r1_p F; static const char* n() { return "secp.p"; } static mpz_class std_() { return Real<Secp>::parse(Secp::hex(0)); } static ToyParams& t() { return toy_secp; } static mpz_class toy() { return toy_secp.p; } };
struct FSn { typedef field::Field_secp256r1_n F; static const char* n() { return "secp.n"; } static mpz_class std_() { return Real<Secp>::parse(Secp::hex(5)); } static ToyParams& t() { return toy_secp; } static mpz_class toy() { return toy_secp.n; } };
struct FBp { typedef field::Field_bn254_p F; static const char* n() { return "bn.p"; } static mpz_class std_() { return Real<Bn>::parse(Bn::hex(0)); } static ToyParams& t() { return toy_bn; } static mpz_class toy() { return toy_bn.p; } };
struct FBn { typedef field::Field_bn254_n F; static const char* n() { return "bn.n"; } static mpz_class std_() { return Real<Bn>::parse(Bn::hex(5)); } static ToyParams& t() { return toy_bn; } static mpz_class toy() { return toy_bn.n; } };

template <class S> mpz_class modulus() { return S::t().on ? S::toy() : S::std_(); }
template <class S> bool have_toy()
{
    if (!S::t().on) return false;
    if (typename S::F(mpz_class(0)).getField() == S::toy()) return true;
    note("toy substitution not in effect for %s", S::n()); R.exhaustive = false; return false;
}

enum Op { ADD, SUB, MUL, MULZ, NEG, SQR, ADDA, SUBA, MULA, MULZA, NOPS, DIV = NOPS, INV, DIVA, NALL };
static const char* opn[] = {"a+b", "a-b", "a*b", "a*z", "-a", "sqr", "a+=b", "a-=b", "a*=b", "a*=z", "a/b", "inv", "a/=b"};

static mpz_class ref(int op, const mpz_class& a, const mpz_class& b, const mpz_class& p)
{
    switch (op) {
    case ADD: case ADDA: return modz(a + b, p);
    case SUB: case SUBA: return modz(a - b, p);
    case MUL: case MULA: case MULZ: case MULZA: return modz(a * b, p);
    case NEG: return modz(-a, p);
    case SQR: return modz(a * a, p);
    case DIV: case DIVA: return modz(a * invz(b, p), p);
    case INV: return invz(a, p);
    }
    return 0;
}

// One operation on the library: checks the value, canonicity, the returned reference, and that the operands keep their value.
template <class F> void one(int op, const mpz_class& az, const mpz_class& bz, const mpz_class& p, const char* fn)
{
    F a(az), b(bz);
    mpz_class want = ref(op, az, bz, p), z = bz;
    mpz_class got;
    bool self = true;
    switch (op) {
    case ADD: got = (a + b).getRawValue(); break;
    case SUB: got = (a - b).getRawValue(); break;
    case MUL: got = (a * b).getRawValue(); break;
    case MULZ: got = (a * z).getRawValue(); break;
    case NEG: got = (-a).getRawValue(); break;
    case SQR: got = a.square().getRawValue(); break;
    case DIV: got = (a / b).getRawValue(); break;
    case INV: got = a.invert().getRawValue(); break;
    case ADDA: { F& r = (a += b); self = &r == &a; got = a.getRawValue(); break; }
    case SUBA: { F& r = (a -= b); self = &r == &a; got = a.getRawValue(); break; }
    case MULA: { F& r = (a *= b); self = &r == &a; got = a.getRawValue(); break; }
    case MULZA: { F& r = (a *= z); self = &r == &a; got = a.getRawValue(); break; }
    case DIVA: { F& r = (a /= b); self = &r == &a; got = a.getRawValue(); break; }
    }
    step();
    MC_CHECK(got == want, "%s: %s with a=%s b=%s gives %s, expected %s", fn, opn[op], hx(az).c_str(), hx(bz).c_str(), hx(got).c_str(), hx(want).c_str());
    MC_CHECK(self, "%s: %s does not return its target", fn, opn[op]);
    bool assign = (op >= ADDA && op <= MULZA) || op == DIVA;
    MC_CHECK((assign || a.getRawValue() == modz(az, p)) && b.getRawValue() == modz(bz, p) && z == bz,
             "%s: %s with a=%s b=%s changed an operand", fn, opn[op], hx(az).c_str(), hx(bz).c_str());
    MC_CHECK(a.getField() == p && b.getField() == p, "%s: %s changed the modulus", fn, opn[op]);
    outcome(got);
}
// same object on both sides
template <class F> void alias(int op, const mpz_class& az, const mpz_class& p, const char* fn)
{
    F a(az), c;
    mpz_class want = ref(op, az, az, p);
    switch (op) {
    case ADD: c = a + a; break;
    case SUB: c = a - a; break;
    case MUL: c = a * a; break;
    case DIV: c = a / a; break;
    case ADDA: a += a; c = a; break;
    case SUBA: a -= a; c = a; break;
    case MULA: a *= a; c = a; break;
    case DIVA: a /= a; c = a; break;
    case NEG: a = -a; c = a; break;
    case SQR: a = a.square(); c = a; break;
    case INV: a = a.invert(); c = a; break;
    default: return;
    }
    step();
    MC_CHECK(c.getRawValue() == want, "%s: %s with both operands the same object (%s) gives %s, expected %s", fn, opn[op], hx(az).c_str(), hx(c.getRawValue()).c_str(), hx(want).c_str());
    a = c; a = a;
    MC_CHECK(a.getRawValue() == want && a == c, "%s: assignment lost the value", fn);
}

template <class S> void small_all(bool div)
{
    typedef typename S::F F;
    mpz_class p = modulus<S>();
    long P = p.get_si();
    for (long a = 0; a < P; a++) {
        if (!mine()) continue;
        at("toy field op a=%ld", a);
        if (!div) {
            for (long b = 0; b < P; b++) {
                state();
                for (int op = ADD; op < NOPS; op++) if (op != NEG && op != SQR) { if (op == MULZ || op == MULZA) continue; one<F>(op, a, b, p, S::n()); }
                MC_CHECK((F(Z(a)) == F(Z(b))) == (a == b), "%s: == of %ld and %ld is wrong", S::n(), a, b);
            }
            one<F>(NEG, a, 0, p, S::n()); one<F>(SQR, a, 0, p, S::n());
            for (long z = -3 * P; z <= 3 * P; z++) { one<F>(MULZ, a, z, p, S::n()); one<F>(MULZA, a, z, p, S::n()); }
            for (long k = -4; k <= 4; k++) {
                F x(Z(a + k * P));
                step();
                MC_CHECK(x.getRawValue() == a && x.getField() == p, "%s: constructing %ld gives %s", S::n(), a + k * P, x.getRawValue().get_str().c_str());
                MC_CHECK(x == F(Z(a)), "%s: equal residues %ld and %ld compare different", S::n(), a + k * P, a);
            }
            for (int op = ADD; op < NOPS; op++) alias<F>(op, a, p, S::n());
        } else {
            for (long b = 1; b < P; b++) {
                state();
                one<F>(DIV, a, b, p, S::n()); one<F>(DIVA, a, b, p, S::n());
                F fa(Z(a)), fb(Z(b));
                MC_CHECK(((fa / fb) * fb) == fa, "%s: (%ld/%ld)*%ld != %ld", S::n(), a, b, b, a);
            }
            if (a) {
                one<F>(INV, a, 0, p, S::n());
                MC_CHECK((F(Z(a)) * F(Z(a)).invert()).getRawValue() == 1, "%s: b*invert(b) != 1 for %ld", S::n(), a);
                alias<F>(DIV, a, p, S::n()); alias<F>(DIVA, a, p, S::n()); alias<F>(INV, a, p, S::n());
            }
        }
        exec();
    }
}

// Register machine: two registers of one field; every reachable register state, every operation with every aliasing.
template <class S> void machine(bool div)
{
    typedef typename S::F F;
    long P = modulus<S>().get_si();
    int lo = div ? DIV : ADD, hi = div ? NALL : NOPS;
    for (long s = 0; s < P * P; s++) {
        if (!mine()) continue;
        state();
        for (int op = lo; op < hi; op++)
            for (int t = 0; t < 2; t++) for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) {
                bool as = (op >= ADDA && op <= MULZA) || op == DIVA;
                if (as && x != t) continue;
                long v[2] = {s / P, s % P};
                if ((op == DIV || op == DIVA) && v[y] == 0) continue;
                if (op == INV && v[x] == 0) continue;
                F r[2] = {F(Z(v[0])), F(Z(v[1]))};
                at("toy machine state=%ld op=%ld t=%ld x=%ld y=%ld", s, op, t, x, y);
                long w[2] = {v[0], v[1]};
                w[t] = ref(op, v[x], v[y], P).get_si();
                switch (op) {
                case ADD: r[t] = r[x] + r[y]; break;
                case SUB: r[t] = r[x] - r[y]; break;
                case MUL: r[t] = r[x] * r[y]; break;
                case MULZ: r[t] = r[x] * r[y].getRawValue(); break;
                case NEG: r[t] = -r[x]; break;
                case SQR: r[t] = r[x].square(); break;
                case ADDA: r[t] += r[y]; break;
                case SUBA: r[t] -= r[y]; break;
                case MULA: r[t] *= r[y]; break;
                case MULZA: r[t] *= r[y].getRawValue(); break;
                case DIV: r[t] = r[x] / r[y]; break;
                case INV: r[t] = r[x].invert(); break;
                case DIVA: r[t] /= r[y]; break;
                }
                step();
                MC_CHECK(r[0].getRawValue() == w[0] && r[1].getRawValue() == w[1], "%s: registers (%ld,%ld) after %s with t=%d x=%d y=%d are (%s,%s), expected (%ld,%ld)",
                         S::n(), v[0], v[1], opn[op], t, x, y, r[0].getRawValue().get_str().c_str(), r[1].getRawValue().get_str().c_str(), w[0], w[1]);
                MC_CHECK((r[0] == r[1]) == (w[0] == w[1]), "%s: == wrong on (%ld,%ld)", S::n(), w[0], w[1]);
            }
        exec();
    }
}

// Every ordered sequence of `depth` operations drawn from an alphabet that mixes fields and operands that look alike.
struct Inst { int f, op; mpz_class a, b; };
template <class S> void inst1(const Inst& i, const mpz_class& p) { one<typename S::F>(i.op, i.a, i.b, p, S::n()); }
static void exec_inst(const Inst& i)
{
    static mpz_class p0 = modulus<FSp>(), p1 = modulus<FSn>(), p2 = modulus<FBp>(), p3 = modulus<FBn>();
    switch (i.f) { case 0: inst1<FSp>(i, p0); break; case 1: inst1<FSn>(i, p1); break; case 2: inst1<FBp>(i, p2); break; case 3: inst1<FBn>(i, p3); break; }
}
static void sequences(const std::vector<Inst>& al, int depth)
{
    size_t n = al.size();
    note("sequence alphabet %zu, depth %d", n, depth);
    for (size_t i = 0; i < n; i++) {
        if (!mine()) continue;
        for (size_t j = 0; j < n; j++) {
            at("sequence %ld,%ld", i, j);
            if (depth == 2) { exec_inst(al[i]); exec_inst(al[j]); exec(); state(); }
            else for (size_t k = 0; k < n; k++) { at("sequence %ld,%ld,%ld", i, j, k); exec_inst(al[i]); exec_inst(al[j]); exec_inst(al[k]); exec(); state(); }
        }
    }
}
static mpz_class fmod_(int f) { return f == 0 ? modulus<FSp>() : f == 1 ? modulus<FSn>() : f == 2 ? modulus<FBp>() : modulus<FBn>(); }

template <class S> void real_pairs(bool div)
{
    typedef typename S::F F;
    mpz_class p = modulus<S>();
    F probe(mpz_class(5));
    MC_CHECK(probe.getField() == p, "%s: the field's prime is %s", S::n(), hx(probe.getField()).c_str());
    std::vector<mpz_class> al = residues(p, div ? (R.thorough() ? 1 : 0) : (R.thorough() ? 2 : 1));
    note("%s operand alphabet %zu", S::n(), al.size());
    if (div) {
        for (auto& z : residues(p, 2)) {
            if (!mine()) continue;
            if (z == 0) continue;
            one<F>(INV, z, 0, p, S::n()); alias<F>(DIV, z, p, S::n()); alias<F>(DIVA, z, p, S::n()); alias<F>(INV, z, p, S::n()); exec(); state();
        }
    }
    for (size_t i = 0; i < al.size(); i++) {
        if (!mine()) continue;
        at("real pairs a=#%ld", i);
        for (size_t j = 0; j < al.size(); j++) {
            state();
            if (!div) {
                for (int op = ADD; op < NOPS; op++) if (op != NEG && op != SQR && op != MULZ && op != MULZA) one<F>(op, al[i], al[j], p, S::n());
                MC_CHECK((F(al[i]) == F(al[j])) == (al[i] == al[j]), "%s: == of %s and %s is wrong", S::n(), hx(al[i]).c_str(), hx(al[j]).c_str());
            } else if (al[j] != 0) { one<F>(DIV, al[i], al[j], p, S::n()); one<F>(DIVA, al[i], al[j], p, S::n()); }
            g_progress = g_progress + 1;
        }
        if (!div) { one<F>(NEG, al[i], 0, p, S::n()); one<F>(SQR, al[i], 0, p, S::n()); for (int op = ADD; op < NOPS; op++) alias<F>(op, al[i], p, S::n()); }
        if (i == 7) sample("%s: %zu ordered operand pairs starting with a=%s", S::n(), al.size(), hx(al[i]).c_str());
        exec();
    }
    if (div) return;
    // construction from, and multiplication by, arbitrary integers
    std::vector<mpz_class> in = integers(p, 1);
    std::vector<mpz_class> few = lookalikes(p);
    note("%s integer alphabet %zu", S::n(), in.size());
    for (size_t i = 0; i < in.size(); i++) {
        if (!mine()) continue;
        at("real integer #%ld", i);
        F x(in[i]);
        step(); state();
        MC_CHECK(x.getRawValue() == modz(in[i], p) && x.getField() == p, "%s: constructing %s gives %s", S::n(), hx(in[i]).c_str(), hx(x.getRawValue()).c_str());
        MC_CHECK(x == F(modz(in[i], p)), "%s: %s and its residue compare different", S::n(), hx(in[i]).c_str());
        for (auto& a : few) { one<F>(MULZ, a, in[i], p, S::n()); one<F>(MULZA, a, in[i], p, S::n()); }
        // operands that were never reduced by the caller
        for (int op : {ADD, SUB, MUL, ADDA, SUBA, MULA, NEG, SQR}) one<F>(op, in[i], few[i % few.size()], p, S::n());
        exec();
    }
}

// equality must look at the whole value: every single-bit difference
template <class S> void eq_bits()
{
    typedef typename S::F F;
    mpz_class p = modulus<S>();
    for (auto& a : lookalikes(p)) {
        if (!mine()) continue;
        for (int b = 0; b < 256; b++) {
            mpz_class c = a ^ pow2(b);
            if (c >= p) continue;
            step();
            MC_CHECK(!(F(a) == F(c)) && F(a) == F(a), "%s: == wrong on values differing in bit %d", S::n(), b);
        }
        state(); exec();
    }
}

PART(c01_toy) { if (have_toy<FSp>()) { small_all<FSp>(false); small_all<FSn>(false); } if (have_toy<FBp>()) { small_all<FBp>(false); small_all<FBn>(false); } }
PART(c02_toy) { if (have_toy<FSp>()) { small_all<FSp>(true); small_all<FSn>(true); } if (have_toy<FBp>()) { small_all<FBp>(true); small_all<FBn>(true); } }
PART(c01_machine) { if (have_toy<FSp>()) { machine<FSp>(false); machine<FSn>(false); } if (have_toy<FBp>()) { machine<FBp>(false); machine<FBn>(false); } }
PART(c02_machine) { if (have_toy<FSp>()) { machine<FSp>(true); machine<FSn>(true); } if (have_toy<FBp>()) { machine<FBp>(true); machine<FBn>(true); } }
PART(c01_real) { real_pairs<FSp>(false); real_pairs<FSn>(false); real_pairs<FBp>(false); real_pairs<FBn>(false); eq_bits<FSp>(); eq_bits<FSn>(); eq_bits<FBp>(); eq_bits<FBn>(); }
PART(c02_real) { real_pairs<FSp>(true); real_pairs<FSn>(true); real_pairs<FBp>(true); real_pairs<FBn>(true); }
static std::vector<Inst> seq_alpha(bool div, bool toy)
{
    std::vector<Inst> al;
    for (int f = 0; f < 4; f++) {
        mpz_class p = fmod_(f);
        std::vector<mpz_class> v;
        if (toy) { for (long i = 0; i < p.get_si() && i < 7; i++) v.push_back(i); }
        else v = lookalikes(fmod_(3)), v.resize(R.thorough() ? v.size() : 9);   // the same integers in every field
        for (auto& a : v) for (auto& b : v) {
            if (!div) { for (int op : {ADD, SUB, MULA, MULZ}) if (R.thorough() || op != MULZ) al.push_back({f, op, a, b}); }
            else if (b != 0) { al.push_back({f, DIV, a, b}); if (R.thorough() || a == v[0]) al.push_back({f, DIVA, a, b}); }
        }
        for (auto& a : v) if (!div) { al.push_back({f, SQR, a, 0}); al.push_back({f, NEG, a, 0}); } else if (a != 0) al.push_back({f, INV, a, 0});
    }
    return al;
}
PART(c01_seq) { sequences(seq_alpha(false, toy_secp.on), 2); }
PART(c02_seq) { sequences(seq_alpha(true, toy_secp.on), 2); }
PART(c02_seq3)
{
    std::vector<Inst> al;
    for (int f = 0; f < 4; f++) {
        mpz_class p = fmod_(f);
        std::vector<mpz_class> v = lookalikes(fmod_(3));
        int k = 0;
        for (auto& a : v) if (a != 0) { al.push_back({f, INV, a, 0}); if (k++ < 4) al.push_back({f, DIV, v[1], a}); }
    }
    sequences(al, 3);
}
