// C08: distributions of sampled scalars, points and integers.
#include "grp.hpp"
#include "alpha.hpp"
#include "utilities.hpp"
using namespace mc;

// bits of randomness consumed since the log was cleared
static double entropy() { double e = 31.0 * E.words; for (auto& d : E.log) e += mpz_sizeinbase(d.range.get_mpz_t(), 2) - 1 + (mpz_popcount(d.range.get_mpz_t()) > 1 ? 0.5 : 0); return e; }

template <class T> void c08_toy_()
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    Toy<T> t; long n = t.n; typename T::C c2; typename T::C& c = *t.curve;
    // every sequence of up to `len` sampling calls, on two curve objects: the joint distribution must be uniform
    int len = n <= 7 ? 3 : n < 60 ? 2 : 1;
    for (int l = 1; l <= len; l++) {
        long tot = 1; for (int i = 0; i < l; i++) tot *= 4;
        for (long seq = 0; seq < tot; seq++) {
            if (!mine()) continue;
            E.reset(); E.tree = true; E.max_draws = 12 * l;
            Dist<u64> d; Explorer ex;
            ex.run([&] {
                E.counter = 0;
                u64 key = 0; long q = seq;
                for (int i = 0; i < l; i++, q /= 4) {
                    at("toy sampling sequence %ld of length %ld", seq, (long)l);
                    long v = -1;
                    switch (q % 4) {
                    case 0: { auto s = c.getRandomScalar(); MC_CHECK(s.getRawValue() >= 0 && s.getRawValue() < n && s.getField() == n, "%s: scalar %s out of range", T::name(), s.getRawValue().get_str().c_str()); v = s.getRawValue().get_si(); break; }
                    case 1: v = t.idx(c.getRandomPoint()); break;
                    case 2: { auto s = c2.getRandomScalar(); v = s.getRawValue().get_si(); MC_CHECK(v >= 0 && v < n, "%s: scalar out of range", T::name()); break; }
                    case 3: v = t.idx(c2.getRandomPoint()); break;
                    }
                    MC_CHECK(v >= 0, "%s: sampled point is not in the group", T::name());
                    key = key * n + v; step();
                }
                d.add(key); outcome(key);
            });
            u64 want = 1; for (int i = 0; i < l; i++) want *= n;
            MC_CHECK(d.size() == want && d.flat(), "%s: sampling sequence %ld (digits base 4: scalar/point on curve object 1, 2) of length %d yields %zu of %llu outcomes, %s", T::name(), seq, l, d.size(),
                     (unsigned long long)want, d.flat() ? "equally likely" : "not equally likely");
            if (seq == 1) sample("%s: sequence %ld of %d calls: %zu equally likely outcomes over %llu executions", T::name(), seq, l, d.size(), (unsigned long long)ex.executions);
        }
    }
    E.tree = false;
}
PART(c08_toy) { c08_toy_<Secp>(); c08_toy_<Bn>(); }

template <class T> void c08_real_()
{
    Real<T> g; typename T::C c2;
    mpz_class all1 = 0, all0 = 0; all0 = -1;
    std::set<std::string> seen;
    if (!mine()) return;
    for (int s = 0; s < 96; s++) {
        at("real scalar seed %ld", (long)s);
        E.reset(s + 1); E.log_on = true;
        if (s < 4) for (int k = 0; k < 8; k++) E.override_[k] = mpz_class(g.n - 1 - s);
        auto a = (s & 1) ? c2.getRandomScalar() : g.curve->getRandomScalar();
        mpz_class v = a.getRawValue(); step(); state();
        MC_CHECK(v >= 0 && v < g.n && a.getField() == g.n, "%s: scalar %s out of range", T::name(), hx(v).c_str());
        MC_CHECK(entropy() >= 254 - 2, "%s: a random scalar was derived from only %.0f bits of randomness", T::name(), entropy());
        if (s >= 4) { all1 |= v; all0 &= v; MC_CHECK(seen.insert(hx(v)).second, "%s: two scalars from different randomness coincide", T::name()); }
        exec();
    }
    size_t nb = mpz_sizeinbase(g.n.get_mpz_t(), 2);
    MC_CHECK(all1 == pow2(nb) - 1 || all1 >= pow2(nb - 1), "%s: top bit of scalars never set", T::name());
    for (size_t b = 0; b + 1 < nb; b++) MC_CHECK(mpz_tstbit(all1.get_mpz_t(), b) && !mpz_tstbit(all0.get_mpz_t(), b), "%s: bit %zu of random scalars is constant", T::name(), b);
    // a point is the generator times a scalar of full range: with the same randomness both calls agree on it or at least consume as much
    for (int s = 0; s < 12; s++) {
        at("real point seed %ld", (long)s);
        E.reset(s + 1); E.log_on = true;
        auto q = g.curve->getRandomPoint(); step(); state();
        MC_CHECK(q.isValid() && (q * g.n).isInf(), "%s: sampled point invalid", T::name());
        MC_CHECK(entropy() >= 254 - 2, "%s: a random point was derived from only %.0f bits of randomness", T::name(), entropy());
        MC_CHECK(seen.insert(show(q)).second, "%s: two sampled points coincide", T::name());
        exec();
    }
    E.log_on = false;
}
PART(c08_real) { c08_real_<Secp>(); c08_real_<Bn>(); }

PART(c08_bits)
{
    for (unsigned b = 0; b <= 11; b++) {
        if (!mine()) continue;
        for (int two = 0; two < (b <= 5 ? 2 : 1); two++) {
            E.reset(); E.tree = true; E.max_draws = 12;
            Dist<u64> d; Explorer ex;
            ex.run([&] {
                E.counter = 0; at("getRandom(%ld) x%ld", (long)b, (long)two + 1);
                mpz_class v = utils::getRandom(b); step();
                MC_CHECK(v >= 0 && v < pow2(b), "getRandom(%u) = %s is out of range", b, hx(v).c_str());
                u64 k = v.get_ui();
                if (two) { mpz_class w = utils::getRandom(b); step(); MC_CHECK(w >= 0 && w < pow2(b), "getRandom(%u) out of range", b); k = (k << b) | w.get_ui(); }
                d.add(k); outcome(k + (u64)b * 0x10000);
            });
            MC_CHECK(d.size() == (1u << (two ? 2 * b : b)) && d.flat(), "getRandom(%u)%s: %zu outcomes, %s", b, two ? " twice" : "", d.size(), d.flat() ? "equally likely" : "not equally likely");
        }
        E.tree = false;
    }
    std::vector<long> sizes; for (long b = 12; b <= 700; b++) sizes.push_back(b);
    for (long b : manysizes(1, R.thorough() ? 300000 : 70000)) if (b > 700) sizes.push_back(b);
    for (unsigned b : sizes) {
        if (!mine()) continue;
        mpz_class or_ = 0, and_ = pow2(b) - 1; std::set<std::string> seen;
        for (int s = 0; s < 80; s++) {
            at("getRandom(%ld) seed %ld", (long)b, (long)s);
            E.reset(s + 1); E.log_on = true;
            if (s == 0) for (int k = 0; k < 40; k++) E.override_[k] = pow2(std::max(4096u, b)) - 1;
            if (s == 1) for (int k = 0; k < 40; k++) E.override_[k] = 0;
            mpz_class v = utils::getRandom(b); step(); state();
            MC_CHECK(v >= 0 && v < pow2(b), "getRandom(%u) = %s is out of range", b, hx(v).c_str());
            MC_CHECK(entropy() >= b - 1, "getRandom(%u) uses only %.0f bits of randomness", b, entropy());
            or_ |= v; and_ &= v;
            if (b > 60 && s > 1) MC_CHECK(seen.insert(hx(v)).second, "getRandom(%u) repeats", b);
        }
        MC_CHECK(or_ == pow2(b) - 1 && and_ == 0, "getRandom(%u): some bit is constant: or=%s and=%s", b, hx(or_).c_str(), hx(and_).c_str());
        exec();
    }
    E.log_on = false;
    sample("getRandom(b) for b <= 11 exactly uniform (pairs for b <= 5); b <= 700 in range, every bit free, full entropy consumed");
}

// ------------------------------------------------------------------ long histories: nothing repeats, leaves its range or loses a bit after many calls
template <class T> static void c08_long_()
{
    Real<T> g; size_t nb = mpz_sizeinbase(g.n.get_mpz_t(), 2);
    for (int how = 0; how < 6; how++) {
        if (!mine()) continue;
        typename T::C c2; E.reset(how * 7 + 3); std::set<mpz_class> seen; mpz_class or_ = 0, and_ = -1; long N = (how < 3 ? 20000 : how < 5 ? 900 : 60000) * (R.thorough() ? 6 : 1); unsigned bits[] = {128, 64, 255, 100};
        for (long i = 0; i < N; i++) {
            at("%ldth draw of kind %ld", i, (long)how); step();
            if (how == 5) { unsigned b = bits[i % 4]; mpz_class v = utils::getRandom(b); MC_CHECK(v >= 0 && v < pow2(b), "call %ld: getRandom(%u) = %s", i, b, hx(v).c_str()); MC_CHECK(seen.insert(v).second, "call %ld: getRandom(%u) repeats %s", i, b, hx(v).c_str()); if (b != 128) continue; or_ |= v; and_ &= v; if (i % 512 == 508) { MC_CHECK(or_ == pow2(128) - 1 && and_ == 0, "calls up to %ld: a bit of getRandom(128) is constant", i); or_ = 0; and_ = -1; } continue; }
            typename T::C& c = how == 0 || how == 3 ? *g.curve : how == 1 ? c2 : i % 3 ? c2 : *g.curve;
            if (how == 2 && i % 50 == 7) c.getRandomPoint();
            if (how >= 3) { auto q = c.getRandomPoint(); MC_CHECK(!q.isInf() && q.isValid(), "%s: random point %ld is not a finite point", T::name(), i); MC_CHECK(seen.insert(q.getX().getRawValue()).second, "%s: random point %ld repeats an earlier one", T::name(), i); if (i % 10 == 0) c.getRandomScalar(); continue; }
            mpz_class v = c.getRandomScalar().getRawValue(); MC_CHECK(v >= 0 && v < g.n, "%s: random scalar %ld is %s", T::name(), i, hx(v).c_str()); MC_CHECK(seen.insert(v).second, "%s: random scalar %ld repeats the value %s", T::name(), i, hx(v).c_str());
            or_ |= v; and_ &= v; if (i % 128 == 127) { mpz_class low = pow2(nb - 1) - 1; MC_CHECK((or_ & low) == low && (and_ & low) == 0, "%s: a bit of the scalars %ld to %ld is constant", T::name(), i - 127, i); or_ = 0; and_ = -1; }
        }
        exec(); state(); outcome(or_ + how);
    }
    sample("%s: 20000 scalars, 900 points, 60000 integers per history", T::name());
}
PART(c08_long) { if (toy_secp.on) return; c08_long_<Secp>(); c08_long_<Bn>(); }
