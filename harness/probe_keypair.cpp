// C08: key pairs.
#include "grp.hpp"
#include "alpha.hpp"
using namespace mc;
template <class T> void toy_()
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    Toy<T> t; long n = t.n;
    for (int form = 0; form < 4; form++) {   // key pair; two key pairs; scalar then key pair; key pair then point
        if (!mine()) continue;
        E.reset(); E.tree = true; E.max_draws = 24;
        Dist<u64> d; Explorer ex;
        ex.run([&] {
            E.counter = 0; at("toy key pair form %ld", (long)form);
            u64 key = 0;
            auto kp = [&] { auto k = t.curve->generateKeyPair(); step();
                MC_CHECK(k.sk >= 0 && k.sk < n, "%s: secret key %s out of range", T::name(), k.sk.get_str().c_str());
                MC_CHECK(t.idx(k.pk) == k.sk, "%s: public key %s is not secret key %s times the generator", T::name(), show(k.pk).c_str(), k.sk.get_str().c_str());
                key = key * n + k.sk.get_ui(); };
            if (form == 2) key = t.curve->getRandomScalar().getRawValue().get_ui();
            kp();
            if (form == 1) kp();
            if (form == 3) key = key * n + t.idx(t.curve->getRandomPoint());
            d.add(key); outcome(key); state();
        });
        u64 want = form ? n * n : n;
        MC_CHECK(d.size() == want && d.flat(), "%s: key pairs (form %d): %zu of %llu outcomes, %s", T::name(), form, d.size(), (unsigned long long)want, d.flat() ? "equally likely" : "not equally likely");
    }
    E.tree = false;
}
template <class T> void real_()
{
    Real<T> g; std::set<std::string> seen;
    for (int s = 0; s < 24; s++) {
        if (!mine()) continue;
        at("real key pair seed %ld", (long)s);
        E.reset(s + 1);
        if (s < 3) for (int k = 0; k < 6; k++) E.override_[k] = s == 0 ? mpz_class(g.n - 1) : mpz_class(s);
        auto k = g.curve->generateKeyPair(); step(); state();
        MC_CHECK(k.sk >= 0 && k.sk < g.n, "%s: secret key out of range", T::name());
        MC_CHECK(Real<T>::same(k.pk, g.mulG(k.sk)), "%s: public key is not secret key times the generator for %s", T::name(), hx(k.sk).c_str());
        if (s > 3) MC_CHECK(seen.insert(hx(k.sk)).second, "%s: repeated secret key", T::name());
        exec();
    }
}
PART(c08_keypair) { toy_<Secp>(); toy_<Bn>(); if (!toy_secp.on && !toy_bn.on) { real_<Secp>(); real_<Bn>(); } }
