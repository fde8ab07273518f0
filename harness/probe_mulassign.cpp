// C04: the compound multiplication by a plain integer must exist and agree with the others.
#include "grp.hpp"
#include "alpha.hpp"
using namespace mc;
template <class T> void toy_()
{
    if (!Toy<T>::avail()) { Toy<T>::require(); return; }
    Toy<T> t; long n = t.n;
    for (long i = 0; i < n; i++) {
        if (!mine()) continue;
        for (long k = -3 * n; k <= 3 * n; k++) {
            at("toy *=mpz i=%ld k=%ld", i, k);
            typename T::P a = t.pt(i); mpz_class z = k;
            typename T::P& r = (a *= z); step(); state();
            MC_CHECK(&r == &a && t.idx(a) == md(i * md(k, n), n) && z == k, "%s: %ldG *= %ld gives %s", T::name(), i, k, show(a).c_str());
        }
        exec();
    }
}
PART(c04_mulassign) { toy_<Secp>(); toy_<Bn>(); }
