#pragma once
#include "grp.hpp"
#include "alpha.hpp"
#include "dme.hpp"
#include "dmhe.hpp"
typedef Toy<Secp> TS;
struct Tup { long g0, g1, h0, h1; };
inline dme::crs_ddh_t mkcrs(TS& t, const Tup& c) { return dme::crs_ddh_t(t.pt(c.g0), t.pt(c.g1), t.pt(c.h0), t.pt(c.h1)); }
inline Tup tup(TS& t, const dme::crs_ddh_t& c) { return {t.idx(c.g0), t.idx(c.g1), t.idx(c.h0), t.idx(c.h1)}; }
// messy: both generators finite and (g0,h0,g1,h1) not a DDH tuple
inline bool messy_ok(TS& t, const Tup& c) { return c.g0 > 0 && c.g1 > 0 && md(c.h0 * c.g1 - c.h1 * c.g0, t.n) != 0; }
inline bool dec_ok(TS& t, const Tup& c) { return c.g0 > 0 && c.g1 > 0; }
inline bool is_ddh(TS& t, const Tup& c) { return md(c.h0 * c.g1 - c.h1 * c.g0, t.n) == 0; }
// u and mv of a ciphertext as one number, -1 if not group elements
inline long cidx(TS& t, const dme::ctxt_t& c) { long a = t.idx(c.u), b = t.idx(c.mv); return a < 0 || b < 0 ? -1 : a * t.n + b; }
inline long pidx(TS& t, const dme::pkey_t& c) { long a = t.idx(c.g), b = t.idx(c.h); return a < 0 || b < 0 ? -1 : a * t.n + b; }
