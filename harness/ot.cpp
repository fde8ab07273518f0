// C14 - C16: oblivious transfer and its aggregated form.
#include "dmeutil.hpp"
#include "ot.hpp"
#include "dot.hpp"
using namespace mc;
using namespace dme;
using namespace ot;

static branch_t B(long b) { return b ? b1 : b0; }
static long vidx(TS& t, const ctxt_v_t& c)
{
    if (c.size() != 2) return -1;
    long a = cidx(t, c[0]), b = cidx(t, c[1]);
    return a < 0 || b < 0 ? -1 : a * t.n * t.n + b;
}

// ------------------------------------------------------------------ C14
static void tree_crs(TS& t, const Tup& tc, long c, const std::vector<std::pair<long, long>>& ms)
{
    long n = t.n;
    OTrecv r(mkcrs(t, tc)); OTsndr s(mkcrs(t, tc));
    for (long b = 0; b < 2; b++) for (auto m : ms) {
        E.reset(); E.tree = true; Explorer ex;
        POINT m0 = t.pt(m.first), m1 = t.pt(m.second);
        ex.run([&] {
            E.counter = 0;
            at("CRS #%ld choice %ld messages %ldG %ldG", c, b, m.first, m.second);
            pkey_t pk = r.selectMsg(B(b));
            ctxt_v_t v = s.encMsgs(pk, m0, m1);
            POINT q = r.decryptMsg(v); step(3);
            long want = b ? m.second : m.first;
            MC_CHECK(t.idx(q) == want, "CRS (%ldG,%ldG,%ldG,%ldG), choice %ld, messages (%ldG,%ldG): received %s", tc.g0, tc.g1, tc.h0, tc.h1, b, m.first, m.second, show(q).c_str());
            MC_CHECK(r.getBranch() == B(b), "receiver reports the wrong branch");
            outcome(vidx(t, v));
        });
        MC_CHECK(t.idx(m0) == m.first && t.idx(m1) == m.second, "encMsgs changed a message");
        state();
    }
    E.tree = false; (void)n;
}
PART(c14_tree)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    std::vector<Tup> cs = {{2, 3, 1, n - 1}, {2, 4, 3, md(6, n)}, {1, 1, 0, 2}, {0, 1, 2, 3}, {1, 0, 0, 1}, {1, 1, 1, 1}};
    std::vector<std::pair<long, long>> all; for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) all.push_back({i, j});
    for (size_t c = 0; c < cs.size(); c++) for (auto m : all) { if (!mine()) continue; tree_crs(t, cs[c], c, {m}); }
    sample("every receiver key and all four encryption scalars, both choices, all %ld message pairs, on %zu CRSs", n * n, cs.size());
}
PART(c14_allcrs)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    for (long c = 0; c < n * n * n * n; c++) {
        if (!mine()) continue;
        Tup tc{c / (n * n * n), c / (n * n) % n, c / n % n, c % n};
        // alternate the message pair with the CRS so that all pairs occur
        tree_crs(t, tc, c, {{c % n, (c / n + 1) % n}});
    }
}
// sequences of sessions
struct Sess { int r; long b; bool isint; POINT pt; mpz_class iv; ctxt_v_t c; u64 epoch; };
static void c14_sequences(int depth, int mode, int op0, u64 seed, bool ints)
{
    Explorer ex; E.tree = false;
    CURVE cv; POINT G = cv.getDefaultGen();
    mpz_class p = cv.getPrime(), lim = p / 1024;
    std::vector<POINT> pts = {POINT(), G, G * mpz_class(2), G * mpz_class(-1)};
    std::vector<mpz_class> iv = {0, 1, lim - 1, mpz_class(lim / 3)};
    ex.run([&] {
        E.reset(seed);
        std::unique_ptr<DME_DDH> d(mode == 0 ? new DME_DDH(messy) : mode == 1 ? new DME_DDH(dec) : new DME_DDH());
        OTrecv r[2] = {OTrecv(d->crs), OTrecv(d->crs)}; OTsndr s[2] = {OTsndr(d->crs), OTsndr(d->crs)};
        pkey_t pk[2]; long b[2] = {-1, -1}; u64 epoch[2] = {0, 0};
        std::vector<Sess> open;
        at("mode %ld first op %ld seed %ld", (long)mode, (long)op0, (long)seed);
        for (int i = 0; i < depth; i++) {
            // 0..3: select (receiver, branch); else transfer (sender, receiver, kind)
            long nsel = 4, ntr = 0; std::vector<int> rr;
            for (int k = 0; k < 2; k++) if (b[k] >= 0) rr.push_back(k);
            ntr = 2 * rr.size() * (ints ? 2 : 1);
            long op = i == 0 ? op0 : choose(nsel + ntr);
            if (op < nsel) {
                int k = op / 2; b[k] = op % 2; pk[k] = r[k].selectMsg(B(b[k])); epoch[k]++; step();
                MC_CHECK(r[k].getBranch() == B(b[k]), "receiver reports the wrong branch");
            } else {
                op -= nsel; int si = op % 2; op /= 2; int k = rr[op % rr.size()]; op /= rr.size();
                Sess x; x.r = k; x.b = b[k]; x.isint = op; x.epoch = epoch[k];
                size_t w = (size_t)i * 3 + mode; // messages differ from step to step
                if (x.isint) { mpz_class m0 = iv[w % 4], m1 = iv[(w + 1 + i) % 4]; x.iv = x.b ? m1 : m0; x.c = s[si].encMsgs(pk[k], m0, m1); }
                else { POINT m0 = pts[w % 4], m1 = pts[(w + 1 + i) % 4]; x.pt = x.b ? m1 : m0; x.c = s[si].encMsgs(pk[k], m0, m1); }
                step(); open.push_back(x);
            }
            for (auto& x : open) if (x.epoch == epoch[x.r]) {
                if (x.isint) { mpz_class q = r[x.r].decryptMsgDecode(x.c); step(); MC_CHECK(q == x.iv, "after %d operations a transfer of %s (choice %ld) yields %s", i + 1, hx(x.iv).c_str(), x.b, hx(q).c_str()); outcome(q); }
                else { POINT q = r[x.r].decryptMsg(x.c); step(); MC_CHECK(q == x.pt && q.isInf() == x.pt.isInf(), "after %d operations a transfer of %s (choice %ld) yields %s", i + 1, show(x.pt).c_str(), x.b, show(q).c_str()); outcome(q.isInf() ? 0 : q.getX().getRawValue().get_ui()); }
            }
        }
        state();
    });
    if (op0 == 0) sample("mode %d: %llu session sequences of length %d with two receivers and two senders%s", mode, (unsigned long long)ex.executions, depth, ints ? ", points and integers" : "");
}
PART(c14_seq)
{
    if (toy_secp.on && FIELD_p(mpz_class(0)).getField() != toy_secp.p) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    bool ints = !toy_secp.on || mpz_sizeinbase(toy_secp.p.get_mpz_t(), 2) > 40;
    int depth = !toy_secp.on ? (R.thorough() ? 3 : 2) : ints ? (R.thorough() ? 4 : 3) : (R.thorough() ? 6 : 5);
    for (int mode = 0; mode < 3; mode++) for (int op0 = 0; op0 < 4; op0++) for (u64 sd = 1; sd <= 2; sd++) { if (!mine()) continue; c14_sequences(depth, mode, op0, sd, ints); }
}
// several transfers in a row by one sender, under selections that stand: all sequences over all message pairs of an alphabet
PART(c14_repeat)
{
    if (toy_secp.on && FIELD_p(mpz_class(0)).getField() != toy_secp.p) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    CURVE cv; long n = mpz_class(cv.getOrder()).get_si(); bool ints = mpz_sizeinbase(toy_secp.p.get_mpz_t(), 2) > 40;
    POINT G = cv.getDefaultGen(); std::vector<POINT> P; for (long i = 0; i < n; i++) P.push_back(G * mpz_class(i));
    std::vector<Tup> cs = {{2, 3, 1, n - 1}, {2, 4, 3, md(6, n)}, {1, 1, 2, 2}, {1, 1, 3, 1}, {1, 0, 0, 1}};
    std::vector<long> al = ints ? std::vector<long>{0, 1, 2} : std::vector<long>{0, 1, 2};
    struct Tr { int r; int kind; long m0, m1; }; std::vector<Tr> ops;
    for (int r = 0; r < 2; r++) for (int kind = 0; kind < (ints ? 2 : 1); kind++) for (long a : al) for (long b : al) ops.push_back({r, kind, a, b});
    size_t N = ops.size(); int depth = ints ? 2 : 3, seeds = ints ? (R.thorough() ? 40 : 12) : (R.thorough() ? 12 : 3); u64 total = 1; for (int i = 0; i < depth; i++) total *= N;
    for (size_t c = 0; c < cs.size(); c++) for (int seed = 1; seed <= seeds; seed++) for (size_t first = 0; first < N; first++) {
        if (!mine()) continue;
        crs_ddh_t crs(P[cs[c].g0], P[cs[c].g1], P[cs[c].h0], P[cs[c].h1]);
        for (u64 rest = 0; rest < total / N; rest++) {
            at("CRS #%ld seed %ld first %ld rest %ld", c, (long)seed, first, (long)rest);
            E.reset(seed * 1000003 + first * 131 + rest * 7); OTrecv r[2] = {OTrecv(crs), OTrecv(crs)}; OTsndr s(crs);
            pkey_t pk[2] = {r[0].selectMsg(b0), r[1].selectMsg(b1)};
            std::vector<std::pair<const Tr*, ctxt_v_t>> done; u64 q = rest;
            for (int i = 0; i < depth; i++) {
                const Tr& x = ops[i ? q % N : first]; if (i) q /= N;
                done.push_back({&x, x.kind ? s.encMsgs(pk[x.r], mpz_class(x.m0), mpz_class(x.m1)) : s.encMsgs(pk[x.r], P[x.m0], P[x.m1])}); step();
            }
            for (size_t i = 0; i < done.size(); i++) {
                const Tr& x = *done[i].first; long want = x.r ? x.m1 : x.m0; step();
                if (x.kind) { mpz_class got = r[x.r].decryptMsgDecode(done[i].second); MC_CHECK(got == want, "CRS #%zu: transfer %zu of %d integer messages (%ld,%ld), choice %d: received %s", c, i + 1, depth, x.m0, x.m1, x.r, hx(got).c_str()); outcome(got); }
                else { POINT got = r[x.r].decryptMsg(done[i].second); MC_CHECK(got == P[want] && got.isInf() == P[want].isInf(), "CRS #%zu: transfer %zu of %d with messages (%ldG,%ldG), choice %d: received %s", c, i + 1, depth, x.m0, x.m1, x.r, show(got).c_str()); outcome(want); }
            }
            state(); exec();
        }
    }
    sample("all sequences of %d transfers out of %zu under two standing selections, on %zu CRSs", depth, N, cs.size());
}
// integer messages: every pair of an alphabet, boundary randomness
PART(c14_int)
{
    if (toy_secp.on && FIELD_p(mpz_class(0)).getField() != toy_secp.p) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    CURVE cv; mpz_class p = cv.getPrime(), n = cv.getOrder(), lim; mpz_fdiv_q_2exp(lim.get_mpz_t(), p.get_mpz_t(), 10);
    ZSet s; for (int i = 0; i < 3; i++) { s.add(i); s.add(lim - 1 - i); }
    for (size_t e : {32, 64, 128, 170}) { mpz_class z = pow2(e); if (z < lim) { s.add(z); s.add(z - 1); } }
    s.add(lim / 2);
    bool toy = toy_secp.on;
    for (size_t i = 0; i < s.v.size(); i++) for (size_t j = 0; j < s.v.size(); j += (toy ? 1 : 5)) {
        if (!mine()) continue;
        for (long b = 0; b < 2; b++) for (int draw = -1; draw < (toy ? 5 : 0); draw++) for (int v = 0; v < (draw < 0 ? 1 : 2); v++) {
            at("integer messages #%ld #%ld choice %ld draw %ld value %ld", i, j, b, (long)draw, (long)v);
            E.reset(i * 31 + j + 1); DME_DDH d((i + j) % 2 ? messy : dec);
            OTrecv r(d.crs); OTsndr sn(d.crs);
            E.reset(i + j + 7); if (draw >= 0) E.override_[draw] = v ? mpz_class(n - 1) : mpz_class(0);
            pkey_t pk = r.selectMsg(B(b));
            mpz_class m0 = s.v[i], m1 = s.v[(i + j) % s.v.size()];
            mpz_class q = r.decryptMsgDecode(sn.encMsgs(pk, m0, m1)); step(3); state();
            MC_CHECK(q == (b ? m1 : m0), "choice %ld between %s and %s: received %s", b, hx(m0).c_str(), hx(m1).c_str(), hx(q).c_str());
            outcome(q); exec();
        }
    }
}
PART(c14_real)
{
    Real<Secp> g;
    std::vector<Real<Secp>::XY> ms = {{true, 0, 0}, g.mulG(1), g.mulG(g.n - 1), g.mulG(pow2(200) + 12345)};
    std::vector<mpz_class> vals = {0, 1, g.n - 1, pow2(255), g.n / 2};
    for (int mode = 0; mode < 3; mode++) for (int draw = -1; draw < 5; draw++) for (size_t v = 0; v < (draw < 0 ? 1 : vals.size()); v++) for (long b = 0; b < 2; b++) {
        if (!mine()) continue;
        at("real transfer mode %ld draw %ld value #%ld choice %ld", (long)mode, (long)draw, v, b);
        E.reset(draw + 11); std::unique_ptr<DME_DDH> d(mode == 0 ? new DME_DDH(messy) : mode == 1 ? new DME_DDH(dec) : new DME_DDH());
        OTrecv r(d->crs); OTsndr s(d->crs);
        for (size_t i = 0; i < ms.size(); i++) {
            size_t j = (i + 1 + v) % ms.size();
            E.reset(7 + i); if (draw >= 0) E.override_[draw] = vals[v];
            pkey_t pk = r.selectMsg(B(b));
            POINT q = r.decryptMsg(s.encMsgs(pk, g.pt(ms[i]), g.pt(ms[j]))); step(3); state();
            MC_CHECK(Real<Secp>::same(q, ms[b ? j : i]), "choice %ld, messages #%zu #%zu, draw %d forced to %s: received %s", b, i, j, draw, hx(vals[v]).c_str(), show(q).c_str());
            exec();
        }
    }
}

// ------------------------------------------------------------------ C15
// decryption mode: the public message is distributed alike for both choices, whatever the receiver did before
PART(c15_choice)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    for (long g0 = 1; g0 < n; g0++) for (long y = 1; y < n; y++) for (long e = 0; e < n; e++) {
        if (!mine()) continue;
        Tup tc{g0, md(g0 * y, n), md(g0 * e, n), md(md(g0 * y, n) * e, n)};
        // histories of earlier selections and transfers on the same receiver
        for (int hist = 0; hist < 7; hist++) {
            Dist<long> d[2];
            for (long b = 0; b < 2; b++) {
                Explorer ex; E.reset(); E.tree = true;
                ex.run([&] {
                    E.counter = 0; at("CRS %ld,%ld,%ld history %ld choice %ld", g0, y, e, (long)hist, b);
                    OTrecv r(mkcrs(t, tc));
                    long seen = 0;
                    auto view = [&](pkey_t k) { seen = seen * n * n + pidx(t, k); };
                    // earlier selections are part of the view
                    if (hist == 1 || hist == 3) view(r.selectMsg(b0));
                    if (hist == 2 || hist == 4) view(r.selectMsg(b1));
                    if (hist == 3 || hist == 4) { OTsndr s(mkcrs(t, tc)); E.tree = false; pkey_t pk(t.pt(1), t.pt(2)); ctxt_v_t c = s.encMsgs(pk, t.pt(1), t.pt(2)); E.tree = true; r.decryptMsg(c); }
                    if (hist == 5) { E.tree = false; OTrecv other(mkcrs(t, tc)); other.selectMsg(b0); E.tree = true; }
                    view(r.selectMsg(B(b)));
                    // the choice may also steer a later selection
                    if (hist == 6) view(r.selectMsg(B(0)));
                    step(); d[b].add(seen); outcome(seen);
                });
            }
            state();
            MC_CHECK(d[0] == d[1], "decryption-mode CRS (%ldG,%ldG,%ldG,%ldG), history %d: the receiver's public messages reveal its choice (%zu against %zu values)", tc.g0, tc.g1, tc.h0, tc.h1, hist, d[0].size(), d[1].size());
            size_t want = hist == 0 || hist == 5 ? n : n * n;
            MC_CHECK(d[0].size() == want && d[0].flat(), "history %d: public messages are not uniform and independent (%zu values)", hist, d[0].size());
        }
        E.tree = false;
    }
    sample("all non-degenerate decryption-mode CRSs of a group of order %ld, 7 receiver histories", n);
}
// messy mode: the pair of ciphertexts says nothing about the unchosen message, and the two ciphertexts are independent
PART(c15_msgs)
{
    if (!TS::require()) return;
    TS t; long n = t.n, N2 = n * n;
    for (long c = 0; c < N2 * N2; c++) {
        Tup tc{c / (n * N2), c / N2 % n, c / n % n, c % n};
        if (!messy_ok(t, tc)) continue;
        if (!mine()) continue;
        OTsndr s(mkcrs(t, tc));
        for (long b = 0; b < 2; b++) for (long sk = R.thorough() ? 1 : 1 + (c + b) % (n - 1); sk < n; sk += (R.thorough() ? 1 : n)) {
            OTrecv r(mkcrs(t, tc));
            E.reset(); E.tree = false; E.override_[0] = sk;
            pkey_t pk = r.selectMsg(B(b));
            MC_CHECK(t.idx(pk.g) >= 0 && t.idx(pk.h) >= 0, "public key not in the group");
            for (long mc_ = 0; mc_ < n; mc_ += (R.thorough() ? 1 : 2)) {
                Dist<long> d0;
                for (long mu = 0; mu < n; mu++) {
                    Dist<long> d; Explorer ex; E.reset(); E.tree = true;
                    POINT m0 = t.pt(b ? mu : mc_), m1 = t.pt(b ? mc_ : mu);
                    ex.run([&] { E.counter = 0; at("messy CRS #%ld choice %ld chosen %ld unchosen %ld", c, b, mc_, mu); long v = vidx(t, s.encMsgs(pk, m0, m1)); step(); MC_CHECK(v >= 0, "ciphertext outside the group"); d.add(v); outcome(v); });
                    state();
                    if (mu == 0) {
                        d0 = d;
                        // independence: the joint distribution is the product of the marginals
                        std::map<long, mpq_class> a, bb;
                        for (auto& x : d.m) { mpq_class p = d.prob(x.first); a[x.first / N2] += p; bb[x.first % N2] += p; }
                        MC_CHECK(d.m.size() == a.size() * bb.size(), "messy CRS #%ld: the two ciphertexts of a transfer are not independent: %zu pairs, %zu and %zu single values", c, d.m.size(), a.size(), bb.size());
                        for (auto& x : d.m) MC_CHECK(d.prob(x.first) == a[x.first / N2] * bb[x.first % N2], "messy CRS #%ld: the two ciphertexts of a transfer are not independent", c);
                    } else MC_CHECK(d == d0, "messy CRS (%ldG,%ldG,%ldG,%ldG), choice %ld, sk=%ld: ciphertexts are distributed differently for unchosen messages 0 and %ldG", tc.g0, tc.g1, tc.h0, tc.h1, b, sk, mu);
                }
            }
        }
        E.tree = false;
    }
    sample("every non-degenerate messy CRS of a group of order %ld: joint distribution of both ciphertexts over all encryption scalars", n);
}
// the two ciphertexts of a transfer use independent randomness under every CRS
PART(c15_anycrs)
{
    if (!TS::require()) return;
    TS t; long n = t.n, N2 = n * n;
    for (long c = 0; c < N2 * N2; c++) for (int pair = 0; pair < (R.thorough() ? 6 : 2); pair++) {
        if (!mine()) continue;
        Tup tc{c / (n * N2), c / N2 % n, c / n % n, c % n};
        static const long MS[6][2] = {{1, 1}, {1, 2}, {0, 0}, {0, 1}, {2, 0}, {3, 2}};
        OTsndr s(mkcrs(t, tc)); OTrecv r(mkcrs(t, tc)); long b = (c + pair) % 2, sk = 1 + c % (n - 1);
        E.reset(); E.tree = false; E.override_[0] = sk; pkey_t pk = r.selectMsg(B(b));
        E.reset(); E.tree = true; Explorer ex; Dist<long> d; POINT m0 = t.pt(MS[pair][0]), m1 = t.pt(MS[pair][1]);
        ex.run([&] { E.counter = 0; at("any CRS #%ld messages %ld", c, (long)pair); long v = vidx(t, s.encMsgs(pk, m0, m1)); step(); MC_CHECK(v >= 0, "ciphertext outside the group"); d.add(v); outcome(v); });
        E.tree = false; state();
        std::map<long, mpq_class> a, bb;
        for (auto& x : d.m) { mpq_class p = d.prob(x.first); a[x.first / N2] += p; bb[x.first % N2] += p; }
        MC_CHECK(d.m.size() == a.size() * bb.size(), "CRS (%ldG,%ldG,%ldG,%ldG), messages (%ldG,%ldG): the two ciphertexts of a transfer are not independent: %zu pairs, %zu and %zu single values", tc.g0, tc.g1, tc.h0, tc.h1, MS[pair][0], MS[pair][1], d.m.size(), a.size(), bb.size());
        for (auto& x : d.m) MC_CHECK(d.prob(x.first) == a[x.first / N2] * bb[x.first % N2], "CRS (%ldG,%ldG,%ldG,%ldG): the two ciphertexts of a transfer are not independent", tc.g0, tc.g1, tc.h0, tc.h1);
    }
    sample("every CRS of a group of order %ld: the joint distribution of both ciphertexts is the product", n);
}
// two transfers under one selection are independent of each other
PART(c15_two)
{
    if (!TS::require()) return;
    TS t; long n = t.n, N2 = n * n;
    std::vector<Tup> cs = {{2, 3, 1, n - 1}, {1, 1, 0, 2}};
    for (size_t c = 0; c < cs.size(); c++) for (long b = 0; b < 2; b++) for (int same = 0; same < 2; same++) {
        if (!mine()) continue;
        Tup tc = cs[c]; if (!messy_ok(t, tc)) continue;
        OTsndr s(mkcrs(t, tc)), s2(mkcrs(t, tc)); OTrecv r(mkcrs(t, tc));
        E.reset(); E.tree = false; E.override_[0] = 2; pkey_t pk = r.selectMsg(B(b));
        Explorer ex; E.reset(); E.tree = true; Dist<std::pair<long, long>> d;
        // the branch-0 scalars of the first and all scalars of the second transfer are enumerated, for one value of the rest
        E.hook = [&](Draw& w) { if (w.range == n && (E.counter == 2 || E.counter == 3)) { w.value = E.counter; return true; } return false; };
        ex.run([&] {
            E.counter = 0; at("two transfers CRS #%ld choice %ld", c, b);
            ctxt_v_t v = s.encMsgs(pk, t.pt(1), t.pt(2)); long i0 = cidx(t, v[0]);
            ctxt_v_t w = (same ? s : s2).encMsgs(pk, t.pt(1), t.pt(3)); step(2);
            d.add({i0, vidx(t, w)}); outcome(i0 * N2 * N2 + vidx(t, w));
        });
        E.hook = nullptr; E.tree = false; state();
        std::map<long, mpq_class> a, bb;
        for (auto& x : d.m) { mpq_class p = d.prob(x.first); a[x.first.first] += p; bb[x.first.second] += p; }
        MC_CHECK(d.m.size() == a.size() * bb.size(), "two transfers share randomness: %zu joint values, %zu x %zu expected", d.m.size(), a.size(), bb.size());
        for (auto& x : d.m) MC_CHECK(d.prob(x.first) == a[x.first.first] * bb[x.first.second], "two transfers share randomness");
    }
}
// every pair of messages of an alphabet, as integers and as points, equal ones included: over all combinations of three values
// per scalar the two ciphertexts of a transfer are independent of each other and of those of a second transfer
PART(c15_pairs)
{
    if (toy_secp.on && FIELD_p(mpz_class(0)).getField() != toy_secp.p) { note("toy substitution not in effect"); R.exhaustive = false; return; }
    CURVE cv; mpz_class n = cv.getOrder(), lim; mpz_fdiv_q_2exp(lim.get_mpz_t(), cv.getPrime().get_mpz_t(), 10);
    std::vector<mpz_class> ms = {0, 1, 2, 255, pow2(64), lim - 1};
    if (R.thorough()) for (mpz_class z : {mpz_class(3), mpz_class(pow2(64) - 1), mpz_class(pow2(128)), mpz_class(lim / 2)}) ms.push_back(z);
    std::vector<mpz_class> sc = {1, 2, n - 1};
    auto id = [](const ctxt_t& c) { return show(c.u) + show(c.mv); };
    for (int mode = 0; mode < 2; mode++) for (long b = 0; b < 2; b++) for (size_t i = 0; i < ms.size(); i++) for (size_t j = 0; j < ms.size(); j++) for (int kind = 0; kind < 2; kind++) {
        if (!mine()) continue;
        E.reset(i + 17 * j + 1); E.tree = false;
        DME_DDH d(mode ? dec : messy); OTrecv r(d.crs); OTsndr s(d.crs); pkey_t pk = r.selectMsg(B(b));
        POINT g = cv.getDefaultGen(); POINT p0 = g * ms[i], p1 = g * ms[j];
        Explorer ex; E.tree = true;
        E.hook = [&](Draw& w) { w.value = w.range == n ? sc[choose(sc.size())] : default_answer(w.range); return true; };
        Dist<std::pair<std::string, std::string>> dd;
        ex.run([&] {
            E.counter = 0; at("transfer mode %ld choice %ld messages #%ld #%ld kind %ld", (long)mode, b, i, j, (long)kind);
            ctxt_v_t c = kind ? s.encMsgs(pk, p0, p1) : s.encMsgs(pk, ms[i], ms[j]); step(); dd.add({id(c[0]), id(c[1])}); outcome(c[0].u.getX().getRawValue() ^ c[1].u.getX().getRawValue());
        });
        E.hook = nullptr; E.tree = false; state();
        std::map<std::string, mpq_class> a, bb;
        for (auto& x : dd.m) { mpq_class p = dd.prob(x.first); a[x.first.first] += p; bb[x.first.second] += p; }
        MC_CHECK(dd.m.size() == a.size() * bb.size(), "messages %s and %s (%s): the two ciphertexts of a transfer are not independent: %zu pairs, %zu and %zu single values", hx(ms[i]).c_str(), hx(ms[j]).c_str(), kind ? "multiples of the generator" : "integers", dd.m.size(), a.size(), bb.size());
        for (auto& x : dd.m) MC_CHECK(dd.prob(x.first) == a[x.first.first] * bb[x.first.second], "messages %s and %s: the two ciphertexts of a transfer are not independent", hx(ms[i]).c_str(), hx(ms[j]).c_str());
    }
    sample("%zu x %zu messages as integers and points, both modes and choices: joint distribution of the two ciphertexts over three values per scalar", ms.size(), ms.size());
}
PART(c15_real)
{
    Real<Secp> g;
    for (int s = 0; s < 6; s++) {
        if (!mine()) continue;
        E.reset(s + 1); DME_DDH d(s & 1 ? messy : dec);
        OTrecv r(d.crs); OTsndr sn(d.crs);
        std::set<std::string> seen;
        auto bits = [&] { double e = 0; for (auto& x : E.log) e += mpz_sizeinbase(x.range.get_mpz_t(), 2) - 1; return e; };
        for (int k = 0; k < 3; k++) for (long b = 0; b < 2; b++) {
            at("real transfer seed %ld round %ld", (long)s, (long)k);
            E.log.clear(); E.log_on = true;
            pkey_t pk = r.selectMsg(B(b));
            MC_CHECK(bits() >= 254, "a selection uses only %.0f bits of randomness", bits());
            MC_CHECK(seen.insert(show(pk.g)).second && seen.insert(show(pk.h)).second, "public messages of different selections repeat");
            E.log.clear();
            ctxt_v_t c = sn.encMsgs(pk, g.pt(g.mulG(3)), g.pt(g.mulG(3)));
            E.log_on = false;
            MC_CHECK(bits() >= 4 * 254, "a transfer uses only %.0f bits of randomness", bits());
            for (auto& x : c) MC_CHECK(seen.insert(show(x.u)).second && seen.insert(show(x.mv)).second, "ciphertext components repeat");
            step(2); state(); outcome(c[0].u.getX().getRawValue());
        }
        exec();
    }
}

// ------------------------------------------------------------------ C16
// all messages and choices, all scalars of a reduced alphabet for up to 3 senders
PART(c16_tree)
{
    if (!TS::require()) return;
    TS t; long n = t.n;
    std::vector<Tup> cs = {{2, 3, 1, n - 1}, {2, 4, 3, md(6, n)}, {1, 0, 0, 1}};
    for (size_t c = 0; c < cs.size(); c++) for (long b = 0; b < 2; b++) for (int k = 1; k <= 3; k++) {
        long tot = 1; for (int i = 0; i < k; i++) tot *= n;
        for (long m = 0; m < tot; m++) {
            if (!mine()) continue;
            crs_ddh_t crs = mkcrs(t, cs[c]);
            DOTrecv r(crs); DOTsndr s(crs); DOTprxy p(crs);
            std::vector<long> ch, un; long sum = 0, q = m;
            for (int i = 0; i < k; i++, q /= n) { ch.push_back(q % n); un.push_back(md(2 * q + i, n)); sum += q % n; }
            Explorer ex; E.reset(); E.tree = true;
            // one sender: every scalar. more senders: the scalars used on the selected branch range over everything for the first two, {0,1,n-1} elsewhere
            E.hook = [&](Draw& d) {
                if (d.range != n || k == 1 || E.counter == 0) return false;
                u64 j = E.counter - 1, snd = j / 4, br = j % 4 / 2;
                if ((long)br != b || snd > 1) { d.value = (j * 3 + 1) % n; return true; }
                static const long alt[3] = {0, 1, -1}; if (k == 3 || snd) { d.value = md(alt[ex.choose(3)], n); return true; }
                return false; };
            ex.run([&] {
                E.counter = 0; at("CRS #%ld choice %ld senders %ld messages #%ld", c, b, (long)k, m);
                pkey_t pk = r.selectMsg(B(b)); std::vector<ctxt_v_t> in; std::vector<long> id;
                for (int i = 0; i < k; i++) { in.push_back(b ? s.encMsgs(pk, t.pt(un[i]), t.pt(ch[i])) : s.encMsgs(pk, t.pt(ch[i]), t.pt(un[i]))); id.push_back(vidx(t, in[i])); }
                ctxt_v_t a = p.aggregate(in); step(k + 1);
                POINT res = r.decryptMsg(a);
                MC_CHECK(t.idx(res) == md(sum, n), "CRS #%zu, choice %ld, %d senders, chosen messages #%ld: the aggregate decrypts to %s, not %ldG", c, b, k, m, show(res).c_str(), md(sum, n));
                MC_CHECK(in.size() == (size_t)k, "inputs changed");
                for (int i = 0; i < k; i++) MC_CHECK(vidx(t, in[i]) == id[i], "aggregation changed input %d", i);
                outcome(vidx(t, a));
            });
            state();
        }
    }
    E.hook = nullptr; E.tree = false;
}
// every sequence of batches on one proxy
PART(c16_seq)
{
    if (toy_secp.on && !TS::avail()) { TS::require(); return; }
    bool toy = toy_secp.on;
    CURVE cv; POINT G = cv.getDefaultGen(); mpz_class n = cv.getOrder();
    int maxb = toy ? (R.thorough() ? 5 : 4) : 3, len = toy ? (R.thorough() ? 4 : 3) : 2;
    for (int first = 1; first <= maxb; first++) for (int mode = 0; mode < 3; mode++) for (long b = 0; b < 2; b++) for (int variant = 0; variant < (toy ? 4 : 1); variant++) {
        if (!mine()) continue;
        Explorer ex; E.tree = false;
        ex.run([&] {
            E.reset(mode * 10 + b + 1 + 100 * variant);
            std::unique_ptr<DME_DDH> d(mode == 0 ? new DME_DDH(messy) : mode == 1 ? new DME_DDH(dec) : new DME_DDH());
            DOTprxy p(d->crs); DOTrecv r(d->crs); DOTsndr s(d->crs), s2(d->crs);
            struct Res { ctxt_v_t out, copy; POINT want; std::vector<ctxt_v_t> in, incopy; }; std::vector<Res> all;
            pkey_t pk = r.selectMsg(B(b));
            at("batches starting with %ld mode %ld choice %ld", (long)first, (long)mode, b);
            int L = variant == 3 ? 2 : len;
            for (int i = 0; i < L; i++) {
                int k = i == 0 ? first : 1 + choose(maxb);
                Res x;
                mpz_class sum = 0;
                for (int j = 0; j < k; j++) {
                    // message patterns: generic, zero-sum pairs, all equal, all infinity; a batch may also reuse earlier ciphertexts
                    mpz_class m = variant == 0 ? mpz_class(3 * i + 2 * j + 1) : variant == 1 ? mpz_class(j % 2 ? -1 - i : 1 + i) : variant == 2 ? mpz_class(1) : mpz_class(0), o = 7 - m;
                    POINT pm = G * m, po = G * o;
                    if (i && j == 0 && choose(2)) { x.in.push_back(all[0].in[0]); m = 0; sum += variant == 0 ? 1 : variant == 1 ? 1 : variant == 2 ? 1 : 0; }
                    else { x.in.push_back((j % 2 ? s2 : s).encMsgs(pk, b ? po : pm, b ? pm : po)); sum += m; }
                    step();
                }
                x.incopy = x.in;
                x.out = p.aggregate(x.in); x.copy = x.out; x.want = G * sum; step();
                all.push_back(x);
                for (size_t q = 0; q < all.size(); q++) {
                    POINT res = r.decryptMsg(all[q].out); step();
                    MC_CHECK(res == all[q].want, "after %d batches the aggregate of batch %zu (%zu ciphertexts) decrypts to %s instead of %s", i + 1, q, all[q].in.size(), show(res).c_str(), show(all[q].want).c_str());
                    MC_CHECK(all[q].in.size() == all[q].incopy.size(), "a batch changed");
                    for (size_t e = 0; e < all[q].in.size(); e++) MC_CHECK(all[q].in[e] == all[q].incopy[e], "aggregation changed its input");
                    if (!res.isInf()) outcome(res.getX().getRawValue());
                }
            }
            state();
        });
        if (first == 1 && b == 0) sample("mode %d: %llu batch sequences with batches of up to %d ciphertexts", mode, (unsigned long long)ex.executions, maxb);
    }
}
// large batches
PART(c16_many)
{
    if (!TS::require()) return;
    CURVE cv; POINT G = cv.getDefaultGen();
    for (long k : manysizes(R.thorough() ? 600 : 130, R.thorough() ? 20000 : 4096)) for (long b = 0; b < 2; b++) {
        if (k > 600 && (k + b) % 2) continue;
        if (!mine()) continue;
        at("batch of %ld choice %ld", k, b); E.reset(k + 7); DME_DDH d(k % 2 ? messy : dec);
        DOTprxy p(d.crs); DOTrecv r(d.crs); DOTsndr s(d.crs); pkey_t pk = r.selectMsg(B(b)); std::vector<ctxt_v_t> in; mpz_class sum = 0;
        for (long i = 0; i < k; i++) { long m = (i * i + 3) % 17; sum += m; POINT x = G * mpz_class(m), y = G * mpz_class(m + 1 + i % 5); in.push_back(s.encMsgs(pk, b ? y : x, b ? x : y)); step(); }
        ctxt_v_t c = p.aggregate(in); POINT res = r.decryptMsg(c); step(); state(); exec();
        MC_CHECK(c.size() == 2 && res == G * sum, "a batch of %ld ciphertexts does not decrypt to the sum", k);
        in.pop_back(); if (k > 1) { mpz_class last = ((k - 1) * (k - 1) + 3) % 17; MC_CHECK(r.decryptMsg(p.aggregate(in)) == G * mpz_class(sum - last), "a batch of %ld ciphertexts after one of %ld does not decrypt to the sum", k - 1, k); }
        outcome(mpz_class(sum % 587));
    }
    sample("batches of up to %d senders", R.thorough() ? 20000 : 4096);
}
PART(c16_large)
{
    if (toy_secp.on && !TS::avail()) { TS::require(); return; }
    CURVE cv; POINT G = cv.getDefaultGen();
    int top = toy_secp.on ? (R.thorough() ? 300 : 66) : (R.thorough() ? 40 : 17);
    for (int k = 1; k <= top; k += (toy_secp.on ? 1 : 4)) for (long b = 0; b < 2; b++) {
        if (!mine()) continue;
        at("batch of %ld choice %ld", (long)k, b);
        E.reset(k); DME_DDH d(k % 2 ? messy : dec);
        DOTprxy p(d.crs); DOTrecv r(d.crs); DOTsndr s(d.crs);
        pkey_t pk = r.selectMsg(B(b)); std::vector<ctxt_v_t> in; mpz_class sum = 0;
        for (int i = 0; i < k; i++) { mpz_class m = (i * i + 3) % 17; sum += m; POINT x = G * m, y = G * mpz_class(m + 1); in.push_back(s.encMsgs(pk, b ? y : x, b ? x : y)); step(); }
        POINT res = r.decryptMsg(p.aggregate(in)); step(); state(); exec();
        MC_CHECK(res == G * sum, "a batch of %d ciphertexts does not decrypt to the sum", k);
        if (!res.isInf()) outcome(res.getX().getRawValue());
    }
}
