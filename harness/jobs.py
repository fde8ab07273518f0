"""Which parts decide which property, on which parameters, in how many shards."""
def J(part, toys=("real",), shards=1, variant="plain", tier=None, hang=40, cost=1, src=None, memonly=False):
    return {"part": part, "toys": list(toys), "shards": shards, "variant": variant, "tier": tier, "hang": hang, "cost": cost, "src": src, "memonly": memonly}
Q, T = "quick", "thorough"
PROPS = {}
PROPS["C01"] = {"src": "field.cpp", "jobs": [
    J("c01_toy", ["s7_5,b19_13", "s31_23,b67_73", "s31_41,b139_163"], 4),
    J("c01_toy", ["s571_587,b379_409"], 16, tier=T),
    J("c01_machine", ["s7_5,b19_13", "s23_31,b67_73"], 2),
    J("c01_real", shards={Q: 32, T: 64}, cost=5),
    J("c01_seq", ["real", "s7_5,b19_13"], {Q: 16, T: 32}, cost=4)]}
PROPS["C02"] = {"src": "field.cpp", "jobs": [
    J("c02_toy", ["s7_5,b19_13", "s31_23,b67_73", "s31_41,b139_163"], 4),
    J("c02_toy", ["s571_587,b379_409"], 16, tier=T),
    J("c02_machine", ["s7_5,b19_13", "s23_31,b67_73"], 2),
    J("c02_real", shards={Q: 32, T: 64}, cost=5),
    J("c02_seq", ["real", "s7_5,b19_13"], {Q: 16, T: 32}, cost=4),
    J("c02_seq3", ["real"], {Q: 8, T: 8}, cost=4)]}
PROPS["C03"] = {"src": "group.cpp", "jobs": [
    J("c03_toy", ["s7_5,b19_13", "s11_17,b67_73", "s31_41,b139_163", "s31_23"], 4),
    J("c03_toy", ["s571_587,b379_409"], 16, tier=T),
    J("c03_machine", ["s7_5,b19_13"], 4), J("c03_machine", ["s23_31,b67_73"], {Q: 8, T: 64}, cost=3, tier=T),
    J("c03_real", shards={Q: 32, T: 64}, cost=5), J("c03_seq", shards=16, cost=4)]}
PROPS["C04"] = {"src": "group.cpp", "probes": ["probe_mulassign.cpp"], "jobs": [
    J("c04_toy", ["s7_5,b19_13", "s11_7", "s23_31,b67_73", "s31_41"], 4), J("c04_mulassign", ["s7_5,b19_13", "s23_31,b67_73"]),
    J("c04_toy", ["b139_163"], 16, tier=T),
    J("c04_real", shards={Q: 48, T: 96}, cost=5), J("c04_huge", shards=16, cost=3), J("c04_seq", shards=16, cost=4)]}
PROPS["C05"] = {"src": "group.cpp", "jobs": [
    J("c05_toy", ["s7_5,b19_13", "s31_41,b67_73", "s31_23"], 2), J("c05_toy", ["s571_587,b379_409"], 8, tier=T),
    J("c05_curves", ["s7_5,b19_13", "real"], 8), J("c05_curves", ["s31_41"], 8, tier=T), J("c05_real", shards={Q: 24, T: 64}, cost=5)]}
PROPS["C06"] = {"src": "group.cpp", "jobs": [
    J("c06_toy", ["s7_5,b19_13", "s31_41,b67_73", "s31_23", "s11_17"], 2), J("c06_toy", ["s571_587,b379_409"], 8, tier=T),
    J("c06_real", shards={Q: 32, T: 64}, cost=5)]}
PROPS["C07"] = {"src": "group.cpp", "jobs": [
    J("c07_toy", ["s7_5,b19_13", "s11_17"], 4), J("c07_toy", ["s23_31"], 16, tier=T), J("c07_real", shards=16, cost=3),
    J("c07_tuples", ["real", "s7_5"], 8, cost=4), J("c07_curves", ["real", "s7_5,b19_13"], 4)]}
PROPS["C08"] = {"src": "rng.cpp", "probes": ["probe_keypair.cpp"], "jobs": [
    J("c08_toy", ["s7_5,b19_13", "s11_7", "s23_31,b67_73"], 4, cost=2), J("c08_toy", ["s571_587,b379_409"], 4, tier=T),
    J("c08_keypair", ["real", "s7_5,b19_13", "s11_7", "s23_31,b67_73"], 2), J("c08_real"), J("c08_bits", shards=8)]}
PROPS["C09"] = {"src": "dme.cpp", "jobs": [
    J("c09_crs", ["s7_5"], 16, cost=3), J("c09_setup", ["s7_5"], 16, cost=3), J("c09_seq", ["s7_5"], 8), J("c09_seq", ["s11_7"], 8, tier=T),
    J("c09_crs", ["s11_7"], 64, tier=T, cost=3), J("c09_real", shards=32, cost=4)]}
PROPS["C10"] = {"src": "dme.cpp", "jobs": [
    J("c10_crs", ["s7_5"], 16, cost=3), J("c10_crs", ["s11_7"], 64, tier=T, cost=3), J("c10_setup", ["s7_5"], 8), J("c10_real", shards=8)]}
PROPS["C11"] = {"src": "dme.cpp", "jobs": [
    J("c11_setup", ["s7_5"], 16, cost=3), J("c11_setup", ["s11_7"], 64, tier=T, cost=3), J("c11_real", shards=12)]}
PROPS["C12"] = {"src": "dme.cpp", "jobs": [
    J("c12_toy", ["s16103_15881", "s140171_139999"], 4), J("c12_toy", ["s1050079_1050151"], 16, tier=T),
    J("c12_large", ["real", "cof192_251", "cof224_65521"], 16, cost=3), J("c12_runs", ["real", "cof192_251"], 16, cost=3)]}
PROPS["C13"] = {"src": "dme.cpp", "jobs": [
    J("c13_tree", ["s7_5"], 16, cost=3), J("c13_pool", ["s7_5"], 8), J("c13_pool", ["s11_7"], 16, tier=T), J("c13_real", shards=8)]}
PROPS["C14"] = {"src": "ot.cpp", "jobs": [
    J("c14_tree", ["s7_5"], 16, cost=3), J("c14_allcrs", ["s7_5"], 16, cost=3), J("c14_seq", ["s7_5", "cof192_251"], 12, cost=3), J("c14_seq", ["real"], 12, cost=3),
    J("c14_tree", ["s11_7"], 64, tier=T, cost=3), J("c14_int", ["cof192_251", "real"], 12), J("c14_real", shards=24, cost=4), J("c14_repeat", ["s7_5"], 24, cost=2), J("c14_repeat", ["cof192_5"], 24, cost=2)]}
PROPS["C15"] = {"src": "ot.cpp", "jobs": [
    J("c15_choice", ["s7_5", "s11_7"], 8), J("c15_msgs", ["s7_5"], 24, cost=3), J("c15_two", ["s7_5"], 8, cost=4), J("c15_anycrs", ["s7_5"], 16, cost=3), J("c15_pairs", ["cof192_251", "cof192_1099511627791"], 8, cost=2), J("c15_pairs", ["real"], 16, tier=T, cost=2), J("c15_real", shards=6)]}
PROPS["C16"] = {"src": "ot.cpp", "jobs": [
    J("c16_tree", ["s7_5"], 16, cost=3), J("c16_seq", ["s7_5"], 24, cost=3), J("c16_seq", ["real"], 12, cost=2), J("c16_tree", ["s11_7"], 48, tier=T, cost=3), J("c16_large", ["s7_5", "s11_7", "real"], 6), J("c16_many", ["s571_587"], {Q: 8, T: 32}, cost=2)]}
PROPS["C17"] = {"src": "crc.cpp", "jobs": [
    J(p, shards=n, variant=v) for v, k in (("plain", 2), ("asan", 1)) for p, n in (("c17_tables", 4 * k), ("c17_lengths", 4 * k), ("c17_long", 8), ("c17_small", 2 * k), ("c17_pieces", 2 * k), ("c17_frames_small", 8), ("c17_frames", 4 * k), ("c17_frames_zero", 1))]}
PROPS["C18"] = {"src": "crc.cpp", "jobs": [
    J("c18_flips", shards=16, cost=3), J("c18_flips", shards=4, variant="asan"), J("c18_long", shards=8), J("c18_verylong", shards=8), J("c18_bursts", shards=16, cost=3), J("c18_bursts", shards=4, variant="asan"),
    J("c18_window", shards=32, cost=2), J("c18_any", shards=16, cost=2), J("c18_any", shards=4, variant="asan")]}
PROPS["C19"] = {"src": "aes.cpp", "jobs": [
    J(p, shards=n, variant=v) for v in ("plain", "asan") for p, n in (("c19_lengths", 8), ("c19_long", 8), ("c19_keys", 8), ("c19_small", 8), ("c19_lead", 8), ("c19_default", 1), ("c19_iv", 8))]}
PROPS["C20"] = {"src": "aes.cpp", "jobs": [
    J(p, shards=n, variant=v) for v in ("plain", "asan") for p, n in (("c20_lengths", 8), ("c20_long", 8), ("c20_keys", 8), ("c20_small", 8), ("c20_lead", 4), ("c20_iv", 8), ("c20_wrongkey", 8), ("c20_flips", 16), ("c20_verylong", 16), ("c20_garbage", 8))]}
_COF = "cof192_1099511627791"
def _oppair(p, q):
    return [J(p, [_COF], 4, variant="bits2"), J(p, [_COF], {Q: 8, T: 16}, variant="bits3", cost=2)]
PROPS["C21"] = {"src": "opprf.cpp", "jobs": _oppair("c21_pairs", 0) + [J("c21_pairs", [_COF], 8, variant="bits4", cost=2), J("c21_wide", [_COF], {Q: 16, T: 32}, cost=3), J("c21_windows", [_COF], {Q: 16, T: 48}, cost=4), J("c21_real", shards=4, cost=4),
    J("c21_draws", [_COF], 10, variant="bits2", cost=3), J("c21_draws", [_COF], 36, variant="bits3", tier=T, cost=3)] + _oppair("c21_shuffles", 0)}
PROPS["C22"] = {"src": "opprf.cpp", "jobs": _oppair("c22_pairs", 0) + [J("c22_pairs", [_COF], 8, variant="bits4", cost=2), J("c22_wide", [_COF], {Q: 16, T: 32}, cost=3), J("c22_windows", [_COF], {Q: 16, T: 48}, cost=4), J("c22_real", shards=4, cost=4),
    J("c22_draws", [_COF], 6, variant="bits2", cost=3), J("c22_draws", [_COF], 28, variant="bits3", tier=T, cost=3)] + _oppair("c22_shuffles", 0) + _oppair("c22_learn", 0) + [J("c22_learn", [_COF], 16, variant="bits4", tier=T), J("c22_learn", [_COF], 16, cost=3)]}
PROPS["C23"] = {"src": "opprf.cpp", "jobs": [J("c23_seq", [_COF], 48, variant="bits2", cost=2), J("c23_seq", [_COF], 48, variant="bits3", tier=T, cost=2), J("c23_seq", [_COF], 16, cost=3), J("c23_secrets", [_COF], 7, variant="bits2"), J("c23_secrets", [_COF], 14, cost=2), J("c23_interleave", [_COF], 8, variant="bits2"), J("c23_interleave", [_COF], 8, variant="bits3")]}
PROPS["C24"] = {"src": "puda.cpp", "jobs": [J("c24_tree", ["s7_5"], {Q: 12, T: 32}, cost=2), J("c24_tree", ["s11_7"], 64, tier=T, cost=2), J("c24_orders", ["s103_97", "s571_587"], 8), J("c24_many", ["s571_587"], {Q: 8, T: 32}, cost=2), J("c24_sums", ["s66067_66373"], {Q: 24, T: 64}, cost=4),
    J("c24_real", shards=24, cost=4), J("c24_seq", ["s7_5"], 24, cost=2), J("c24_seq", ["s31_41"], 24, tier=T, cost=2)]}
PROPS["C25"] = {"src": "puda.cpp", "jobs": [J("c25_tree", ["s7_5"], {Q: 12, T: 32}, cost=2), J("c25_tree", ["s11_7"], 64, tier=T, cost=2), J("c25_users", ["s103_97", "s571_587", "s7_5"], 6), J("c25_many", ["s571_587"], {Q: 8, T: 32}, cost=2), J("c25_real", shards=24, cost=3)]}
PROPS["C26"] = {"src": "sss.cpp", "jobs": [J("c26_tree", ["s7_5", "s11_7"], 8, cost=2), J("c26_tree", ["s7_11", "s11_17"], 16, cost=2), J("c26_real", shards={Q: 24, T: 48}, cost=3), J("c26_grid", shards={Q: 8, T: 32}, cost=2), J("c26_seq", ["real", "s7_11"], 12)]}
PROPS["C27"] = {"src": "sss.cpp", "jobs": [J("c27_tree", ["s7_5", "s11_7"], 8, cost=2), J("c27_tree", ["s7_11", "s11_17"], 16, cost=2), J("c27_two", ["s7_5", "s11_7"], 4), J("c27_real", shards=12), J("c27_many", shards={Q: 25, T: 35}, cost=3)]}
PROPS["C28"] = {"src": "util.cpp", "jobs": [J(p, shards=n, variant=v) for v in ("plain", "asan") for p, n in (("c28_small", 8), ("c28_bytes", 5), ("c28_lengths", 8), ("c28_long", 8), ("c28_zeros", 8), ("c28_seq", 7))]}
PROPS["C29"] = {"src": "elgamal.cpp", "jobs": [J("c29_points", ["s7_5", "s11_7", "s11_17", "s23_31"], 2), J("c29_points", ["s103_97"], 16, tier=T), J("c29_keygen", ["s7_5", "s11_7", "s11_17", "s23_31"]), J("c29_ints", ["cof192_251", "cof224_65521"], 8), J("c29_ints", [_COF], 8, tier=T),
    J("c29_small", ["cof192_251"], 4), J("c29_seq", ["cof192_1099511627791", "real"], 12, cost=2), J("c29_real", shards=24, cost=3), J("c29_runs", ["real", "cof192_251"], 16, cost=3)]}
_mem = lambda p, n, src, toys=("real",), variant="asan": J(p, toys, n, variant=variant, src=src, memonly=True)
PROPS["C30"] = {"src": "life.cpp", "jobs": [J("c30_curve", ["s7_5"], 4, variant="asan"), J("c30_curve_bn", ["b19_13"], 4, variant="asan"), J("c30_dme", ["s7_5"], 12, variant="asan", cost=2), J("c30_ot", ["s7_5"], 12, variant="asan", cost=2),
    J("c30_puda", ["s7_5"], 8, variant="asan", cost=2), J("c30_elgamal", ["s7_5"], 4, variant="asan"), J("c30_sss", ["s7_5"], 4, variant="asan"), J("c30_opprf", [_COF], 8, variant="asan+bits2", cost=3), J("c30_opprf", [_COF], 12, variant="asan", cost=3),
    J("c30_real", variant="asan"), J("c30_release", shards=8), J("c30_crc_release", shards=4, src="crc.cpp"),
    _mem("c17_lengths", 4, "crc.cpp"), _mem("c17_pieces", 2, "crc.cpp"), _mem("c17_frames", 4, "crc.cpp"), _mem("c17_frames_small", 4, "crc.cpp"), _mem("c18_any", 4, "crc.cpp"), _mem("c18_flips", 4, "crc.cpp"),
    _mem("c19_lengths", 8, "aes.cpp"), _mem("c19_keys", 8, "aes.cpp"), _mem("c20_garbage", 8, "aes.cpp"), _mem("c20_lengths", 8, "aes.cpp"), _mem("c20_keys", 8, "aes.cpp"), _mem("c20_wrongkey", 8, "aes.cpp"), _mem("c19_iv", 4, "aes.cpp"),
    _mem("c19_long", 8, "aes.cpp"), _mem("c20_long", 8, "aes.cpp"), _mem("c17_long", 4, "crc.cpp"), _mem("c28_long", 4, "util.cpp"), _mem("c28_lengths", 4, "util.cpp"), _mem("c28_bytes", 4, "util.cpp"), _mem("c28_seq", 2, "util.cpp")]}
PROPS["C32"] = {"src": "seed.cpp", "jobs": [J("c32_one", shards=4), J("c32_long", shards=21, hang=120, cost=4), J("c32_two", shards=32), J("c32_three", shards=64, tier=T), J("c32_entropy", shards=18, cost=3)]}
PROPS["C33"] = {"src": "opprf.cpp", "jobs": [J("c33_order", [_COF], 8, variant="bits2", cost=2), J("c33_order", [_COF], {Q: 10, T: 64}, variant="bits3", cost=9), J("c33_wide", [_COF], 8, cost=3), J("c33_wide", ["real"], 8, tier=T, cost=3)]}
PROPS["C34"] = {"src": "puda.cpp", "jobs": [J("c34_tree", ["s7_5"], {Q: 8, T: 24}, cost=4), J("c34_tree", ["s11_7"], 48, tier=T, cost=4), J("c34_real", shards=8, cost=2), J("c34_periods", ["s66067_66373"], 8, cost=2), J("c34_pairs", shards=16, cost=2)]}
PROPS["C35"] = {"src": "fresh.cpp", "jobs": [J("c35_pairs", ["s7_5,b19_13"], {Q: 16, T: 48}, cost=3), J("c35_triples", ["s7_5,b19_13"], {Q: 16, T: 48}, cost=2), J("c35_pairs", ["s11_7,b19_13"], 48, tier=T, cost=3), J("c35_real", shards={Q: 24, T: 48}, cost=3)]}
PROPS["C36"] = {"src": "opprf.cpp", "jobs": [J("c36_client", ["cof192_5"], 4, variant="bits2", cost=2), J("c36_client", ["cof192_5"], 2, variant="bits3", cost=2), J("c36_server", ["cof192_5"], 18, variant="bits2", cost=4), J("c36_server", ["cof192_5"], {Q: 2, T: 24}, variant="bits3", cost=9), J("c36_blinding", [_COF], 5, variant="bits3"), J("c36_blinding", [_COF], 10, cost=2), J("c36_blinding", ["real"], 10, tier=T, cost=2), J("c36_inputs", ["s571_587"], 32, cost=2), J("c36_server", ["cof192_7"], 20, variant="bits2", tier=T, cost=4)]}
def _long(prop, *jobs): PROPS[prop]["jobs"] += [J(p, toys, n, variant=v, src="long.cpp", cost=2) for p, toys, n, v in jobs]
_PT = ["s571_587,b379_409", "s103_97,b67_73"]
_long("C01", ("c01_long", ["real"], 8, "plain")); _long("C02", ("c02_long", ["real"], 8, "plain"))
_long("C03", ("c03_long", _PT, 4, "plain"), ("c03_walk", ["real"], 8, "plain")); _long("C04", ("c04_long", _PT, 4, "plain"), ("c04_walk", ["real"], 8, "plain"))
_long("C05", ("c05_long", _PT, 4, "plain")); _long("C06", ("c06_long", _PT, 4, "plain"), ("c06_walk", ["real"], 8, "plain"))
_long("C09", ("c09_long", ["s571_587"], 8, "plain")); _long("C12", ("c12_long", ["real", "cof192_251"], 8, "plain")); _long("C13", ("c13_long", ["s103_97"], 8, "plain"))
_long("C14", ("c14_long", ["s571_587"], 8, "plain"), ("c14_longint", ["cof192_251"], 8, "plain")); _long("C16", ("c16_long", ["s571_587"], 8, "plain"))
for _p, _n in (("C21", "c21_long"), ("C22", "c22_long"), ("C23", "c23_long")): _long(_p, (_n, [_COF], 10, "bits2"), (_n, [_COF], 10, "plain"))
_long("C24", ("c24_long", ["s571_587"], 8, "plain")); _long("C26", ("c26_long", ["real"], 8, "plain")); _long("C29", ("c29_long", ["cof192_251"], 8, "plain"))
PROPS["C37"] = {"src": "print.cpp", "jobs": [J("c37_toy", ["s7_5,b19_13", "s31_41,b67_73"], 4), J("c37_real", shards=8), J("c37_seq", ["real", "s7_5,b19_13"], 8)]}
PROPS["C38"] = {"src": "iface.cpp", "jobs": [J(p, t, n, variant=v, cost=c) for v in ("plain", "asan") for p, t, n, c in (("c38_dme", ["cof192_251"], 16, 3), ("c38_ot", ["cof192_251"], 16, 3), ("c38_puda", ["s571_587"], 8, 2), ("c38_sss", ["real"], 4, 1),
    ("c38_elgamal", ["cof192_251"], 8, 2), ("c38_aes", ["real"], 8, 1), ("c38_ops", ["s7_5,b19_13", "s31_41,b67_73"], 4, 1))]
    + [J("c38_bytes", shards=4, variant=v, src="ifacecrc.cpp") for v in ("plain", "asan")] + [J("c38_opprf", [_COF], 8, variant="bits2", cost=2), J("c38_opprf", [_COF], 16, cost=2), J("c38_opprf", [_COF], 8, variant="asan+bits2", cost=3), J("c38_dme", ["real"], 32, tier=T, cost=3), J("c38_ot", ["real"], 32, tier=T, cost=3)]}
_hist = lambda prop, *jobs: PROPS[prop]["jobs"].extend(J(p, toys, n, src=src, cost=2) for p, toys, n, src in jobs)
_hist("C10", ("c10_hist", ["s7_5"], 8, "hist.cpp"), ("c10_long", ["real"], 8, "hist.cpp"))
_hist("C11", ("c11_hist", ["s7_5"], 6, "hist.cpp"), ("c11_long", ["real"], 8, "hist.cpp"))
_hist("C15", ("c15_hist", ["s7_5"], 6, "hist.cpp"), ("c15_long", ["cof192_1099511627791"], 8, "hist.cpp"))
_hist("C27", ("c27_hist", ["s7_5"], 4, "hist.cpp"), ("c27_long", ["real"], 8, "hist.cpp"))
_hist("C25", ("c25_hist", ["s571_587"], 8, "hist.cpp"))
_hist("C34", ("c34_hist", ["s103_97"], 8, "hist.cpp"))
_hist("C08", ("c08_long", ["real"], 12, "rng.cpp"))
_hist("C17", ("c17_calls", ["real"], 8, "crc.cpp")); _hist("C18", ("c18_calls", ["real"], 8, "crc.cpp"))
_hist("C19", ("c19_calls", ["real"], 8, "aes.cpp")); _hist("C20", ("c20_calls", ["real"], 8, "aes.cpp")); _hist("C28", ("c28_calls", ["real"], 8, "util.cpp"))
for _p, _n in (("C33", "c33_long"), ("C36", "c36_long")): PROPS[_p]["jobs"] += [J(_n, [_COF], 12, variant="bits2", cost=2), J(_n, [_COF], 8, variant="bits3" if _p == "C33" else "plain", cost=3)]
