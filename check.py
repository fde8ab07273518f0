#!/usr/bin/env python3
"""Driver of the model-checking harnesses.

  check.py C05                 decide one property on /repo's working tree (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE       rebuild and re-run exactly the work unit recorded in a replay file
  check.py --list              properties with their parts
"""
import hashlib, json, os, queue, shutil, signal, subprocess, sys, tempfile, threading, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from harness.jobs import PROPS            # noqa: E402

CXX = "g++"
STD = ["-std=gnu++17", "-include", "cstdint", "-w", "-DOPENSSL_SUPPRESS_DEPRECATED"]
WRAP = ["__gmpz_set_str", "__gmpz_init_set_str", "__gmpz_urandomm", "__gmpz_urandomb", "__gmpz_rrandomb", "rand", "random", "_ZNSt13random_device9_M_getvalEv"]
NCPU = min(8, os.cpu_count() or 1)
HOOK = "CRYPTO_UTILS_VERIF_MSG_BITS"


def variant_flags(v):
    """plain | asan | bitsN (OPPRF message width N), combinable with '+'"""
    f, link = ["-O2", "-DNDEBUG"], []
    for x in v.split("+"):
        if x == "asan":
            f = ["-O1", "-g", "-DNDEBUG", "-fsanitize=address",
                 "-fno-omit-frame-pointer"]
            link = ["-fsanitize=address"]
        elif x.startswith("bits"):
            f.append("-D%s=%s" % (HOOK, x[4:]))
    return f, link


class Build:
    def __init__(self, d):
        self.d = d
        self.log = []
        self.bad = {}                     # library sources that do not compile

    def run(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout

    def parallel(self, tasks):
        """tasks: list of (key, cmd); returns {key: (rc, out)}"""
        q, res = queue.Queue(), {}
        for t in tasks: q.put(t)

        def work():
            while True:
                try: k, c = q.get_nowait()
                except queue.Empty: return
                res[k] = self.run(c)
        th = [threading.Thread(target=work) for _ in range(NCPU)]
        for t in th: t.start()
        for t in th: t.join()
        return res

    def build(self, need, probes=()):
        """Compiles the library and the harnesses. need: set of (source, variant). Returns ({(source, variant): exe}, {probe: error})."""
        variants = sorted({v for _, v in need})
        libs = sorted(glob.glob(REPO + "/src/*/*.cpp") + glob.glob(REPO + "/src/*.cpp"))
        tasks, objs = [], {}
        for v in variants:
            f, _ = variant_flags(v)
            inc = ["-I", REPO + "/includes", "-I", HERE + "/harness"]
            vd = os.path.join(self.d, v.replace("+", "_")); os.makedirs(vd)
            for i, s in enumerate(libs):
                o = os.path.join(vd, "lib%d_%s.o" % (i, os.path.basename(s)[:-4]))
                tasks.append((("lib", v, s, o), [CXX, *STD, *f, *inc, "-c", s, "-o", o]))
            for s in ("mc.cpp",) + tuple(sorted(s for s, w in need if w == v)) + tuple(probes):
                o = os.path.join(vd, s[:-4] + ".o")
                tasks.append((("har", v, s, o), [CXX, *STD, *f, *inc, "-c", os.path.join(HERE, "harness", s), "-o", o]))
        # long compilations first
        tasks.sort(key=lambda t: 0 if t[0][0] == "har" else 1)
        res = self.parallel(tasks)
        exe, probe_err = {}, {}
        for v in variants:
            _, link = variant_flags(v)
            vd = os.path.join(self.d, v.replace("+", "_"))
            lo, ho, mcobj, pr = [], {}, None, {}
            for k, (rc, out) in res.items():
                if k[1] != v: continue
                if k[0] == "lib":
                    if rc == 0: lo.append(k[3])
                    else: self.bad[k[2]] = out
                elif k[2] in probes:
                    if rc == 0: pr[k[2]] = k[3]
                    else: probe_err[k[2]] = out
                elif rc == 0:
                    if k[2] == "mc.cpp": mcobj = k[3]
                    else: ho[k[2]] = k[3]
                else: self.log.append("%s (%s): %s" % (k[2], v, out[-3000:]))
            if not mcobj: continue
            ar = os.path.join(vd, "libcu.a")
            rc, out = self.run(["ar", "rcs", ar, *sorted(lo)])
            wrap = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]
            tail = [ar, "-lgmpxx", "-lgmp", "-lcrypto", "-lpthread"]
            # a probe that compiles but does not link is a violation of its own, not an error of the harness
            for src, h in sorted(ho.items()):
                good = []
                for p, o in sorted(pr.items()):
                    rc, out = self.run([CXX, *link, *wrap, "-o", os.path.join(vd, "t_" + p[:-4]), mcobj, h, o, *tail])
                    if rc == 0: good.append(o)
                    else: probe_err[p] = out
                x = os.path.join(vd, "run_" + src[:-4])
                rc, out = self.run([CXX, *link, *wrap, "-o", x, mcobj, h, *good, *tail])
                if rc != 0: self.log.append("link %s (%s): %s" % (src, v, out[-3000:])); continue
                exe[(src, v)] = x
        return exe, probe_err


def toy_env(toy, toys):
    env = {}
    for t in toy.split(","):
        if t == "real": continue
        if t in toys["secp"]: env["MC_TOY_SECP"] = toys["secp"][t]
        elif t in toys["bn"]: env["MC_TOY_BN"] = toys["bn"][t]
        else: raise SystemExit("unknown toy " + t)
    return env


def run_job(exe, j, toys, tier, seed, only=None, hang=None, timeout=None, procs=None):
    env = dict(os.environ)
    for k in ("MC_TOY_SECP", "MC_TOY_BN"): env.pop(k, None)
    env.update(toy_env(j["toy"], toys))
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:handle_segv=1:allocator_may_return_null=0:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=98"
    env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"    # blocks kept in a thread cache count as in use: exact accounting for C30
    env["VERIF_SEED"] = str(seed)
    cmd = [exe, "--part", j["part"], "--tier", tier, "--toy", j["toy"], "--shard", str(j["shard"]), "--nshards", str(j["nshards"])]
    if only is not None: cmd += ["--only", str(only)]
    cmd += ["--hang", str(hang or j.get("hang", 40))]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, errors="replace",
                         cwd="/", start_new_session=True)
    if procs is not None: procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, err = p.communicate()
        return {"rc": None, "viol": [], "stats": None, "out": out, "err": err}
    finally:
        if procs is not None: procs.discard(p)
    viol, stats = [], None
    for l in out.splitlines():
        f = l.split("\t")
        if f[0] in "VCH" and len(f) == 7:
            viol.append({"kind": f[0], "part": f[1], "toy": f[2], "unit": int(f[4]), "key": f[5], "msg": f[6]})
        elif f[0] == "S":
            stats = json.loads(f[1])
    if j.get("memonly"):                 # this job is about memory safety: wrong results belong to another property
        other = [v for v in viol if v["kind"] != "C"]
        viol = [v for v in viol if v["kind"] == "C"]
        if other and not viol and not stats:
            stats = {"part": j["part"], "toy": j["toy"], "shard": j["shard"], "states": 0, "transitions": 0, "execs": 0, "skipped": 0,
                     "outcomes": 0, "units": 0, "known": 0, "exhaustive": False, "samples": [], "notes": ["stopped at a wrong result"]}
    # a sanitizer report that bypassed the callback
    if not any(v["kind"] in "CH" for v in viol) and p.returncode == 98:
        viol.append({"kind": "C", "part": j["part"], "toy": j["toy"], "unit": -1, "key": "-", "msg": "sanitizer: " + err[-400:].replace("\n", " ")})
    if p.returncode == 98:
        for v in viol:
            if v["kind"] == "C":
                for l in err.splitlines():
                    if "ERROR: AddressSanitizer" in l or "runtime error" in l:
                        v["msg"] += "  " + l.strip()[:300]; break
    return {"rc": p.returncode, "viol": viol, "stats": stats, "out": out, "err": err}


def load_known():
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            # finding: property=<id> key=<key> <text>
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l.split()[1:3])
                known.append((d["property"], d["key"], l.split(None, 3)[3] if len(l.split(None, 3)) > 3 else ""))
    return known


def jobs_of(prop, tier):
    out = []
    for j in PROPS[prop]["jobs"]:
        if j.get("tier") and j["tier"] != tier: continue
        n = j.get("shards", {})
        n = n if isinstance(n, int) else n.get(tier, 1)
        for toy in j["toys"]:
            for s in range(n):
                out.append({"part": j["part"], "toy": toy, "variant": j.get("variant", "plain"), "shard": s, "nshards": n,
                            "hang": j.get("hang", 40), "cost": j.get("cost", 1),
                            "src": j.get("src") or PROPS[prop]["src"], "memonly": j.get("memonly", False)})
    out.sort(key=lambda j: -j["cost"])
    return out


def write_replay(prop, tier, seed, v, job):
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": seed, "violation": v, "job": job}
    h = hashlib.sha1(json.dumps([v["part"], v["toy"], v["unit"], v["msg"]]).encode()).hexdigest()[:10]
    path = os.path.join(HERE, "replay", "%s-%s-%s.json" % (prop, v["part"], h))
    json.dump(d, open(path, "w"), indent=1)
    return path


def main():
    if sys.argv[1:2] == ["--list"]:
        for p in PROPS: print(p, PROPS[p]["src"], sorted({j["part"] for j in PROPS[p]["jobs"]}))
        return 0
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    toys = json.load(open(os.path.join(HERE, "harness", "toys.json")))
    replay = None
    if sys.argv[1:2] == ["--replay"]:
        replay = json.load(open(sys.argv[2]))
        prop, tier, seed = replay["property"], replay["tier"], replay["seed"]
        jobs = [replay["job"]]
    else:
        prop = sys.argv[1]
        jobs = jobs_of(prop, tier)
        if os.environ.get("VERIF_PART"):                      # development aid
            jobs = [j for j in jobs if j["part"] in os.environ["VERIF_PART"].split(",")]
    deadline = t0 + float(os.environ.get("VERIF_DEADLINE", "780" if tier == "quick" else "3000"))
    spec = PROPS[prop]
    bdir = os.path.join(HERE, ".build"); os.makedirs(bdir, exist_ok=True)
    d = tempfile.mkdtemp(prefix=prop + "-", dir=bdir)
    procs = set()
    try:
        b = Build(d)
        exe, probe_err = b.build({(j["src"], j["variant"]) for j in jobs}, spec.get("probes", ()))
        tb = time.time() - t0
        violations, errors, stats = [], list(b.log), []
        for p, err in probe_err.items():
            line = next((l for l in err.splitlines() if "error" in l or "undefined" in l), err[:300])
            violations.append(({"kind": "V", "part": p, "toy": "real", "unit": 0, "key": "-",
                                "msg": "an interface the property covers cannot be compiled or linked: " + line.strip()[:400]}, None))
        if errors and not violations:
            print("ERROR property=%s harness does not build against /repo" % prop)
            print("\n".join(errors)[-6000:])
            return 2
        q, results, lock = queue.Queue(), [], threading.Lock()
        for j in jobs:
            if (j["src"], j["variant"]) in exe: q.put(j)
        truncated = [0]
        stop = [False]

        def work():
            while True:
                try: j = q.get_nowait()
                except queue.Empty: return
                left = deadline - time.time()
                if left < 5 or stop[0]:
                    if not stop[0]: truncated[0] += 1
                    continue
                tj = time.time()
                r = run_job(exe[(j["src"], j["variant"])], j, toys, tier, seed, only=j.get("only"), timeout=left, procs=procs)
                if r["rc"] is not None and not r["viol"] and (r["stats"] is None):
                    r = run_job(exe[(j["src"], j["variant"])], j, toys, tier, seed, only=j.get("only"), timeout=max(5, deadline - time.time()), procs=procs)
                r["dt"] = time.time() - tj
                with lock: results.append((j, r))
                # enough evidence of a violation: do not start further work
                if any(v["kind"] == "V" and v["key"] == "-" for v in r["viol"]) and tier == "quick": stop[0] = True

        th = [threading.Thread(target=work) for _ in range(NCPU)]
        for t in th: t.start()
        for t in th: t.join()
        per = {}
        for j, r in results:
            if os.environ.get("VERIF_VERBOSE"):
                print("  %-28s %-12s %-8s %d/%d %.1fs rc=%s %s" % (j["part"], j["toy"], j["variant"], j["shard"], j["nshards"], r["dt"], r["rc"],
                      {k: r["stats"][k] for k in ("states", "transitions", "execs", "skipped", "outcomes")} if r["stats"] else ""))
                if r["stats"] and r["stats"]["notes"]: print("      notes", r["stats"]["notes"][:3])
            if r["rc"] is None:
                truncated[0] += 1
                for v in r["viol"]: violations.append((v, j))
                continue
            for v in r["viol"]:
                # a crash or hang is reported when it happens again on its own
                if v["kind"] in "CH" and replay is None:
                    again = run_job(exe[(j["src"], j["variant"])], j, toys, tier, seed, only=v["unit"] if v["unit"] >= 0 else None,
                                    hang=90 if v["kind"] == "H" else None, timeout=300, procs=procs)
                    if not again["viol"] and again["rc"] is not None:
                        again = run_job(exe[(j["src"], j["variant"])], j, toys, tier, seed, hang=90, timeout=300, procs=procs)
                        v["unit"] = -1
                    if not again["viol"] and again["rc"] is not None:
                        errors.append("not reproduced: %s" % v); continue
                violations.append((v, j))
            if r["stats"] is None and not r["viol"]:
                errors.append("part %s (%s) ended without a result, rc=%s: %s" % (j["part"], j["toy"], r["rc"], (r["out"] + r["err"])[-800:]))
            if r["stats"]:
                s = r["stats"]; stats.append(s)
                k = "%s[%s,%s]" % (j["part"], j["toy"], j["variant"])
                a = per.setdefault(k, {"states": 0, "transitions": 0, "executions": 0, "skipped_out_of_domain": 0, "distinct_outcomes": 0, "seconds": 0.0})
                a["states"] += s["states"]; a["transitions"] += s["transitions"]; a["executions"] += s["execs"]
                a["skipped_out_of_domain"] += s["skipped"]; a["distinct_outcomes"] = max(a["distinct_outcomes"], s["outcomes"])
                a["seconds"] = round(a["seconds"] + r["dt"], 2)
        known = load_known()
        real, shown, seen = [], set(), set()
        for v, j in violations:
            m = next((k for k in known if k[0] == prop and k[1] == v["key"]), None)
            if m:
                if m[1] not in shown:
                    shown.add(m[1]); print("KNOWN-FINDING: property=%s %s: %s" % (prop, m[1], m[2]))
                continue
            real.append((v, j))
        for v, j in real:
            sig = (v["part"], v["kind"], v["key"])
            if sig in seen: continue
            seen.add(sig)
            job = dict(j) if j else {"part": v["part"], "toy": "real", "variant": "plain", "shard": 0, "nshards": 1}
            if v["unit"] >= 0 and j: job["only"] = v["unit"]
            path = write_replay(prop, tier, seed, v, job)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  part %s on %s: %s" % (v["part"], v["toy"], v["msg"]))
        samples = []
        for s in stats:
            for x in s["samples"]:
                if len(samples) < 12: samples.append("%s[%s]: %s" % (s["part"], s["toy"], x))
        notes = sorted({n for s in stats for n in s["notes"]})
        tot = lambda k: sum(s[k] for s in stats)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {
                  "states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("execs"),
                  "samples": samples, "executions_out_of_domain": tot("skipped"),
                  "exhaustive": bool(stats) and all(s["exhaustive"] for s in stats) and truncated[0] == 0 and not errors,
                  "work_units": tot("units"), "parts": per, "notes": notes, "jobs_not_run": truncated[0] + (q.qsize()),
                  "library_sources_not_compiled": sorted(b.bad), "build_seconds": round(tb, 1),
                  "binding": "every execution runs the unmodified library compiled from /repo; traces_validated_against_impl counts "
                             "complete executions whose observable results were compared with the reference model"},
              "assumptions": spec.get("assumptions", []) + [
                  "small-parameter parts run the real library with the curve constants replaced at parse time (GMP string conversion)",
                  "GMP, OpenSSL and the compiler are trusted"],
              "wall_s": round(time.time() - t0, 1), "violations": len(real)}
        if replay is None and not os.environ.get("VERIF_PART"):
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        if real:
            return 1
        if errors:
            print("ERROR property=%s" % prop); print("\n".join(map(str, errors))[-6000:])
            return 2
        print("OK property=%s tier=%s states=%d transitions=%d executions=%d build=%.1fs wall=%.1fs%s" % (
            prop, tier, tot("states"), tot("transitions"), tot("execs"), tb, time.time() - t0,
            " (%d jobs not run before the deadline)" % truncated[0] if truncated[0] else ""))
        return 0
    finally:
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
