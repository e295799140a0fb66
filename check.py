#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  check.py <ID>                 run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py <ID> --replay FILE   re-execute a replay file
  check.py --selftest [ID...]   determinism self-test
  check.py --setup              build everything once (warms the Go build cache)
"""
import json, os, sys, subprocess, shutil, struct, time, tempfile, hashlib, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = "/repo"
GOROOT = "/opt/veriftools/go1.27.3"
MOD = "github.com/chanjarster/gears"
NCPU = max(1, min(8, os.cpu_count() or 1))

sys.path.insert(0, SIM)
from groups import GROUPS, PROPS  # noqa: E402


class Trouble(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOFLAGS="", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_="")
    e.pop("INTEGRATION_TEST", None)
    return e


def run(cmd, cwd=None, e=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Trouble("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def build_xform(tmp):
    out = os.path.join(tmp, "xform")
    run(["go", "build", "-o", out, "."], cwd=os.path.join(SIM, "xform"))
    return out


def sim_overlay():
    ov = {}
    for d in ["rt", "ra", "hk", "sredis", "snet", "zsql", "zhttp"] + ["m/" + g for g in os.listdir(os.path.join(SIM, "m"))]:
        for root, _, files in os.walk(os.path.join(SIM, d)):
            for f in files:
                if f.endswith(".go"):
                    ov[os.path.join(REPO, "zzsim", os.path.relpath(os.path.join(root, f), SIM))] = os.path.join(root, f)
    return ov


def build(group, tmp, xform, race=False):
    """Transform the current sources and build one group's simulator binary."""
    g = GROUPS[group]
    bd = os.path.join(tmp, group)
    os.makedirs(bd, exist_ok=True)
    mod = os.path.join(bd, "gears.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(bd, "gears.sum"))
    shutil.copy(mod, os.path.join(bd, "plain.mod"))
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(bd, "plain.sum"))
    e = env()
    e["GOFLAGS"] = "-mod=mod -modfile=" + mod
    cmd = [xform, "-repo", REPO, "-out", bd]
    if g.get("extra"):
        cmd += ["-extra", ",".join(g["extra"])]
    if g.get("light"):
        cmd += ["-light", ",".join(g["light"])]
    if g.get("net"):
        cmd += ["-net", ",".join(g["net"])]
    if g.get("swap"):
        cmd += ["-swap", ",".join(k + "=" + v for k, v in g["swap"].items())]
    if not os.path.exists(os.path.join(bd, "xform.json")):
        run(cmd + ["./" + p for p in g["pkgs"]], cwd=REPO, e=e)
    x = json.load(open(os.path.join(bd, "xform.json")))
    ov = dict(x["overlay"])
    ov.update(sim_overlay())
    # dependencies outside the module: transformed copy used through `replace`
    for n, name in enumerate(g.get("extra_mod") or []):
        src = moddir(name, e)
        dst = os.path.join(bd, "extra%d" % n)
        if not os.path.exists(dst):
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns("*_test.go", "testdata", "test", ".git*"))
            run(["chmod", "-R", "u+w", dst])
            if not os.path.exists(os.path.join(dst, "go.mod")):
                open(os.path.join(dst, "go.mod"), "w").write("module " + name + "\n")
            for orig, new in (x["extra"] or {}).items():
                if orig.startswith(src + "/"):
                    shutil.copy(new, os.path.join(dst, os.path.relpath(orig, src)))
            stub = os.path.join(SIM, "stub", os.path.basename(name))
            if os.path.isdir(stub):
                shutil.copytree(stub, dst, dirs_exist_ok=True)
        run(["go", "mod", "edit", "-replace", name + "=" + dst, mod], cwd=REPO, e=dict(e, GOFLAGS=""))
    ovf = os.path.join(bd, "overlay.json")
    json.dump({"Replace": ov}, open(ovf, "w"))
    out = os.path.join(bd, "bin-race" if race else "bin")
    cmd = ["go", "build", "-overlay", ovf, "-o", out]
    if race:
        cmd += ["-race", "-gcflags=" + MOD + "/zzsim/...=-race=false", "-gcflags=" + MOD + "/zzsim/ra="]
    run(cmd + ["./zzsim/m/" + group], cwd=REPO, e=e)
    return out, os.path.join(bd, "xform.json")


def moddir(name, e):
    """Directory of a dependency as /repo's go.mod selects it."""
    return run(["go", "list", "-m", "-f", "{{.Dir}}", name], cwd=REPO, e=dict(e, GOFLAGS="-mod=mod -modfile=" + e["GOFLAGS"].split("=")[-1].replace("gears.mod", "plain.mod"))).strip().splitlines()[-1]


def tree_id():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d != ".git")
        for f in sorted(files):
            if f.endswith(".go"):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def union(files):
    s = set()
    for f in files:
        if os.path.exists(f):
            b = open(f, "rb").read()
            s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    return len(s)


def check(pid, replay=None, verbose=False):
    t0 = time.time()
    P = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, ".build"))
    procs = []
    try:
        xform = build_xform(tmp)
        known = os.path.join(VERIF, "known_findings.json")
        jobs = []
        for part in P["parts"]:
            binp, sites = build(part["group"], tmp, xform, part.get("race", False))
            if replay:
                rf = json.load(open(replay))
                if rf["group"] != part["group"] or bool(rf.get("race")) != bool(part.get("race")):
                    continue
                p = subprocess.run([binp, "-sites", sites, "-replay", replay] + (["-v"] if verbose else []), env=wenv(part))
                return p.returncode
            jobs.append((part, binp, sites))
        if replay:
            raise Trouble("replay file does not belong to " + pid)
        built = time.time() - t0
        results = []
        agg = []
        wallcap = P.get("wall", 60) if tier == "quick" else P.get("wall_thorough", 1500)
        mult = P.get("mult", 1.0) * (1.0 if tier == "quick" else P.get("thorough_mult", 40.0))
        viol = None
        for part, binp, sites in jobs:
            outs = []
            procs = []
            for w in range(NCPU):
                o = os.path.join(tmp, "%s-%d-%d.json" % (part["group"], 1 if part.get("race") else 0, w))
                outs.append(o)
                cmd = [binp, "-prop", pid, "-seed", str(seed), "-worker", str(w), "-stride", str(NCPU), "-mult", str(mult),
                       "-wall", str(wallcap * part.get("share", 1.0)), "-out", o, "-sites", sites, "-known", known]
                if part.get("race"):
                    cmd.append("-race")
                lf = open(o + ".log", "wb")
                procs.append((subprocess.Popen(cmd, stdout=lf, stderr=lf, env=wenv(part)), o, lf))
            for p, o, lf in procs:
                try:
                    rc = p.wait(timeout=wallcap * 2 + 300)
                except subprocess.TimeoutExpired:
                    p.kill()
                    raise Trouble("worker timed out")
                lf.close()
                if rc != 0 or not os.path.exists(o):
                    raise Trouble("worker failed rc=%s: %s" % (rc, open(o + ".log", errors="replace").read()[-5000:]))
                r = json.load(open(o))
                if r.get("error"):
                    raise Trouble(r["error"])
                results.append(r)
                agg.append(o)
                if r.get("violation"):
                    key = (r["v_scenario"], r["v_index"])
                    if viol is None or key < viol[0]:
                        viol = (key, r, part)
            if viol:
                break
        path = None
        if viol:
            _, r, part = viol
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.json" % (pid, r["v_scenario"], seed))
            rf = json.load(open(r["violation"]))
            rf["tree"] = tree_id()
            if part.get("race"):
                rf["report"] = race_report(open(r["violation"][:-7] + ".log", errors="replace").read())
            json.dump(rf, open(path, "w"), indent=1)
            # reproduce it in a fresh process before reporting
            binp, sites = [(b, s) for (pt, b, s) in jobs if pt is part][0]
            pr = subprocess.run([binp, "-sites", sites, "-replay", path], env=wenv(part), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if pr.returncode != 1:
                raise Trouble("violation found but its replay is not identical in a fresh process: %s" % pr.stdout.decode(errors="replace")[-3000:])
        wall = time.time() - t0
        kn = {}
        faults, probes, scen = {}, {}, {}
        for r in results:
            for k, v in r["known"].items():
                kn[k] = kn.get(k, 0) + v
            for k, v in r["faults"].items():
                faults[k] = faults.get(k, 0) + v
            for k, v in r["probes"].items():
                probes[k] = probes.get(k, 0) + v
            for k, v in r["per_scenario"].items():
                scen[k] = scen.get(k, 0) + v
        tot = lambda f: sum(r[f] for r in results)
        srch = max([r["wall_s"] for r in results] + [0.001])
        samples = []
        for r in results:
            for smp in r.get("samples") or []:
                if len(samples) < 3 and smp["scenario"] not in [x["scenario"] for x in samples]:
                    samples.append(smp)
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if viol else 0,
            "coverage": {
                "evaluations": tot("runs"),
                "distinct_nontrivial": union([o + ".hs" for o in agg]),
                "rule": "One evaluation is one simulated run: a plan (threads, operations, configuration, fault mix) generated from (VERIF_SEED, scenario, index) executed under a seeded schedule. "
                        "Non-trivial: at least one scheduling, timer-order, map-order, network or stall decision differed from the default (first-come) choice, or an injected fault fired. "
                        "Distinct: the rolling hash over all decisions, context switches, time steps and recorded events differs.",
                "samples": samples,
                "runs_per_scenario": scen,
                "runs_per_hour": int(tot("runs") / srch * 3600),
                "seeds_per_hour": int(tot("runs") / srch * 3600),
                "simulated_time_s": round(sum(r["sim_nanos"] for r in results) / 1e9, 3),
                "scheduler_steps": tot("steps"), "context_switches": tot("switches"), "choice_points": tot("choices"),
                "nondefault_decisions": tot("nondefault_decisions"), "timer_events": tot("timer_fires"), "map_order_permutations": tot("map_order_permutations"),
                "distinct_interleavings": union([o + ".ih" for o in agg]),
                "interleaving_measure": "hash of the sequence of context switches (from goroutine, code site, to goroutine)",
                "faults_fired": faults, "rare_conditions_hit": probes,
                "inconclusive_histories": tot("inconclusive"),
                "stopped_by_wall_cap": any(r["capped"] for r in results),
                "real_code": sorted({x for r in results for x in (r["real"] or [])}),
                "stubs": sorted({x for r in results for x in (r["stub"] or [])}),
                "known_findings_hit": kn,
                "unreproducible_race_reports_ignored": tot("unreproducible"),
                "build_s": round(built, 2), "search_s": round(srch, 2), "workers": NCPU,
            },
            "assumptions": P.get("assumptions", []) + COMMON,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for f in known_for(pid):
            if f.get("fixed"):
                continue
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        if viol:
            print("violated: %s (%s #%d): %s" % (viol[1]["v_class"], viol[1]["v_scenario"], viol[1]["v_index"], viol[1]["v_msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("ok: property=%s runs=%d distinct=%d interleavings=%d build=%.1fs search=%.1fs" % (
            pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["coverage"]["distinct_interleavings"], built, srch))
        return 0
    finally:
        for p in procs:
            if p[0].poll() is None:
                p[0].kill()
        shutil.rmtree(tmp, ignore_errors=True)


COMMON = [
    "Exactly one goroutine runs at a time; switches happen at statement boundaries, at every synchronisation operation and between the load and the store of a read-modify-write of shared state, not inside an expression.",
    "The simulator's models of goroutines, channels, select, sync, timers and contexts follow the documented Go semantics.",
    "Sources are rewritten mechanically from /repo's working tree; code outside the module runs as compiled.",
]


def wenv(part):
    e = env()
    e["GOMAXPROCS"] = "1"
    e["GODEBUG"] = "asyncpreemptoff=1"
    if part.get("race"):
        e["GORACE"] = "suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0"
    return e


def race_report(log):
    i = log.rfind("WARNING: DATA RACE")
    return log[i:i + 4000].splitlines() if i >= 0 else []


def known_for(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]


def selftest(ids):
    """Same seeds in different processes and different worker counts: identical logs."""
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="selftest-", dir=os.path.join(VERIF, ".build"))
    bad = 0
    try:
        xform = build_xform(tmp)
        for pid in ids or sorted(PROPS):
            for part in PROPS[pid]["parts"]:
                if part.get("race"):
                    continue
                binp, sites = build(part["group"], tmp, xform)
                ref = None
                n = int(os.environ.get("SELFTEST_N", "240"))
                for stride in (1, 3, 8, 8):
                    ps = [subprocess.Popen([binp, "-prop", pid, "-seed", os.environ.get("VERIF_SEED", "1"), "-hashes", "-hashn", str(n), "-worker", str(w), "-stride", str(stride), "-sites", sites],
                                           stdout=subprocess.PIPE, env=wenv(part)) for w in range(stride)]
                    lines = sorted(l for p in ps for l in p.communicate()[0].decode().splitlines())
                    if ref is None:
                        ref = lines
                    elif ref != lines:
                        d = [x for x in zip(ref, lines) if x[0] != x[1]][:3]
                        print("NONDETERMINISM", pid, part["group"], stride, d)
                        bad += 1
                print("selftest", pid, part["group"], len(ref), "runs x 4 process layouts:", "identical" if not bad else "see above")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


def setup():
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="setup-", dir=os.path.join(VERIF, ".build"))
    try:
        xform = build_xform(tmp)
        seen = set()
        for pid in sorted(PROPS):
            for part in PROPS[pid]["parts"]:
                k = (part["group"], part.get("race", False))
                if k not in seen:
                    seen.add(k)
                    build(part["group"], tmp, xform, part.get("race", False))
                    print("built", k)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            return setup()
        if a and a[0] == "--selftest":
            return selftest(a[1:])
        if len(a) >= 3 and a[1] == "--replay":
            return check(a[0], replay=os.path.abspath(a[2]), verbose="-v" in a)
        return check(a[0])
    except Trouble as ex:
        print("ERROR:", ex, file=sys.stderr)
        return 3
    except Exception as ex:
        print("ERROR:", repr(ex), file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main())
