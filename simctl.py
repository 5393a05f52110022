#!/usr/bin/env python3
"""Driver of the ECOS deterministic simulator.

  simctl.py setup                       build the simulator variants
  simctl.py check ID [quick|thorough]   run one property's check
  simctl.py replay FILE [-v]            re-execute a replay file (exit 1 if it violates)
  simctl.py sweep ID[,ID..] SEED0 COUNT [variant]   development: run seeds, list violations
  simctl.py stats ID[,ID..] SEED0 COUNT             development: how often each probe was hit

Environment: VERIF_SEED (default 1) selects the block of seeds,
VERIF_TIER (quick|thorough) the tier when it is not given as an argument.
"""
import concurrent.futures as cf, glob, json, os, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as simbuild  # noqa: E402
NW = 8
FAIL = os.path.join(HERE, "failures")

# property -> (level, [(variant, share of the runs)] in the quick tier, quick runs, thorough runs)
# The runs of a tier are a fixed number of seeds, so that a check is repeatable;
# the wall-clock guards below only cut a run short on a much slower machine.
TIERS = {
    "C01": (48000, 600000), "C02": (60000, 800000), "C03": (32000, 400000), "C04": (32000, 400000), "C05": (32000, 400000),
    "C06": (32000, 400000), "C07": (40000, 500000), "C08": (48000, 600000), "C09": (40000, 500000), "C10": (48000, 600000),
    "C11": (32000, 400000), "C12": (32000, 400000), "C13": (32000, 400000), "C14": (32000, 400000), "C15": (48000, 600000),
    "C16": (40000, 500000), "C17": (60000, 800000),
    "C18": (60000, 800000), "C19": (48000, 600000),
}
QUICK_VARIANTS = {"C09": [("long", 0.8), ("asan", 0.2)], "C13": [("long", 0.9), ("asan", 0.1)],
                  "C03": [("long", 0.75), ("fine", 0.25)], "C04": [("long", 0.75), ("fine", 0.25)], "C05": [("long", 0.75), ("fine", 0.25)]}
THOROUGH_VARIANTS = [("long", 0.75), ("int", 0.17), ("asan", 0.08)]
GUARD = {"quick": 300, "thorough": 640}

RULE = {
    "C01": "one case = one seeded plan: a generated conic problem with known ground truth, a history of setup/settings/update/solve/cleanup operations on one or two workspaces, an environment (heap contents, clock) and a fault list (KKT factorisation failures, perturbed or non-finite KKT solutions, SIGINT at a tick). Non-trivial: some solve returned an optimal verdict after an update, a settings change, an earlier solve or a fault",
    "C02": "as C01 with mostly infeasible and unbounded instances. Non-trivial: some solve returned an infeasibility or unboundedness verdict, or one was excluded by ground truth",
}


def spawn(binary, args, limit, outfile):
    with open(outfile, "wb") as f:
        try:
            p = subprocess.run([binary] + [str(a) for a in args], stdout=f, stderr=subprocess.STDOUT, timeout=limit, start_new_session=True, stdin=subprocess.DEVNULL)
            return p.returncode
        except subprocess.TimeoutExpired:
            return -999


def sweep(binary, cid, seed0, count, secs, d, tag):
    """Runs seeds seed0..seed0+count-1 over NW processes; returns merged results."""
    os.makedirs(d, exist_ok=True)
    jobs = []
    with cf.ThreadPoolExecutor(NW) as ex:
        for k in range(NW):
            c = (count - k + NW - 1) // NW
            if c <= 0:
                continue
            t = f"{tag}{k}"
            jobs.append((t, ex.submit(spawn, binary, ["run", cid, seed0 + k, c, NW, secs, d, t], secs + 60, f"{d}/{t}.out")))
    res = {"V": [], "v": 0, "S": {}, "F": {}, "P": {}, "nondet": [], "errors": [], "died": []}
    for t, j in jobs:
        rc = j.result()
        done = False
        out = open(f"{d}/{t}.out", errors="replace").read()
        for ln in out.split("\n"):
            f = ln.split("\t")
            if f[0] == "V" and len(f) >= 5:
                res["V"].append((f[1], int(f[2]), f[3], f[4]))
            elif f[0] == "v" and len(f) >= 3:
                res["v"] += 1
            elif f[0] in ("S", "F", "P") and len(f) == 3:
                res[f[0]][f[1]] = res[f[0]].get(f[1], 0) + int(f[2])
            elif ln.startswith("NONDET"):
                res["nondet"].append(ln.strip())
            elif ln.startswith("DONE"):
                done = True
        if rc or not done:
            try:
                res["died"].append((rc, struct.unpack("<Q", open(f"{d}/{t}.at", "rb").read(8))[0]))
            except (OSError, struct.error):
                pass
            res["errors"].append(f"worker {t}: exit {rc}: {out[-300:]!r}")
    for n in ("hist", "cov", "sched"):
        s = set()
        for f in glob.glob(f"{d}/{tag}*.{n}"):
            b = open(f, "rb").read()
            s.update(b[i:i + 8] for i in range(0, len(b), 8))
        res[n] = s
    res["samples"] = [open(f).read() for f in sorted(glob.glob(f"{d}/{tag}*.sample"))]
    return res


def replay(binary, path, limit=120):
    """(classes, hash) of a plan executed in a fresh process; a dead process is a class of its own."""
    try:
        p = subprocess.run([binary, "replay", path], capture_output=True, text=True, errors="replace", timeout=limit, start_new_session=True, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return [("process-hang", "the simulator process did not finish")], "hang"
    cl, h = [], ""
    for ln in p.stdout.split("\n"):
        f = ln.split("\t")
        if f[0] == "V" and len(f) >= 3:
            cl.append((f[1], f[2]))
        elif ln.startswith("HASH "):
            h = ln[5:].strip()
    if p.returncode not in (0, 1) or not h:
        if p.returncode < 0:
            return [("process-death", f"the simulator process died with signal {-p.returncode}")], f"signal {-p.returncode}"
        return None, f"replay exit {p.returncode}: {p.stdout[-200:]} {p.stderr[-200:]}"
    return cl, h


def known_findings():
    kf = []
    for ln in open(os.path.join(HERE, "known_findings.txt")):
        if ln.startswith("finding:"):
            kf.append(dict(x.split("=", 1) for x in ln[8:].split("#")[0].split()) | {"what": ln.split("#", 1)[1].strip()})
    return kf


def gate(binary, variant, cid, cls, seed, path, detail, mintime):
    """Replays, minimises and replays again.  Returns the replay file, or an error text."""
    os.makedirs(FAIL, exist_ok=True)
    r1, h1 = replay(binary, path)
    r2, h2 = replay(binary, path)
    if r1 is None or r2 is None:
        return None, f"{cls} seed {seed}: {h1} {h2}"
    if h1 != h2 or [c for c, _ in r1] != [c for c, _ in r2] or cls not in [c for c, _ in r1]:
        return None, f"{cls} seed {seed}: does not replay ({h1} {h2}, {r1[:2]})"
    best, bh = path, h1
    if not cls.startswith("process-"):
        m = path + ".min"
        try:
            subprocess.run([binary, "minimise", path, cls, str(mintime), m], capture_output=True, timeout=mintime * 2 + 60, stdin=subprocess.DEVNULL)
            a, ha = replay(binary, m)
            b, hb = replay(binary, m)
            if a and b and ha == hb and cls in [c for c, _ in a]:
                best, bh, r1 = m, ha, a
        except (subprocess.TimeoutExpired, OSError):
            pass
    out = os.path.join(FAIL, f"{cid}-{cls}-{seed}.plan")
    text = "".join(ln for ln in open(best) if not ln.startswith("#"))
    what = [d for c, d in r1 if c == cls][0]
    with open(out, "w") as f:
        f.write(f"# property {cid}, class {cls}: {what}\n# variant {variant}, history hash {bh}; first failing seed {seed}: {detail}\n# re-execute: python3 {HERE}/simctl.py replay {out}\n" + text)
    return out, what


def cmd_check(a):
    cid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    total = TIERS[cid][0 if tier == "quick" else 1]
    mix = QUICK_VARIANTS.get(cid, [("long", 1.0)]) if tier == "quick" else [(v, round(w * 0.8, 3)) for v, w in THOROUGH_VARIANTS] + [("fine", 0.2)] if cid in ("C03", "C04", "C05") else THOROUGH_VARIANTS
    guard = GUARD[tier]
    print(f"simulating property={cid} tier={tier} seed={seed}")
    try:
        bins = dict(zip([v for v, _ in mix], simbuild.build([v for v, _ in mix])))
    except RuntimeError as e:
        print("ERROR: the simulator does not build from /repo:\n" + str(e)[-3000:])
        return 2
    tb = time.time() - t0
    d = tempfile.mkdtemp(prefix="ecosim-")
    code = 0
    try:
        kf = [k for k in known_findings() if k["property"] == cid]
        known_cls = {k["class"] for k in kf}
        # the recorded findings, each re-executed from its own replay file
        knowns = 0
        for k in kf:
            r, _ = replay(bins[mix[0][0]], os.path.join(HERE, k["replay"]))
            if r and any(c == k["class"] for c, _ in r):
                knowns += 1
                print(f"KNOWN-FINDING: property={cid} {k['what']}")
        S, F, P, per = {}, {}, {}, {}
        sets = {"hist": set(), "cov": set(), "sched": set()}
        V, samples, errors, unknown_total = [], [], [], 0
        ts = time.time()
        for vi, (var, share) in enumerate(mix):
            n = max(NW, int(total * share))
            left = max(10, guard * share * 1.3) if len(mix) > 1 else guard
            r = sweep(bins[var], cid, seed * 100_000_000 + vi * 20_000_000, n, left, d, f"{var}_")
            for dst, src in ((S, "S"), (F, "F"), (P, "P")):
                for kk, x in r[src].items():
                    dst[kk] = dst.get(kk, 0) + x
            per[var] = r["S"].get("runs", 0)
            for n_ in sets:
                sets[n_] |= r[n_]
            samples += r["samples"][:2]
            cand = [(c, s, f, det) for c, s, f, det in r["V"] if c not in known_cls]
            for rc, s in r["died"]:
                f = f"{d}/{cid}-process-{s}.plan"
                g = subprocess.run([bins[var], "gen", cid, str(s)], capture_output=True, text=True, timeout=120, stdin=subprocess.DEVNULL)
                if g.returncode == 0 and g.stdout:
                    open(f, "w").write(g.stdout)
                    q, _ = replay(bins[var], f)
                    if q:
                        cand += [(c, s, f, det) for c, det in q if c not in known_cls]
            if r["nondet"]:
                errors.append(f"{var}: not deterministic: {r['nondet'][:3]}")
            errors += r["errors"] if not cand else []
            V += [(var,) + x for x in cand]
            if V:
                break
        wall_sim = time.time() - ts
        reported = 0
        if V:
            by = {}
            for var, c, s, f, det in sorted(V, key=lambda x: x[2]):
                by.setdefault(c, []).append((var, s, f, det))
            gate_errors = []
            for c in sorted(by)[:6]:
                if reported >= 3:
                    break
                for var, s, f, det in by[c][:3]:
                    out, what = gate(bins[var], var, cid, c, s, f, det, 15 if tier == "quick" else 60)
                    if out:
                        print(f"{c}: {what}")
                        print(f"VIOLATION property={cid} replay={out}")
                        reported += 1
                        break
                    gate_errors.append(what)
            if not reported:
                errors += gate_errors
        runs = S.get("runs", 0)
        ev = {
            "property": cid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": reported,
            "coverage": {
                "evaluations": runs, "distinct_nontrivial": len(sets["hist"]), "rule": json.load(open(os.path.join(HERE, "rules.json")))[cid] + " Distinct: distinct hashes of the whole recorded history (every return code, result vector, statistic, allocator event count and array content).",
                "samples": samples[:2],
                "seeds": f"{seed * 100_000_000} + 0..{total - 1}, offset 20,000,000 per build variant", "runs_by_build_variant": per,
                "runs_per_hour": int(runs / max(wall_sim, 1e-9) * 3600), "executions_including_reference_runs": S.get("execs", 0), "nontrivial_runs": S.get("nontrivial", 0),
                "simulated_time_s": round(S.get("simns", 0) / 1e9, 3), "simulated_steps_basic_blocks": S.get("ticks", 0), "task_switches": S.get("switches", 0),
                "faults_fired": F, "rare_conditions_hit": P,
                "distinct_basic_block_coverage_sets": len(sets["cov"]), "distinct_task_interleavings": len(sets["sched"]),
                "determinism_self_checks": S.get("selfchk", 0), "known_findings_reproduced": knowns,
                "components": {
                    "real": ["src/*.c (ECOS)", "ecos_bb/*.c (branch and bound)", "external/ldl", "external/amd"],
                    "simulated": ["malloc/calloc/realloc/free (arena allocator with chosen contents, redzones, failures)", "clock_gettime/time/gettimeofday/sleep (simulated clocks)", "sigaction/signal/raise and signal delivery (simulated process signal state)", "printf family and stdout (simulated sink with failures)", "rand/srand (seeded per task)", "exit/abort/assert", "threads: client tasks are coroutines switched at basic-block granularity by the plan's schedule", "numerical faults: results of ldl_numeric2 and ldl_ltsolve can be failed, perturbed or made non-finite"],
                    "not_run": ["src/runecos*.c and the MATLAB/Python front ends"]},
                "build_s": round(tb, 1), "simulation_s": round(wall_sim, 1)},
            "assumptions": ["compiled with gcc -O2 from /repo's working tree; results hold for this compiler and x86-64 floating point", "seeded sampling of plans, not enumeration: silence is evidence, not proof", "libm and the C library's string functions run unsimulated"],
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"runs={runs} nontrivial={S.get('nontrivial', 0)} distinct={len(sets['hist'])} coverage_sets={len(sets['cov'])} wall={time.time() - t0:.1f}s violations={reported}")
        if reported:
            code = 1
        elif errors:
            for e in errors[:5]:
                print("ERROR: " + e)
            code = 2
        elif runs == 0:
            print("ERROR: nothing was run")
            code = 2
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return code


def cmd_replay(a):
    path = os.path.abspath(a[0])
    var = "long"
    for ln in open(path):
        if ln.startswith("# variant "):
            var = ln.split()[2].rstrip(",")
    b = simbuild.build([var])[0]
    if "-v" in a:
        subprocess.run([b, "replay", path, "-v"])
    r, h = replay(b, path, 600)
    if r is None:
        print("ERROR: " + h)
        return 2
    for c, d in r:
        print(f"{c}: {d}")
    print("history hash " + h)
    if r:
        cid = next((ln.split()[1] for ln in open(path) if ln.startswith("check ")), "?")
        print(f"VIOLATION property={cid} replay={path}")
    return 1 if r else 0


def cmd_sweep(a):
    ids, s0, cnt = a[0].split(","), int(a[1]), int(a[2])
    var = a[3] if len(a) > 3 else "long"
    b = simbuild.build([var])[0]
    d = os.environ.get("SWEEP_DIR", "/tmp/sweep")
    for i in ids:
        t = time.time()
        r = sweep(b, i, s0, cnt, 3000, d, i + "_")
        print(f"== {i} {var} runs={r['S'].get('runs')} nontrivial={r['S'].get('nontrivial')} hist={len(r['hist'])} cov={len(r['cov'])} {time.time()-t:.1f}s", "NONDET " + str(r["nondet"][:3]) if r["nondet"] else "", r["errors"] or "")
        by = {}
        for c, s, f, det in r["V"]:
            by.setdefault(c, []).append((s, f, det))
        for c in by:
            print("   ", c, len(by[c]), "+", r["v"], "(all)", *[f"\n        {s} {det}" for s, f, det in sorted(by[c])[:4]])
        sys.stdout.flush()


if __name__ == "__main__":
    c = sys.argv[1] if len(sys.argv) > 1 else ""
    if c == "setup":
        try:
            simbuild.build(list(simbuild.VARIANTS))
        except RuntimeError as e:
            sys.exit(str(e))
    elif c == "check":
        sys.exit(cmd_check(sys.argv[2:]))
    elif c == "replay":
        sys.exit(cmd_replay(sys.argv[2:]))
    elif c == "sweep":
        cmd_sweep(sys.argv[2:])
    elif c == "stats":
        b = simbuild.build(["long"])[0]
        for i in sys.argv[2].split(","):
            r = sweep(b, i, int(sys.argv[3]), int(sys.argv[4]), 3000, "/tmp/sweep", i + "_")
            print(i, r["P"], len(r["V"]) + r["v"])
    else:
        sys.exit(__doc__)
