import collections
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import core, ops, runner

VERIF = runner.VERIF


def load(pid):
    return importlib.import_module("sim.props." + pid.lower()).P()


def known_findings():
    """Entries 'finding: property=<id> sig=<class> <what>' in known_findings.txt."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("finding:"):
                    d = dict(p.split("=", 1) for p in line.split()[1:3])
                    d["text"] = line.split(None, 3)[3]
                    out.append(d)
    except OSError:
        pass
    return out


def session_dir():
    return tempfile.mkdtemp(prefix="vsim-")


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    cmd = argv[0]
    if cmd == "run":
        return run(argv[1])
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "selftest":
        return selftest(argv[1:])
    print("unknown command", cmd)
    return 2


def config(pid, prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    n = prop.quick if tier == "quick" else prop.thorough
    n = int(os.environ.get("VERIF_RUNS", n))
    secs = prop.quick_s if tier == "quick" else prop.thorough_s
    secs = float(os.environ.get("VERIF_SECONDS", secs))
    nw = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 2)))
    return {"seed": seed, "tier": tier, "n": n, "secs": secs, "nw": nw, "recheck": 37}


def run(pid):
    t0 = time.monotonic()
    prop = load(pid)
    cfg = config(pid, prop)
    print(f"{pid} tier={cfg['tier']} VERIF_SEED={cfg['seed']} runs={cfg['n']} workers={cfg['nw']}", flush=True)
    runner.boot(warm=getattr(prop, "warm", True))
    session = session_dir()
    try:
        return _run(pid, prop, cfg, session, t0)
    finally:
        shutil.rmtree(session, ignore_errors=True)


def _run(pid, prop, cfg, session, t0):
    if hasattr(prop, "prepare"):
        prop.prepare(cfg, session)
    faults = collections.Counter()
    probes = collections.Counter()
    inter = set()
    plans_seen = set()
    agg = {"runs": 0, "nontrivial": 0, "simtime": 0.0, "events": 0, "redet": 0, "redet_bad": 0, "errors": [], "switches": 0}
    viols = []
    known = known_findings()
    known_hit = collections.Counter()
    samples = []
    noracle = {}
    distinct = set()

    def is_known(v):
        for k in known:
            if k["property"] == pid and v.get("sig", v["cls"]) == k["sig"]:
                return k
        return None

    def on_msg(m):
        if m.get("error"):
            agg["errors"].append(m["error"])
            return len(agg["errors"]) > 5
        agg["runs"] += 1
        st = m["stats"]
        runner.merge_counts(faults, st["faults"])
        runner.merge_counts(probes, st["probes"])
        agg["simtime"] += st.get("simtime") or 0
        agg["events"] += st.get("events") or 0
        if st.get("inter"):
            inter.add(st["inter"])
        if st.get("nontrivial"):
            agg["nontrivial"] += 1
            distinct.add(m.get("digest") or m["i"])
        if "redet" in m:
            agg["redet"] += 1
            if not m["redet"]:
                agg["redet_bad"] += 1
        if "plan" in m and len(samples) < 3 and not m["viol"]:
            samples.append({"run": m["i"], "plan": m["plan"]})
        noracle[m["i"] % cfg["nw"]] = m["noracle"]
        fresh = []
        for v in m["viol"]:
            k = is_known(v)
            if k:
                known_hit[k["text"]] += 1
            else:
                fresh.append(v)
        if fresh:
            viols.append((m["i"], m["plan"], fresh))
            return True
        return False

    runner.run_batch(prop, cfg, cfg["n"], session, cfg["nw"], t0 + cfg["secs"], on_msg)
    explore_s = time.monotonic() - t0
    rc = 0
    replay_path = None
    tried = set()
    for attempt in range(2):
        if not viols or rc == 1:
            break
        if attempt:
            # look for one that replays (a violation may depend on e.g. memory addresses)
            want = len(viols) + 6
            runner.run_batch(prop, dict(cfg, keepgoing=True), cfg["n"], session, cfg["nw"], time.monotonic() + 60,
                             lambda m: on_msg(m) and len(viols) >= want)
        viols.sort(key=lambda x: x[0])
        for i, plan, vs in list(viols):
            if i in tried or len(tried) > 8:
                continue
            tried.add(i)
            ctx = runner.Ctx(session, 99)
            cls = vs[0]["cls"]
            small, tries = runner.minimise(prop, plan, cls, ctx, 60.0 if not attempt else 20.0)
            replay_path, confirmed = confirm(pid, prop, cfg, i, plan, small, cls, ctx)
            if not confirmed:
                print("HARNESS: violation of run %d did not replay; first seen: %s" % (i, vs[0]["what"]))
                agg["errors"].append("violation did not replay: %s" % vs[0]["what"])
                rc = 2
                continue
            print(f"seed={cfg['seed']} run={i} minimised in {tries} tries")
            for v in vs[:3]:
                print("  " + v["what"])
                for d in v.get("diff", ())[:3]:
                    print("    " + d)
            print(f"VIOLATION property={pid} replay={replay_path}")
            rc = 1
            break
    for t in known_hit:
        print(f"KNOWN-FINDING: property={pid} {t}")
    if rc == 0 and agg["errors"]:
        print("HARNESS ERROR\n" + agg["errors"][0])
        rc = 2
    if rc == 0 and agg["runs"] == 0:
        print("HARNESS ERROR: no run completed")
        rc = 2
    wall = time.monotonic() - t0
    hours = max(explore_s, 1e-6) / 3600
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(distinct),
        "rule": prop.rule,
        "samples": samples[:2] or [{"run": viols[0][0], "plan": viols[0][1]}] if (samples or viols) else [],
        "runs_and_seeds_per_hour": round(agg["runs"] / hours),
        "oracle_runs": sum(noracle.values()),
        "simulated_seconds": round(agg["simtime"], 3),
        "simulated_events": agg["events"],
        "faults_injected": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_interleavings": len(inter),
        "distinct_measure": "distinct event logs (thread switches, I/O and network events, faults, outcome digests)",
        "determinism_rechecks": agg["redet"],
        "determinism_mismatches": agg["redet_bad"],
        "components": prop.components,
        "harness_errors": len(agg["errors"]),
    }
    ev = {"property": pid, "tier": cfg["tier"], "seed": cfg["seed"], "level": "exploration", "coverage": cov,
          "assumptions": list(prop.assumptions), "wall_s": round(wall, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=ops._default)
    print(f"{pid}: {agg['runs']} runs, {len(distinct)} distinct non-trivial, {len(inter)} interleavings, "
          f"faults {sum(faults.values())}, determinism {agg['redet'] - agg['redet_bad']}/{agg['redet']}, {wall:.1f}s, exit {rc}")
    return rc


def confirm(pid, prop, cfg, i, plan, small, cls, ctx):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    for tag, pl in (("", small), (".full", plan)):
        path = os.path.join(d, f"{pid}-{cfg['seed']}-{i}{tag}.json")
        hist, viol = runner.one(prop, pl, ctx)
        match = [v for v in viol if v["cls"] == cls]
        rec = {"property": pid, "seed": cfg["seed"], "run": i, "class": cls, "tier": cfg["tier"], "plan": pl,
               "violation": match[:2], "trace": (hist.get("log") or [])[-400:],
               "digest": ops.sha(ops.canon(hist.get("log", [])))[:16]}
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1, default=ops._default)
        env = {k: v for k, v in os.environ.items() if k != "VERIF_BOOTED"}
        p = subprocess.run(["/opt/venv/bin/python", os.path.join(VERIF, "check.py"), "replay", path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=300)
        if p.returncode == 1:
            return path, True
    return None, False


def replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    prop = load(rec["property"])
    runner.boot(warm=getattr(prop, "warm", True))
    session = session_dir()
    try:
        if hasattr(prop, "prepare"):
            prop.prepare({"seed": rec["seed"], "tier": rec["tier"]}, session)
        ctx = runner.Ctx(session, 0)
        hist, viol = runner.one(prop, rec["plan"], ctx)
    finally:
        shutil.rmtree(session, ignore_errors=True)
    dig = ops.sha(ops.canon(hist.get("log", [])))[:16]
    print("digest", dig, "recorded", rec.get("digest"), "same" if dig == rec.get("digest") else "DIFFERENT")
    hit = [v for v in viol if v["cls"] == rec["class"]]
    for v in viol:
        print(v["cls"] + ": " + v["what"])
        for d in v.get("diff", ()):
            print("    " + d)
    if hit:
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def selftest(args):
    """selftest Cxx N: print 'run digest plandigest' lines for diffing between processes."""
    pid, n = args[0], int(args[1])
    prop = load(pid)
    cfg = config(pid, prop)
    cfg.update(n=n, secs=float(os.environ.get("VERIF_SECONDS", "3000")), digests=True, recheck=None, keepgoing=True)
    runner.boot(warm=getattr(prop, "warm", True))
    session = session_dir()
    rows = {}
    try:
        if hasattr(prop, "prepare"):
            prop.prepare(cfg, session)

        def on_msg(m):
            rows[m.get("i", -1)] = (m.get("digest"), m.get("plandig"), sorted(v["cls"] for v in m.get("viol", [])), m.get("error"))
        runner.run_batch(prop, cfg, n, session, cfg["nw"], time.monotonic() + cfg["secs"], on_msg)
    finally:
        shutil.rmtree(session, ignore_errors=True)
    for i in sorted(rows):
        print(pid, i, *rows[i])
    return 0
