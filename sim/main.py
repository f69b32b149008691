"""Command line:  sim.main check <id> [--tier quick|thorough] [--runs N] [--seed N] [--wall S] [--workers N]
                  sim.main replay <file>
                  sim.main determinism <id> [--runs N]
                  sim.main digest <id> --runs N      (internal: prints seed/digest lines)
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import time

from . import core


def get_check(pid):
    mod = importlib.import_module("checks." + pid.lower())
    return mod.CHECK


def _cleanup():
    own = os.environ.get("RTSIM_OWN_CACHE")
    if own:
        shutil.rmtree(own, ignore_errors=True)
    root = os.environ.get("RTSIM_SESSION")
    if root:
        shutil.rmtree(root, ignore_errors=True)


def cmd_check(a):
    t0 = time.monotonic()
    check = get_check(a.id)
    tier = a.tier
    seed0 = int(os.environ.get("VERIF_SEED", "1") or 1) if a.seed is None else a.seed
    core.load_riptable()
    with core.quiet():
        check.setup()
    runs = a.runs or (check.quick_runs if tier == "quick" else check.thorough_runs)
    wall = a.wall or (check.quick_wall if tier == "quick" else check.thorough_wall)
    seeds = [seed0 * 1_000_000 + i for i in range(runs)]
    workers = a.workers or min(8, os.cpu_count() or 1)
    known = [k for k in core.load_known() if k["property"] == check.id and k.get("status") == "known"]
    kkinds = {k["kind"]: k for k in known}
    agg = {"runs": 0, "faults": {}, "probes": {}, "cfg": {}, "events": 0, "steps": 0, "sim_ns": 0}
    keys, digests, viols, harness, knownhits, samples = set(), {}, [], [], {}, []

    def on_result(r):
        agg["runs"] += 1
        agg["events"] += r["nev"]
        agg["steps"] += r["steps"]
        agg["sim_ns"] += r["sim_ns"]
        agg["cfg"][r["cfg"]] = agg["cfg"].get(r["cfg"], 0) + 1
        for src in ("faults", "probes"):
            for k, v in r[src].items():
                agg[src][k] = agg[src].get(k, 0) + v
        keys.update(r["keys"])
        digests[r["seed"]] = r["digest"]
        if len(samples) < 3 and r["keys"]:
            samples.append({"seed": r["seed"], "cfg": r["cfg"], "digest": r["digest"], "events": r["nev"], "faults": r["faults"]})
        if r["status"] == "violation":
            if r["kind"] in kkinds:
                knownhits[r["kind"]] = knownhits.get(r["kind"], 0) + 1
            else:
                viols.append(r)
        elif r["status"] == "harness":
            harness.append(r)

    # known findings have their own fixed traces, so that each is shown once, deterministically
    for k in known:
        tr = k.get("trace")
        if tr is None:
            continue
        with core.quiet():
            r = core.run_isolated(check, tr)
        if r["status"] == "violation" and r["kind"] in k.get("kinds", [k["kind"]]):
            knownhits[k["kind"]] = knownhits.get(k["kind"], 0) + 1
        elif r["status"] == "violation":
            r["trace"] = tr
            viols.append(r)
    for tr in getattr(check, "fixed_traces", lambda: [])():
        tr = json.loads(json.dumps(tr))
        with core.quiet():
            r = core.run_one(check, tr)
        r["trace"] = tr
        on_result(r)
    if not viols:
        core.pool_run(check, seeds, workers, wall, on_result, stop_on=lambda r: r["status"] == "violation" and r["kind"] not in kkinds)
    wall_runs = time.monotonic() - t0
    # determinism: a sample of the seeds again, with another worker count
    rechecked = mism = 0
    if not viols and not harness:
        sample = [s for s in digests if s is not None and s >= seed0 * 1_000_000][:: max(1, len(digests) // (24 if tier == "quick" else 200))]
        bad = []

        def again(r):
            nonlocal rechecked, mism
            rechecked += 1
            if r["digest"] != digests.get(r["seed"]):
                mism += 1
                bad.append(r["seed"])

        core.pool_run(check, sample, max(1, workers // 2), 60, again)
        if bad:
            print("NOTE non-repeatable seeds: %s" % bad[:5], file=sys.stderr)
    status = 0
    lines = []
    vrec = []
    if viols:
        viols.sort(key=lambda r: (r["seed"] is None, r["seed"] or 0))
        v = viols[0]
        tr = v.get("trace") or core.make_trace(check, v["seed"])
        with core.quiet():
            base = core.run_isolated(check, tr)
            if base.get("realised"):
                t2 = dict(tr, **base["realised"])
                r2 = core.run_isolated(check, t2)
                if r2["status"] == "violation" and r2["kind"] == v["kind"]:
                    tr = json.loads(json.dumps(t2))
            small, nmin = core.minimise(check, tr, v["kind"], budget_s=60 if tier == "quick" else 300)
            fin = core.run_isolated(check, small)
        if not (fin["status"] == "violation" and fin["kind"] == v["kind"]):
            small, fin = tr, v
        rdir = os.path.join(core.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (check.id, v["seed"]))
        with open(path, "w") as f:
            json.dump({"property": check.id, "seed": v["seed"], "kind": fin["kind"], "detail": fin["detail"], "digest": fin["digest"],
                       "trace": small, "tail": fin.get("tail", [])}, f, indent=1)
        rp = subprocess.run([sys.executable, "-m", "sim.main", "replay", path], cwd=core.VERIF, capture_output=True, text=True,
                            env={k: w for k, w in os.environ.items() if k not in ("RTSIM_READY", "LD_PRELOAD", "RTSIM_SESSION", "RTSIM_OWN_CACHE", "NUMBA_CACHE_DIR", "MPLCONFIGDIR")})
        ok = rp.returncode == 1 and "REPRODUCED" in rp.stdout
        print("violation kind=%s seed=%s minimised in %d runs, replay %s" % (fin["kind"], v["seed"], nmin, "reproduced exactly" if ok else "NOT reproduced: " + rp.stdout[-300:] + rp.stderr[-300:]))
        print("  " + str(fin["detail"])[:1500])
        lines.append("VIOLATION property=%s replay=%s" % (check.id, path))
        vrec.append({"kind": fin["kind"], "seed": v["seed"], "replay": path, "replay_reproduced": ok, "detail": fin["detail"][:500]})
        status = 1
    elif harness:
        status = 2
    for k in known:
        if k["kind"] in knownhits or k.get("unstable"):
            print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
    wall_s = time.monotonic() - t0
    ev = {
        "property": check.id, "tier": tier, "seed": seed0, "level": check.level,
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(keys), "rule": check.rule, "samples": samples or [{"none": True}],
            "simulated_runs": agg["runs"], "seeds_per_hour": int(agg["runs"] / max(wall_runs, 1e-6) * 3600),
            "simulated_time_s": agg["sim_ns"] / 1e9, "scheduler_steps": agg["steps"], "recorded_events": agg["events"],
            "faults_injected": agg["faults"], "probes": agg["probes"], "runs_per_config": agg["cfg"],
            "components_real": check.components_real, "components_stub": check.components_stub,
            "determinism_rechecked": rechecked, "determinism_mismatches": mism,
            "known_findings_seen": knownhits,
        },
        "assumptions": list(check.assumptions), "wall_s": round(wall_s, 2), "violations": len(vrec), "violation_details": vrec,
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs in %.1fs (%d distinct), faults=%s, probes=%s, determinism %d/%d" % (
        check.id, tier, agg["runs"], wall_s, len(keys), agg["faults"], agg["probes"], rechecked - mism, rechecked))
    for h in harness[:3]:
        print("HARNESS-ERROR seed=%s cfg=%s\n%s" % (h["seed"], h["cfg"], h["detail"]), file=sys.stderr)
    for ln in lines:
        print(ln)
    return status


def cmd_replay(a):
    with open(a.file) as f:
        d = json.load(f)
    check = get_check(d["property"])
    core.load_riptable()
    with core.quiet():
        check.setup()
        r = core.run_isolated(check, d["trace"])
    same = r["status"] == "violation" and r["kind"] == d["kind"] and r["digest"] == d["digest"]
    print("replay %s: status=%s kind=%s digest=%s (recorded %s)" % (a.file, r["status"], r.get("kind"), r["digest"], d["digest"]))
    print("  " + str(r.get("detail", ""))[:1500])
    if r["status"] == "violation":
        print("REPRODUCED%s" % ("" if same else " (digest or kind differs: the code differs from when it was recorded)"))
        return 1
    return 0 if r["status"] == "ok" else 2


def cmd_digest(a):
    check = get_check(a.id)
    core.load_riptable()
    with core.quiet():
        check.setup()
    seeds = [(a.seed or 1) * 1_000_000 + i for i in range(a.runs or 100)]
    out = []
    core.pool_run(check, seeds, a.workers or 8, 3600, out.append)
    for r in sorted(out, key=lambda r: r["seed"]):
        print("DIGEST", r["seed"], r["digest"], r["status"], r["nev"])
    return 0


def cmd_determinism(a):
    """Each seed in two processes with different hash seeds, worker counts; the event digests must agree."""
    outs = []
    for hs, w in (("0", "8"), ("4242", "3")):
        env = {k: v for k, v in os.environ.items() if k not in ("RTSIM_READY", "LD_PRELOAD", "RTSIM_SESSION", "RTSIM_OWN_CACHE", "NUMBA_CACHE_DIR", "MPLCONFIGDIR")}
        env["PYTHONHASHSEED"] = hs
        p = subprocess.run([sys.executable, "-m", "sim.main", "digest", a.id, "--runs", str(a.runs or 200), "--workers", w], cwd=core.VERIF,
                           env=env, capture_output=True, text=True)
        outs.append([ln for ln in p.stdout.splitlines() if ln.startswith("DIGEST")])
    bad = [(x, y) for x, y in zip(*outs) if x != y]
    print("%s determinism: %d seeds, %d differ" % (a.id, len(outs[0]), len(bad) + abs(len(outs[0]) - len(outs[1]))))
    for b in bad[:5]:
        print("  ", b)
    return 1 if bad or len(outs[0]) != len(outs[1]) or not outs[0] else 0


def main(argv):
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    for c in ("check", "digest", "determinism"):
        p = sub.add_parser(c)
        p.add_argument("id")
        p.add_argument("--tier", default="quick")
        p.add_argument("--runs", type=int)
        p.add_argument("--seed", type=int)
        p.add_argument("--wall", type=float)
        p.add_argument("--workers", type=int)
    p = sub.add_parser("replay")
    p.add_argument("file")
    a = ap.parse_args(argv)
    if a.cmd == "replay":
        a.file = os.path.abspath(a.file)
    if a.cmd != "determinism":
        core.ensure_env(argv)
    root = os.path.join(core.scratch_root(), "rtsim-%07d" % os.getpid())
    os.environ["RTSIM_SESSION"] = root
    os.makedirs(root, exist_ok=True)
    try:
        return {"check": cmd_check, "replay": cmd_replay, "digest": cmd_digest, "determinism": cmd_determinism}[a.cmd](a)
    finally:
        _cleanup()


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
