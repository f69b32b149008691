"""Writes MANIFEST.json from the list of built checks."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
 "P01": "seeded simulation of save/load histories on a simulated disk (seeded listing order), refinement against an in-memory model",
 "P02": "seeded crash/error injection at file-system calls of saves (LD_PRELOAD seam, forked process killed at the call), reload in a fresh process, checked against old/new model",
 "P03": "seeded I/O error injection at file-system calls of loads, checked against the fault-free result",
 "P04": "seeded simulation of stacked loads and concatenation with missing/vanishing files, refinement against a row-concatenation model",
 "P05": "seeded crash/error injection during flatten, section append and concatenation; item-conservation check over the disk afterwards",
 "P06": "seeded simulation of shared-memory histories with allocation faults in a redirected segment directory, against a map model",
 "P07": "seeded worker-interleaving simulation of the parallel kernels (virtual workers), compared with the one-worker schedule",
 "P08": "seeded deterministic thread scheduler (line/call preemption, simulated locks), results compared with solo runs",
 "P09": "seeded failure injection at native-engine calls, input-snapshot and retry oracle",
 "P10": "seeded edit histories with rejected edits, refinement against an ordered-map reference model",
 "P11": "seeded failure injection at native calls, file operations and callbacks, invariant over ambient settings",
 "P12": "seeded histories with injected GC, counter collisions and failures, warm-versus-cold differential oracle",
 "P13": "virtual clock seam with seeded jumps and stalls, exact oracle from the clock log",
 "P14": "seeded histories over global random state, cross-process repeatability oracle",
 "P15": "seeded delivery splits and read faults through the file seam, compared with whole-text parsing",
 "P17": "seeded programs repeated in processes with different hash seeds, memory fills, recycling, clocks, zones, locales and listing orders; all histories must agree",
 "P16": "seeded crash/error injection at file calls of settings save/load, against a settings model",
}
NOTE = "Seeded search: no violation found on the explored runs; exhaustive only where the evidence says so. Trusts the simio seam, the reference model in the check and the native engine's fault-free behaviour."
NA = {
 "Q01": "pure function of its inputs: no concurrency, time, I/O or fault for a simulation to control; schedule- and fault-dependent parts are P07, P09 and P12",
 "Q02": "pure function of its inputs; the schedule-dependent kernels are covered by P07",
 "Q03": "pure function of its inputs; reading the clock is covered by P13",
 "Q04": "pure function of its inputs, computed in the native engine",
 "Q05": "pure function of its inputs, computed in the native engine",
 "Q06": "pure function of its inputs; the parallel split is covered by P07",
 "Q07": "pure function of its inputs; display settings persistence is P16 and display in threads is P08",
 "Q08": "the native engine is a binary dependency without source in this repository; its thread pool offers no seam a deterministic scheduler can own (futex-parked C++ threads), and its I/O is simulated single-threaded",
}
checks = []
for p in props:
    if p["id"] in TECH and os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py")):
        c = "./run.sh check %s" % p["id"]
        lv = "fault_enumeration" if p["id"] in ("P02", "P03", "P05") else "exploration"
        checks.append({"property": p["id"], "quick_cmd": c + " --tier quick", "thorough_cmd": c + " --tier thorough", "technique": TECH[p["id"]],
                       "level": lv, "level_note": NOTE})
done = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in done]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if " hook:" in c]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none (LD_PRELOAD and import-time seams in /verif; /repo carries no hooks)", "enable": "nothing to enable", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "run.sh check <id>; run.sh replay <file>; run.sh determinism <id>. Known findings: known_findings.json."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
