"""mut.py <specs.py> [name...]: apply each mutation (name, file, old, new, checks) to a scratch copy and report which checks notice.
Development aid; no check uses it."""
import importlib.util, os, re, shutil, subprocess, sys, time
R = "/tmp/mut/repo"
sp = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
only = sys.argv[2:]
shutil.rmtree("/tmp/mut", ignore_errors=True); os.makedirs("/tmp/mut")
subprocess.run("cp -a /repo %s" % R, shell=True)
for name, fn, old, new, checks in m.MUTS:
    if only and name not in only:
        continue
    subprocess.run("git checkout -q -- .", shell=True, cwd=R)
    edits = [(fn, old, new)] if isinstance(fn, str) else fn
    bad = False
    for f, o, n in edits:
        p = os.path.join(R, "riptable", f); s = open(p).read()
        if s.count(o) != 1:
            print(name, "BADSPEC", f, s.count(o)); bad = True; break
        open(p, "w").write(s.replace(o, n))
    if bad:
        continue
    for c in checks:
        t = time.time()
        r = subprocess.run(["bash", "/verif/run.sh", "check", c, "--tier", "quick"], capture_output=True, text=True, env=dict(os.environ, RTSIM_REPO=R))
        out = r.stdout + r.stderr
        k = [l for l in out.splitlines() if "VIOLATION" in l]
        i = [n for n, l in enumerate(out.splitlines()) if l.startswith("  ")]
        print("%-28s %s %s %.0fs %s" % (name, c, {0: "MISSED", 1: "caught", 2: "HARNESS"}.get(r.returncode, r.returncode), time.time() - t, (out.strip().splitlines() or [""])[0][:10] if not k else "; ".join(out.splitlines()[n].strip()[:160] for n in i[:1])), flush=True)
shutil.rmtree("/tmp/mut", ignore_errors=True)
