"""plant.py <bugspec.py>... : build seeded/<id>/ from a spec (PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS), verify in a scratch copy.
Development aid; no check uses it."""
import importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seed/repo"
ENV = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1")
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def fresh():
    shutil.rmtree("/tmp/seed", ignore_errors=True); os.makedirs("/tmp/seed")
    sh("cp -a /repo %s" % R); sh("git checkout -q -- .", cwd=R)
    t = open("/opt/vp/test.sh").read().replace("/repo", R); open("/tmp/seed/test.sh", "w").write(t)
def demo(d):
    return sh("timeout 300 bash %s/demo.sh" % d, cwd=R, env=ENV)
notest = "--notest" in sys.argv
for f in [a for a in sys.argv[1:] if not a.startswith("--")]:
    bid = os.path.basename(f)[:-3]
    sp = importlib.util.spec_from_file_location(bid, f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    fresh()
    d = os.path.join(V, "seeded", bid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    with open(d + "/demo.py", "w") as h: h.write(m.DEMO)
    with open(d + "/demo.sh", "w") as h:
        h.write('#!/bin/bash\n# cwd: the repository\nhere="$(cd "$(dirname "$0")" && pwd)"\nwork=$(mktemp -d)\ntrap \'rm -rf "$work"\' EXIT\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg DEMO_WORK="$work" /opt/venv/bin/python "$here/demo.py"\n')
    a = demo(d)
    for fn, old, new in m.EDITS:
        p = os.path.join(R, fn); s = open(p).read()
        assert s.count(old) == 1, (bid, fn, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    df = sh("git diff", cwd=R).stdout
    open(d + "/patch.diff", "w").write(df)
    json.dump({"property": m.PROP, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(d + "/meta.json", "w"), indent=1)
    b = demo(d)
    t = "skipped" if notest else sh("bash /tmp/seed/test.sh /tmp/seed/t.json").stdout.strip().splitlines()[-1]
    ok = a.returncode == 0 and b.returncode not in (0, 124) and (notest or " 0 failed" in t)
    print(bid, "OK" if ok else "BAD", "demo clean=%d bug=%d tests=%s" % (a.returncode, b.returncode, t))
    if not ok:
        print(a.stdout[-800:], a.stderr[-800:], "-----", b.stdout[-800:], b.stderr[-800:])
        if " 0 failed" not in t and not notest:
            j = json.load(open("/tmp/seed/t.json")); print(str(j)[:100])
            base = json.load(open("/opt/vp/BASELINE.json"))
    else:
        print("   ", b.stderr.strip().splitlines()[-1:] or b.stdout.strip().splitlines()[-1:])
shutil.rmtree("/tmp/seed", ignore_errors=True)
