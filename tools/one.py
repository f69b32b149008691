"""one.py <id> <seed>...: run seeds and print the recorded events (development aid)"""
import sys, os
sys.path.insert(0, "/verif")
from sim import core, main
root = "/dev/shm/one-%d" % os.getpid(); os.makedirs(root); os.environ["RTSIM_SESSION"] = root
check = main.get_check(sys.argv[1])
core.load_riptable()
with core.quiet():
    check.setup()
orig = core.Env.event
def event(self, *a):
    print("EV", repr(a)[:600].replace(self.scratch or "\0", "<S>")); orig(self, *a)
core.Env.event = event
for s in sys.argv[2:]:
    t = core.make_trace(check, int(s)) if s.isdigit() else __import__("json").load(open(s))["trace"]
    print({k: v for k, v in t.items() if k not in ("base",)})
    r = core.run_here(check, t)
    print({k: v for k, v in r.items() if k not in ("tail",)})
import shutil; shutil.rmtree(root, ignore_errors=True); os._exit(0)
