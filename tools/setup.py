import glob, importlib, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import build
need = {}
for f in sorted(glob.glob(os.path.join(V, "vp/checks/c*.py"))):
    m = importlib.import_module("vp.checks." + os.path.basename(f)[:-3])
    for v, ts in getattr(m, "BUILD", {"fast": ["verifypn"]}).items():
        need.setdefault(v, set()).update(ts)
for v, ts in sorted(need.items()):
    try:
        build.build(v, sorted(ts), quiet=True)
        print("built", v, sorted(ts))
    except build.BuildError as e:
        print("build of %s failed (checks will report it)\n%s" % (v, e))
