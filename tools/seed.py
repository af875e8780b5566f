#!/usr/bin/env python3
"""Development helper for planted bugs. With a change applied in /repo's working tree:
  tools/seed.py ID PROPERTY "needs" "what it breaks" [--case FILE] [--more C04,C05]
saves seeded/ID, runs the property's check against the change (uses the shrunk failing case for the demo unless --case gives one),
validates build, tests and demo with and without the change, and reverts /repo."""
import argparse, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
DEMO = '''#!/bin/bash
# Builds the tool from the sources in the current directory (/repo) in a scratch directory, runs it on the inputs beside this
# script and compares its answers with the semantics of the model.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
python3 "$d/demo_build.py" "$t" || exit 3
python3 "$d/demo_run.py" "$t/verifypn" "$t" "$d/cases.json"
'''
RUN = '''import json, os, subprocess, sys
exe, tmp, cases = sys.argv[1:4]
bad = 0
for c in json.load(open(cases)):
    for n, s in c["files"].items():
        open(os.path.join(tmp, n), "w").write(s)
    p = subprocess.run([exe] + c["args"], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors="replace", timeout=120)
    got = {w[1]: w[2] for w in (l.split() for l in p.stdout.splitlines()) if len(w) > 2 and w[0] == "FORMULA"}
    for k, v in c.get("expect", {}).items():
        if got.get(k) != v:
            print("verifypn %s: %s is %s, must be %s" % (" ".join(c["args"]), k, got.get(k), v))
            bad = 1
    for s in c.get("contains", []):
        if s not in p.stdout:
            print("verifypn %s: output lacks %r" % (" ".join(c["args"]), s)); bad = 1
    for s in c.get("lacks", []):
        if s in p.stdout:
            print("verifypn %s: output has %r" % (" ".join(c["args"]), s)); bad = 1
    if c.get("rc") is not None and p.returncode != c["rc"]:
        print("exit code", p.returncode); bad = 1
sys.exit(bad)
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    if sh("bash /opt/vp/build.sh").returncode:
        return "build fails"
    sh("bash /opt/vp/test.sh /tmp/seed_t.json")
    o = json.load(open("/tmp/seed_t.json"))
    miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in o["passed"]]
    return "tests fail: %s" % miss if miss else None


def to_cases(prop, case):
    """demo cases for the verdict-style checks"""
    from vp import net as N, query as Q, common
    import importlib
    mod = importlib.import_module("vp.checks." + prop.lower())
    if hasattr(mod, "demo_cases"):
        return mod.demo_cases(case)
    g = N.Graph(case["net"], 5000, 500)
    logic = case.get("logic") or {"C03": "ltl"}.get(prop, "ctl")
    exp = {}
    for i, q in enumerate(case["queries"]):
        if prop == "C02":
            v = mod.expect(q, g)
        elif logic == "ltl":
            v = Q.ltl_holds(q, g)
        elif logic == "bound":
            v = max(sum(m[p] for p in q[1]) for m in g.states)
        else:
            v = Q.ctl_holds(q, g)
        exp["Q%d" % i] = {True: "TRUE", False: "FALSE"}.get(v, str(v)) if isinstance(v, bool) else str(v)
    files = {"model.pnml": N.to_pnml(case["net"]), "query.xml": Q.to_xml(case["queries"], case["net"])}
    res = []
    for c in case["cfgs"]:
        extra = ["-ltl"] if logic == "ltl" and not any(o[0] == "-ltl" for o in c) else []
        res.append({"files": files, "args": ["model.pnml", "query.xml", "-x", common.xlist(len(case["queries"]))] + extra + common.flat(c), "expect": exp})
    return res


ap = argparse.ArgumentParser()
for x in ("id", "prop", "needs", "breaks"):
    ap.add_argument(x)
ap.add_argument("--case")
ap.add_argument("--cases-json", help="demo cases given directly")
ap.add_argument("--more", default="")
ap.add_argument("--seed", default="1")
a = ap.parse_args()
d = os.path.join(V, "seeded", a.id)
diff = sh("git -C /repo diff").stdout
assert diff.strip(), "no change in /repo"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
try:
    e = tests()
    if e:
        print("REJECTED:", e)
        shutil.rmtree(d)
        sys.exit(1)
    caught, case = {}, None
    for c in [a.prop] + [x for x in a.more.split(",") if x]:
        r = sh("VERIF_SEED=%s bin/check %s --tier quick --no-evidence" % (a.seed, c), cwd=V)
        m = re.search(r"VIOLATION property=%s replay=(\S+)" % c, r.stdout)
        caught[c] = bool(m) and r.returncode == 1
        print(c, "CAUGHT" if caught[c] else "missed (rc %d)" % r.returncode, r.stdout.strip().splitlines()[-1][:200])
        if m:
            print("   ", [l for l in r.stdout.splitlines() if l.startswith("property")][0][:400])
            if case is None and c == a.prop:
                case = json.load(open(m.group(1)))["case"]
    if a.cases_json:
        cases = json.load(open(a.cases_json))
    else:
        if a.case:
            j = json.load(open(a.case))
            case = j.get("case", j)
        if case is None:
            print("no case for the demo; patch kept in", d, "- give --case")
            sys.exit(1)
        cases = to_cases(a.prop, case)
    json.dump(cases, open(d + "/cases.json", "w"), indent=1)
    json.dump({"property": a.prop, "needs": a.needs, "what_it_breaks": a.breaks, "checks": caught}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy(V + "/tools/demo_build.py", d)
    shutil.rmtree(d + "/standins", ignore_errors=True)
    shutil.copytree(V + "/standins", d + "/standins")
    open(d + "/demo_run.py", "w").write(RUN)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
finally:
    sh("git -C /repo checkout -- .")
r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
print("demo with change: %d, without: %d" % (r1.returncode, r0.returncode))
if r1.returncode == 0 or r0.returncode != 0:
    print("DEMO NOT VALID", r1.stdout, r0.stdout)
else:
    print(r1.stdout[:300])
