"""CTL and global-property verdicts equal textbook evaluation over the full state space."""
from ..common import *

ID = "C02"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net with 1-2 CTL queries (nesting up to 4) or global properties under several algorithm/strategy "
        "combinations; non-trivial when the net has at least 4 reachable markings and some query has a temporal operator whose argument "
        "is not constant over the reachable markings")
ASSUMPTIONS = ["bounded nets up to about 9 places and 250 markings (600 in thorough)",
               "reference: fixpoint evaluation over the explicit graph in Python; finite maximal runs count as paths (deadlock semantics of the MCC)"]
CASES = {"quick": 7000, "thorough": 70000}
TIME = {"quick": 150, "thorough": 1800}
GLOBAL = ["ksafe", "quasi-liveness", "stable-marking", "liveness"]


def gen(r, tier):
    big = tier == "thorough" and r.random() < 0.3
    net, g = G.bounded_net(r, 1.5 if big else 1.0, 600 if big else 250, min_states=3)
    if r.random() < 0.18:
        k = r.choice(GLOBAL)
        qs = [[k, max(max(m, default=0) for m in g.states) - r.choice([0, 0, 1])] if k == "ksafe" else [k]]
    else:
        qs = []
        for _ in range(r.choice([1, 1, 2])):
            q = G.shaped_ctl(r, net, g, r.choice([2, 2, 3])) if r.random() < 0.45 else None
            qs.append(q if q and Q.any_op(q, Q.CTL_OPS) else G.proper_ctl(r, net, g, r.choice([1, 2, 2, 3, 3, 4])))
    cfgs = []
    for _ in range(3):
        c = []
        if r.random() < 0.6:
            c.append(["-ctl", r.choice(["local", "czero"])])
        if r.random() < 0.5:
            c.append(["-s", r.choice(["DFS", "BFS", "RDFS", "BestFS"])])
        if r.random() < 0.55:
            c.append(["-r", "0"])
        if r.random() < 0.6:
            c.append(["-q", "0"])
        if r.random() < 0.4:
            c.append(["-p"])
        if r.random() < 0.25:
            c.append(["--noreach"])
        cfgs.append(c)
    return {"net": net, "queries": qs, "cfgs": cfgs, "present": None}


def expect(q, g):
    k = q[0]
    if k == "ksafe":
        return all(max(m, default=0) <= q[1] for m in g.states)
    if k == "quasi-liveness":
        fired = {t for o in g.succ for t, _ in o}
        return len(fired) == len(g.net["trans"])
    if k == "stable-marking":
        n = len(g.net["places"])
        return any(all(m[p] == g.states[0][p] for m in g.states) for p in range(n))
    if k == "liveness":
        return all(all(Q.state_set(["EF", ["fire", [t]]], g)) for t in range(len(g.net["trans"])))
    return Q.ctl_holds(q, g)


def interesting(q, g):
    """Some temporal operator has an argument that is not constant over the reachable markings."""
    if q[0] in GLOBAL:
        return True
    if q[0] in Q.CTL_OPS and any(len(set(Q.state_set(x, g))) > 1 for x in q[1:]):
        return True
    if q[0] in ("cmp", "fire"):
        return False
    for x in q[1:]:
        if isinstance(x, list) and x:
            for y in ([x] if isinstance(x[0], str) else x):
                if isinstance(y, list) and interesting(y, g):
                    return True
    return False


def judge(case, ctx):
    g = graph(case)
    exp = [expect(q, g) for q in case["queries"]]
    m, q = write_case(case, ctx)
    ctx.nontrivial = len(g) >= 4 and any(interesting(x, g) for x in case["queries"])
    for x, e in zip(case["queries"], exp):
        ctx.label("%s-%s" % ("global-" + x[0] if x[0] in GLOBAL else "expected", e))
    for cfg in case["cfgs"]:
        check_verdicts(case, ctx, exp, cfg, m, q)


def shrinks(case):
    return S.case_shrinks(case, keep_top=True)
