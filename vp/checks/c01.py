"""Reachability verdicts equal exhaustive enumeration, for every search strategy."""
from ..common import *

ID = "C01"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net with 1-3 EF/AG queries run under several strategy/option combinations; it is "
        "non-trivial when the net has at least 4 reachable markings and some query is not decided by the initial marking alone")
ASSUMPTIONS = ["nets up to about 9 places, 12 transitions and 300 reachable markings (800 in thorough); all generated nets are bounded",
               "reference: explicit enumeration of all reachable markings in Python (vp/net.py, vp/query.py)"]
CASES = {"quick": 6000, "thorough": 60000}
TIME = {"quick": 150, "thorough": 1800}
STRATS = ["BestFS", "BFS", "DFS", "RDFS", "RPFS"]


def gen(r, tier):
    big = tier == "thorough" and r.random() < 0.3
    net, g = G.bounded_net(r, 1.6 if big else 1.0, 800 if big else 300, min_states=4)
    qs = [G.balanced_reach(r, net, g, 2) for _ in range(r.choice([1, 1, 2, 3]))]
    cfgs = []
    for _ in range(3):
        c = []
        if r.random() < 0.85:
            c.append(["-s", r.choice(STRATS)])
        if r.random() < 0.45:
            c.append(["-r", "0"])
        if r.random() < 0.55:
            c.append(["-q", "0"])
        if r.random() < 0.4:
            c.append(["-p"])
        if r.random() < 0.15:
            c.append(["-t"])
        if r.random() < 0.15:
            c.append(["--seed-offset", str(r.randrange(1000))])
        if r.random() < 0.1:
            c.append(["--noreach"])
        if r.random() < 0.1:
            c.append(["--init-potency-timeout", "0"])
        cfgs.append(c)
    return {"net": net, "queries": qs, "cfgs": cfgs, "present": r.choice([None, r.randrange(10**6)])}


def judge(case, ctx):
    g = graph(case)
    exp = [Q.ctl_holds(q, g) for q in case["queries"]]
    m, q = write_case(case, ctx)
    und = False
    for qq in case["queries"]:
        f = qq[1] if qq[0] != "not" else qq[1][1]
        ex = (qq if qq[0] != "not" else qq[1])[0] == "EF"
        s = Q.state_set(f, g)
        if s[0] != ex:
            und = True
    ctx.nontrivial = len(g) >= 4 and und
    for e in exp:
        ctx.label("expected-%s" % e)
    for cfg in case["cfgs"]:
        for i, o in enumerate(cfg):
            if o[0] == "-s":
                ctx.label("strategy-" + o[1])
        check_verdicts(case, ctx, exp, cfg, m, q)


def shrinks(case):
    return S.case_shrinks(case, keep_top=True)
