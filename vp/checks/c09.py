"""Reported upper bounds are the exact maximum over all reachable markings."""
from ..common import *

ID = "C09"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net with 1-4 place-bound queries (sums of one to four places) under several option sets; non-trivial when the net has at "
        "least 4 markings and some bound is larger than in the initial marking or smaller than the total number of tokens ever present")
ASSUMPTIONS = ["bounded nets up to about 10 places and 400 markings (1000 in thorough)", "reference: explicit enumeration in Python"]
CASES = {"quick": 7000, "thorough": 70000}
TIME = {"quick": 100, "thorough": 1500}


def gen(r, tier):
    big = tier == "thorough" and r.random() < 0.3
    net, g = G.bounded_net(r, 1.6 if big else 1.1, 1000 if big else 400, min_states=3, inhib=r.random() < 0.5)
    n = len(net["places"])
    qs = [["bound", r.sample(range(n), min(n, r.choice([1, 1, 2, 2, 3, 4])))] for _ in range(r.choice([1, 2, 3, 4]))]
    cfgs = []
    for _ in range(3):
        c = []
        if r.random() < 0.6:
            c.append(["-s", r.choice(["BestFS", "BFS", "DFS", "RDFS", "RPFS"])])
        x = r.random()
        if x < 0.4:
            c.append(["-r", "0"])
        elif x < 0.5:
            c.append(["-r", "2"])
        if r.random() < 0.4:
            c.append(["-q", "0"])
        if r.random() < 0.4:
            c.append(["-p"])
        if r.random() < 0.15:
            c.append(["-l", r.choice(["0", "1"])])
        if r.random() < 0.1:
            c.append(["--init-potency-timeout", "0"])
        cfgs.append(c)
    return {"net": net, "queries": qs, "cfgs": cfgs, "present": r.choice([None, r.randrange(10**6)])}


def judge(case, ctx):
    g = graph(case)
    exp = [max(sum(m[p] for p in q[1]) for m in g.states) for q in case["queries"]]
    m, qf = write_case(case, ctx)
    ctx.nontrivial = len(g) >= 4 and any(e != sum(g.states[0][p] for p in q[1]) or e < max(sum(s) for s in g.states) for e, q in zip(exp, case["queries"]))
    for cfg in case["cfgs"]:
        r = check_verdicts(case, ctx, exp, cfg, m, qf)
        ctx.label("solved-early", r.out.count("solved by Query Simplification"))
        ctx.label("queries", len(exp))


def shrinks(case):
    return S.case_shrinks(case, keep_top=True)
