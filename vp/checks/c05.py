"""Partial-order reduction (stubborn sets) never changes an answer."""
from ..common import *
from . import c03

ID = "C05"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net with concurrency and one query (EF/AG, deadlock, CTL, LTL or upper bound), solved with stubborn sets on and "
        "other preprocessing off; non-trivial when a run with stubborn sets explored fewer states than the same run without")
ASSUMPTIONS = ["bounded nets up to about 10 places and 400 markings", "reference: explicit enumeration in Python"]
CASES = {"quick": 7000, "thorough": 70000}
TIME = {"quick": 150, "thorough": 1800}


def gen(r, tier):
    big = tier == "thorough" and r.random() < 0.3
    inh = r.random() < 0.5
    net, g = G.bounded_net(r, 1.7 if big else 1.15, 800 if big else 400, min_states=6, inhib=inh)
    x = r.random()
    if x < 0.5:
        logic, q = "reach", G.balanced_reach(r, net, g, r.choice([0, 1, 2, 2]))
        if r.random() < 0.15 or any(g.dead) and r.random() < 0.3:
            q = r.choice([["EF", ["deadlock"]], ["AG", ["not", ["deadlock"]]]])
    elif x < 0.65:
        logic, q = "ctl", G.proper_ctl(r, net, g, r.choice([1, 2, 2, 3]))
    elif x < 0.92:
        logic, q = "ltl", G.rand_ltl(r, net, g, 3, 3, nxt=r.random() < 0.3, dead=False)
    else:
        n = len(net["places"])
        logic, q = "bound", ["bound", r.sample(range(n), min(n, r.choice([1, 1, 2])))]
    cfgs = []
    for _ in range(3):
        c = [["-r", "0"], ["-q", "0"]]
        if logic == "ltl":
            c.append(["-ltl", r.choice(["tarjan", "tarjan", "ndfs"])])
            if r.random() < 0.7:
                c.append(["--ltl-por", r.choice(["automaton", "classic", "liebke"])])
            if r.random() < 0.5:
                c.append(["--ltl-heur", r.choice(["dist", "aut", "fire-count"])])
            if r.random() < 0.3:
                c.append(["-s", r.choice(["DFS", "RDFS", "BestFS"])])
        elif logic == "ctl":
            c.append(["-s", r.choice(["DFS", "BFS", "RDFS"])])
            if r.random() < 0.5:
                c.append(["-ctl", r.choice(["local", "czero"])])
            if r.random() < 0.3:
                c.append(["--noreach"])
        else:
            c.append(["-s", r.choice(["BestFS", "BFS", "DFS", "RDFS", "RPFS"])])
            if logic == "reach" and r.random() < 0.15:
                c.append(["--noreach"])
        cfgs.append(c)
    return {"net": net, "queries": [q], "cfgs": cfgs, "logic": logic, "present": None}


def count(out):
    for l in out.splitlines():
        for k in ("discovered states:", "Configurations", "explored states:", "expanded:"):
            if l.strip().startswith(k):
                try:
                    return int(l.split(":")[1])
                except (IndexError, ValueError):
                    pass
    return None


def judge(case, ctx):
    g = graph(case)
    q = case["queries"][0]
    if case["logic"] == "ltl":
        try:
            exp = [Q.ltl_holds(q, g)]
        except OverflowError:
            raise Skip()
    elif case["logic"] == "bound":
        exp = [max(sum(m[p] for p in q[1]) for m in g.states)]
    else:
        exp = [Q.ctl_holds(q, g)]
    m, qf = write_case(case, ctx)
    nt = False
    for cfg in case["cfgs"]:
        r = check_verdicts(case, ctx, exp, cfg, m, qf)
        if not nt and (not exp[0] if q[0] in ("EF", "E") else True):
            b = check_verdicts(case, ctx, exp, cfg + [["-p"]], m, qf)
            x, y = count(r.out), count(b.out)
            if x is not None and y is not None and x < y:
                nt = True
    ctx.nontrivial = nt
    ctx.label("logic-" + case["logic"] + ("-reduced" if nt else ""))


def shrinks(case):
    for c in S.case_shrinks(case, keep_top=True):
        if case["logic"] != "ltl" or all(any(o[0] == "-ltl" for o in cfg) for cfg in c["cfgs"]):
            yield c
