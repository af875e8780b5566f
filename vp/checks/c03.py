"""LTL verdicts equal evaluation over all runs of the full state space."""
from ..common import *

ID = "C03"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net with one A/E-quantified LTL query (up to 4 temporal operators) under several algorithm, "
        "partial-order, heuristic and automaton options; non-trivial when the net has at least 4 reachable markings and an atomic "
        "proposition of the query is not constant over them")
ASSUMPTIONS = ["bounded nets up to about 8 places and 200 markings (400 in thorough); at most 4 temporal operators",
               "runs are infinite, a deadlocked marking repeats forever",
               "Buchi automata come from the stand-in for the Spot library in /verif/standins/spot (Spot itself is not available offline); "
               "optimisation levels of Spot therefore make no difference here"]
CASES = {"quick": 8000, "thorough": 80000}
TIME = {"quick": 150, "thorough": 1800}


def ltl_cfg(r):
    c = []
    alg = r.choice([None, "tarjan", "ndfs"])
    c.append(["-ltl"] + ([alg] if alg else []))
    if r.random() < 0.6:
        c.append(["--ltl-por", r.choice(["automaton", "classic", "liebke", "none"])])
    elif r.random() < 0.3:
        c.append(["-p"])
    if r.random() < 0.5:
        c.append(["--ltl-heur", r.choice(["dist", "aut", "fire-count"])])
    if r.random() < 0.4:
        c.append(["-s", r.choice(["DFS", "RDFS", "BestFS"])])
    if r.random() < 0.5:
        c.append(["-r", "0"])
    if r.random() < 0.6:
        c.append(["-q", "0"])
    if r.random() < 0.2:
        c.append(["--noweak"])
    if r.random() < 0.2:
        c.append(["--compress-aps"])
    if r.random() < 0.2:
        c.append(["-t"])
    if r.random() < 0.2:
        c.append(["--noreach"])
    return c


def gen(r, tier):
    big = tier == "thorough" and r.random() < 0.3
    net, g = G.bounded_net(r, 1.4 if big else 1.0, 400 if big else 200, min_states=3, inhib=r.random() < 0.4)
    qs = [G.rand_ltl(r, net, g, r.choice([2, 3, 3, 4]), r.choice([2, 3, 3, 4]), nxt=r.random() < 0.5, dead=r.random() < 0.3)]
    return {"net": net, "queries": qs, "cfgs": [ltl_cfg(r) for _ in range(4)], "present": None}


def atoms(q):
    if q[0] in ("cmp", "fire", "deadlock"):
        yield q
        return
    for x in q[1:]:
        if isinstance(x, list) and x:
            for y in ([x] if isinstance(x[0], str) else x):
                if isinstance(y, list):
                    yield from atoms(y)


def judge(case, ctx):
    g = graph(case)
    try:
        exp = [Q.ltl_holds(q, g) for q in case["queries"]]
    except OverflowError:
        raise Skip()
    m, q = write_case(case, ctx)
    ctx.nontrivial = len(g) >= 4 and any(len(set(Q.state_set(a, g))) > 1 for x in case["queries"] for a in atoms(x))
    for e in exp:
        ctx.label("expected-%s" % e)
    for cfg in case["cfgs"]:
        check_verdicts(case, ctx, exp, cfg, m, q)


def shrinks(case):
    for c in S.case_shrinks(case, keep_top=True):
        if all(any(o[0] == "-ltl" for o in cfg) for cfg in c["cfgs"]):
            yield c
