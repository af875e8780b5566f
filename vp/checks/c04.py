"""Structural reductions (every rule alone, in user-chosen sequences, and the built-in levels) keep every answer."""
from ..common import *

ID = "C04"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net with 1-3 queries (EF/AG, CTL, LTL or upper bounds) solved with several reduction "
        "settings; non-trivial when in at least one of the runs a reduction rule was applied and a query was left for the search")
ASSUMPTIONS = ["bounded nets up to about 10 places and 300 markings (800 in thorough)",
               "reference: explicit enumeration plus textbook CTL/LTL evaluation in Python"]
CASES = {"quick": 7000, "thorough": 70000}
TIME = {"quick": 150, "thorough": 1800}


# rule numbers of -r 3; K (10) is not offered for CTL by the tool itself, R (17) and S (18) only for reachability and LTL
A, B, C, D, E, F, GG, H, I, J, K, L, M, N, O, P, QQ, R, SS = range(19)
ALWAYS = [A, B, C, D, E, F, GG, H, I, J, L, M, N, O, P, QQ]


def red_cfg(r, logic, strict):
    """strict: the query has a next operator or a deadlock proposition, for which user-chosen sequences are not offered as sound."""
    x = r.random()
    if x < 0.3 or strict and x < 0.75:
        return ["-r", "1"]
    if x < 0.45 or strict:
        return ["-r", "2"]
    pool = ALWAYS + ([R, SS] if logic in ("reach", "ltl") else []) + ([K] if logic == "reach" else [])
    if x < 0.7:
        return ["-r", "3", str(r.choice(pool))]
    return ["-r", "3", ",".join(str(r.choice(pool)) for _ in range(r.randint(2, 7)))]


def is_strict(q):
    return Q.any_op(q, {"X", "EX", "AX"}) or has_dead(q)


def has_dead(q):
    if q[0] == "deadlock":
        return True
    if q[0] in ("cmp", "fire", "bound"):
        return False
    return any(has_dead(y) for x in q[1:] if isinstance(x, list) and x for y in ([x] if isinstance(x[0], str) else x) if isinstance(y, list))


def gen(r, tier):
    big = tier == "thorough" and r.random() < 0.3
    net, g = G.bounded_net(r, 1.6 if big else 1.0, 800 if big else 300, min_states=3, inhib=r.random() < 0.6)
    x = r.random()
    extra = []
    if x < 0.5:
        logic = "reach"
        qs = [G.balanced_reach(r, net, g, r.choice([0, 1, 2]), dead=r.random() < 0.4) for _ in range(r.choice([1, 1, 2]))]
    elif x < 0.7:
        logic = "ctl"
        qs = [G.proper_ctl(r, net, g, r.choice([1, 2, 2, 3])) for _ in range(r.choice([1, 1, 2]))]
    elif x < 0.9:
        logic = "ltl"
        qs = [G.rand_ltl(r, net, g, 3, 3, nxt=r.random() < 0.3) for _ in range(1)]
    else:
        logic = "bound"
        n = len(net["places"])
        qs = [["bound", r.sample(range(n), min(n, r.choice([1, 1, 2])))]]
    cfgs = []
    for _ in range(4):
        c = [red_cfg(r, logic, any(is_strict(q) for q in qs))]
        if r.random() < 0.7:
            c.append(["-q", "0"])
        if r.random() < 0.4:
            c.append(["-p"])
        if r.random() < 0.3:
            c.append(["-s", r.choice(["BFS", "DFS", "BestFS"] if logic == "reach" else ["DFS"])])
        if r.random() < 0.15:
            c.append(["-t"])
        cfgs.append(c)
    return {"net": net, "queries": qs, "cfgs": cfgs, "logic": logic, "present": None}


def expected(case, g):
    res = []
    for q in case["queries"]:
        if case["logic"] == "ltl":
            try:
                res.append(Q.ltl_holds(q, g))
            except OverflowError:
                raise Skip()
        elif case["logic"] == "bound":
            res.append(max(sum(m[p] for p in q[1]) for m in g.states))
        else:
            res.append(Q.ctl_holds(q, g))
    return res


def judge(case, ctx):
    g = graph(case)
    exp = expected(case, g)
    m, q = write_case(case, ctx)
    extra = {"ltl": ["-ltl"], "ctl": [], "bound": [], "reach": []}[case["logic"]]
    nt = False
    for cfg in case["cfgs"]:
        r = check_verdicts(case, ctx, exp, cfg, m, q, extra)
        applied = False
        for l in r.out.splitlines():
            if l.startswith("Applications of rule "):
                n, k = l[21:].split(": ")
                if k.strip() != "0":
                    applied = True
                    ctx.label("rule-" + n)
        if applied and r.out.count("solved by Query Simplification") < len(case["queries"]):
            nt = True
    ctx.nontrivial = nt
    ctx.label("logic-" + case["logic"])


def shrinks(case):
    return S.case_shrinks(case, keep_top=True)
