"""Unfolding a colored net preserves every answer."""
from ..common import *
from .. import cnet as C, cgen as CG

ID = "C10"
LEVEL = "exploration"
RULE = ("a case is a generated colored net (enumerations, ranges, products, guards, weighted/sum/difference/all arc expressions, inhibitor arcs) with 1-3 queries "
        "under several unfolding options; non-trivial when the naive unfolding has at least 4 reachable markings, some transition has two or more bindings, and "
        "not all queries are decided by the initial marking")
ASSUMPTIONS = ["naive unfolding with at most 90 places, 250 transitions, 250 markings (600 in thorough)",
               "successor and predecessor wrap around in every simple type; comparisons follow declaration order; an inhibitor arc counts all tokens of the place",
               "subtractions that would go negative for some binding are not generated",
               "two product types with the same components are not generated (a tuple does not say which of them it belongs to)"]
CASES = {"quick": 900, "thorough": 60000}
TIME = {"quick": 120, "thorough": 1500}


def mkcase(r, tier, logics, size=1.0, env=False):
    big = tier == "thorough" and r.random() < 0.3
    cn, g = CG.bounded_cnet(r, 1.5 * size if big else size, 600 if big else 250, min_states=4, inhib=r.random() < 0.4, env=env)
    v = C.view(cn)
    logic = r.choice(logics)
    qs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if logic == "reach":
            q = G.balanced_reach(r, v, g, r.choice([0, 1, 2]))
            if r.random() < 0.15:
                q = r.choice([["EF", ["deadlock"]], ["AG", ["not", ["deadlock"]]]])
        elif logic == "ctl":
            q = G.proper_ctl(r, v, g, r.choice([1, 2, 2]))
        elif logic == "ltl":
            q = G.rand_ltl(r, v, g, 3, 3)
        else:
            q = ["bound", r.sample(range(len(v["places"])), min(len(v["places"]), r.choice([1, 1, 2])))]
        qs.append(q)
    return {"cnet": cn, "queries": qs, "logic": logic}


def gen(r, tier):
    case = mkcase(r, tier, ["reach", "reach", "reach", "ctl", "ltl", "bound"])
    cfgs = []
    for _ in range(3):
        c = [["-R", "0"], ["--partition-timeout", "1"]]
        if r.random() < 0.35:
            c.append(["--disable-cfp"])
        if r.random() < 0.3:
            c.append(["--disable-partitioning"])
        if r.random() < 0.3:
            c.append(["--disable-symmetry-vars"])
        if r.random() < 0.25:
            c.append(["--max-intervals", r.choice(["1", "2", "3", "5"]), r.choice(["1", "2"])])
        if r.random() < 0.1:
            c.append(["--interval-timeout", "0"])
        if r.random() < 0.5:
            c.append(["-r", "0"])
        if r.random() < 0.5:
            c.append(["-q", "0"])
        if case["logic"] == "ltl":
            c.append(["-ltl"])
        elif case["logic"] in ("reach", "bound") and r.random() < 0.5:
            c.append(["-s", r.choice(["BFS", "DFS", "RDFS"])])
        cfgs.append(c)
    case["cfgs"] = cfgs
    return case


def setup(case, ctx, cap=3000):
    cn = case["cnet"]
    try:
        g = C.CGraph(cn, cap, 200)
    except (N.TooBig, C.Negative):
        raise Skip()
    v = C.view(cn)
    exp = []
    for q in case["queries"]:
        try:
            exp.append(max(sum(m[p] for p in q[1]) for m in g.states) if q[0] == "bound" else
                       Q.ltl_holds(q, g) if case["logic"] == "ltl" else Q.ctl_holds(q, g))
        except OverflowError:
            raise Skip()
    m = ctx.write("model.pnml", C.to_pnml(cn))
    q = ctx.write("query.xml", Q.to_xml(case["queries"], v))
    nb = {}
    for t, _ in g.un.trans_of:
        nb[t] = nb.get(t, 0) + 1
    ctx.nontrivial = len(g) >= 4 and max(nb.values(), default=0) >= 2
    return g, v, exp, m, q


def judge(case, ctx):
    g, v, exp, m, qf = setup(case, ctx)
    case = dict(case, net=v)
    for cfg in case["cfgs"]:
        check_verdicts(case, ctx, exp, cfg, m, qf)
    ctx.label("logic-" + case["logic"])
    for k in ("sub", "scal", "all", "succ", "tup", "not"):
        if '"%s"' % k in repr(case["cnet"]["trans"]).replace("'", '"'):
            ctx.label("uses-" + k)


def shrinks(case):
    for c in CG.case_shrinks(case):
        # colored reductions stay off (not covered), as in the case itself
        if all(["-R", "0"] in cfg and (case["logic"] != "ltl" or ["-ltl"] in cfg) for cfg in c["cfgs"]):
            yield c


def render(case):
    d = C.render(case["cnet"])
    v = C.view(case["cnet"])
    d["queries"] = [show_query(q, v) for q in case["queries"]]
    d["options"] = [" ".join(flat(c)) for c in case.get("cfgs", [])]
    return d
