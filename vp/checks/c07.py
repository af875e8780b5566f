"""Every printed trace is a run of the input model that witnesses the printed verdict."""
from ..common import *
from .. import trace as T
from . import c03

ID = "C07"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net with one EF/AG or LTL query solved with -t under several option sets; each printed trace is replayed in the "
        "reference net. Non-trivial: some run printed a trace with at least two transitions")
ASSUMPTIONS = ["bounded nets up to about 9 places and 250 markings", "an LTL trace without loop stands for every continuation of the printed prefix"]
CASES = {"quick": 5000, "thorough": 60000}
TIME = {"quick": 120, "thorough": 1500}


def gen(r, tier):
    big = tier == "thorough" and r.random() < 0.3
    logic = r.choice(["reach", "reach", "reach", "ltl", "ltl"])
    net, g = G.bounded_net(r, 1.5 if big else 1.0, 600 if big else 250, min_states=4, inhib=r.random() < 0.5)
    cfgs = []
    if logic == "reach":
        for _ in range(10):
            q = G.balanced_reach(r, net, g, 2)
            if Q.ctl_holds(q, g) == (q[0] == "EF") or r.random() < 0.15:
                break
        for _ in range(3):
            c = [["-s", r.choice(["BestFS", "BFS", "DFS", "RDFS", "RPFS"])]]
            if r.random() < 0.35:
                c.append(["-r", "0"])
            elif r.random() < 0.3:
                c.append(["-r", "2"])
            if r.random() < 0.6:
                c.append(["-q", "0"])
            if r.random() < 0.5:
                c.append(["-p"])
            cfgs.append(c)
    else:
        q = G.rand_ltl(r, net, g, r.choice([2, 3, 3]), 3, nxt=r.random() < 0.4, dead=r.random() < 0.3)
        for _ in range(3):
            cfgs.append([o for o in c03.ltl_cfg(r) if o[0] != "-t"])
    return {"net": net, "queries": [q], "cfgs": cfgs, "logic": logic, "present": None}


def neg(q):
    """(quantifier, body, positive) of a possibly negated query."""
    pos = True
    while q[0] == "not":
        pos = not pos
        q = q[1]
    return q[0], q[1], pos


def judge(case, ctx):
    g = graph(case)
    q, net = case["queries"][0], case["net"]
    ltl = case["logic"] == "ltl"
    try:
        exp = [Q.ltl_holds(q, g) if ltl else Q.ctl_holds(q, g)]
    except OverflowError:
        raise Skip()
    m, qf = write_case(case, ctx)
    kind, body, pos = neg(q)
    exists = kind in ("EF", "E")
    witness = (exp[0] == pos) == exists      # the verdict has a run that proves it
    nt = False
    for cfg in case["cfgs"]:
        r = check_verdicts(case, ctx, exp, cfg, m, qf, ["-t"])
        traces = T.parse(r.err)
        where = "%s on %s" % (ctx.show([m, qf, "-t"] + flat(cfg)), show_query(q, net))
        solved = "solved by Query Simplification" in r.out
        if not witness:
            if traces:
                raise Fail("trace-unfounded", where + ": a trace was printed although no single run decides the query")
            continue
        if not traces:
            if solved:
                ctx.label("no-trace-simplified")
                continue
            raise Fail("trace-missing", where + ": no trace was printed\n" + r.err[-300:])
        if len(traces) > 1:
            raise Fail("trace-format", where + ": more than one trace")
        try:
            run = T.Run(net, traces[0])
            if not ltl:
                if T.holds_at(net, run.markings[-1], body) != exists:
                    raise Fail("trace-goal", "the last marking %s does not %s the predicate" % (run.show(net, run.markings[-1]), "satisfy" if exists else "violate"))
            else:
                rg = T.run_graph(net, run, g)
                # no run that the trace stands for may be on the other side
                try:
                    bad = Q.LTLEval(["not", body] if exists else body, rg).exists()
                except OverflowError:
                    ctx.label("reference-too-big")
                    bad = False
                if bad:
                    raise Fail("trace-goal", "the printed run does not %s the path formula" % ("satisfy" if exists else "violate"))
        except Fail as f:
            raise Fail(f.kind, where + ": " + f.msg + "\n" + r.err[r.err.find("<trace"):][:1500])
        if len(run.steps) >= 2:
            nt = True
        ctx.label("traces-%s%s" % (case["logic"], "-loop" if run.loop is not None else ""))
    ctx.nontrivial = nt


def shrinks(case):
    for c in S.case_shrinks(case, keep_top=True):
        if case["logic"] != "ltl" or all(any(o[0] == "-ltl" for o in cfg) for cfg in c["cfgs"]):
            yield c
