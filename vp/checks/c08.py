"""Trace abstraction refinement answers and traces are right."""
from ..common import *
from .. import trace as T
from . import c07

ID = "C08"
LEVEL = "exploration"
RULE = ("a case is a generated net (bounded, with known state space) with 1-2 EF/AG queries solved with -tar; non-trivial when the net has at least 4 markings, "
        "some query is not decided by the initial marking, and refinement really ran (the tool reports it)")
ASSUMPTIONS = ["bounded nets up to about 9 places and 250 markings", "reference: explicit enumeration in Python",
               "no answer within the time limit of the refinement loop is counted, not judged"]
CASES = {"quick": 3500, "thorough": 40000}
TIME = {"quick": 100, "thorough": 1500}


LIMIT = 0.6


def simple(r, net, g):
    """Bounds on single places (and fireability), which is what the refinement's interval constraints can express."""
    target = g.states[r.randrange(len(g))]

    def atom():
        if r.random() < 0.15:
            return ["fire", [r.randrange(len(net["trans"]))]]
        p = r.randrange(len(net["places"]))
        a, b = ["pl", p], ["lit", max(0, target[p] + r.choice([0, 0, 0, 1, -1]))]
        if r.random() < 0.15:
            a, b = b, a
        return ["cmp", r.choice(["eq", "ne", "lt", "le", "gt", "ge", "ge", "ge", "le"]), a, b]

    def form(d):
        if d <= 0 or r.random() < 0.3:
            return atom()
        if r.random() < 0.15:
            return ["not", form(d - 1)]
        return [r.choice(["and", "and", "or"]), [form(d - 1) for _ in range(r.choice([2, 2, 3]))]]
    return [r.choice(["EF", "EF", "AG"]), form(r.choice([0, 1, 1, 2]))]


def gen(r, tier):
    big = tier == "thorough" and r.random() < 0.3
    net, g = G.bounded_net(r, 1.4 if big else 1.0, 500 if big else 250, min_states=4, inhib=False)
    dead = False
    if r.random() < 0.7:
        qs = [simple(r, net, g) for _ in range(r.choice([1, 1, 2]))]
    elif r.random() < 0.5:
        qs = [G.balanced_reach(r, net, g, 2, dead=dead) for _ in range(r.choice([1, 1, 2]))]
    else:
        qs = [[r.choice(["EF", "AG"]), r.choice([G.range_conj, G.linear_atom])(r, net, g)] for _ in range(r.choice([1, 1, 2]))]
    cfgs = []
    for _ in range(2):
        c = [["-tar"]]
        if r.random() < 0.5:
            c.append(["-r", "0"])
        if r.random() < 0.75:
            c.append(["-q", "0"])
        if r.random() < 0.3:
            c.append(["-p"])
        if r.random() < 0.3:
            c.append(["-t"])
        cfgs.append(c)
    return {"net": net, "queries": qs, "cfgs": cfgs, "present": None}


def judge(case, ctx):
    g = graph(case)
    net = case["net"]
    exp = [Q.ctl_holds(q, g) for q in case["queries"]]
    m, qf = write_case(case, ctx)
    nt = False
    for cfg in case["cfgs"]:
        args = [m, qf, "-x", xlist(len(exp))] + flat(cfg)
        r = ctx.vpn(args, timeout=LIMIT, ok_timeout=True)
        v = r.verdicts()
        for i, e in enumerate(exp):
            got = v.get("Q%d" % i)
            if got is None:
                ctx.label("no-answer-" + ("timeout" if r.timeout else "refused" if "ERROR" in r.err else "other"))
            elif got is not e:
                raise Fail("wrong-verdict", "%s answered %s for query %d, reference semantics says %s: %s" % (ctx.show(args), got, i, e, show_query(case["queries"][i], net)))
        if any(v.get("Q%d" % i) is None for i in range(len(exp))):
            continue
        if "race Abstraction Refinement" in r.out:
            nt = True
        if ["-t"] in cfg and len(case["queries"]) == 1:
            q = case["queries"][0]
            kind, body, pos = c07.neg(q)
            witness = (exp[0] == pos) == (kind == "EF")
            traces = T.parse(r.err)
            where = "%s on %s" % (ctx.show([m, qf] + flat(cfg)), show_query(q, net))
            if traces and not witness:
                raise Fail("trace-unfounded", where + ": a trace was printed although no single run decides the query")
            if not traces:
                if witness and "solved by Query Simplification" not in r.out:
                    raise Fail("trace-missing", where + ": no trace was printed")
                continue
            try:
                run = T.Run(net, traces[0])
                if T.holds_at(net, run.markings[-1], body) != (kind == "EF"):
                    raise Fail("trace-goal", "the last marking %s does not decide the query" % run.show(net, run.markings[-1]))
            except Fail as f:
                raise Fail(f.kind, where + ": " + f.msg + "\n" + r.err[r.err.find("<trace"):][:1500])
            ctx.label("traces")
    ctx.nontrivial = nt and len(g) >= 4
    for e in exp:
        ctx.label("expected-%s" % e)


def shrinks(case):
    for c in S.case_shrinks(case, keep_top=True):
        if all(["-tar"] in cfg for cfg in c["cfgs"]):
            yield c
