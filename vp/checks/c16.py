"""Nets the tool writes are nets it reads, with the same behaviour."""
from .c10 import *
from . import c10
import os

ID = "C16"
RULE = ("a case is a generated colored or plain net with 1-3 queries; the tool writes the unfolded net with the unfolded queries, or the structurally reduced net with the "
        "simplified queries, and reads both back; the second run must give the reference verdict. Non-trivial when the net has at least 4 markings (and, if colored, "
        "some transition has two or more bindings)")
ASSUMPTIONS = c10.ASSUMPTIONS + ["the written net and the written queries come from the same run, with one query per run for reduced nets", "colored structural reductions are off (-R 0)"]
CASES = {"quick": 1500, "thorough": 60000}
TIME = {"quick": 90, "thorough": 1200}


def gen(r, tier):
    colored = r.random() < 0.5
    if colored:
        case = mkcase(r, tier, ["reach", "reach", "ctl", "ltl"])
    else:
        net, g = G.bounded_net(r, 1.0, 200, min_states=4, inhib=r.random() < 0.4)
        logic = r.choice(["reach", "reach", "ctl", "ltl"])
        f = {"reach": lambda: G.balanced_reach(r, net, g, r.choice([0, 1, 2])), "ctl": lambda: G.proper_ctl(r, net, g, r.choice([1, 2])), "ltl": lambda: G.rand_ltl(r, net, g, 3, 3)}[logic]
        case = {"cnet": None, "net": net, "queries": [f() for _ in range(r.choice([1, 1, 2, 3]))], "logic": logic}
    routes = []
    for _ in range(3):
        kind = r.choice(["unfolded", "unfolded", "reduced"] if colored else ["reduced", "reduced", "unfolded"])
        routes.append([kind, "0", [["-q", r.choice(["0", "1"])]] + ([["-r", r.choice(["0", "1", "2"])]] if kind == "reduced" else [["-r", "0"]]) +
                       ([["--disable-partitioning"]] if colored and r.random() < 0.5 else [["--partition-timeout", "1"]] if colored else []) +
                       ([["--disable-cfp"]] if colored and r.random() < 0.3 else [])])
    case["routes"] = routes
    case["cfgs"] = []
    return case


def judge(case, ctx):
    if case["cnet"]:
        g, v, exp, m, qf = setup(case, ctx)
    else:
        g = graph(case)
        v = case["net"]
        m, qf = write_case(case, ctx)
        try:
            exp = [Q.ltl_holds(q, g) if case["logic"] == "ltl" else Q.ctl_holds(q, g) for q in case["queries"]]
        except OverflowError:
            raise Skip()
        ctx.nontrivial = len(g) >= 4
    ltl = ["-ltl"] if case["logic"] == "ltl" else []
    n = len(case["queries"])
    for kind, bio, opts in case["routes"]:
        qs = [[i] for i in range(n)] if kind == "reduced" else [list(range(n))]
        for sel in qs:
            x = ",".join(str(i + 1) for i in sel)
            net2, q2 = ctx.path("out.pnml"), ctx.path("out.q")
            for f in (net2, q2):
                if os.path.exists(f):
                    os.remove(f)
            out = {"0": "0", "3": "2"}[bio]    # what the first run writes: 0 = XML, 2 = binary
            a1 = [m, qf, "-x", x, "-R", "0", "--binary-query-io", out] + ltl + flat(opts)
            if kind == "unfolded":
                a1 += ["--write-unfolded-net", net2, "--write-unfolded-queries", q2, "--keep-solved", "--noverify"]
            else:
                a1 += ["--write-reduced", net2, "--write-simplified", q2, "--keep-solved", "--noverify"]
            r1 = ctx.vpn(a1)
            if not (os.path.exists(net2) and os.path.getsize(net2) and os.path.exists(q2) and os.path.getsize(q2)):
                if kind == "reduced" and all("Q%d" % i in r1.verdicts() for i in sel):
                    continue      # answered before anything had to be reduced
                raise Fail("not-written", "verifypn %s wrote no net or no queries\n%s" % (ctx.show(a1), r1.brief()))
            a2 = [net2, q2, "-x", ",".join(str(i + 1) for i in range(len(sel))), "--binary-query-io", {"0": "0", "2": "1"}[out], "-r", "0", "-q", "0"] + ltl
            r2 = ctx.vpn(a2)
            got = r2.verdicts()
            for i in sel:
                e = exp[i]
                if got.get("Q%d" % i) is not e:
                    raise Fail("round-trip", "verifypn %s, then verifypn %s: query %d is %s, reference semantics says %s: %s\n%s" % (
                        ctx.show(a1), ctx.show(a2), i, got.get("Q%d" % i), e, show_query(case["queries"][i], v), r2.brief()))
            ctx.label(kind + "-" + out)
    ctx.label("logic-" + case["logic"])


def shrinks(case):
    for i in range(len(case["routes"])):
        if len(case["routes"]) > 1:
            yield dict(case, routes=case["routes"][:i] + case["routes"][i + 1:])
    for c in (CG.case_shrinks(case) if case["cnet"] else S.case_shrinks(case, keep_top=True)):
        yield c


def render(case):
    if case["cnet"]:
        d = c10.render(case)
    else:
        from ..common import render as rd
        d = rd(case)
    d["routes"] = ["%s, output format %s, %s" % (k, b, " ".join(flat(o))) for k, b, o in case["routes"]]
    return d
