"""Query rewriting and simplification keep the meaning of every query."""
from ..common import *

ID = "C06"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net with a batch of CTL, reachability or LTL queries, many shaped like rewrite-rule patterns; the tool writes the "
        "simplified queries, and each of them is evaluated again by the reference on the same net and compared with the original (verdicts printed in "
        "the same run are compared too). Non-trivial: the net has at least 4 markings and at least a third of the written queries differ syntactically "
        "from the input without being constant")
ASSUMPTIONS = ["bounded nets with up to about 80 markings", "reference: textbook CTL/LTL evaluation in Python over the explicit graph",
               "the simplified query is judged in the initial marking (rewriting may use the initial marking)"]
CASES = {"quick": 6000, "thorough": 60000}
TIME = {"quick": 120, "thorough": 1800}


def gen(r, tier):
    net, g = G.bounded_net(r, 1.0, 80, min_states=3, inhib=r.random() < 0.4)
    logic = r.choice(["ctl", "ctl", "reach", "ltl"])
    qs = []
    for _ in range(18):
        if logic == "ctl":
            q = G.shaped_ctl(r, net, g, r.choice([1, 2, 3, 3])) if r.random() < 0.8 else G.proper_ctl(r, net, g, 3)
        elif logic == "reach":
            q = [r.choice(["EF", "AG"]), r.choice([G.range_conj, G.linear_atom, lambda a, b, c: G.rand_state_formula(a, b, c, 2)])(r, net, g)]
            if r.random() < 0.3:
                q = r.choice([["not", q], ["and", [q, ["EF", G.shaped_leaf(r, net, g)]]], ["or", [q, ["AG", G.linear_atom(r, net, g)]]]])
        else:
            q = G.shaped_ltl(r, net, g, r.choice([2, 3]), 4)
        qs.append(q)
    cfg = []
    if r.random() < 0.35:
        cfg.append(["-q", "0"])
    if r.random() < 0.15:
        cfg.append(["-l", "0"])
    if r.random() < 0.1 and logic == "ltl":
        cfg.append(["--compress-aps"])
    return {"net": net, "queries": qs, "cfgs": [cfg], "logic": logic, "present": None}


def judge(case, ctx):
    g = graph(case)
    ltl = case["logic"] == "ltl"
    hold = Q.ltl_holds if ltl else Q.ctl_holds
    exp, keep = [], []
    for i, q in enumerate(case["queries"]):
        try:
            exp.append(hold(q, g))
            keep.append(i)
        except OverflowError:
            exp.append(None)
    if not keep:
        raise Skip()
    m, qf = write_case(case, ctx)
    out = ctx.path("simplified.xml")
    changed = 0
    for cfg in case["cfgs"]:
        args = [m, qf, "-x", ",".join(str(i + 1) for i in keep), "-s", "OverApprox", "--write-simplified", out, "--keep-solved"] + (["-ltl"] if ltl else []) + flat(cfg)
        ctx.write("simplified.xml", "")
        r = ctx.vpn(args)
        for n, v in r.verdicts().items():
            i = int(n[1:])
            if v is not None and v != exp[i]:
                raise Fail("wrong-verdict", "%s answered %s for query %d, reference semantics says %s: %s" % (ctx.show(args), v, i, exp[i], show_query(case["queries"][i], case["net"])))
        text = open(out).read()
        try:
            res = Q.from_xml(text, case["net"])
            if not ltl:
                res = {k: Q.to_ctl(v) for k, v in res.items()}
        except Exception as e:
            raise Fail("unreadable", "the simplified queries cannot be read back (%s: %s): %s" % (type(e).__name__, e, text[:600]))
        for i in keep:
            q = res.get("Q%d" % i)
            if q is None:
                raise Fail("lost-query", "%s wrote no simplified version of query %d: %s\n%s" % (ctx.show(args), i, show_query(case["queries"][i], case["net"]), r.brief()))
            if q != case["queries"][i] and q[0] not in ("true", "false"):
                changed += 1
            try:
                # a formula without path quantifier is a statement about the initial marking
                v = Q.ltl_holds(q if q[0] in ("A", "E") else ["A", q], g) if ltl else Q.ctl_holds(q, g)
            except OverflowError:
                ctx.label("reference-too-big")
                continue
            if v != exp[i]:
                raise Fail("rewritten", "%s rewrote query %d, which is %s, to one that is %s: %s  became  %s" % (
                    ctx.show(args), i, exp[i], v, show_query(case["queries"][i], case["net"]), _safe(q, case["net"])))
    ctx.nontrivial = len(g) >= 4 and changed * 3 >= len(keep)
    ctx.label("queries", len(keep))
    ctx.label("queries-changed", changed)
    ctx.label("logic-" + case["logic"])


def _safe(q, net):
    try:
        return Q.pql(q, net)
    except Exception:
        return str(q)


def shrinks(case):
    return S.case_shrinks(case, keep_top=case["logic"] != "ctl")
