"""Pieces shared by the P/T-net checks."""
from . import net as N, query as Q, gen as G, shrink as S
from .core import Fail, Skip
import random


def flat(cfg):
    return [x for g in cfg for x in g]


def graph(case, cap=3000):
    try:
        return N.Graph(case["net"], cap, 200)
    except N.TooBig:
        raise Skip()


def write_case(case, ctx, qnames=None):
    rng = random.Random(case["present"]) if case.get("present") is not None else None
    m = ctx.write("model.pnml", N.to_pnml(case["net"], rng))
    q = ctx.write("query.xml", Q.to_xml(case["queries"], case["net"], qnames))
    return m, q


def xlist(n, start=1):
    return ",".join(str(i) for i in range(start, start + n))


def show_query(q, net):
    return Q.xml(q, net) if Q.any_op(q, {"bound", "ksafe", "quasi-liveness", "stable-marking", "liveness"}) else Q.pql(q, net)


def check_verdicts(case, ctx, expected, cfg, m, q, extra=(), allow_unknown=False, only=None):
    """Runs one configuration over all queries and compares the FORMULA lines."""
    idx = only if only is not None else list(range(len(case["queries"])))
    args = [m, q, "-x", ",".join(str(i + 1) for i in idx)] + list(extra) + flat(cfg)
    r = ctx.vpn(args)
    v = r.verdicts()
    for i in idx:
        got = v.get("Q%d" % i, "missing")
        if got == "missing" or got is None:
            if allow_unknown:
                ctx.label("unknown")
                continue
            raise Fail("no-verdict", "%s gave no verdict for query %d: %s\n%s" % (ctx.show(args), i, show_query(case["queries"][i], case["net"]), r.brief()))
        if got is not expected[i] and got != expected[i]:
            raise Fail("wrong-verdict", "%s answered %s for query %d, reference semantics says %s: %s" % (
                ctx.show(args), got, i, expected[i], show_query(case["queries"][i], case["net"])))
    return r


def render(case):
    net = case["net"]
    f = lambda d: "+".join("%s%s" % ("%d*" % w if w != 1 else "", net["places"][int(p)][0]) for p, w in d.items()) or "-"
    return {"marking": {n: i for n, i in net["places"]},
            "transitions": ["%s: %s -> %s%s%s" % (t["n"], f(t["pre"]), f(t["post"]), " inh " + f(t["inh"]) if t["inh"] else "", " env" if t.get("env") else "") for t in net["trans"]],
            "queries": [_safe(q, net) for q in case.get("queries", [])], "options": [" ".join(flat(c)) for c in case.get("cfgs", [])]}


def _safe(q, net):
    try:
        return show_query(q, net)
    except Exception:
        return q
