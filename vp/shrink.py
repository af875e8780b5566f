"""Candidate reductions of nets and queries; used by the checks' shrinks()."""
import copy
from .query import xml  # noqa: F401


def drop_place(net, i):
    n = copy.deepcopy(net)
    del n["places"][i]
    for t in n["trans"]:
        for k in ("pre", "post", "inh"):
            t[k] = {str(int(p) - (int(p) > i)): w for p, w in t[k].items() if int(p) != i}
    return n


def drop_trans(net, i):
    n = copy.deepcopy(net)
    del n["trans"][i]
    return n


def net_shrinks(net):
    """yields (net, place map, trans map); maps give the new index or None."""
    P, T = len(net["places"]), len(net["trans"])
    for i in range(T):
        yield drop_trans(net, i), list(range(P)), [j - (j > i) if j != i else None for j in range(T)]
    for i in range(P):
        yield drop_place(net, i), [j - (j > i) if j != i else None for j in range(P)], list(range(T))
    idp, idt = list(range(P)), list(range(T))
    for i in range(P):
        v = net["places"][i][1]
        for nv in ([0, v - 1] if v > 1 else [0] if v else []):
            n = copy.deepcopy(net)
            n["places"][i][1] = nv
            yield n, idp, idt
    for i in range(T):
        for k in ("inh", "pre", "post"):
            for p, w in net["trans"][i][k].items():
                n = copy.deepcopy(net)
                del n["trans"][i][k][p]
                yield n, idp, idt
                if w > 1:
                    n = copy.deepcopy(net)
                    n["trans"][i][k][p] = w - 1
                    yield n, idp, idt
        if net["trans"][i].get("env"):
            n = copy.deepcopy(net)
            n["trans"][i]["env"] = False
            yield n, idp, idt


def remap_expr(e, pm):
    k = e[0]
    if k == "lit":
        return e
    if k == "pl":
        return ["pl", pm[e[1]]] if pm[e[1]] is not None else ["lit", 0]
    if k == "sum":
        l = [pm[p] for p in e[1] if pm[p] is not None]
        return ["sum", l] if l else ["lit", 0]
    return [k, [remap_expr(x, pm) for x in e[1]]]


def remap(c, pm, tm):
    k = c[0]
    if k == "cmp":
        return ["cmp", c[1], remap_expr(c[2], pm), remap_expr(c[3], pm)]
    if k == "fire":
        l = [tm[t] for t in c[1] if tm[t] is not None]
        return ["fire", l] if l else ["false"]
    if k == "bound":
        l = [pm[p] for p in c[1] if pm[p] is not None]
        return ["bound", l] if l else None
    if k in ("true", "false", "deadlock", "ksafe", "quasi-liveness", "stable-marking", "liveness"):
        return c
    if k in ("and", "or"):
        return [k, [remap(x, pm, tm) for x in c[1]]]
    return [k] + [remap(x, pm, tm) if isinstance(x, list) else x for x in c[1:]]


def expr_shrinks(e):
    if e[0] == "lit":
        if e[1] not in (0, 1):
            yield ["lit", e[1] - 1 if e[1] > 0 else e[1] + 1]
        return
    if e[0] == "sum":
        for i in range(len(e[1])):
            if len(e[1]) > 1:
                yield ["sum", e[1][:i] + e[1][i + 1:]]
        if len(e[1]) == 1:
            yield ["pl", e[1][0]]
        return
    if e[0] == "pl":
        return
    for x in e[1]:
        yield x
    if len(e[1]) > 2:
        for i in range(len(e[1])):
            yield [e[0], e[1][:i] + e[1][i + 1:]]
    for i, x in enumerate(e[1]):
        for y in expr_shrinks(x):
            yield [e[0], e[1][:i] + [y] + e[1][i + 1:]]


TEMP1 = {"EF", "EG", "AF", "AG", "EX", "AX", "F", "G", "X"}


def cond_shrinks(c, keep_top=False):
    k = c[0]
    if k in ("true", "false", "deadlock", "bound", "ksafe", "quasi-liveness", "stable-marking", "liveness"):
        return
    if k == "fire":
        if len(c[1]) > 1:
            for i in range(len(c[1])):
                yield ["fire", c[1][:i] + c[1][i + 1:]]
        return
    if k == "cmp":
        yield ["true"]
        yield ["false"]
        for y in expr_shrinks(c[2]):
            yield ["cmp", c[1], y, c[3]]
        for y in expr_shrinks(c[3]):
            yield ["cmp", c[1], c[2], y]
        return
    if k in ("and", "or"):
        if not keep_top:
            for x in c[1]:
                yield x
        if len(c[1]) > 2:
            for i in range(len(c[1])):
                yield [k, c[1][:i] + c[1][i + 1:]]
        for i, x in enumerate(c[1]):
            for y in cond_shrinks(x):
                yield [k, c[1][:i] + [y] + c[1][i + 1:]]
        return
    if not keep_top:
        for x in c[1:]:
            if isinstance(x, list):
                yield x
    for i in range(1, len(c)):
        if isinstance(c[i], list):
            for y in cond_shrinks(c[i]):
                yield c[:i] + [y] + c[i + 1:]


def case_shrinks(case, keep_top=True, ok=lambda q: True):
    """case = {net, queries:[..], cfgs:[[..]]}"""
    for key in ("cfgs", "queries"):
        l = case.get(key)
        if l and len(l) > 1:
            for x in l:
                yield dict(case, **{key: [x]})
            if len(l) > 2:
                for i in range(len(l)):
                    yield dict(case, **{key: l[:i] + l[i + 1:]})
    for i, cfg in enumerate(case.get("cfgs", [])):
        for y in cfg_shrinks(cfg):
            yield dict(case, cfgs=case["cfgs"][:i] + [y] + case["cfgs"][i + 1:])
    if case.get("present") is not None:
        yield dict(case, present=None)
    for n, pm, tm in net_shrinks(case["net"]):
        if not n["trans"] and not n["places"]:
            continue
        qs = [remap(q, pm, tm) for q in case.get("queries", [])]
        if any(q is None for q in qs):
            continue
        yield dict(case, net=n, queries=qs)
    for i, q in enumerate(case.get("queries", [])):
        for y in cond_shrinks(q, keep_top):
            if ok(y):
                yield dict(case, queries=case["queries"][:i] + [y] + case["queries"][i + 1:])


def cfg_shrinks(cfg):
    """cfg is a list of option groups (lists of strings)."""
    for i in range(len(cfg)):
        yield cfg[:i] + cfg[i + 1:]
