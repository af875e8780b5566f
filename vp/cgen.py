"""Generators and shrinkers of colored nets."""
import copy
from . import cnet as C, net as N, shrink as S


def rand_types(r):
    ts = [{"n": "dot", "k": "dot", "size": 1}]
    n = r.choice([1, 1, 2, 2, 3])
    for i in range(n):
        k = r.choice(["enum", "enum", "range"])
        t = {"n": "ABC"[i], "k": k, "size": r.choice([1, 2, 2, 3, 3, 4])}
        if k == "range":
            t["start"] = r.choice([0, 1, 1, 2]) + 10 * i   # ranges with equal ends would be ambiguous in a constant
        ts.append(t)
    if r.random() < 0.55:
        simple = list(range(1, n + 1))
        for j in range(r.choice([1, 1, 2])):
            of = [r.choice(simple) for _ in range(r.choice([2, 2, 2, 3]))]
            if r.random() < 0.1:
                of[r.randrange(len(of))] = 0
            if all(t.get("of") != of for t in ts):   # see ASSUMPTIONS of C10
                ts.append({"n": "XY"[j], "k": "prod", "of": of})
    return ts


def simple_types(cn):
    return [i for i, t in enumerate(cn["types"]) if t["k"] != "prod"]


def rand_simple(r, cn, t, pool, succ=0.2, const=0.15, allp=0.06):
    """color expression of simple type t; pool: variables to prefer"""
    ty = cn["types"][t]
    x = r.random()
    if ty["k"] == "dot":
        return ["dot"]
    if x < allp:
        return ["all", t]
    if x < allp + const:
        return ["const", t, r.randrange(ty["size"])]
    vs = [v for v, (n, vt) in enumerate(cn["vars"]) if vt == t]
    pref = [v for v in vs if v in pool]
    if not vs:
        return ["const", t, r.randrange(ty["size"])]
    v = r.choice(pref) if pref and r.random() < 0.85 else r.choice(vs)
    e = ["var", v]
    while r.random() < succ:
        e = [r.choice(["succ", "pred"]), e]
    return e


def rand_color(r, cn, t, pool, **kw):
    ty = cn["types"][t]
    if ty["k"] == "prod":
        return ["tup", [rand_simple(r, cn, x, pool, **kw) for x in ty["of"]]] if r.random() > 0.04 else ["all", t]
    return rand_simple(r, cn, t, pool, **kw)


def rand_arc(r, cn, t, pool, rich=0.35):
    x = r.random()
    num = lambda: ["num", 1 if r.random() < 0.85 else 2, rand_color(r, cn, t, pool)]
    if x > rich:
        a = num()
    elif x < rich * 0.35:
        a = ["add", [num() for _ in range(r.choice([1, 2, 2, 3]))]]
    elif x < rich * 0.6:
        b = rand_color(r, cn, t, pool, allp=0)
        a = ["sub", ["num", 1, ["all", t]], ["num", 1, b]]
    elif x < rich * 0.75:
        a = ["scal", r.choice([1, 2]), num()]
    else:
        y, z = num(), num()
        a = r.choice([["sub", ["add", [y, z]], y], ["sub", ["num", y[1] + 1, y[2]], ["num", 1, y[2]]], ["add", [y, ["sub", ["add", [z, z]], z]]]])
    if a[0] == "num" and a[1] == 1 and a[2][0] in ("all", "tup") and r.random() < 0.2:
        a = a + ["bare"]
    return a


def rand_guard(r, cn, pool, depth=2):
    x = r.random()
    if depth == 0 or x < 0.5:
        ts = [cn["vars"][v][1] for v in pool] or [v[1] for v in cn["vars"]]
        t = r.choice(ts)
        l = rand_simple(r, cn, t, pool, const=0, allp=0)
        rr = rand_simple(r, cn, t, pool, const=0.45, allp=0)
        if r.random() < 0.3:
            l, rr = rr, l
        return ["cmp", r.choice(["lt", "gt", "leq", "geq", "eq", "eq", "neq", "neq"]), l, rr]
    if x < 0.62:
        return ["not", rand_guard(r, cn, pool, depth - 1)]
    return [r.choice(["and", "or"]), [rand_guard(r, cn, pool, depth - 1) for _ in range(r.choice([2, 2, 2, 3]))]]


def const_marking(r, cn, t, total):
    cs = C.colors(cn, t)
    l = []
    if r.random() < 0.15:
        return ["num", 1, ["all", t]]
    for _ in range(total):
        c = r.choice(cs)
        l.append(["num", 1 if r.random() < 0.85 else 2, cexpr(cn, t, c)])
    return l[0] if len(l) == 1 and r.random() < 0.5 else ["add", l]


def cexpr(cn, t, c):
    ty = cn["types"][t]
    if ty["k"] == "prod":
        return ["tup", [cexpr(cn, x, y) for x, y in zip(ty["of"], c)]]
    return ["dot"] if ty["k"] == "dot" else ["const", t, c]


def rand_cnet(r, size=1.0, inhib=True, env=False):
    cn = {"types": rand_types(r), "vars": [], "places": [], "trans": []}
    st = [t for t in simple_types(cn) if cn["types"][t]["k"] != "dot"]
    names = "xyzuvwpq"
    for t in st:
        for _ in range(r.choice([1, 2, 2, 2, 3])):
            if len(cn["vars"]) < len(names):
                cn["vars"].append([names[len(cn["vars"])], t])
    nP = r.randint(2, max(3, int(4 * size)))
    for i in range(nP):
        t = r.choice(range(len(cn["types"])))
        if cn["types"][t]["k"] == "dot" and r.random() < 0.5:
            t = r.choice(st)
        k = r.choice([0, 0, 1, 1, 2, 3])
        cn["places"].append(["P%d" % i, t, const_marking(r, cn, t, k) if k else None])
    if not any(p[2] for p in cn["places"]):
        cn["places"][0][2] = const_marking(r, cn, cn["places"][0][1], 2)
    nT = r.randint(1, max(2, int(4 * size)))
    for i in range(nT):
        t = {"n": "T%d" % i, "guard": None, "pre": {}, "post": {}, "inh": {}, "env": bool(env and r.random() < 0.45)}
        pool = set()
        # a few variables, reused by all arcs of the transition
        if cn["vars"]:
            pool = set(r.sample(range(len(cn["vars"])), min(len(cn["vars"]), r.choice([1, 2, 2, 3]))))
        rich = r.choice([0.0, 0.15, 0.3, 0.6])
        for p in r.sample(range(nP), min(nP, r.choice([0, 1, 1, 1, 1, 2, 2, 3]))):
            t["pre"][str(p)] = rand_arc(r, cn, cn["places"][p][1], pool, rich)
        used = set()
        for a in t["pre"].values():
            C.evars(a, used)
        opool = used or pool
        for p in r.sample(range(nP), min(nP, r.choice([0, 1, 1, 1, 1, 2, 2]))):
            if r.random() < 0.15 and str(p) in t["pre"]:
                t["post"][str(p)] = copy.deepcopy(t["pre"][str(p)])
                continue
            t["post"][str(p)] = rand_arc(r, cn, cn["places"][p][1], opool if r.random() < 0.9 else pool, rich)
        if r.random() < 0.45 and cn["vars"]:
            t["guard"] = rand_guard(r, cn, sorted(used or pool), r.choice([0, 1, 1, 2]))
        if inhib and r.random() < 0.08:
            p = r.randrange(nP)
            if str(p) not in t["pre"]:
                t["inh"][str(p)] = r.choice([1, 1, 2, 3])
        cn["trans"].append(t)
    # shapes that partitioning and symmetric variables look for
    x = r.random()
    if x < 0.16 and st:
        prods = [i for i, t in enumerate(cn["types"]) if t["k"] == "prod"]
        v2 = [(a, b) for a in range(len(cn["vars"])) for b in range(a + 1, len(cn["vars"])) if cn["vars"][a][1] == cn["vars"][b][1]]
        if v2:
            a, b = r.choice(v2)
            ty = cn["vars"][a][1]
            ps = [i for i, p in enumerate(cn["places"]) if p[1] == ty]
            if ps:
                p = r.choice(ps)
                t = {"n": "T%d" % len(cn["trans"]), "guard": None, "pre": {str(p): ["add", [["num", 1, ["var", a]], ["num", 1, ["var", b]]]]}, "post": {}, "inh": {}, "env": False}
                q = r.randrange(nP)
                if r.random() < 0.35:
                    q = r.choice(ps)
                    t["post"][str(q)] = ["add", [["num", 1, ["var", a]], ["num", r.choice([1, 1, 2]), r.choice([["var", b], ["var", b], ["var", b], ["succ", ["var", b]]])]]]
                elif r.random() < 0.7:
                    t["post"][str(q)] = rand_arc(r, cn, cn["places"][q][1], {a, b}, 0.1)
                if r.random() < 0.4:
                    t["guard"] = ["cmp", r.choice(["neq", "eq", "lt"]), ["var", a], ["var", b]]
                cn["trans"].append(t)
    elif x < 0.24 and st:
        # long chain copying a color around: partitions stay coarse
        ty = r.choice(st)
        vs = [v for v, (n, vt) in enumerate(cn["vars"]) if vt == ty]
        if vs:
            k = len(cn["places"])
            cn["places"].append(["P%d" % k, ty, const_marking(r, cn, ty, 1)])
            cn["places"].append(["P%d" % (k + 1), ty, None])
            cn["trans"].append({"n": "T%d" % len(cn["trans"]), "guard": None, "pre": {str(k): ["num", 1, ["var", vs[0]]]}, "post": {str(k + 1): ["num", 1, ["var", vs[0]]]}, "inh": {}, "env": False})
            cn["trans"].append({"n": "T%d" % len(cn["trans"]), "guard": ["cmp", r.choice(["eq", "lt", "geq"]), ["var", vs[-1]], ["const", ty, r.randrange(cn["types"][ty]["size"])]],
                                "pre": {str(k + 1): ["num", 1, ["var", vs[-1]]]}, "post": {str(k): ["num", 1, r.choice([["var", vs[-1]], ["succ", ["var", vs[-1]]]])]}, "inh": {}, "env": False})
    return cn


def bounded_cnet(r, size=1.0, max_states=250, min_states=2, tries=80, inhib=True, env=False):
    best = None
    for _ in range(tries):
        cn = rand_cnet(r, size, inhib, env)
        try:
            un = C.Unfolded(cn, 90, 250)
            g = C.CGraph(cn, max_states, 30, un)
        except (N.TooBig, C.Negative):
            continue
        if len(g) >= min_states:
            return cn, g
        best = best or (cn, g)
    if best:
        return best
    cn = {"types": [{"n": "dot", "k": "dot", "size": 1}, {"n": "A", "k": "enum", "size": 2}], "vars": [["x", 1]],
          "places": [["P0", 1, ["num", 1, ["all", 1]]], ["P1", 1, None]],
          "trans": [{"n": "T0", "guard": None, "pre": {"0": ["num", 1, ["var", 0]]}, "post": {"1": ["num", 1, ["var", 0]]}, "inh": {}, "env": False}]}
    return cn, C.CGraph(cn)


# ---------------------------------------------------------------- shrinking
def c_shrinks(cn, e):
    k = e[0]
    if k in ("succ", "pred"):
        yield e[1]
        for x in c_shrinks(cn, e[1]):
            yield [k, x]
    elif k == "tup":
        for i, x in enumerate(e[1]):
            for y in c_shrinks(cn, x):
                yield ["tup", e[1][:i] + [y] + e[1][i + 1:]]
    elif k in ("var", "all") and not (k == "all" and cn["types"][e[1]]["k"] == "prod"):
        t = C.etype(cn, e)
        if cn["types"][t]["k"] != "dot":
            yield ["const", t, 0]


def a_shrinks(cn, a):
    k = a[0]
    if k == "num":
        if len(a) > 3:
            yield a[:3]
        if a[1] > 1:
            yield ["num", a[1] - 1, a[2]]
        for x in c_shrinks(cn, a[2]):
            yield ["num", a[1], x]
    elif k == "add":
        for x in a[1]:
            yield x
        if len(a[1]) > 2:
            for i in range(len(a[1])):
                yield ["add", a[1][:i] + a[1][i + 1:]]
        for i, x in enumerate(a[1]):
            for y in a_shrinks(cn, x):
                yield ["add", a[1][:i] + [y] + a[1][i + 1:]]
    elif k == "sub":
        yield a[1]
        for y in a_shrinks(cn, a[1]):
            yield ["sub", y, a[2]]
        for y in a_shrinks(cn, a[2]):
            yield ["sub", a[1], y]
    else:
        yield a[2]
        for y in a_shrinks(cn, a[2]):
            yield ["scal", a[1], y]


def g_shrinks(cn, g):
    if g is None:
        return
    yield None
    k = g[0]
    if k == "not":
        yield g[1]
        for x in g_shrinks(cn, g[1]):
            if x:
                yield ["not", x]
    elif k in ("and", "or"):
        for x in g[1]:
            yield x
        if len(g[1]) > 2:
            for i in range(len(g[1])):
                yield [k, g[1][:i] + g[1][i + 1:]]
        for i, x in enumerate(g[1]):
            for y in g_shrinks(cn, x):
                if y:
                    yield [k, g[1][:i] + [y] + g[1][i + 1:]]
    else:
        for i in (2, 3):
            for y in c_shrinks(cn, g[i]):
                yield g[:i] + [y] + g[i + 1:]


def shift(e, lim):
    pass


def max_const(e, t):
    """largest constant of type t used anywhere inside e"""
    if not isinstance(e, (list, tuple)):
        return -1
    if len(e) == 3 and e[0] == "const" and e[1] == t:
        return e[2]
    return max([max_const(x, t) for x in e] + [-1]) if len(e) else -1


def cnet_shrinks(cn):
    """yields (net, place map, trans map)"""
    P, T = len(cn["places"]), len(cn["trans"])
    idp, idt = list(range(P)), list(range(T))
    for i in range(T):
        n = copy.deepcopy(cn)
        del n["trans"][i]
        yield n, idp, [j - (j > i) if j != i else None for j in range(T)]
    if P > 1:
        for i in range(P):
            n = copy.deepcopy(cn)
            del n["places"][i]
            for t in n["trans"]:
                for k in ("pre", "post", "inh"):
                    t[k] = {str(int(p) - (int(p) > i)): w for p, w in t[k].items() if int(p) != i}
            yield n, [j - (j > i) if j != i else None for j in range(P)], idt
    for i in range(P):
        m = cn["places"][i][2]
        if m:
            for y in [None] + list(a_shrinks(cn, m)):
                n = copy.deepcopy(cn)
                n["places"][i][2] = y
                yield n, idp, idt
    for i in range(T):
        t = cn["trans"][i]
        for y in g_shrinks(cn, t["guard"]):
            n = copy.deepcopy(cn)
            n["trans"][i]["guard"] = y
            yield n, idp, idt
        for k in ("inh", "pre", "post"):
            for p in t[k]:
                n = copy.deepcopy(cn)
                del n["trans"][i][k][p]
                yield n, idp, idt
                if k != "inh":
                    for y in a_shrinks(cn, t[k][p]):
                        n = copy.deepcopy(cn)
                        n["trans"][i][k][p] = y
                        yield n, idp, idt
                elif t[k][p] > 1:
                    n = copy.deepcopy(cn)
                    n["trans"][i][k][p] -= 1
                    yield n, idp, idt
        if t.get("env"):
            n = copy.deepcopy(cn)
            n["trans"][i]["env"] = False
            yield n, idp, idt
    for j, t in enumerate(cn["types"]):
        if t["k"] in ("enum", "range") and t["size"] > 1 and max_const([cn["places"], [[x["guard"], list(x["pre"].values()), list(x["post"].values())] for x in cn["trans"]]], j) < t["size"] - 1:
            n = copy.deepcopy(cn)
            n["types"][j]["size"] -= 1
            yield n, idp, idt
    # drop unused variables and trailing unused types
    used = set()
    for t in cn["trans"]:
        used |= set(C.tvars(t))
    for v in range(len(cn["vars"]) - 1, -1, -1):
        if v not in used and v == len(cn["vars"]) - 1:
            n = copy.deepcopy(cn)
            n["vars"].pop()
            yield n, idp, idt
    last = len(cn["types"]) - 1
    if last > 0 and all(p[1] != last for p in cn["places"]) and all(v[1] != last for v in cn["vars"]) and all(last not in t.get("of", []) for t in cn["types"]) \
            and not _mentions(cn["trans"], last) and not _mentions(cn["places"], last):
        n = copy.deepcopy(cn)
        n["types"].pop()
        yield n, idp, idt


def _mentions(e, t):
    if isinstance(e, dict):
        return any(_mentions(x, t) for x in e.values())
    if isinstance(e, (list, tuple)):
        if len(e) >= 2 and e[0] in ("const", "all") and e[1] == t:
            return True
        return any(_mentions(x, t) for x in e)
    return False


def case_shrinks(case, keep_top=True):
    """case = {cnet, queries, cfgs}"""
    for key in ("cfgs", "queries"):
        l = case.get(key)
        if l and len(l) > 1:
            for x in l:
                yield dict(case, **{key: [x]})
            if len(l) > 2:
                for i in range(len(l)):
                    yield dict(case, **{key: l[:i] + l[i + 1:]})
    for i, cfg in enumerate(case.get("cfgs", [])):
        for y in S.cfg_shrinks(cfg):
            yield dict(case, cfgs=case["cfgs"][:i] + [y] + case["cfgs"][i + 1:])
    for n, pm, tm in cnet_shrinks(case["cnet"]):
        qs = [S.remap(q, pm, tm) for q in case.get("queries", [])]
        if any(q is None for q in qs):
            continue
        yield dict(case, cnet=n, queries=qs)
    for i, q in enumerate(case.get("queries", [])):
        for y in S.cond_shrinks(q, keep_top):
            yield dict(case, queries=case["queries"][:i] + [y] + case["queries"][i + 1:])
