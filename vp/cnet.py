"""Colored nets: representation, PNML output, naive reference semantics (one P/T place per color, one P/T transition per binding).

A colored net is a JSON-able dict
  types:  [{n, k: dot|enum|range|prod, size, start (range), of: [type index] (prod)}]
  vars:   [[name, type index]]                      (simple types only)
  places: [[name, type index, marking expression or None]]
  trans:  [{n, guard or None, pre: {place: arc}, post: {place: arc}, inh: {place: weight}, env}]
Color expressions: ["var",v] ["const",t,i] ["succ",e] ["pred",e] ["all",t] ["tup",[e..]] ["dot"]
Arc expressions:   ["num",n,e] ["add",[a..]] ["sub",a,b] ["scal",n,a]
Guards:            ["cmp",op,e,e] ["and",[g..]] ["or",[g..]] ["not",g]
Colors are ints (simple types) or tuples of ints (products). Successor and predecessor wrap around.
"""
from itertools import product as iproduct
from xml.sax.saxutils import quoteattr, escape
from . import net as N


class Negative(Exception):
    """A subtraction that is not defined for some binding."""


def tsize(cn, t):
    ty = cn["types"][t]
    if ty["k"] == "prod":
        r = 1
        for x in ty["of"]:
            r *= tsize(cn, x)
        return r
    return ty["size"]


def colors(cn, t):
    ty = cn["types"][t]
    if ty["k"] == "prod":
        return list(iproduct(*[range(cn["types"][x]["size"]) for x in ty["of"]]))
    return list(range(ty["size"]))


def cname(cn, t, i):
    ty = cn["types"][t]
    if ty["k"] == "range":
        return str(ty["start"] + i)
    if ty["k"] == "dot":
        return "dot"
    return "%s%d" % (ty["n"].lower(), i)


def etype(cn, e):
    """type of a simple color expression"""
    k = e[0]
    if k == "var":
        return cn["vars"][e[1]][1]
    if k in ("const", "all"):
        return e[1]
    if k in ("succ", "pred"):
        return etype(cn, e[1])
    if k == "dot":
        return 0
    raise ValueError(e)


def cvals(cn, e, b):
    """list of colors denoted (several when it contains `all`)"""
    k = e[0]
    if k == "var":
        return [b[e[1]]]
    if k == "const":
        return [e[2]]
    if k == "dot":
        return [0]
    if k == "all":
        return colors(cn, e[1])
    if k in ("succ", "pred"):
        n = tsize(cn, etype(cn, e))
        return [(v + (1 if k == "succ" else -1)) % n for v in cvals(cn, e[1], b)]
    if k == "tup":
        return [tuple(x) for x in iproduct(*[cvals(cn, x, b) for x in e[1]])]
    raise ValueError(e)


def aval(cn, a, b):
    """multiset: color -> count > 0"""
    k = a[0]
    r = {}
    if k == "num":
        for c in cvals(cn, a[2], b):
            r[c] = r.get(c, 0) + a[1]
    elif k == "add":
        for x in a[1]:
            for c, n in aval(cn, x, b).items():
                r[c] = r.get(c, 0) + n
    elif k == "sub":
        r = dict(aval(cn, a[1], b))
        for c, n in aval(cn, a[2], b).items():
            r[c] = r.get(c, 0) - n
            if r[c] < 0:
                raise Negative()
    elif k == "scal":
        r = {c: n * a[1] for c, n in aval(cn, a[2], b).items()}
    else:
        raise ValueError(a)
    return {c: n for c, n in r.items() if n}


CMP = {"lt": lambda a, b: a < b, "gt": lambda a, b: a > b, "leq": lambda a, b: a <= b, "geq": lambda a, b: a >= b,
       "eq": lambda a, b: a == b, "neq": lambda a, b: a != b}


def gval(cn, g, b):
    if g is None:
        return True
    k = g[0]
    if k == "cmp":
        return CMP[g[1]](cvals(cn, g[2], b)[0], cvals(cn, g[3], b)[0])
    if k == "and":
        return all(gval(cn, x, b) for x in g[1])
    if k == "or":
        return any(gval(cn, x, b) for x in g[1])
    if k == "not":
        return not gval(cn, g[1], b)
    raise ValueError(g)


def evars(e, out):
    if e is None:
        return
    if e[0] == "var":
        out.add(e[1])
        return
    for x in e[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                evars(x, out)
            else:
                for y in x:
                    if isinstance(y, list):
                        evars(y, out)


def tvars(t):
    s = set()
    evars(t["guard"], s)
    for k in ("pre", "post"):
        for a in t[k].values():
            evars(a, s)
    return sorted(s)


def bindings(cn, t):
    vs = tvars(t)
    for vals in iproduct(*[colors(cn, cn["vars"][v][1]) for v in vs]):
        b = dict(zip(vs, vals))
        if gval(cn, t["guard"], b):
            yield b


def marking0(cn, p):
    m = cn["places"][p][2]
    return aval(cn, m, {}) if m else {}


class Unfolded:
    """ref: P/T net; place_of[i] = (colored place, color); trans_of[j] = (colored transition, binding)"""

    def __init__(self, cn, max_places=120, max_trans=400):
        self.cn = cn
        self.place_of, idx = [], {}
        places = []
        for p, (n, t, _) in enumerate(cn["places"]):
            m0 = marking0(cn, p)
            for c in colors(cn, t):
                idx[p, c] = len(places)
                self.place_of.append((p, c))
                places.append(["%s_%s" % (n, c), m0.get(c, 0)])
                if len(places) > max_places:
                    raise N.TooBig()
        self.idx = idx
        self.trans_of, trans = [], []
        for ti, t in enumerate(cn["trans"]):
            for b in bindings(cn, t):
                d = {"n": "t", "pre": {}, "post": {}, "inh": {}, "env": t.get("env", False)}
                for k in ("pre", "post"):
                    for p, a in t[k].items():
                        for c, n in aval(cn, a, b).items():
                            d[k][str(idx[int(p), c])] = n
                trans.append(d)
                self.trans_of.append((ti, b))
                if len(trans) > max_trans:
                    raise N.TooBig()
        self.ref = N.mk(places, trans)


class CGraph:
    """Reachability graph with the interface of net.Graph; states[i] is the marking projected to token counts of colored places."""

    def __init__(self, cn, max_states=400, max_tok=40, un=None):
        self.cn = cn
        self.un = un = un or Unfolded(cn)
        ct = N.compiled(un.ref)
        nP = len(cn["places"])
        group = [p for p, _ in un.place_of]
        # colored inhibitor arcs count all tokens of the place
        inh = [[(int(p), w) for p, w in t["inh"].items()] for t in cn["trans"]]

        def proj(m):
            r = [0] * nP
            for i, v in enumerate(m):
                if v:
                    r[group[i]] += v
            return tuple(r)
        m0 = tuple(p[1] for p in un.ref["places"])
        index, self.full, self.succ, self.bsucc = {m0: 0}, [m0], [], []
        self.states = [proj(m0)]
        i = 0
        while i < len(self.full):
            m, pm = self.full[i], self.states[i]
            out, bout = [], []
            for k, c in enumerate(ct):
                ti = un.trans_of[k][0]
                if N.enabled(m, c) and all(pm[p] < w for p, w in inh[ti]):
                    n = N.fire(m, c)
                    j = index.get(n)
                    if j is None:
                        if len(self.full) >= max_states:
                            raise N.TooBig()
                        j = len(self.full)
                        index[n] = j
                        self.full.append(n)
                        self.states.append(proj(n))
                        if max(self.states[-1], default=0) > max_tok:
                            raise N.TooBig()
                    out.append((ti, j))
                    bout.append((k, j))
            self.succ.append(out)
            self.bsucc.append(bout)
            i += 1
        self.index = index
        self.next = [sorted({j for _, j in o}) for o in self.succ]
        self.dead = [not o for o in self.succ]

    def __len__(self):
        return len(self.full)

    def edges(self):
        return sum(len(o) for o in self.succ)


def view(cn, g=None):
    """What query generators and printers need: places with counts and transition names."""
    return {"places": [[p[0], sum(marking0(cn, i).values())] for i, p in enumerate(cn["places"])],
            "trans": [{"n": t["n"], "pre": {}, "post": {}, "inh": {}, "env": t.get("env", False)} for t in cn["trans"]]}


# ---------------------------------------------------------------- PNML
def _sub(s):
    return "<subterm>%s</subterm>" % s


def cexml(cn, e):
    k = e[0]
    if k == "var":
        return '<variable refvariable="%s"/>' % cn["vars"][e[1]][0]
    if k == "dot":
        return "<dotconstant/>"
    if k == "const":
        ty = cn["types"][e[1]]
        if ty["k"] == "dot":
            return "<dotconstant/>"
        if ty["k"] == "range":
            return '<finiteintrangeconstant value="%d"><finiteintrange start="%d" end="%d"/></finiteintrangeconstant>' % (
                ty["start"] + e[2], ty["start"], ty["start"] + ty["size"] - 1)
        return '<useroperator declaration="%s"/>' % cname(cn, e[1], e[2])
    if k == "all":
        return '<all><usersort declaration="%s"/></all>' % cn["types"][e[1]]["n"]
    if k in ("succ", "pred"):
        tag = {"succ": "successor", "pred": "predecessor"}[k]
        return "<%s>%s</%s>" % (tag, _sub(cexml(cn, e[1])), tag)
    return "<tuple>%s</tuple>" % "".join(_sub(cexml(cn, x)) for x in e[1])


def axml(cn, a):
    k = a[0]
    num = lambda n: '<numberconstant value="%d"><positive/></numberconstant>' % n
    if k == "num":
        if a[1] == 1 and len(a) > 3 and a[2][0] in ("all", "tup"):  # bare form
            return cexml(cn, a[2])
        return "<numberof>%s%s</numberof>" % (_sub(num(a[1])), _sub(cexml(cn, a[2])))
    if k == "add":
        return "<add>%s</add>" % "".join(_sub(axml(cn, x)) for x in a[1])
    if k == "sub":
        return "<subtract>%s%s</subtract>" % (_sub(axml(cn, a[1])), _sub(axml(cn, a[2])))
    return "<scalarproduct>%s%s</scalarproduct>" % (_sub(num(a[1])), _sub(axml(cn, a[2])))


def gxml(cn, g):
    k = g[0]
    if k == "cmp":
        tag = {"lt": "lessthan", "gt": "greaterthan", "leq": "lessthanorequal", "geq": "greaterthanorequal", "eq": "equality", "neq": "inequality"}[g[1]]
        return "<%s>%s%s</%s>" % (tag, _sub(cexml(cn, g[2])), _sub(cexml(cn, g[3])), tag)
    if k == "not":
        return "<not>%s</not>" % _sub(gxml(cn, g[1]))
    return "<%s>%s</%s>" % (k, "".join(_sub(gxml(cn, x)) for x in g[1]), k)


def to_pnml(cn):
    o = ['<?xml version="1.0"?>\n<pnml xmlns="http://www.pnml.org/version-2009/grammar/pnml">'
         '<net id="n" type="http://www.pnml.org/version-2009/grammar/symmetricnet">', "<declaration><structure><declarations>"]
    for ty in cn["types"]:
        k = ty["k"]
        if k == "dot":
            b = "<dot/>"
        elif k == "enum":
            b = "<cyclicenumeration>%s</cyclicenumeration>" % "".join(
                '<feconstant id="%s%d" name="%s%d"/>' % (ty["n"].lower(), i, ty["n"].lower(), i) for i in range(ty["size"]))
        elif k == "range":
            b = '<finiteintrange start="%d" end="%d"/>' % (ty["start"], ty["start"] + ty["size"] - 1)
        else:
            b = "<productsort>%s</productsort>" % "".join('<usersort declaration="%s"/>' % cn["types"][x]["n"] for x in ty["of"])
        o.append('<namedsort id="%s" name="%s">%s</namedsort>' % (ty["n"], ty["n"], b))
    for n, t in cn["vars"]:
        o.append('<variabledecl id="%s" name="%s"><usersort declaration="%s"/></variabledecl>' % (n, n, cn["types"][t]["n"]))
    o.append('</declarations></structure></declaration><page id="page0">')
    for n, t, m in cn["places"]:
        tn = cn["types"][t]["n"]
        s = "<place id=%s><name><text>%s</text></name><type><text>%s</text><structure><usersort declaration=\"%s\"/></structure></type>" % (quoteattr(n), escape(n), tn, tn)
        if m:
            s += "<hlinitialMarking><structure>%s</structure></hlinitialMarking>" % axml(cn, m)
        o.append(s + "</place>")
    k = 0
    arcs = []
    for t in cn["trans"]:
        g = "<condition><structure>%s</structure></condition>" % gxml(cn, t["guard"]) if t["guard"] else ""
        if t.get("env"):
            g += "<player><value>1</value></player>"
        o.append("<transition id=%s><name><text>%s</text></name>%s</transition>" % (quoteattr(t["n"]), escape(t["n"]), g))
        for kind in ("pre", "post"):
            for p, a in t[kind].items():
                pn = cn["places"][int(p)][0]
                x, y = (pn, t["n"]) if kind == "pre" else (t["n"], pn)
                arcs.append('<arc id="a%d" source=%s target=%s><hlinscription><structure>%s</structure></hlinscription></arc>' % (k, quoteattr(x), quoteattr(y), axml(cn, a)))
                k += 1
        for p, w in t["inh"].items():
            arcs.append('<arc id="a%d" source=%s target=%s type="inhibitor"><inscription><text>%d</text></inscription></arc>' % (k, quoteattr(cn["places"][int(p)][0]), quoteattr(t["n"]), w))
            k += 1
    o += arcs
    o.append("</page></net></pnml>")
    return "\n".join(o)


# ---------------------------------------------------------------- readable form
def show_c(cn, e):
    k = e[0]
    if k == "var":
        return cn["vars"][e[1]][0]
    if k == "const":
        return cname(cn, e[1], e[2])
    if k == "dot":
        return "dot"
    if k == "all":
        return cn["types"][e[1]]["n"] + ".all"
    if k in ("succ", "pred"):
        return show_c(cn, e[1]) + ("++" if k == "succ" else "--")
    return "(%s)" % ",".join(show_c(cn, x) for x in e[1])


def show_a(cn, a):
    k = a[0]
    if k == "num":
        return "%d'%s" % (a[1], show_c(cn, a[2]))
    if k == "add":
        return "(%s)" % " + ".join(show_a(cn, x) for x in a[1])
    if k == "sub":
        return "(%s - %s)" % (show_a(cn, a[1]), show_a(cn, a[2]))
    return "%d*%s" % (a[1], show_a(cn, a[2]))


def show_g(cn, g):
    if g is None:
        return "true"
    k = g[0]
    if k == "cmp":
        return "%s %s %s" % (show_c(cn, g[2]), g[1], show_c(cn, g[3]))
    if k == "not":
        return "not(%s)" % show_g(cn, g[1])
    return "(%s)" % (" %s " % k).join(show_g(cn, x) for x in g[1])


def render(cn):
    f = lambda d: ", ".join("%s: %s" % (cn["places"][int(p)][0], show_a(cn, a)) for p, a in d.items()) or "-"
    return {"types": ["%s %s %s" % (t["n"], t["k"], t.get("of", t.get("size"))) for t in cn["types"]],
            "vars": ["%s: %s" % (n, cn["types"][t]["n"]) for n, t in cn["vars"]],
            "places": ["%s: %s = %s" % (n, cn["types"][t]["n"], show_a(cn, m) if m else "-") for n, t, m in cn["places"]],
            "transitions": ["%s [%s]: %s -> %s%s%s" % (t["n"], show_g(cn, t["guard"]), f(t["pre"]), f(t["post"]),
                            " inh %s" % {cn["places"][int(p)][0]: w for p, w in t["inh"].items()} if t["inh"] else "", " env" if t.get("env") else "") for t in cn["trans"]]}
