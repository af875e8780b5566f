"""Query ASTs (JSON-able lists), their XML / textual PQL renderings, and reference evaluation.

Expressions: ["lit",n] ["pl",p] ["sum",[p,..]] ["+",[e..]] ["*",[e..]] ["-",[e..]]
Conditions:  ["true"] ["false"] ["deadlock"] ["fire",[t..]] ["cmp",op,e,e] ["not",c] ["and",[c..]] ["or",[c..]]
             ["xor",a,b] ["imp",a,b] ["equiv",a,b]
CTL:         ["EF",c] ["EG",c] ["AF",c] ["AG",c] ["EX",c] ["AX",c] ["EU",a,b] ["AU",a,b]
LTL:         ["A",c] / ["E",c] around ["F",c] ["G",c] ["X",c] ["U",a,b]
Places and transitions are referred to by index.
"""
from xml.sax.saxutils import escape

OPS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
       "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
PQL_OP = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
CTL_OPS = {"EF", "EG", "AF", "AG", "EX", "AX", "EU", "AU"}
LTL_OPS = {"F", "G", "X", "U"}


# ---------------------------------------------------------------- rendering
def expr_xml(e, net):
    k = e[0]
    pl = lambda p: "<place>%s</place>" % escape(net["places"][p][0])
    if k == "lit":
        return "<integer-constant>%d</integer-constant>" % e[1]
    if k == "pl":
        return "<tokens-count>%s</tokens-count>" % pl(e[1])
    if k == "sum":
        return "<tokens-count>%s</tokens-count>" % "".join(pl(p) for p in e[1])
    tag = {"+": "integer-sum", "*": "integer-product", "-": "integer-difference"}[k]
    return "<%s>%s</%s>" % (tag, "".join(expr_xml(x, net) for x in e[1]), tag)


def xml(c, net):
    k = c[0]
    w = lambda tag, s: "<%s>%s</%s>" % (tag, s, tag)
    if k in ("true", "false", "deadlock"):
        return "<%s/>" % k
    if k == "fire":
        return w("is-fireable", "".join(w("transition", escape(net["trans"][t]["n"])) for t in c[1]))
    if k == "cmp":
        return w("integer-" + c[1], expr_xml(c[2], net) + expr_xml(c[3], net))
    if k == "not":
        return w("negation", xml(c[1], net))
    if k == "and":
        return w("conjunction", "".join(xml(x, net) for x in c[1]))
    if k == "or":
        return w("disjunction", "".join(xml(x, net) for x in c[1]))
    if k in ("xor", "imp", "equiv"):
        return w({"xor": "exclusive-disjunction", "imp": "implication", "equiv": "equivalence"}[k],
                 xml(c[1], net) + xml(c[2], net))
    if k in ("A", "E"):
        return w("all-paths" if k == "A" else "exists-path", xml(c[1], net))
    if k in ("AU", "EU"):
        return w("all-paths" if k == "AU" else "exists-path", xml(["U", c[1], c[2]], net))
    if k == "U":
        return w("until", w("before", xml(c[1], net)) + w("reach", xml(c[2], net)))
    if k in ("F", "G", "X"):
        return w({"F": "finally", "G": "globally", "X": "next"}[k], xml(c[1], net))
    if k in ("control",):
        return w("control", xml(c[1], net))
    if k == "bound":
        return w("place-bound", "".join(w("place", escape(net["places"][p][0])) for p in c[1]))
    if k in ("ksafe",):
        return "<k-safe><integer-constant>%d</integer-constant></k-safe>" % c[1]
    if k in ("quasi-liveness", "stable-marking", "liveness"):
        return "<%s/>" % k
    return w("all-paths" if k[0] == "A" else "exists-path", xml([k[1], c[1]], net))


def to_xml(queries, net, names=None):
    o = ['<?xml version="1.0"?>\n<property-set xmlns="http://tapaal.net/">']
    for i, q in enumerate(queries):
        o.append("<property><id>%s</id><description>d</description><formula>%s</formula></property>" %
                 (names[i] if names else "Q%d" % i, xml(q, net)))
    o.append("</property-set>\n")
    return "\n".join(o)


def expr_pql(e, net):
    k = e[0]
    q = lambda p: '"%s"' % net["places"][p][0]
    if k == "lit":
        return str(e[1]) if e[1] >= 0 else "(- %d)" % -e[1]
    if k == "pl":
        return q(e[1])
    if k == "sum":
        return "(" + " + ".join(q(p) for p in e[1]) + ")"
    if k == "-" and len(e[1]) == 1:
        return "(- %s)" % expr_pql(e[1][0], net)
    return "(" + (" %s " % k).join(expr_pql(x, net) for x in e[1]) + ")"


def pql(c, net):
    """Fully parenthesised textual query."""
    k = c[0]
    if k in ("true", "false", "deadlock"):
        return k
    if k == "fire":
        return "is-fireable(%s)" % ", ".join('"%s"' % net["trans"][t]["n"] for t in c[1])
    if k == "cmp":
        return "(%s %s %s)" % (expr_pql(c[2], net), PQL_OP[c[1]], expr_pql(c[3], net))
    if k == "not":
        return "(not (%s))" % pql(c[1], net)
    if k in ("and", "or"):
        return "(" + (" %s " % k).join("(%s)" % pql(x, net) for x in c[1]) + ")"
    if k == "imp":
        return pql(["or", [["not", c[1]], c[2]]], net)
    if k == "xor":
        return pql(["or", [["and", [c[1], ["not", c[2]]]], ["and", [["not", c[1]], c[2]]]]], net)
    if k == "equiv":
        return pql(["or", [["and", [c[1], c[2]]], ["and", [["not", c[1]], ["not", c[2]]]]]], net)
    if k in ("AU", "EU"):
        return "(%s ((%s) U (%s)))" % (k[0], pql(c[1], net), pql(c[2], net))
    if k == "U":
        return "((%s) U (%s))" % (pql(c[1], net), pql(c[2], net))
    if k == "control":
        return "control: %s" % pql(c[1], net)
    return "(%s (%s))" % (k, pql(c[1], net))


# ---------------------------------------------------------------- evaluation
def ev(e, m):
    k = e[0]
    if k == "lit":
        return e[1]
    if k == "pl":
        return m[e[1]]
    if k == "sum":
        return sum(m[p] for p in e[1])
    vs = [ev(x, m) for x in e[1]]
    if k == "+":
        return sum(vs)
    if k == "*":
        r = 1
        for v in vs:
            r *= v
        return r
    if len(vs) == 1:
        return -vs[0]
    r = vs[0]
    for v in vs[1:]:
        r -= v
    return r


def state_set(c, g, fireable=None):
    """Set of state indices of graph g satisfying the CTL formula c (bool list)."""
    n = len(g)
    k = c[0]
    if k == "true":
        return [True] * n
    if k == "false":
        return [False] * n
    if k == "deadlock":
        return list(g.dead)
    if k == "fire":
        ts = set(c[1])
        return [any(t in ts for t, _ in g.succ[i]) for i in range(n)]
    if k == "cmp":
        op = OPS[c[1]]
        return [op(ev(c[2], m), ev(c[3], m)) for m in g.states]
    if k == "not":
        return [not x for x in state_set(c[1], g)]
    if k == "and":
        ss = [state_set(x, g) for x in c[1]]
        return [all(s[i] for s in ss) for i in range(n)]
    if k == "or":
        ss = [state_set(x, g) for x in c[1]]
        return [any(s[i] for s in ss) for i in range(n)]
    if k == "xor":
        a, b = state_set(c[1], g), state_set(c[2], g)
        return [a[i] != b[i] for i in range(n)]
    if k == "imp":
        a, b = state_set(c[1], g), state_set(c[2], g)
        return [(not a[i]) or b[i] for i in range(n)]
    if k == "equiv":
        a, b = state_set(c[1], g), state_set(c[2], g)
        return [a[i] == b[i] for i in range(n)]
    if k == "EX":
        a = state_set(c[1], g)
        return [any(a[j] for j in g.next[i]) for i in range(n)]
    if k == "AX":
        a = state_set(c[1], g)
        return [all(a[j] for j in g.next[i]) for i in range(n)]
    if k == "EF":
        return _eu([True] * n, state_set(c[1], g), g)
    if k == "AG":
        return [not x for x in _eu([True] * n, [not x for x in state_set(c[1], g)], g)]
    if k == "EU":
        return _eu(state_set(c[1], g), state_set(c[2], g), g)
    if k == "AF":
        return _au([True] * n, state_set(c[1], g), g)
    if k == "EG":
        return [not x for x in _au([True] * n, [not x for x in state_set(c[1], g)], g)]
    if k == "AU":
        return _au(state_set(c[1], g), state_set(c[2], g), g)
    raise ValueError(k)


def _pred(g):
    if not hasattr(g, "pred"):
        g.pred = [[] for _ in range(len(g))]
        for i, o in enumerate(g.next):
            for j in o:
                g.pred[j].append(i)
    return g.pred


def _eu(a, b, g):
    pred = _pred(g)
    r = list(b)
    st = [i for i in range(len(g)) if b[i]]
    while st:
        j = st.pop()
        for i in pred[j]:
            if not r[i] and a[i]:
                r[i] = True
                st.append(i)
    return r


def _au(a, b, g):
    # finite maximal paths: at a deadlock, only b counts
    pred = _pred(g)
    r = list(b)
    cnt = [len(o) for o in g.next]
    st = [i for i in range(len(g)) if b[i]]
    while st:
        j = st.pop()
        for i in pred[j]:
            cnt[i] -= 1
            if not r[i] and a[i] and cnt[i] == 0:
                r[i] = True
                st.append(i)
    return r


# ---------------------------------------------------------------- LTL (infinite runs, deadlocks stutter)
def _prop(c):
    return not any_op(c, LTL_OPS)


def any_op(c, ops):
    if c[0] in ops:
        return True
    if c[0] in ("cmp", "fire", "true", "false", "deadlock", "bound") or len(c) < 2:
        return False
    for x in c[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                if any_op(x, ops):
                    return True
            else:
                if any(any_op(y, ops) for y in x if isinstance(y, list)):
                    return True
    return False


class LTLEval:
    """Decides whether some run of g from its initial state satisfies the path formula f.

    Nodes are (state, truth values of all temporal subformulae); an edge is kept when the
    one-step expansion laws hold; a run must fulfil every eventuality. Exponential but simple.
    """

    def __init__(self, f, g):
        self.g = g
        self.temps = []
        self.props = {}
        self._collect(f)
        self.f = f

    def _key(self, c):
        return repr(c)

    def _collect(self, c):
        if _prop(c):
            k = self._key(c)
            if k not in self.props:
                self.props[k] = state_set(c, self.g)
            return
        k = c[0]
        if k in LTL_OPS:
            for x in c[1:]:
                self._collect(x)
            if self._key(c) not in [t[0] for t in self.temps]:
                self.temps.append((self._key(c), c))
        elif k in ("and", "or"):
            for x in c[1]:
                self._collect(x)
        else:
            for x in c[1:]:
                self._collect(x)

    def val(self, c, s, bits):
        if _prop(c):
            return self.props[self._key(c)][s]
        k = c[0]
        if k in LTL_OPS:
            return bits[self.pos[self._key(c)]]
        if k == "not":
            return not self.val(c[1], s, bits)
        if k == "and":
            return all(self.val(x, s, bits) for x in c[1])
        if k == "or":
            return any(self.val(x, s, bits) for x in c[1])
        if k == "imp":
            return (not self.val(c[1], s, bits)) or self.val(c[2], s, bits)
        if k == "xor":
            return self.val(c[1], s, bits) != self.val(c[2], s, bits)
        if k == "equiv":
            return self.val(c[1], s, bits) == self.val(c[2], s, bits)
        raise ValueError(k)

    def exists(self, cap=60000):
        from itertools import product
        g = self.g
        self.pos = {k: i for i, (k, _) in enumerate(self.temps)}
        T = [c for _, c in self.temps]
        nt = len(T)
        if len(g) * (1 << nt) > cap:
            raise OverflowError
        allbits = list(product((False, True), repeat=nt))
        # per state: operand values for every assignment
        info = []
        for s in range(len(g)):
            row = {}
            for b in allbits:
                row[b] = tuple((self.val(c[1], s, b), self.val(c[2], s, b) if c[0] == "U" else None) for c in T)
            info.append(row)

        def consistent(s, b):
            # local part of expansion: F: operand => F ; G: G => operand ; U: psi=>U, U=>phi|psi
            for i, c in enumerate(T):
                x, y = info[s][b][i]
                if c[0] == "F" and x and not b[i]:
                    return False
                if c[0] == "G" and b[i] and not x:
                    return False
                if c[0] == "U" and ((y and not b[i]) or (b[i] and not (x or y))):
                    return False
            return True

        def edge(s, b, s2, b2):
            for i, c in enumerate(T):
                x, y = info[s][b][i]
                k = c[0]
                if k == "X":
                    if b[i] != info[s2][b2][i][0]:
                        return False
                elif k == "F":
                    if b[i] != (x or b2[i]):
                        return False
                elif k == "G":
                    if b[i] != (x and b2[i]):
                        return False
                else:
                    if b[i] != (y or (x and b2[i])):
                        return False
            return True
        good = [[b for b in allbits if consistent(s, b)] for s in range(len(g))]
        init = [(0, b) for b in good[0] if self.val(self.f, 0, b)]
        succs = {}
        seen = set(init)
        st = list(init)
        while st:
            s, b = nd = st.pop()
            out = []
            for s2 in (g.next[s] or [s]):
                for b2 in good[s2]:
                    if edge(s, b, s2, b2):
                        out.append((s2, b2))
            succs[nd] = out
            for o in out:
                if o not in seen:
                    seen.add(o)
                    st.append(o)
        need = [i for i, c in enumerate(T) if c[0] in ("F", "U", "G")]

        def acc(nd):
            s, b = nd
            r = set()
            for i in need:
                x, y = info[s][b][i]
                k = T[i][0]
                if k == "F" and (x or not b[i]):
                    r.add(i)
                elif k == "U" and (y or not b[i]):
                    r.add(i)
                elif k == "G" and (b[i] or not x):
                    r.add(i)
            return r
        for comp in sccs(succs):
            if len(comp) == 1:
                nd = comp[0]
                if nd not in succs[nd]:
                    continue
            got = set()
            for nd in comp:
                got |= acc(nd)
            if len(got) == len(need):
                return True
        return False


def sccs(succs):
    """Iterative Tarjan."""
    idx, low, onst, st, res = {}, {}, set(), [], []
    for root in succs:
        if root in idx:
            continue
        work = [(root, iter(succs[root]))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(succs[w])))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                res.append(comp)
    return res


def ltl_holds(q, g, cap=60000):
    """q = ["A", path] or ["E", path]."""
    if q[0] == "E":
        return LTLEval(q[1], g).exists(cap)
    return not LTLEval(["not", q[1]], g).exists(cap)


def ctl_holds(q, g):
    return state_set(q, g)[0]


def size(c):
    if isinstance(c, list):
        return (1 if c and isinstance(c[0], str) else 0) + sum(size(x) for x in c if isinstance(x, list))
    return 0


# ---------------------------------------------------------------- reading query XML (as written by the tool)
def from_xml(text, net):
    """property id -> AST (CTL* style: path quantifier merged with the operator below it where that gives a CTL operator)."""
    import xml.etree.ElementTree as ET
    root = ET.fromstring(text)
    loc = lambda el: el.tag.split("}")[-1]
    pidx = {p[0]: i for i, p in enumerate(net["places"])}
    tidx = {t["n"]: i for i, t in enumerate(net["trans"])}
    NAMES = {"integer-" + k: k for k in OPS}

    def expr(el):
        k = loc(el)
        if k == "integer-constant":
            return ["lit", int(el.text)]
        if k == "tokens-count":
            l = [pidx[c.text.strip()] for c in el]
            return ["pl", l[0]] if len(l) == 1 else ["sum", l]
        return [{"integer-sum": "+", "integer-product": "*", "integer-difference": "-"}[k], [expr(c) for c in el]]

    def cond(el):
        k = loc(el)
        if k in ("true", "false", "deadlock"):
            return [k]
        if k == "is-fireable":
            return ["fire", [tidx[c.text.strip()] for c in el]]
        if k in NAMES:
            a, b = list(el)
            return ["cmp", NAMES[k], expr(a), expr(b)]
        if k == "negation":
            return ["not", cond(el[0])]
        if k in ("conjunction", "disjunction"):
            l = [cond(c) for c in el]
            return l[0] if len(l) == 1 else [{"conjunction": "and", "disjunction": "or"}[k], l]
        if k in ("finally", "globally", "next"):
            return [{"finally": "F", "globally": "G", "next": "X"}[k], cond(el[0])]
        if k == "until":
            return ["U", cond(el[0][0]), cond(el[1][0])]
        if k in ("all-paths", "exists-path"):
            return [k[0].upper(), cond(el[0])]
        if k == "control":
            return ["control", cond(el[0])]
        if k == "place-bound":
            return ["bound", [pidx[c.text.strip()] for c in el]]
        raise ValueError("unexpected element " + k)
    res = {}
    for p in root:
        d = {loc(c): c for c in p}
        f = d["formula"]
        res[d["id"].text.strip()] = cond(f[0])
    return res


def to_ctl(c):
    """Merges a path quantifier with the operator it quantifies."""
    k = c[0]
    if k in ("A", "E"):
        x = c[1]
        if x[0] in ("F", "G", "X"):
            return [k + x[0], to_ctl(x[1])]
        if x[0] == "U":
            return [k + "U", to_ctl(x[1]), to_ctl(x[2])]
        raise ValueError("not CTL")
    if k in ("and", "or"):
        return [k, [to_ctl(x) for x in c[1]]]
    if k in ("cmp", "fire", "bound"):
        return c
    return [k] + [to_ctl(x) if isinstance(x, list) else x for x in c[1:]]
