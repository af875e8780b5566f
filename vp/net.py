"""P/T nets with weights and inhibitor arcs: representation, PNML output, reference semantics.

A net is a JSON-able dict:
  places: [[name, initial]], trans: [{n, pre, post, inh, env}] with pre/post/inh = {place index (str): weight}
`env` marks transitions that belong to the environment (games).
The semantics here is written from the textbook definition and shares nothing with /repo.
"""
from xml.sax.saxutils import quoteattr, escape


class TooBig(Exception):
    pass


def mk(places, trans):
    return {"places": places, "trans": trans}


def tr(n, pre=None, post=None, inh=None, env=False):
    f = lambda d: {str(k): v for k, v in (d or {}).items()}
    return {"n": n, "pre": f(pre), "post": f(post), "inh": f(inh), "env": env}


def compiled(net):
    res = []
    for t in net["trans"]:
        pre = [(int(p), w) for p, w in t["pre"].items()]
        inh = [(int(p), w) for p, w in t["inh"].items()]
        eff = {}
        for p, w in t["pre"].items():
            eff[int(p)] = eff.get(int(p), 0) - w
        for p, w in t["post"].items():
            eff[int(p)] = eff.get(int(p), 0) + w
        res.append((pre, inh, [(p, d) for p, d in eff.items() if d != 0]))
    return res


def enabled(m, ct):
    for p, w in ct[0]:
        if m[p] < w:
            return False
    for p, w in ct[1]:
        if m[p] >= w:
            return False
    return True


def fire(m, ct):
    if not ct[2]:
        return m
    l = list(m)
    for p, d in ct[2]:
        l[p] += d
    return tuple(l)


class Graph:
    """Full reachability graph: states (list of markings), succ[i] = [(t, j)], fireable[i] = set of t."""

    def __init__(self, net, max_states=400, max_tok=40, init=None):
        self.net = net
        ct = compiled(net)
        m0 = tuple(p[1] for p in net["places"]) if init is None else init
        self.index = {m0: 0}
        self.states = [m0]
        self.succ = []
        i = 0
        while i < len(self.states):
            m = self.states[i]
            out = []
            for k, c in enumerate(ct):
                if enabled(m, c):
                    n = fire(m, c)
                    j = self.index.get(n)
                    if j is None:
                        if len(self.states) >= max_states or max(n, default=0) > max_tok:
                            raise TooBig()
                        j = len(self.states)
                        self.index[n] = j
                        self.states.append(n)
                    out.append((k, j))
            self.succ.append(out)
            i += 1
        self.next = [sorted({j for _, j in o}) for o in self.succ]
        self.dead = [not o for o in self.succ]

    def __len__(self):
        return len(self.states)

    def edges(self):
        return sum(len(o) for o in self.succ)


def to_pnml(net, rng=None):
    """PNML text; `rng` varies presentation that has no meaning (order of elements, explicit weight 1...)."""
    o = ['<?xml version="1.0"?>\n<pnml xmlns="http://www.pnml.org/version-2009/grammar/pnml">'
         '<net id="n" type="http://www.pnml.org/version-2009/grammar/ptnet"><page id="page0">']
    body = []
    for n, i in net["places"]:
        s = "<place id=%s><name><text>%s</text></name>" % (quoteattr(n), escape(n))
        if i or (rng and rng.random() < 0.3):
            s += "<initialMarking><text>%d</text></initialMarking>" % i
        body.append(s + "</place>")
    arcs = []
    for t in net["trans"]:
        env = "<player><value>1</value></player>" if t.get("env") else ""
        body.append("<transition id=%s><name><text>%s</text></name>%s</transition>" % (quoteattr(t["n"]), escape(t["n"]), env))
        for kind in ("pre", "post", "inh"):
            for p, w in t[kind].items():
                pn = net["places"][int(p)][0]
                a, b = (pn, t["n"]) if kind != "post" else (t["n"], pn)
                ins = "<inscription><text>%d</text></inscription>" % w if w != 1 or (rng and rng.random() < 0.3) else ""
                ty = "<type value=\"inhibitor\"/>" if kind == "inh" else ""
                arcs.append((a, b, ins, ty))
    if rng:
        rng.shuffle(arcs)
    for k, (a, b, ins, ty) in enumerate(arcs):
        attr = ' type="inhibitor"' if ty else ""
        body.append('<arc id="a%d" source=%s target=%s%s>%s</arc>' % (k, quoteattr(a), quoteattr(b), attr, ins))
    if rng:
        # places and transitions keep their mutual order rarely; arcs may precede nodes
        if rng.random() < 0.5:
            rng.shuffle(body)
    o += body
    o.append("</page></net></pnml>")
    return "\n".join(o)
