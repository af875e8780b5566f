"""Generators of nets and queries. All randomness comes from the random.Random passed in."""
from .net import mk, tr, Graph, TooBig


# ---------------------------------------------------------------- nets
def _w(r, heavy=0.15):
    return 1 if r.random() > heavy else r.choice([2, 2, 2, 3])


def rand_net(r, size=1.0, inhib=True, env=False):
    """One random net, not necessarily bounded."""
    mode = r.random()
    if mode < 0.3:
        net = _free(r, size)
    elif mode < 0.6:
        net = _conservative(r, size)
    elif mode < 0.85:
        net = _components(r, size)
    else:
        net = _workflow(r, size)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        _motif(r, net)
    if inhib and r.random() < 0.4:
        for _ in range(r.choice([1, 1, 2, 3])):
            _add_inh(r, net)
    if env:
        for t in net["trans"]:
            t["env"] = r.random() < 0.45
    return net


def _names(net):
    for i, p in enumerate(net["places"]):
        p[0] = "P%d" % i
    for i, t in enumerate(net["trans"]):
        t["n"] = "T%d" % i
    return net


def _free(r, size):
    nP = r.randint(1, max(2, int(5 * size)))
    nT = r.randint(1, max(2, int(5 * size)))
    places = [["", r.choice([0, 0, 1, 1, 2, 3])] for _ in range(nP)]
    trans = []
    for _ in range(nT):
        pre = {p: _w(r) for p in r.sample(range(nP), min(nP, r.choice([0, 1, 1, 1, 2, 2, 3])))}
        post = {p: _w(r) for p in r.sample(range(nP), min(nP, r.choice([0, 1, 1, 1, 2, 2])))}
        trans.append(tr("", pre, post))
    return mk(places, trans)


def _conservative(r, size):
    nP = r.randint(2, max(3, int(6 * size)))
    nT = r.randint(1, max(2, int(7 * size)))
    places = [["", r.choice([0, 0, 0, 1, 1, 2])] for _ in range(nP)]
    trans = []
    for _ in range(nT):
        k = r.choice([1, 1, 1, 2, 2, 3])
        pre, post = {}, {}
        for _ in range(k):
            p = r.randrange(nP)
            pre[p] = pre.get(p, 0) + 1
        for _ in range(k if r.random() < 0.8 else max(0, k - 1)):
            p = r.randrange(nP)
            post[p] = post.get(p, 0) + 1
        trans.append(tr("", pre, post))
    return mk(places, trans)


def _components(r, size):
    """Small state machines running side by side with some synchronisation: matters for partial order reduction."""
    places, trans = [], []
    comps = []
    for _ in range(r.choice([2, 2, 3])):
        n = r.randint(1, 3)
        base = len(places)
        init = r.randrange(n)
        for i in range(n):
            places.append(["", (r.choice([1, 1, 2]) if i == init else 0)])
        comps.append(list(range(base, base + n)))
        for _ in range(r.randint(1, 3)):
            a, b = r.choice(comps[-1]), r.choice(comps[-1])
            trans.append(tr("", {a: 1}, {b: 1} if r.random() < 0.85 else {}))
    for _ in range(r.choice([0, 1, 1, 2])):
        c1, c2 = r.sample(comps, 2)
        pre = {r.choice(c1): 1, r.choice(c2): 1}
        post = {r.choice(c1): 1, r.choice(c2): 1}
        trans.append(tr("", pre, post))
    if r.random() < 0.5:  # a shared resource
        p = len(places)
        places.append(["", r.choice([0, 1, 1])])
        for t in r.sample(trans, min(len(trans), r.choice([1, 2]))):
            t[r.choice(["pre", "post"])][str(p)] = 1
            if r.random() < 0.4:
                t["pre"][str(p)] = t["post"][str(p)] = 1
    r.shuffle(trans)
    return mk(places, trans)


def _workflow(r, size):
    """Forward chain with forks and joins, optionally looping."""
    n = r.randint(2, max(3, int(6 * size)))
    places = [["", 0] for _ in range(n)]
    places[0][1] = r.choice([1, 1, 2])
    trans = []
    for i in range(n - 1):
        outs = {i + 1: _w(r)}
        if r.random() < 0.25 and i + 2 < n:
            outs[r.randrange(i + 1, n)] = 1
        ins = {i: _w(r, 0.1)}
        if r.random() < 0.15 and i > 0:
            ins[r.randrange(0, i)] = 1
        trans.append(tr("", ins, outs))
    if r.random() < 0.4:
        trans.append(tr("", {n - 1: _w(r)}, {0: 1}))
    if r.random() < 0.4:
        a, b = r.randrange(n), r.randrange(n)
        trans.append(tr("", {a: 1}, {b: 1}))
    r.shuffle(trans)
    return mk(places, trans)


def _motif(r, net):
    """Local patterns that structural reductions look for."""
    P, T = net["places"], net["trans"]
    k = r.randrange(18)
    if not T:
        return
    t = r.choice(T)
    if k == 0:        # duplicate place (parallel, possibly scaled)
        i = r.randrange(len(P))
        f = r.choice([1, 1, 2])
        P.append(["", P[i][1] * f + r.choice([0, 0, 1])])
        for u in T:
            for kind in ("pre", "post"):
                if str(i) in u[kind]:
                    u[kind][str(len(P) - 1)] = u[kind][str(i)] * f
    elif k == 1:      # duplicate transition (possibly scaled)
        f = r.choice([1, 1, 1, 2])
        T.append(tr("", {p: w * f for p, w in t["pre"].items()}, {p: w * f for p, w in t["post"].items()}, dict(t["inh"])))
    elif k == 2:      # split a transition through a fresh place
        P.append(["", r.choice([0, 0, 0, 1])])
        q = str(len(P) - 1)
        w = _w(r)
        v = w if r.random() < 0.7 else _w(r)
        post = t["post"]
        t["post"] = {q: w}
        T.append(tr("", {q: v}, post))
    elif k == 3:      # self loop / no effect transition
        p = str(r.randrange(len(P)))
        w = _w(r)
        T.append(tr("", {p: w}, {p: w}))
    elif k == 4:      # read arc
        p = str(r.randrange(len(P)))
        w = _w(r)
        t["pre"][p] = max(w, t["pre"].get(p, 0))
        t["post"][p] = t["pre"][p]
    elif k == 5:      # place that never constrains
        P.append(["", r.choice([1, 2, 5])])
        q = str(len(P) - 1)
        t["pre"][q] = 1
        t["post"][q] = r.choice([1, 1, 1, 2]) if r.random() < 0.5 else 1
    elif k == 6:      # sink place
        P.append(["", 0])
        # bounded sink: consume from it as well
        q = str(len(P) - 1)
        t["post"][q] = 1
        if r.random() < 0.6:
            T.append(tr("", {q: 1}, {}))
    elif k == 7:      # consuming-only transition
        p = str(r.randrange(len(P)))
        T.append(tr("", {p: _w(r)}, {}))
    elif k == 8:      # dead transition
        P.append(["", 0])
        q = str(len(P) - 1)
        T.append(tr("", {q: 1, str(r.randrange(len(P))): 1}, {str(r.randrange(len(P))): 1}))
    elif k == 9:      # a chain hanging off a place
        p = str(r.randrange(len(P)))
        for _ in range(r.choice([1, 2])):
            P.append(["", 0])
            q = str(len(P) - 1)
            T.append(tr("", {p: 1}, {q: 1}))
            p = q
    elif k == 10:     # complement place bounding t
        P.append(["", r.choice([1, 2, 3])])
        q = str(len(P) - 1)
        t["pre"][q] = 1
        if len(T) > 1 and r.random() < 0.7:
            u = r.choice(T)
            u["post"][q] = 1
    elif k == 11:     # invert: u undoes t
        T.append(tr("", dict(t["post"]), dict(t["pre"])))
    elif k == 14:     # buffer filled in different amounts and emptied in batches, then a follow-up
        w = r.choice([2, 2, 3])
        P.append(["", r.choice([0, 0, 1, 1, 2, 3])])
        q = str(len(P) - 1)
        for u in r.sample(T, min(len(T), r.choice([1, 2, 2]))):
            u["post"][q] = r.choice([1, 1, 2, w, 2 * w])
        out = {}
        if r.random() < 0.8:
            P.append(["", 0])
            out = {str(len(P) - 1): _w(r)}
            P.append(["", 0])
            T.append(tr("", {str(len(P) - 2): r.choice([1, 1, 2])}, {str(len(P) - 1): 1}))
        T.append(tr("", {q: w}, out))
    elif k == 15:     # several rounds of a weighted hand-over, whose left-over tokens add up
        a, b, n = r.choice([2, 3, 3, 4, 5]), r.choice([1, 2, 2, 3]), r.choice([1, 2, 2, 3])
        i = len(P)
        P += [["", n], ["", r.choice([0, 0, 0, 1])], ["", 0]]
        T.append(tr("", {str(i): 1}, {str(i + 1): a}))
        T.append(tr("", {str(i + 1): b}, {str(i + 2): 1}))
        if r.random() < 0.8:
            P.append(["", 0])
            T.append(tr("", {str(i + 2): r.choice([1, 2, max(1, n * a // b), max(1, n * (a // b))])}, {str(i + 3): 1}))
        if r.random() < 0.3:
            T[-1]["post"][str(r.randrange(i))] = 1
    elif k in (16, 17):     # nearly parallel place or transition
        if k == 16:
            i = str(r.randrange(len(P)))
            f = r.choice([1, 1, 1, 2])
            P.append(["", P[int(i)][1] * f + r.choice([0, 0, 1])])
            n = str(len(P) - 1)
            for u in T:
                for kind in ("pre", "post"):
                    if i in u[kind]:
                        u[kind][n] = u[kind][i] * f
            for _ in range(r.choice([1, 1, 2])):
                kind = r.choice(["pre", "post", "post"])
                have = [u for u in T if n in u[kind]]
                free = [u for u in T if n not in u[kind]]
                x = r.random()
                if have and x < 0.75:
                    u = r.choice(have)
                    w = u[kind].pop(n)
                    if x < 0.45 and free:
                        r.choice(free)[kind][n] = w
                    elif x > 0.6:
                        u[kind][n] = w + 1
                elif free:
                    r.choice(free)[kind][n] = _w(r)
        else:
            u = tr("", dict(t["pre"]), dict(t["post"]), dict(t["inh"]))
            T.append(u)
            kind = r.choice(["pre", "post"])
            q = str(r.randrange(len(P)))
            if u[kind] and r.random() < 0.6:
                q = r.choice(sorted(u[kind]))
                if r.random() < 0.5:
                    del u[kind][q]
                else:
                    u[kind][q] += 1
            elif q not in u["inh"]:
                u[kind][q] = _w(r)
    elif k == 12:     # unconnected place / isolated marking
        P.append(["", r.choice([0, 1, 3])])
    else:             # dominated transition: same as t but needs more
        p = str(r.randrange(len(P)))
        pre = dict(t["pre"])
        pre[p] = pre.get(p, 0) + 1
        post = dict(t["post"])
        if r.random() < 0.6:
            post[p] = post.get(p, 0) + 1
        T.append(tr("", pre, post))


def _add_inh(r, net):
    T = net["trans"]
    x = r.random()
    if x < 0.25:      # a loop that goes on until something else stops it
        q = str(r.randrange(len(net["places"])))
        t = tr("", {q: 1}, {q: 1}) if r.random() < 0.7 else tr("", {}, {})
        T.append(t)
    else:
        t = r.choice(T)
    p = str(r.randrange(len(net["places"])))
    if x < 0.6:       # a place some other transition fills
        prod = [q for u in T if u is not t for q in u["post"] if q not in t["pre"]]
        if prod:
            p = r.choice(prod)
    if p not in t["pre"]:  # the tool rejects nets with both kinds of arc between the same pair
        t["inh"][p] = r.choice([1, 1, 1, 2, 2, 3])


def bounded_net(r, size=1.0, max_states=300, inhib=True, env=False, min_states=1, tries=60):
    """A net with its full graph; unbounded candidates get capacity inhibitors or are dropped."""
    best = None
    for k in range(tries):
        net = _names(rand_net(r, size, inhib, env))
        if not net["trans"]:
            continue
        try:
            g = Graph(net, max_states)
        except TooBig:
            if inhib and r.random() < 0.3:
                for t in net["trans"]:
                    for p, w in t["post"].items():
                        if p not in t["pre"] and p not in t["inh"]:
                            t["inh"][p] = r.choice([1, 2, 3])
                try:
                    g = Graph(net, max_states)
                except TooBig:
                    continue
            else:
                continue
        if len(g) < min_states:
            best = best or (net, g)
            if r.random() < 0.85:
                continue
        return net, g
    if best:
        return best
    net = _names(mk([["", 1]], [tr("", {0: 1}, {0: 1})]))
    return net, Graph(net)


# ---------------------------------------------------------------- queries
def rand_expr(r, net, g, depth=1, mult=True):
    nP = len(net["places"])
    x = r.random()
    if depth <= 0 or x < 0.62:
        y = r.random()
        if y < 0.72:
            return ["pl", r.randrange(nP)]
        if y < 0.85 and nP > 1:
            return ["sum", r.sample(range(nP), min(nP, r.choice([2, 2, 3])))]
        return ["lit", r.choice([0, 1, 1, 2, 2, 3, 4, 5]) if r.random() < 0.85 else r.choice([-1, -2])]
    if mult and r.random() < 0.12:
        return ["*", [["lit", r.choice([-1, -2])], rand_expr(r, net, g, depth - 1, mult)]]
    k = r.choice(["+", "+", "-", "*"] if mult else ["+", "+", "-"])
    n = 2 if r.random() < 0.85 else 3
    if k == "-" and r.random() < 0.1:
        n = 1
    return [k, [rand_expr(r, net, g, depth - 1, mult) for _ in range(n)]]


def rand_atom(r, net, g, dead=True, fire=True):
    x = r.random()
    if x < 0.17 and fire and net["trans"]:
        ts = r.sample(range(len(net["trans"])), min(len(net["trans"]), r.choice([1, 1, 1, 2])))
        return ["fire", ts]
    if x < 0.24 and dead:
        return ["deadlock"]
    if x < 0.27:
        return [r.choice(["true", "false"])]
    op = r.choice(["eq", "ne", "lt", "le", "gt", "ge"])
    a = rand_expr(r, net, g, r.choice([0, 0, 0, 1, 2]))
    # constant chosen near a value that occurs
    if r.random() < 0.75:
        from .query import ev
        v = ev(a, g.states[r.randrange(len(g))]) if g is not None else r.choice([0, 1, 2])
        b = ["lit", v + r.choice([0, 0, 0, 1, -1])]
    else:
        b = rand_expr(r, net, g, r.choice([0, 0, 1]))
    if r.random() < 0.3:
        a, b = b, a
    return ["cmp", op, a, b]


def rand_state_formula(r, net, g, depth, dead=True, fire=True):
    if depth <= 0 or r.random() < 0.3:
        return rand_atom(r, net, g, dead, fire)
    x = r.random()
    sub = lambda: rand_state_formula(r, net, g, depth - 1, dead, fire)
    if x < 0.38:
        return ["and", [sub() for _ in range(r.choice([2, 2, 2, 3]))]]
    if x < 0.72:
        return ["or", [sub() for _ in range(r.choice([2, 2, 2, 3]))]]
    if x < 0.9:
        return ["not", sub()]
    return [r.choice(["xor", "imp", "equiv"]), sub(), sub()]


def rand_reach(r, net, g, depth=2, dead=True, fire=True):
    f = rand_state_formula(r, net, g, r.randint(0, depth), dead, fire)
    q = [r.choice(["EF", "AG"]), f]
    if r.random() < 0.1:
        q = ["not", q]
    return q


def balanced_reach(r, net, g, depth=2, dead=True, fire=True, tries=6):
    """Prefers queries whose predicate is neither constant nor decided in the initial state."""
    from .query import state_set
    q = None
    for _ in range(tries):
        q = rand_reach(r, net, g, depth, dead, fire)
        f = q[1] if q[0] != "not" else q[1][1]
        s = state_set(f, g)
        ex = (q if q[0] != "not" else q[1])[0] == "EF"
        # the witness (EF) / counterexample (AG) must not be the initial marking
        if s[0] != ex:
            if any(x == ex for x in s) or r.random() < 0.5:
                return q
    return q


def rand_ctl(r, net, g, depth=3, dead=True, fire=True):
    if depth <= 0:
        return rand_atom(r, net, g, dead, fire)
    x = r.random()
    sub = lambda d=1: rand_ctl(r, net, g, depth - d, dead, fire)
    if x < 0.5:
        return [r.choice(["EF", "EG", "AF", "AG", "EX", "AX"]), sub()]
    if x < 0.68:
        return [r.choice(["EU", "AU"]), sub(), sub()]
    if x < 0.78:
        return ["and", [sub() for _ in range(2)]]
    if x < 0.88:
        return ["or", [sub() for _ in range(2)]]
    if x < 0.96:
        return ["not", sub()]
    return rand_atom(r, net, g, dead, fire)


def proper_ctl(r, net, g, depth=3, dead=True, fire=True):
    from .query import any_op, CTL_OPS
    for _ in range(20):
        q = rand_ctl(r, net, g, depth, dead, fire)
        if any_op(q, CTL_OPS):
            return q
    return ["EF", rand_atom(r, net, g, dead, fire)]


def rand_path(r, net, g, depth=3, budget=4, dead=True, fire=True, nxt=True):
    """LTL path formula with at most `budget` temporal operators."""
    state = {"b": budget}

    def go(d):
        if d <= 0 or state["b"] <= 0:
            return rand_atom(r, net, g, dead, fire)
        x = r.random()
        if x < 0.42:
            ops = ["F", "F", "G", "G"] + (["X"] if nxt else [])
            state["b"] -= 1
            return [r.choice(ops), go(d - 1)]
        if x < 0.6:
            state["b"] -= 1
            return ["U", go(d - 1), go(d - 1)]
        if x < 0.74:
            return ["and", [go(d - 1), go(d - 1)]]
        if x < 0.88:
            return ["or", [go(d - 1), go(d - 1)]]
        if x < 0.95:
            return ["not", go(d - 1)]
        return rand_atom(r, net, g, dead, fire)
    return go(depth)


def rand_ltl(r, net, g, depth=3, budget=4, dead=True, fire=True, nxt=True):
    from .query import any_op, LTL_OPS
    for _ in range(20):
        p = rand_path(r, net, g, depth, budget, dead, fire, nxt)
        if any_op(p, LTL_OPS):
            break
    else:
        p = ["F", p]
    return [r.choice(["A", "A", "E"]), p]


# ---------------------------------------------------------------- formulae shaped like the left-hand sides of rewrite rules
def range_conj(r, net, g):
    """Conjunction/disjunction of bounds on few places, as merged into interval constraints by the tool."""
    nP = len(net["places"])
    ps = r.sample(range(nP), min(nP, r.choice([1, 1, 2])))
    out = []
    for _ in range(r.choice([2, 2, 3, 4])):
        p = r.choice(ps)
        v = g.states[r.randrange(len(g))][p] + r.choice([0, 0, 0, 1, -1])
        a, b = ["pl", p], ["lit", v]
        if r.random() < 0.3:
            a, b = b, a
        c = ["cmp", r.choice(["eq", "ne", "lt", "le", "gt", "ge"]), a, b]
        out.append(["not", c] if r.random() < 0.25 else c)
    if r.random() < 0.25:
        out.append(rand_atom(r, net, g))
    f = [r.choice(["and", "and", "or"]), out]
    return ["not", f] if r.random() < 0.4 else f


def linear_atom(r, net, g):
    """Comparison of linear (sometimes non-linear) terms on both sides with shared places and constants."""
    nP = len(net["places"])

    def term(d):
        x = r.random()
        if d <= 0 or x < 0.35:
            return ["pl", r.randrange(nP)] if r.random() < 0.75 else ["lit", r.choice([0, 0, 1, 1, 2, 3, -1])]
        k = r.choice(["+", "+", "+", "-", "-", "*", "*"])
        n = r.choice([2, 2, 3])
        if k == "-" and r.random() < 0.15:
            n = 1
        return [k, [term(d - 1) for _ in range(n)]]
    a, b = term(2), term(r.choice([0, 1, 2]))
    if r.random() < 0.5:
        from .query import ev
        b = ["lit", ev(a, g.states[r.randrange(len(g))]) + r.choice([0, 0, 1, -1])]
    if r.random() < 0.3:
        a, b = b, a
    return ["cmp", r.choice(["eq", "ne", "lt", "le", "gt", "ge"]), a, b]


def shaped_leaf(r, net, g):
    x = r.random()
    if x < 0.12:
        return ["deadlock"]
    if x < 0.22:
        return ["not", ["deadlock"]]
    if x < 0.28:
        return [r.choice(["true", "false"])]
    if x < 0.48:
        return range_conj(r, net, g)
    if x < 0.65:
        return linear_atom(r, net, g)
    return rand_atom(r, net, g)


def shaped_ctl(r, net, g, depth):
    sub = lambda d=1: shaped_ctl(r, net, g, depth - d)
    if depth <= 0:
        return shaped_leaf(r, net, g)
    x = r.random()
    if x < 0.5:
        k = r.choice(["EF", "AF", "EG", "AG", "EU", "AU", "EX", "AX", "AU", "EU"])
        f = [k] + [sub() for _ in range(2 if k[1] == "U" else 1)]
    elif x < 0.75:
        l = [r.choice([["EF", sub(2)], ["EF", sub(2)], ["AF", sub(2)], ["EG", sub(2)], ["AG", sub(2)], sub(), shaped_leaf(r, net, g)])
             for _ in range(r.choice([2, 2, 3]))]
        f = [r.choice(["or", "or", "and"]), l]
    elif x < 0.85:
        f = [r.choice(["xor", "imp", "equiv"]), sub(), sub()]
    else:
        f = sub()
    return ["not", f] if r.random() < 0.25 else f


def shaped_ltl(r, net, g, depth, budget=5):
    st = {"b": budget}

    def go(d):
        if d <= 0 or st["b"] <= 0:
            return shaped_leaf(r, net, g)
        x = r.random()
        if x < 0.35:
            st["b"] -= 1
            f = [r.choice(["F", "F", "G", "G", "X"]), go(d - 1)]
        elif x < 0.6:
            st["b"] -= 1
            f = ["U", go(d - 1), go(d - 1)]
        elif x < 0.9:
            f = [r.choice(["or", "and"]), [go(d - 1) for _ in range(r.choice([2, 2, 3]))]]
        else:
            f = go(d - 1)
        return ["not", f] if r.random() < 0.25 else f
    return [r.choice(["A", "A", "E"]), go(depth)]
