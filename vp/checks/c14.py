"""Controller synthesis: verdicts and strategies of two-player games."""
import json
from ..common import *
from .. import cnet as C, cgen as CG

ID = "C14"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net (or small colored net) whose transitions are split between controller and environment, with 1-3 'control:' queries (AF or AG "
        "over counts, fireability and deadlock) under several strategies and options; non-trivial when both players own transitions that fire somewhere, the net "
        "has at least 5 markings and the initial marking alone does not decide all queries")
ASSUMPTIONS = ["structural reductions are off (-r 0): the tool refuses them for 'control' queries", "a controller that has an enabled transition must move (it cannot wait); the environment may move at any time and is never forced; "
               "a deadlock wins AG and loses AF (the semantics of the synthesis engine)",
               "strategies are checked with structural reductions off, in the net as given; for AG every play that follows the printed strategy is checked, for AF every "
               "printed move must keep the game winnable and every undecided marking must have a move", "bounded nets with up to 200 markings"]
CASES = {"quick": 5000, "thorough": 60000}
TIME = {"quick": 90, "thorough": 1200}


def gen(r, tier):
    colored = r.random() < 0.12
    if colored:
        cn, g = CG.bounded_cnet(r, 0.8, 120, min_states=5, inhib=False, env=True)
        for t in cn["trans"]:
            t["env"] = r.random() < 0.4
        net = C.view(cn)
    else:
        net, g = G.bounded_net(r, 1.0, 200, min_states=5, inhib=r.random() < 0.3, env=True)
        p = r.choice([0.1, 0.25, 0.4, 0.6])
        for t in net["trans"]:
            t["env"] = r.random() < p
        goal = None
        if r.random() < 0.4:
            net2 = json.loads(json.dumps(net))
            goal = race(r, net2)
            try:
                g = N.Graph(net2, 400)
                net = net2
            except N.TooBig:
                goal = None
        cn = None
    qs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        f = r.choice([lambda: G.rand_state_formula(r, net, g, r.choice([0, 1, 2])), lambda: G.rand_atom(r, net, g), lambda: G.linear_atom(r, net, g)])()
        x = r.random()
        if not colored and goal is not None and r.random() < 0.6:
            f = ["cmp", r.choice(["ge", "ge", "lt"]), ["pl", goal], ["lit", r.choice([1, 1, 2])]]
        q = ["AG", f] if x < 0.45 else ["AF", f] if x < 0.85 else ["not", ["EF", f]] if x < 0.95 else ["not", ["EG", f]]
        qs.append(["control", q])
    cfgs = []
    for _ in range(4):
        c = [["-r", "0"]] + ([["-R", "0"]] if colored else [])
        if r.random() < 0.7:
            c.append(["-s", r.choice(["BFS", "DFS", "RDFS", "BestFS"])])
        if r.random() < 0.4:
            c.append(["-p"])
        if r.random() < 0.4:
            c.append(["-q", "0"])
        cfgs.append(c)
    return {"net": None if cn else net, "cnet": cn, "queries": qs, "cfgs": cfgs, "strategy": None if cn else [r.choice(["BFS", "DFS", "RDFS"]), True], "present": None}


def race(r, net):
    """A prize the controller (or the environment) reaches through a place from which the other player can take the token away,
    unless a guard place is emptied (or filled, with an inhibitor arc) first. Returns the place that holds the prize."""
    n = len(net["places"])
    q, w, bad, g = n, n + 1, n + 2, n + 3
    ctrl_wins = r.random() < 0.7
    inh = r.random() < 0.3
    net["places"] += [["RQ", r.choice([0, 0, 0, 1])], ["RW", (0 if inh else 1)], ["RB", 0], ["RG", 0]]

    def tr(name, pre, post, env, ih=None):
        return {"n": name, "pre": {str(k): v for k, v in pre.items()}, "post": {str(k): v for k, v in post.items()}, "inh": {str(k): v for k, v in (ih or {}).items()}, "env": env}
    ts = []
    for i in range(r.choice([1, 2, 2, 3])):
        src = r.randrange(n)
        own = ctrl_wins if r.random() < 0.8 else not ctrl_wins
        ts.append(tr("RA%d" % i, {src: 1}, {q: 1} if r.random() < 0.8 else {q: 1, r.randrange(n): 1}, not own))
    if r.random() < 0.5:
        net["places"].append(["RS", 1])
        ts.append(tr("RS0", {n + 4: 1}, {q: 1}, not ctrl_wins))
    ts.append(tr("RC", {} if inh else {w: 1}, {w: 1} if inh else {}, not ctrl_wins, {w: 1} if inh else None))
    ts.append(tr("RE", {q: 1} if inh else {q: 1, w: 1}, {bad: 1}, ctrl_wins, {w: 1} if inh else None))
    ts.append(tr("RT", {q: 1}, {g: 1}, not ctrl_wins))
    r.shuffle(ts)
    net["trans"] = ts + net["trans"] if r.random() < 0.5 else net["trans"] + ts
    return g


def parts(q):
    q = q[1]
    if q[0] == "not":
        return (q[1][0] == "EF"), ["not", q[1][1]]
    return q[0] == "AG", q[1]


def solve(g, env, q):
    """Set of winning state indices, from the definition of the game."""
    safety, f = parts(q)
    ok = Q.state_set(f, g)
    n = len(g)
    E = [[j for t, j in g.succ[i] if env[t]] for i in range(n)]
    K = [[j for t, j in g.succ[i] if not env[t]] for i in range(n)]
    if safety:
        win = list(ok)
        ch = True
        while ch:
            ch = False
            for i in range(n):
                if win[i] and not (all(win[j] for j in E[i]) and (not K[i] or any(win[j] for j in K[i]))):
                    win[i] = False
                    ch = True
    else:
        win = list(ok)
        ch = True
        while ch:
            ch = False
            for i in range(n):
                if not win[i] and (E[i] or K[i]) and all(win[j] for j in E[i]) and (not K[i] or any(win[j] for j in K[i])):
                    win[i] = True
                    ch = True
    return win, ok, E, K


def judge(case, ctx):
    if case["cnet"]:
        try:
            g = C.CGraph(case["cnet"], 3000, 200)
        except (N.TooBig, C.Negative):
            raise Skip()
        net = C.view(case["cnet"])
        m = ctx.write("model.pnml", C.to_pnml(case["cnet"]))
        qf = ctx.write("query.xml", Q.to_xml(case["queries"], net))
        env = [t["env"] for t in case["cnet"]["trans"]]
        cs = dict(case, net=net)
    else:
        g = graph(case)
        net, cs = case["net"], case
        m, qf = write_case(case, ctx)
        env = [t["env"] for t in net["trans"]]
    try:
        sol = [solve(g, env, q) for q in case["queries"]]
    except OverflowError:
        raise Skip()
    exp = [s[0][0] for s in sol]
    moved = {env[t] for o in g.succ for t, _ in o}
    ctx.nontrivial = len(g) >= 5 and moved == {True, False} and any((not s[1][0]) if not parts(q)[0] else s[1][0] for s, q in zip(sol, case["queries"]))
    for cfg in case["cfgs"]:
        check_verdicts(cs, ctx, exp, cfg, m, qf)
    for q, e in zip(case["queries"], exp):
        ctx.label("%s-%s" % ("safety" if parts(q)[0] else "reach", "won" if e else "lost"))
    if case.get("strategy") and exp[0]:
        strategy(case, ctx, g, env, sol[0], m, qf)


def strategy(case, ctx, g, env, sol, m, qf):
    net = case["net"]
    safety = parts(case["queries"][0])[0]
    win, ok = sol[0], sol[1]
    f = ctx.path("strategy.json")
    ctx.write("strategy.json", "")
    args = [m, qf, "-x", "1", "-r", "0", "-q", "0", "-s", case["strategy"][0], "--strategy-output", f] + (["-p"] if case["strategy"][1] else [])
    r = ctx.vpn(args)
    text = open(f).read()
    if not text and sol[1][0]:
        return  # decided without a game
    where = "%s for %s:\n%s" % (ctx.show(args), show_query(case["queries"][0], net), text[:800])
    try:
        st = json.loads(text)
    except Exception:
        raise Fail("strategy-unreadable", "no readable strategy from %s\n%s" % (where, r.brief()))
    pi = {p[0]: i for i, p in enumerate(net["places"])}
    ti = {t["n"]: i for i, t in enumerate(net["trans"])}
    moves = {}
    for k, ts in st.items():
        mk = [0] * len(pi)
        for x in (k.split(",") if k else []):
            p, c = x.rsplit(":", 1)
            mk[pi[p]] = int(c)
        i = g.index.get(tuple(mk))
        if i is None:
            raise Fail("strategy-unreachable", "the strategy has an entry for an unreachable marking %s: %s" % (k, where))
        moves[i] = [ti[t] for t in ts]
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        if not win[i] or (safety and not ok[i]):
            raise Fail("strategy-loses", "following the strategy leads to the marking %s from which the game is lost: %s" % (g.states[i], where))
        if not safety and ok[i]:
            continue
        K = {t: j for t, j in g.succ[i] if not env[t]}
        nxt = [j for t, j in g.succ[i] if env[t]]
        if K:
            if not moves.get(i):
                raise Fail("strategy-incomplete", "the strategy has no move for the marking %s: %s" % (g.states[i], where))
            for t in moves[i]:
                if t not in K:
                    raise Fail("strategy-move", "the strategy proposes %s, which is not an enabled controllable transition in %s: %s" % (net["trans"][t]["n"], g.states[i], where))
                nxt.append(K[t])
        for j in nxt:
            if j not in seen:
                seen.add(j)
                todo.append(j)
    ctx.label("strategies-checked")


def shrinks(case):
    if case["cnet"]:
        for c in CG.case_shrinks(dict(case, logic="game")):
            if c["cfgs"] and all(["-R", "0"] in x and ["-r", "0"] in x for x in c["cfgs"]) and all(q[0] == "control" for q in c["queries"]):
                yield c
    else:
        if case.get("strategy"):
            yield dict(case, strategy=None)
            if case["cfgs"]:
                yield dict(case, cfgs=[])
        for c in S.case_shrinks(case, keep_top=True):
            if all(q[0] == "control" for q in c["queries"]) and all(["-r", "0"] in x for x in c["cfgs"]):
                yield c


def render(case):
    from ..common import render as rd
    if case["cnet"]:
        d = C.render(case["cnet"])
        d["env"] = [t["n"] for t in case["cnet"]["trans"] if t["env"]]
        v = C.view(case["cnet"])
        d["queries"] = [show_query(q, v) for q in case["queries"]]
        d["options"] = [" ".join(flat(c)) for c in case["cfgs"]]
        return d
    return rd(case)
