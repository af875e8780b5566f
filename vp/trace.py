"""Reading printed traces and replaying them in the reference net."""
import re
from . import net as N, query as Q
from .core import Fail


def parse(err):
    """List of traces, each a list of ("t", id, {place: count}) / ("loop",) / ("deadlock",)."""
    res = []
    for m in re.finditer(r"<trace(?: [^>]*)?>(.*?)</trace>", err, re.S):
        items = []
        for x in re.finditer(r'<loop\s*/>|<deadlock\s*/>|<transition id="([^"]*)"[^>]*?(?:/>|>(.*?)</transition>)', m.group(1), re.S):
            s = x.group(0)
            if s.startswith("<loop"):
                items.append(("loop",))
            elif s.startswith("<dead"):
                items.append(("deadlock",))
            else:
                tok = {}
                for p in re.findall(r'<token place="([^"]*)"', x.group(2) or ""):
                    tok[p] = tok.get(p, 0) + 1
                items.append(("t", x.group(1), tok))
        res.append(items)
    return res


class Run:
    """markings[i] is the marking before step i; steps are transition indices."""

    def __init__(self, net, items, init=None, tokens=True):
        ct = N.compiled(net)
        tidx = {t["n"]: i for i, t in enumerate(net["trans"])}
        m = tuple(p[1] for p in net["places"]) if init is None else init
        self.markings = [m]
        self.steps = []
        self.loop = None
        self.deadlock = False
        for k, it in enumerate(items):
            if it[0] == "loop":
                if self.loop is not None:
                    raise Fail("trace-format", "two loop markers")
                self.loop = len(self.steps)
                continue
            if it[0] == "deadlock":
                self.deadlock = True
                if k != len(items) - 1:
                    raise Fail("trace-format", "the trace continues after a deadlock")
                if any(N.enabled(m, c) for c in ct):
                    raise Fail("trace-deadlock", "the trace claims a deadlock in %s, where transitions are enabled" % self.show(net, m))
                continue
            if it[1] not in tidx:
                raise Fail("trace-unknown", "transition %s is not in the model" % it[1])
            t = tidx[it[1]]
            if not N.enabled(m, ct[t]):
                raise Fail("trace-disabled", "step %d fires %s, which is not enabled in %s" % (k, it[1], self.show(net, m)))
            if tokens:
                want = {net["places"][p][0]: w for p, w in ct[t][0]}
                if want != it[2]:
                    raise Fail("trace-tokens", "step %d, transition %s lists consumed tokens %s, the model says %s" % (k, it[1], it[2], want))
            m = N.fire(m, ct[t])
            self.markings.append(m)
            self.steps.append(t)
        if self.loop is not None and self.markings[self.loop] != m:
            raise Fail("trace-loop", "the loop starts in %s and ends in %s" % (self.show(net, self.markings[self.loop]), self.show(net, m)))

    @staticmethod
    def show(net, m):
        return "{" + ", ".join("%s:%d" % (p[0], v) for p, v in zip(net["places"], m) if v) + "}"


def holds_at(net, m, cond):
    """State formula in one marking."""
    ct = N.compiled(net)
    succ = [(k, 0) for k, c in enumerate(ct) if N.enabled(m, c)]
    g = _G([m], [succ], [[0]] if succ else [[]], [not succ])
    return Q.state_set(cond, g)[0]


class _G:
    def __init__(self, states, succ, nxt, dead):
        self.states, self.succ, self.next, self.dead = states, succ, nxt, dead

    def __len__(self):
        return len(self.states)


def run_graph(net, run, full):
    """Graph whose runs are exactly the runs a trace stands for: the lasso, the run into a deadlock, or (no loop,
    no deadlock) every continuation of the printed prefix. `full` is the complete reachability graph."""
    n = len(run.steps)
    fire = lambda m: full.succ[full.index[m]]
    if run.loop is not None:
        k = n if n > run.loop else n + 1
        nxt = [[i + 1] for i in range(n)]
        states = list(run.markings[:n])
        if n == run.loop:
            raise Fail("trace-loop", "the loop is empty")
        nxt[n - 1] = [run.loop]
        return _G(states, [fire(m) for m in states], nxt, [not fire(m) for m in states])
    last = full.index[run.markings[n]]
    states = list(run.markings[:n])
    base = n
    nxt = [[i + 1] for i in range(n)]
    if n:
        nxt[n - 1] = [base + last]
    # initial state must be index 0
    if n == 0:
        order = [last] + [i for i in range(len(full)) if i != last]
        pos = {v: i for i, v in enumerate(order)}
        return _G([full.states[i] for i in order], [full.succ[i] for i in order],
                  [[pos[j] for j in full.next[i]] for i in order], [full.dead[i] for i in order])
    states += full.states
    nxt += [[base + j for j in o] for o in full.next]
    return _G(states, [fire(m) for m in states[:n]] + full.succ, nxt, [not fire(m) for m in states[:n]] + list(full.dead))
