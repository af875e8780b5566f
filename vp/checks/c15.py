"""Every query format and every conversion between formats keeps the meaning of the query."""
import re
from xml.sax.saxutils import escape
from ..common import *

ID = "C15"
LEVEL = "exploration"
RULE = ("a case is a generated bounded net with unusual names and 2-6 queries of one logic, given to the tool as XML (element aliases, comments, layout), as query "
        "text (all spellings, redundant and omitted brackets) and through chains of conversions (XML and binary files the tool itself writes, read back by "
        "it); every route must give the reference verdict. Non-trivial when the net has at least 4 markings and the queries do not all have the same verdict "
        "or a bound is involved, and at least one conversion kept a query that is not a constant")
ASSUMPTIONS = ["names are XML identifiers (letters, digits, '.', '-', '_'); in query text names are quoted unless they are plain identifiers that are no keyword",
               "in query text, 'and' and 'or' are not mixed without brackets, and the operands of U are bracketed, since the grammar defines no precedence there",
               "bounded nets with up to about 150 markings", "upper-bound queries are converted with -q 0 (a partially solved bound has no XML form)"]
CASES = {"quick": 3500, "thorough": 40000}
TIME = {"quick": 100, "thorough": 1200}
KEY = {"true", "false", "deadlock", "and", "AND", "or", "OR", "not", "NOT", "EF", "EG", "AF", "AG", "EX", "AX", "A", "E", "X", "F", "G", "U", "control", "exists", "forall"}


def rename(r, net):
    """Names with dots, dashes, keyword look-alikes, prefixes of each other."""
    used = set()

    def fresh(base):
        for _ in range(50):
            n = r.choice([base, r.choice(["EF", "A", "F", "U", "not", "true", "deadlock", "tokens", "is"]), base + r.choice([".a", "-b", "_c", "__d"]),
                          r.choice(["P", "P1", "P10", "P100", "P_1", "p", "p1"]), r.choice("xyzEG") + base, base * 3, "Name.%d-%s" % (r.randrange(20), base)])
            if n not in used:
                used.add(n)
                return n
    for p in net["places"]:
        p[0] = fresh(p[0])
    for t in net["trans"]:
        t["n"] = fresh(t["n"])


def gen(r, tier):
    net, g = G.bounded_net(r, 0.9, 150, min_states=4, inhib=r.random() < 0.4)
    if r.random() < 0.7:
        rename(r, net)
    logic = r.choice(["ctl", "ctl", "reach", "reach", "ltl", "ltl", "bound"])
    qs = []
    for _ in range(r.choice([2, 3, 4, 6]) if logic != "bound" else r.choice([1, 2, 3])):
        if logic == "ctl":
            q = r.choice([G.proper_ctl, G.shaped_ctl])(r, net, g, 3)
        elif logic == "reach":
            q = G.balanced_reach(r, net, g, 2)
            if r.random() < 0.4:
                q = [r.choice(["EF", "AG"]), r.choice([G.range_conj, G.linear_atom])(r, net, g)]
            if r.random() < 0.2:
                q = ["not", q]
        elif logic == "ltl":
            q = r.choice([G.rand_ltl, G.shaped_ltl])(r, net, g, 3, 4)
        else:
            q = ["bound", r.sample(range(len(net["places"])), min(len(net["places"]), r.choice([1, 1, 2, 3])))]
        qs.append(q)
    routes = [["styled"], ["pql"]]
    for _ in range(3):
        routes.append(["chain", [[r.choice("xb"), r.random() < 0.5 and logic != "bound"] for _ in range(r.choice([1, 1, 2, 3]))]])
    if logic == "bound":
        routes.pop(1)
    return {"net": net, "queries": qs, "logic": logic, "routes": routes, "style": r.randrange(10**6), "cfgs": [r.choice([[], [["-q", "0"]], [["-r", "0"]], [["-r", "0"], ["-q", "0"]]])], "present": None}


# ------------------------------------------------------------ styled XML
def sxml(c, net, r, top=True):
    k = c[0]
    nl = lambda: r.choice(["", "", "\n", "  \n\t", "<!-- c -->"])
    w = lambda tag, *s: "<%s>%s%s</%s>%s" % (tag, nl(), "".join(s), tag, nl())
    sub = lambda x: sxml(x, net, r, False)
    if k == "not":
        if top and c[1][0] == "EF" and r.random() < 0.5:
            return w("impossibility", sub(c[1][1]))
        return w(r.choice(["negation", "not"]), sub(c[1]))
    if k in ("and", "or"):
        return w(r.choice({"and": ["conjunction", "and"], "or": ["disjunction", "or"]}[k]), *[sub(x) for x in c[1]])
    if k == "EF" and top and r.random() < 0.4:
        return w("possibility", sub(c[1]))
    if k == "AG" and top and r.random() < 0.4:
        return w("invariant", sub(c[1]))
    if k in ("xor", "imp", "equiv"):
        return w({"xor": "exclusive-disjunction", "imp": "implication", "equiv": "equivalence"}[k], sub(c[1]), sub(c[2]))
    if k in ("AU", "EU"):
        return w("all-paths" if k == "AU" else "exists-path", sub(["U", c[1], c[2]]))
    if k == "U":
        return w("until", w("before", sub(c[1])), w("reach", sub(c[2])))
    if k in ("A", "E"):
        return w("all-paths" if k == "A" else "exists-path", sub(c[1]))
    if k in ("F", "G", "X"):
        return w({"F": "finally", "G": "globally", "X": "next"}[k], sub(c[1]))
    if k == "cmp" and r.random() < 0.3:
        return w("integer-" + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(c[1], c[1]), Q.expr_xml(c[3], net), Q.expr_xml(c[2], net))
    if k in ("true", "false", "deadlock", "fire", "cmp", "bound"):
        return Q.xml(c, net) + nl()
    return w("all-paths" if k[0] == "A" else "exists-path", sub([k[1], c[1]]))


def styled(case, r):
    o = ['<?xml version="1.0" encoding="utf-8"?>\n<!-- queries -->\n<property-set xmlns="http://mcc.lip6.fr/">']
    for i, q in enumerate(case["queries"]):
        parts = ["<id>Q%d</id>" % i, "<description>%s</description>" % r.choice(["", "text &lt;b&gt;"]), "<formula>%s</formula>" % sxml(q, case["net"], r)]
        if r.random() < 0.2:
            parts.append("<tags><is-reachability>false</is-reachability><is-deadlock>true</is-deadlock></tags>")
        if r.random() < 0.3:
            r.shuffle(parts)
        o.append("<property>\n%s</property>" % r.choice(["", "\n"]).join(parts))
    o.append("</property-set>")
    return "\n".join(o)


# ------------------------------------------------------------ styled text
PREC = {"+": 1, "-": 1, "*": 2}


def name(n, r):
    if re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", n) and n not in KEY and r.random() < 0.6:
        return n
    return '"%s"' % n


def stext_e(e, net, r, prec=0, right=False):
    """Arithmetic with the usual precedence (* over + and -, all left associative)."""
    k = e[0]
    sp = lambda: r.choice(["", " ", " "])
    par = lambda s: "(%s%s%s)" % (sp(), s, sp())
    nm = lambda p: name(net["places"][p][0], r)
    if k == "lit":
        return str(e[1]) if e[1] >= 0 else par("-%s%d" % (sp(), -e[1]))
    if k == "pl":
        return nm(e[1]) if r.random() < 0.8 else "%s(%s)" % (r.choice(["tokens-count", "#tokens"]), nm(e[1]))
    if k == "sum":
        if r.random() < 0.5:
            return "%s(%s)" % (r.choice(["tokens-count", "#tokens"]), ("%s,%s" % (sp(), sp())).join(nm(p) for p in e[1]))
        return par(" + ".join(nm(p) for p in e[1]))
    if k == "-" and len(e[1]) == 1:
        return par("- " + stext_e(e[1][0], net, r, 3))
    p = PREC[k]
    s = stext_e(e[1][0], net, r, p)
    for x in e[1][1:]:
        s += " %s " % k + stext_e(x, net, r, p, True)
    if p < prec or (p == prec and right) or r.random() < 0.2:
        return par(s)
    return s


def stext(c, net, r):
    k = c[0]
    sp = lambda: r.choice(["", " ", "\n", "  "])
    par = lambda s: "(%s%s%s)" % (sp(), s, sp())
    sub = lambda x: par(stext(x, net, r)) if x[0] not in ("true", "false", "deadlock") or r.random() < 0.5 else x[0]
    if k in ("true", "false", "deadlock"):
        return k
    if k == "fire":
        ns = [name(net["trans"][t]["n"], r) for t in c[1]]
        if len(ns) == 1 and r.random() < 0.4:
            return ns[0] + "?"
        return "is-fireable(%s)" % (", ".join(ns))
    if k == "cmp":
        a, b, op = c[2], c[3], c[1]
        if r.random() < 0.3:
            a, b, op = b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op)
        op = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": r.choice(["==", "="]), "ne": "!="}[op]
        return "%s%s%s%s%s" % (stext_e(a, net, r), sp(), op, sp(), stext_e(b, net, r))
    if k == "not":
        return r.choice(["!", "not ", "NOT "]) + sub(c[1])
    if k in ("and", "or"):
        op = r.choice([" and ", " AND ", "&", " & "] if k == "and" else [" or ", " OR ", "|", " || "])
        xs = [sub(x) if x[0] in ("and", "or") or r.random() < 0.6 else (stext(x, net, r) if x[0] in ("cmp", "fire", "true", "false", "deadlock") else sub(x)) for x in c[1]]
        return op.join(xs)
    if k == "imp":
        return stext(["or", [["not", c[1]], c[2]]], net, r)
    if k == "xor":
        return stext(["or", [["and", [c[1], ["not", c[2]]]], ["and", [["not", c[1]], c[2]]]]], net, r)
    if k == "equiv":
        return stext(["or", [["and", [c[1], c[2]]], ["and", [["not", c[1]], ["not", c[2]]]]]], net, r)
    if k in ("AU", "EU"):
        return "%s (%s U %s)" % (k[0], par(stext(c[1], net, r)), par(stext(c[2], net, r)))
    if k == "U":
        return "%s U %s" % (par(stext(c[1], net, r)), par(stext(c[2], net, r)))
    if len(k) == 2 and r.random() < 0.2:
        return "%s (%s %s)" % (k[0], k[1], sub(c[1]))
    return "%s %s" % (k, sub(c[1]))


# ------------------------------------------------------------ judging
def judge(case, ctx):
    g = graph(case)
    net, qs, logic = case["net"], case["queries"], case["logic"]
    try:
        exp = [max(sum(m[p] for p in q[1]) for m in g.states) if logic == "bound" else Q.ltl_holds(q, g) if logic == "ltl" else Q.ctl_holds(q, g) for q in qs]
    except OverflowError:
        raise Skip()
    m, plain = write_case(case, ctx)
    cfg = case["cfgs"][0] + ([["-ltl"]] if logic == "ltl" else [])
    kept = 0
    for n, route in enumerate(case["routes"]):
        if route[0] == "styled":
            f = ctx.write("styled.xml", styled(case, random.Random(case["style"])))
            check_verdicts(case, ctx, exp, cfg, m, f)
            ctx.label("route-xml")
        elif route[0] == "pql":
            for i, q in enumerate(qs):
                rr = random.Random(case["style"] + i)
                text = stext(q, net, rr)
                f = ctx.write("query.q", text)
                args = [m, f] + flat(cfg)
                res = ctx.vpn(args)
                v = list(res.verdicts().values())
                if "Query is satisfied" in res.out:
                    v.append(True)
                elif "Query is NOT satisfied" in res.out:
                    v.append(False)
                if not v or any(x is None for x in v):
                    raise Fail("no-verdict", "%s gave no verdict for the query text: %s\n%s" % (ctx.show(args), text, res.brief()))
                if any(x is not exp[i] for x in v):
                    raise Fail("wrong-verdict", "%s answered %s, reference semantics says %s, for the query text: %s   (as XML: %s)" % (ctx.show(args), v, exp[i], text, Q.xml(q, net)))
                ctx.label("route-text")
        else:
            cur, fmt = plain, "x"
            for k, (f, simp) in enumerate(route[1]):
                out = ctx.path("w%d_%d.q" % (n, k))
                io = (1 if fmt == "b" else 0) + (2 if f == "b" else 0)
                args = [m, cur, "-x", xlist(len(qs)), "-s", "OverApprox", "--write-simplified", out, "--keep-solved", "--binary-query-io", str(io)]
                args += ([] if simp else ["-q", "0"]) + (["-ltl"] if logic == "ltl" else [])
                ctx.write("w%d_%d.q" % (n, k), "")
                res = ctx.vpn(args)
                for nm, v in res.verdicts().items():
                    i = int(nm[1:])
                    if v is not None and v != exp[i]:
                        raise Fail("wrong-verdict", "%s (conversion %s) answered %s for query %d, reference semantics says %s: %s" % (ctx.show(args), route[1][:k + 1], v, i, exp[i], show_query(qs[i], net)))
                cur, fmt = out, f
                if not open(out, "rb").read(8):
                    raise Fail("not-written", "%s wrote nothing\n%s" % (ctx.show(args), res.brief()))
            io = ["--binary-query-io", "1" if fmt == "b" else "0"]
            if fmt == "x":
                kept += open(cur).read().count("tokens-count")
            else:
                kept += 1
            check_verdicts(case, ctx, exp, cfg, m, cur, extra=io)
            ctx.label("route-" + "".join(f for f, _ in route[1]))
    ctx.nontrivial = len(g) >= 4 and kept > 0 and (logic == "bound" or len(set(exp)) > 1)
    ctx.label("logic-" + logic)


def shrinks(case):
    if len(case["routes"]) > 1:
        for i in range(len(case["routes"])):
            yield dict(case, routes=[case["routes"][i]])
    for i, rt in enumerate(case["routes"]):
        if rt[0] == "chain" and len(rt[1]) > 1:
            for j in range(len(rt[1])):
                yield dict(case, routes=case["routes"][:i] + [["chain", rt[1][:j] + rt[1][j + 1:]]] + case["routes"][i + 1:])
    for c in S.case_shrinks(case, keep_top=case["logic"] != "ctl"):
        yield c


def render(case):
    from ..common import render as rd
    d = rd(case)
    d["routes"] = case["routes"]
    return d
