"""Driver shared by all checks: generation in parallel workers, replay, shrinking, evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, random, re, sys, time, traceback, signal, shutil, tempfile
from . import run

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))


class Fail(Exception):
    """The property does not hold on the case. kind is a short stable label used to steer shrinking."""

    def __init__(self, kind, msg):
        super().__init__(kind + ": " + msg)
        self.kind, self.msg = kind, msg


class Skip(Exception):
    """The generated case does not satisfy the check's assumptions (counted, not judged)."""


class Ctx:
    """Per-worker context handed to judge()."""

    def __init__(self, bins, tier):
        self.bins, self.tier = bins, tier
        self.work = run.Work()
        self.runs = 0
        self.labels = {}
        self.nontrivial = False

    def label(self, l, n=1):
        self.labels[l] = self.labels.get(l, 0) + n

    def write(self, name, text):
        return self.work.write(name, text)

    def path(self, name):
        return self.work.path(name)

    def vpn(self, args, timeout=20, retry=90, ok_timeout=False, stdin=None, binary="verifypn", crash_ok=False, env=None):
        """Runs verifypn; a crash or (repeated) failure to answer is itself a failure."""
        self.runs += 1
        b = self.bins[binary]
        r = run.verifypn(args, timeout, stdin, b, env, cwd=self.work.dir)
        if r.timeout and not ok_timeout:
            r = run.verifypn(args, retry, stdin, b, env, cwd=self.work.dir)
            if r.timeout:
                raise Fail("hang", "no answer within %d s: %s" % (retry, self.show(args)))
        if r.crashed() and not crash_ok:
            raise Fail("crash", "abnormal termination: %s\n%s" % (self.show(args), r.brief()))
        return r

    def show(self, args):
        return "verifypn " + " ".join(os.path.basename(str(a)) if str(a).startswith(self.work.dir) else str(a) for a in args)


def load(pid):
    return importlib.import_module("vp.checks." + pid.lower())


def case_rng(pid, seed, tier, idx):
    return random.Random("%s/%s/%s/%s" % (pid, seed, tier, idx))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def judge(mod, case, ctx):
    """None if fine, Fail instance otherwise."""
    ctx.nontrivial = False
    try:
        mod.judge(case, ctx)
        return None
    except Fail as f:
        return f


def worker(wid, nw, pid, seed, tier, n, deadline, bins, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = load(pid)
    if not getattr(mod, "SANITIZED", False):
        run.limit_memory()
    ctx = Ctx(bins, tier)
    done = skipped = 0
    nontriv = set()
    distinct = 0
    samples = []
    err = None
    fails = []
    try:
        i = wid
        while i < n and time.time() < deadline and not stop.is_set():
            r = case_rng(pid, seed, tier, i)
            try:
                case = mod.gen(r, tier)
                f = judge(mod, case, ctx)
            except Skip:
                skipped += 1
                i += nw
                continue
            done += 1
            if ctx.nontrivial:
                h = hashlib.sha1(canon(case).encode()).digest()[:8]
                if h not in nontriv:
                    nontriv.add(h)
                    if len(samples) < 2:
                        samples.append((i, case))
            if f is not None:
                kf = mod.known(case, f) if hasattr(mod, "known") else None
                if kf:
                    ctx.label("known-finding:" + kf)
                elif all(x is not None and x.kind == f.kind for x in (judge(mod, case, ctx), judge(mod, case, ctx))):
                    fails.append((i, case, f.kind, f.msg))
                    stop.set()
                    break
                else:
                    ctx.label("unreproducible")
            i += nw
    except Exception:
        err = traceback.format_exc()
        stop.set()
    finally:
        ctx.work.close()
    q.put((wid, done, skipped, ctx.runs, ctx.labels, nontriv, samples, fails, err))


def shrink(mod, case, kind, ctx, limit=60):
    """Greedy: keep any smaller candidate that still fails with the same kind."""
    t0 = time.time()
    steps = tried = 0
    improved = True
    while improved and time.time() - t0 < limit:
        improved = False
        for cand in mod.shrinks(case):
            if time.time() - t0 > limit:
                break
            tried += 1
            try:
                f = judge(mod, cand, ctx)
            except (Skip, Exception):
                continue
            if f is not None and f.kind == kind and not (hasattr(mod, "known") and mod.known(cand, f)):
                case = cand
                steps += 1
                improved = True
                break
    return case, steps, tried


def build_bins(mod):
    import build
    bins = {}
    for variant, targets in getattr(mod, "BUILD", {"fast": ["verifypn"]}).items():
        for t, p in build.build(variant, targets).items():
            bins[t if variant == "fast" else variant + ":" + t] = p
    # work on a private copy so that a concurrent rebuild cannot change what is being judged
    return bins


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--time", type=float)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--index", type=int, help="development: judge and shrink the generated case with this index only")
    ap.add_argument("--keep-going", type=int, default=0, help="triage: report up to this many failures, unshrunk")
    a = ap.parse_args(argv)
    pid = a.property
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    mod = load(pid)
    import build
    t0 = time.time()
    try:
        bins = build_bins(mod)
    except build.BuildError as e:
        # the tree does not build: no statement about the property can be made
        print("BUILD FAILED for %s\n%s" % (pid, e))
        print("no verdict: the current tree does not build with the harness")
        return 2
    tb = time.time() - t0
    run.BIN = bins.get("verifypn")
    run.SCRATCH = tempfile.mkdtemp(prefix="vprun-", dir=run.scratch_root())
    try:
        if a.replay:
            return replay(mod, pid, a.replay, bins, tier)
        if a.index is not None:
            return one_index(mod, pid, tier, a, bins)
        return explore(mod, pid, tier, a, bins, tb)
    finally:
        shutil.rmtree(run.SCRATCH, ignore_errors=True)


def replay(mod, pid, path, bins, tier):
    d = json.load(open(path))
    ctx = Ctx(bins, tier)
    f = judge(mod, d["case"], ctx)
    ctx.work.close()
    if f is None:
        print("replay: property %s holds on %s" % (pid, path))
        return 0
    print(f)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def one_index(mod, pid, tier, a, bins):
    ctx = Ctx(bins, tier)
    if not getattr(mod, "SANITIZED", False):
        run.limit_memory()
    case = mod.gen(case_rng(pid, a.seed, tier, a.index), tier)
    f = judge(mod, case, ctx)
    print("case:", json.dumps(mod.render(case) if hasattr(mod, "render") else case, indent=1))
    print("verdict:", f)
    if f:
        case, steps, tried = shrink(mod, case, f.kind, ctx, 120)
        f = judge(mod, case, ctx)
        print("shrunk (%d/%d):" % (steps, tried), json.dumps(mod.render(case) if hasattr(mod, "render") else case, indent=1))
        print(f)
        d = "/tmp/vpcase"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(ctx.work.dir, d)
        json.dump({"case": case}, open(d + "/case.json", "w"))
    ctx.work.close()
    return 0


def explore(mod, pid, tier, a, bins, tb):
    t0 = time.time()
    n = a.cases or mod.CASES[tier]
    budget = a.time or getattr(mod, "TIME", {"quick": 240, "thorough": 3000})[tier]
    if a.keep_going:
        return triage(mod, pid, tier, a, bins, n)
    q = mp.Queue()
    stop = mp.Event()
    nw = a.workers
    ps = [mp.Process(target=worker, args=(w, nw, pid, a.seed, tier, n, t0 + budget, bins, q, stop)) for w in range(nw)]
    for p in ps:
        p.start()
    res = []
    while len(res) < nw:
        try:
            res.append(q.get(timeout=5))
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join()
    done = sum(r[1] for r in res)
    skipped = sum(r[2] for r in res)
    runs = sum(r[3] for r in res)
    labels = {}
    nontriv = set()
    samples, fails, errs = [], [], []
    for r in sorted(res, key=lambda r: r[0]):
        for k, v in r[4].items():
            labels[k] = labels.get(k, 0) + v
        nontriv |= r[5]
        samples += r[6]
        fails += r[7]
        if r[8]:
            errs.append(r[8])
    violations = []
    if errs and not fails:
        print("harness error in %s:\n%s" % (pid, errs[0]))
        return 2
    if len(res) < nw:
        print("harness error in %s: a worker died" % pid)
        return 2
    fails.sort(key=lambda f: f[0])
    for idx, case, kind, msg in fails[:1]:
        ctx = Ctx(bins, tier)
        again = [judge(mod, case, ctx) for _ in range(3)]
        if not all(x is not None and x.kind == kind for x in again):
            print("case %d of %s failed once (%s) but does not fail again; not reported" % (idx, pid, kind))
            labels["unreproducible"] = labels.get("unreproducible", 0) + 1
            ctx.work.close()
            continue
        small, steps, tried = shrink(mod, case, kind, ctx)
        f = judge(mod, small, ctx)
        ctx.work.close()
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha1(canon(small).encode()).hexdigest()[:10]))
        with open(rp, "w") as fh:
            json.dump({"property": pid, "seed": a.seed, "tier": tier, "index": idx, "kind": kind,
                       "message": (f or again[0]).msg, "case": small, "original": case,
                       "shrink": {"steps": steps, "tried": tried},
                       "how": "bin/check %s --replay %s" % (pid, rp)}, fh, indent=1)
        print("property %s fails on generated case %d (shrunk in %d steps): %s: %s" % (pid, idx, steps, kind, (f or again[0]).msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        violations.append({"replay": rp, "kind": kind, "message": (f or again[0]).msg[:500]})
    for k in known_findings():
        if k.get("property") == pid and k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if not a.no_evidence:
        ev = {"property": pid, "tier": tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "exploration"),
              "coverage": {"evaluations": done, "distinct_nontrivial": len(nontriv), "rule": mod.RULE,
                           "samples": [{"index": i, "case": mod.render(c) if hasattr(mod, "render") else c} for i, c in sorted(samples, key=lambda s: s[0])[:6]],
                           "skipped": skipped, "verifypn_runs": runs, "labels": dict(sorted(labels.items())),
                           "requested_cases": n},
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - t0 + tb, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s seed=%d: %d cases (%d non-trivial distinct, %d skipped), %d runs, %.1f s (+%.1f s build): %s" % (
        pid, tier, a.seed, done, len(nontriv), skipped, runs, time.time() - t0, tb, "VIOLATED" if violations else "held"))
    return 1 if violations else 0


def triage(mod, pid, tier, a, bins, n):
    """Development aid: collect several failures by kind."""
    def one(i):
        pass
    with mp.Pool(a.workers, initializer=_tinit, initargs=(pid, a.seed, tier, bins)) as pool:
        found = 0
        for i, kind, msg in pool.imap_unordered(_tone, range(n)):
            if kind:
                found += 1
                print("--- case %d %s: %s" % (i, kind, msg[:1500]))
                if found >= a.keep_going:
                    break
        pool.terminate()
    print("triage: %d failures" % found)
    return 0


def _tinit(pid, seed, tier, bins):
    global _T
    mod = load(pid)
    if not getattr(mod, "SANITIZED", False):
        run.limit_memory()
    _T = (mod, pid, seed, tier, Ctx(bins, tier))


def _tone(i):
    mod, pid, seed, tier, ctx = _T
    try:
        case = mod.gen(case_rng(pid, seed, tier, i), tier)
        f = judge(mod, case, ctx)
    except Skip:
        return i, None, None
    except Exception:
        return i, "harness", traceback.format_exc()
    if f is not None and hasattr(mod, "known") and mod.known(case, f):
        return i, None, None
    return (i, f.kind, f.msg) if f else (i, None, None)
