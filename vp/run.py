"""Running the verifypn binary and reading its output."""
import os, re, resource, subprocess, shutil, tempfile, signal

BIN = None
SCRATCH = None


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class Res:
    __slots__ = ("rc", "out", "err", "timeout", "args")

    def __init__(self, rc, out, err, timeout, args):
        self.rc, self.out, self.err, self.timeout, self.args = rc, out, err, timeout, args

    def crashed(self):
        """Died from a signal (assert, segfault) or a sanitizer report."""
        return (not self.timeout) and (self.rc < 0 or self.rc in (66, 67, 134, 139) or "Sanitizer" in self.err
                                       or "runtime error:" in self.err or "terminate called" in self.err)

    def verdicts(self):
        """name -> True/False/int/None (CANNOT_COMPUTE) from FORMULA lines; a repeated contradictory line is kept as 'CONFLICT'."""
        r = {}
        for l in self.out.splitlines():
            if l.startswith("FORMULA "):
                w = l.split()
                if len(w) < 3:
                    continue
                v = {"TRUE": True, "FALSE": False, "CANNOT_COMPUTE": None}.get(w[2], w[2])
                if isinstance(v, str):
                    try:
                        v = int(v)
                    except ValueError:
                        v = "?" + v
                if w[1] in r and (r[w[1]] is not v and r[w[1]] != v):
                    v = "CONFLICT"
                r[w[1]] = v
        return r

    def brief(self):
        s = "rc=%s timeout=%s\nstderr:\n%s\nstdout (end):\n%s" % (self.rc, self.timeout, self.err[-1500:], self.out[-400:])
        return s


def verifypn(args, timeout=20, stdin=None, binary=None, env=None, cwd=None):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "VP_TIME": "1", "GLIBC_TUNABLES": "glibc.malloc.hugetlb=1",
         "ASAN_OPTIONS": "exitcode=66:detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3000:allocator_may_return_null=1",
         "UBSAN_OPTIONS": "halt_on_error=1:exitcode=67:print_stacktrace=1"}
    if env:
        e.update(env)
    cmd = [binary or BIN] + [str(a) for a in args]
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd)
    try:
        o, er = p.communicate(stdin.encode("utf-8", "surrogateescape") if stdin is not None else None, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        p.kill()
        o, er = p.communicate()
        to = True
    return Res(p.returncode, o.decode("utf-8", "replace"), er.decode("utf-8", "replace"), to, cmd)


def limit_memory(mb=3500):
    resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Work:
    """A scratch directory private to one worker."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-", dir=SCRATCH or scratch_root())

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        mode = "wb" if isinstance(text, bytes) else "w"
        with open(p, mode) as f:
            f.write(text)
        return p

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
