#!/usr/bin/env python3
"""Builds verifypn and the in-process harnesses from /repo's current working tree.

Everything is compiled from /repo/src with the stand-ins in /verif/standins for the two
libraries that are not available offline. Output goes to <out>/<variant>/ (default
/verif/build). Objects are content-addressed through ccache (cache inside the output
directory), so that a rebuild after a small edit is quick.
"""
import argparse, hashlib, os, subprocess, sys, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

VARIANTS = {
    # like the release build users get: assertions off (-DNDEBUG); optimised enough to be quick
    "fast": dict(cxx="g++", cflags="-O1 -g0 -DNDEBUG", ldflags=""),
    # address + undefined behaviour sanitizers
    "san": dict(cxx="g++", cflags="-O1 -g1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=address,undefined "
                "-fno-sanitize-recover=undefined", ldflags="-fsanitize=address,undefined"),
}
COMMON = ("-std=c++17 -w -fPIC -DVERIFYPN_VERSION='\"4.4.2\"' -I{repo}/include -I{repo}/src "
          "-I{v}/standins -isystem /usr/include/rapidxml")


class BuildError(Exception):
    pass


def sources():
    res = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp") and not f.endswith((".parser.cpp", ".lexer.cpp")):
                res.append(os.path.join(base, f))
    return res


def gen(variant, targets):
    v = VARIANTS[variant]
    out = os.path.join(OUT, variant)
    os.makedirs(out, exist_ok=True)
    cc = shutil.which("ccache")
    pre = "ccache " if cc else ""
    pql = os.path.join(REPO, "src/PetriEngine/PQL")
    lines = ["ninja_required_version = 1.5",
             "cflags = %s %s" % (COMMON.format(repo=REPO, v=VERIF), v["cflags"]),
             "rule cxx\n  command = %s%s -MMD -MF $out.d $cflags $extra -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (pre, v["cxx"]),
             "rule ar\n  command = rm -f $out && ar crT $out $in",
             "rule link\n  command = %s $in -o $out %s -lglpk -lpthread" % (v["cxx"], v["ldflags"]),
             "rule bison\n  command = bison -d -o $dir/PQLQueryParser.parser.cpp $in",
             "rule flex\n  command = flex -o $out $in",
             "build %s/gen/PQLQueryParser.parser.cpp %s/gen/PQLQueryParser.parser.hpp: bison %s/PQLQueryParser.y\n  dir = %s/gen" % (out, out, pql, out),
             "build %s/gen/PQLQueryTokens.lexer.cpp: flex %s/PQLQueryTokens.l" % (out, pql)]
    os.makedirs(os.path.join(out, "gen"), exist_ok=True)
    objs = []
    extra = "-I%s -I%s/gen" % (pql, out)
    for s in sources():
        rel = os.path.relpath(s, os.path.join(REPO, "src"))
        o = "%s/obj/%s.o" % (out, rel)
        if rel == "main.cpp":
            mainobj = o
        else:
            objs.append(o)
        lines.append("build %s: cxx %s" % (o, s))
    for g in ("PQLQueryParser.parser", "PQLQueryTokens.lexer"):
        o = "%s/obj/gen/%s.o" % (out, g)
        objs.append(o)
        lines.append("build %s: cxx %s/gen/%s.cpp | %s/gen/PQLQueryParser.parser.hpp\n  extra = %s" % (o, out, g, out, extra))
    lib = "%s/libvp.a" % out
    lines.append("build %s: ar %s" % (lib, " ".join(objs)))
    lines.append("build %s/obj/harness/faketime.o: cxx %s/harness/faketime.cpp" % (out, VERIF))
    lines.append("build %s/verifypn: link %s %s/obj/harness/faketime.o %s" % (out, mainobj, out, lib))
    hdir = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hdir)):
        if f.endswith(".cpp") and f != "faketime.cpp":
            n = f[:-4]
            lines.append("build %s/obj/harness/%s.o: cxx %s/%s\n  extra = -I%s" % (out, n, hdir, f, hdir))
            lines.append("build %s/%s: link %s/obj/harness/%s.o %s/obj/harness/faketime.o %s" % (out, n, out, n, out, lib))
    text = "\n".join(lines) + "\n"
    nf = os.path.join(out, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != text:
        with open(nf, "w") as fh:
            fh.write(text)
    return out


def build(variant="fast", targets=("verifypn",), quiet=True):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = gen(variant, targets)
        env = dict(os.environ)
        env.update(CCACHE_DIR=os.path.join(OUT, "ccache"), CCACHE_MAXSIZE="2G", LC_ALL="C",
                   CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="time_macros")
        for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS"):
            env.pop(k, None)
        p = subprocess.run(["ninja", "-C", out] + ["%s/%s" % (out, t) for t in targets],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError(p.stdout[-6000:])
        if not quiet:
            print(p.stdout[-400:])
    return {t: os.path.join(out, t) for t in targets}


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--variant", default="fast")
    ap.add_argument("targets", nargs="*", default=["verifypn"])
    a = ap.parse_args()
    try:
        for t, p in build(a.variant, a.targets, quiet=False).items():
            print(t, p)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
