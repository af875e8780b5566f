#!/usr/bin/env python3
"""Compiles /repo's sources (cwd) with the stand-ins beside this file into argv[1]/verifypn. Used by demo.sh only."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
repo, out = os.getcwd(), os.path.abspath(sys.argv[1])
os.makedirs(out + "/gen", exist_ok=True)
pql = repo + "/src/PetriEngine/PQL"
flags = ("-std=c++17 -w -O0 -DNDEBUG -DVERIFYPN_VERSION='\"x\"' -I%s/include -I%s/src -I%s/standins -I%s -I%s/gen -isystem /usr/include/rapidxml" % (repo, repo, here, pql, out))
L = ["rule cxx\n  command = g++ %s -c $in -o $out" % flags, "rule link\n  command = g++ $in -o $out -lglpk -lpthread",
     "rule bison\n  command = bison -d -o %s/gen/PQLQueryParser.parser.cpp $in" % out, "rule flex\n  command = flex -o $out $in",
     "build %s/gen/PQLQueryParser.parser.cpp %s/gen/PQLQueryParser.parser.hpp: bison %s/PQLQueryParser.y" % (out, out, pql),
     "build %s/gen/PQLQueryTokens.lexer.cpp: flex %s/PQLQueryTokens.l" % (out, pql)]
objs = []
for b, d, fs in os.walk(repo + "/src"):
    for f in sorted(fs):
        if f.endswith(".cpp") and not f.endswith((".parser.cpp", ".lexer.cpp")):
            s = os.path.join(b, f)
            objs.append(out + "/o" + s[len(repo):] + ".o")
            L.append("build %s: cxx %s" % (objs[-1], s))
for g in ("PQLQueryParser.parser", "PQLQueryTokens.lexer"):
    objs.append("%s/o/%s.o" % (out, g))
    L.append("build %s: cxx %s/gen/%s.cpp | %s/gen/PQLQueryParser.parser.hpp" % (objs[-1], out, g, out))
L.append("build %s/verifypn: link %s" % (out, " ".join(objs)))
open(out + "/build.ninja", "w").write("\n".join(L) + "\n")
r = subprocess.run(["ninja", "-C", out, out + "/verifypn"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    print(r.stdout[-3000:])
    sys.exit(3)
