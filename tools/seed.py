#!/usr/bin/env python3
"""Plant, confirm and keep a bug: seed.py SPEC.py [ids...]
A spec defines bug(id, prop, edits, demo, needs, what, srcs='ALL'|glob list).
Each bug is applied in a scratch copy of /repo, built, tested, demonstrated
before and after, and kept in /verif/seeded/<id>; the property's check is then
run against the scratch copy and the verdict printed."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = "/verif"
BUGS = []
def bug(id, prop, edits, demo, needs, what, srcs="ALL", flags=""):
    BUGS.append((id, prop, edits, demo, needs, what, srcs, flags))
DEMO = '''#!/bin/bash
# exit 0: behaves as stated; 1: the property is broken. Works in a scratch folder of its own.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
SRCS="%s"
i=0
for s in "$D/demo.cpp" $SRCS; do i=$((i+1)); echo "$s $T/$i.o"; done |
    xargs -P8 -L1 sh -c 'g++ -std=gnu++20 -O1 -w -I"'"$D"'/shim" -Isrc -I. %s -c "$0" -o "$1"' || exit 2
g++ %s "$T"/*.o -o "$T/demo" -lssl -lcrypto -lpthread || exit 2
timeout 60 "$T/demo" || exit 1
exit 0
'''
ALL = "$(find src -name '*.cpp' ! -name util_error.cpp ! -name util_error_code.cpp ! -name util_binary_view.cpp)"
def sh(c, cwd=None, env=None, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {"bug": bug})
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    nocheck = "--nocheck" in sys.argv
    for id, prop, edits, demo, needs, what, srcs, flags in BUGS:
        if want and id not in want: continue
        work = tempfile.mkdtemp(prefix="seed-")
        try:
            r = sh(f"git -C /repo archive HEAD | tar x -C {work}")
            sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", work)
            bad = False
            for f, old, new in edits:
                p = work + "/" + f; s = open(p).read()
                if s.count(old) != 1: print(id, "EDIT", f, "matches", s.count(old), "times:", repr(old)); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad: continue
            diff = sh("git diff", work).stdout
            d = f"{V}/seeded/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            S = ALL if srcs == "ALL" else srcs
            open(d + "/demo.sh", "w").write(DEMO % (S, flags, flags)); os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.cpp", "w").write('#include <cassert>\n#include <cstdio>\n#include <cstdlib>\n#define REQUIRE(x) do { if (!(x)) { std::printf("FAILED line %d: %s\\n", __LINE__, #x); std::exit(1); } } while (0)\n' + demo.lstrip("\n"))
            shutil.copytree(V + "/shim", d + "/shim")
            json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
            r0 = sh(f"bash {d}/demo.sh", "/repo"); r1 = sh(f"bash {d}/demo.sh", work)
            ok = r0.returncode == 0 and r1.returncode == 1
            print(f"{id} [{prop}] demo clean={r0.returncode} bug={r1.returncode} {'' if ok else 'BAD ' + r0.stdout[-1500:] + '----' + r1.stdout[-1500:]}", flush=True)
            if not ok: continue
            if nocheck: continue
            env = dict(os.environ, VERIF_REPO=work, VERIF_EVIDENCE=work + "/.ev", VERIF_CACHE="/tmp/seedcache", VERIF_TIER="quick")
            c = sh(f"python3 {V}/check.py {prop} quick", V, env)
            lines = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "  ", "NOTE"))]
            print(f"   {'CAUGHT' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode} " + " | ".join(l[:300] for l in lines[:4]) + " :: " + c.stdout.strip().splitlines()[-1][:200], flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
main()
