#!/usr/bin/env python3
"""Try edits of /repo against the checks, each in a scratch copy: mut.py SPEC.py OUT [ids...]
A spec calls m(id, prop(s), [(file, old, new)...]) for an edit that breaks the
property and q(...) for one that must stay quiet."""
import os, shutil, subprocess, sys, tempfile, time
M = []
def sh(c, cwd=None, env=None, timeout=1800):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {"m": lambda i, p, e: M.append((i, p, e, 1)), "q": lambda i, p, e: M.append((i, p, e, 0))})
out = open(sys.argv[2], "a"); want = sys.argv[3:]
def say(s):
    print(s, flush=True); out.write(s + "\n"); out.flush()
for id, props, edits, expect in M:
    if want and id not in want: continue
    work = tempfile.mkdtemp(prefix="mut-")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {work}")
        bad = False
        for f, old, new in edits:
            p = work + "/" + f; s = open(p).read()
            if s.count(old) != 1: say(f"{id} EDIT {f} matches {s.count(old)} times: {old!r}"); bad = True; break
            open(p, "w").write(s.replace(old, new))
        if bad: continue
        for prop in props.split():
            t = time.time()
            env = dict(os.environ, VERIF_REPO=work, VERIF_EVIDENCE=work + "/.ev", VERIF_CACHE="/tmp/seedcache", VERIF_TIER="quick")
            c = sh(f"python3 /verif/check.py {prop} quick", "/verif", env)
            ok = c.returncode == expect
            lines = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "  ", "NOTE"))]
            say(f"{'ok  ' if ok else 'BAD '} {id} [{prop}] rc={c.returncode} want={expect} {time.time()-t:.0f}s " + " | ".join(l[:160] for l in lines[:2]) + ("" if ok else " :: " + c.stdout.strip()[-400:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
