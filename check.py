#!/usr/bin/env python3
"""Decide one property: check.py <property> [quick|thorough]

Builds the symbolic executor if needed, compiles the repository's current
sources to LLVM IR, links them with the property's harnesses, explores every
job symbolically (Z3 decides each branch, memory access and assertion), replays
solver witnesses and counterexamples natively, writes the evidence file.
Exit 0: held on everything explored; 1: a confirmed violation (VIOLATION line)."""
import concurrent.futures as cf
import fcntl, glob, hashlib, itertools, json, os, re, resource, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(V, ".cache"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence"))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
CXX = "clang++-18"
# never part of any build upstream: they need libraries whose interface is unavailable
SKIP = {"src/util/util_error.cpp", "src/util/util_binary_view.cpp"}
BASE = ["-std=gnu++20", "-O1", "-fno-exceptions", "-fno-pie", "-fno-threadsafe-statics", "-fno-vectorize", "-fno-slp-vectorize",
        "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DCRAFTPP_NO_CONTEXT", "-gline-tables-only", "-w",
        "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,return,unreachable,bounds,float-cast-overflow", "-fsanitize-trap=all"]
NORTTI = ["-fno-rtti"]


def inc():
    return ["-I", V + "/shim", "-I", REPO + "/src", "-I", REPO, "-I", V + "/harness"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX); return self

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()


def engine():
    src = glob.glob(V + "/engine/*.[ch]pp") + glob.glob(V + "/engine/*.inc") + [V + "/engine/build.sh"]
    d = os.path.join(CACHE, "engine-" + hash_files(src))
    with Lock("engine"):
        if not os.path.exists(d + "/se"):
            for o in glob.glob(CACHE + "/engine-*"):
                if os.path.isdir(o): shutil.rmtree(o, ignore_errors=True)
            r = sh(["bash", V + "/engine/build.sh", d])
            if r.returncode:
                print(r.stderr[-4000:]); raise RuntimeError("engine build failed")
    return d + "/se"


def repo_sources():
    out = []
    for root in ("/src", "/node"):
      for p, ds, fs in os.walk(REPO + root):
        for f in fs:
            full = os.path.join(p, f)
            if f.endswith(".cpp") and os.path.relpath(full, REPO) not in SKIP: out.append(full)
    return sorted(out)


def all_files(root, exts=(".hpp", ".h", ".cpp", ".inc", ".ipp")):
    r = []
    for p, ds, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts): r.append(os.path.join(p, f))
    return r


def tree_key():
    return hash_files(all_files(REPO + "/src") + all_files(REPO + "/node") + all_files(V + "/shim"), " ".join(BASE + NORTTI + sorted(SKIP)))


def prune(prefix, keep, n):
    ds = sorted((d for d in glob.glob(os.path.join(CACHE, prefix + "*")) if os.path.isdir(d) and d != keep), key=os.path.getmtime)
    for d in ds[:max(0, len(ds) - n)]: shutil.rmtree(d, ignore_errors=True)


def repo_bitcode(kind="sym"):
    """bitcode (kind sym) or address-sanitised objects (kind asan) of every repository source; returns list of files and failures"""
    d = os.path.join(CACHE, f"repo-{kind}-" + tree_key())
    with Lock("repo-" + kind):
        if not os.path.exists(d + "/done"):
            prune(f"repo-{kind}-", d, 3)
            os.makedirs(d, exist_ok=True)
            fails = []

            def one(f):
                o = os.path.join(d, os.path.relpath(f, REPO).replace("/", "_"))
                fl = (["-emit-llvm"] + NORTTI) if kind == "sym" else ["-fsanitize=address", "-g"]
                fl2 = [x for x in BASE if x != "-fno-rtti"]
                r = sh([CXX] + fl2 + fl + inc() + ["-c", f, "-o", o + (".bc" if kind == "sym" else ".o")])
                if r.returncode: fails.append(os.path.relpath(f, REPO) + ": " + "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:600])
            with cf.ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, repo_sources()))
            with open(d + "/done", "w") as fh: json.dump(fails, fh)
        else:
            os.utime(d)
    return sorted(glob.glob(d + ("/*.bc" if kind == "sym" else "/*.o"))), json.load(open(d + "/done"))


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.props, self.jobs, self.bounds, self.assumes, self.flags = [], [], [], [], []
        for l in open(path):
            m = re.match(r"//\s*@(\w+)\s+(.*\S)\s*$", l)
            if not m: continue
            k, v = m.groups()
            if k == "property": self.props += v.split()
            elif k == "bound": self.bounds.append(v)
            elif k == "assume": self.assumes.append(v)
            elif k == "flags": self.flags += v.split()
            elif k == "job":
                # @job <property> <tiers> <function> [params] [key=value ...]
                t = v.split()
                prop, tiers, fn = t[0], t[1].split(","), t[2]
                opts = dict(x.split("=", 1) for x in t[3:] if "=" in x)
                rest = " ".join(x for x in t[3:] if "=" not in x)
                seen = []
                for alt in rest.split("|"):          # alternative parameter lists
                    dims = []
                    for x in alt.split():
                        vals = []
                        for y in x.split(","):
                            m2 = re.match(r"^(-?\d+)\.\.(-?\d+)(?:/(\d+))?$", y)
                            vals += list(range(int(m2[1]), int(m2[2]) + 1, int(m2[3] or 1))) if m2 else [int(y)]
                        dims.append(vals)
                    for ps in itertools.product(*dims):
                        if list(ps) not in seen: seen.append(list(ps))
                for ps in seen: self.jobs.append((prop, tiers, fn, ps, opts))


def build_harness(h, bcs, log):
    """returns (bitcode for the engine, bitcode for native replay)"""
    files = all_files(V + "/harness", (".hpp", ".inc")) + [h.path, V + "/harness/runtime.cpp", V + "/harness/runtime_ios.cpp"]
    d = os.path.join(CACHE, "h-" + h.name + "-" + hash_files(files, tree_key()))
    if os.path.exists(d + "/sym.bc") and os.path.exists(d + "/nat.bc"):
        return d
    prune("h-" + h.name + "-", d, 2)
    os.makedirs(d, exist_ok=True)
    cmds = [[CXX] + BASE + NORTTI + h.flags + inc() + ["-emit-llvm", "-c", h.path, "-o", d + "/h.bc"],
            [CXX] + BASE + NORTTI + ["-fno-builtin"] + inc() + ["-emit-llvm", "-c", V + "/harness/runtime.cpp", "-o", d + "/rt.bc"],
            [CXX] + BASE + NORTTI + ["-fno-builtin"] + inc() + ["-emit-llvm", "-c", V + "/harness/runtime_ios.cpp", "-o", d + "/rt2.bc"]]
    with cf.ThreadPoolExecutor(3) as ex: rs = list(ex.map(sh, cmds))
    for r in rs:
        if r.returncode:
            log.append("compile: " + "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:3000]); return None
    fns = sorted({j[2] for j in h.jobs})
    keep = "-internalize-public-api-list=" + ",".join(fns + ["main"])
    r = sh(["llvm-link-18", "-o", d + "/nat0.bc", d + "/h.bc"] + [x for b in bcs for x in ("--override", b)][:0] + bcs)
    if r.returncode: log.append("link: " + r.stderr[-2000:]); return None
    r = sh(["llvm-link-18", "-o", d + "/sym0.bc", d + "/nat0.bc", d + "/rt.bc", d + "/rt2.bc"])
    if r.returncode: log.append("link rt: " + r.stderr[-2000:]); return None
    for x in ("nat", "sym"):
        r = sh(["opt-18", "-passes=internalize,globaldce", keep, d + f"/{x}0.bc", "-o", d + f"/{x}.bc.tmp"])
        if r.returncode: log.append("opt: " + r.stderr[-2000:]); return None
        os.rename(d + f"/{x}.bc.tmp", d + f"/{x}.bc"); os.unlink(d + f"/{x}0.bc")
    return d


def native_bin(d):
    b = d + "/replay"
    if not os.path.exists(b):
        r = sh([CXX, "-std=gnu++20", "-O1", "-w", "-no-pie", "-rdynamic", d + "/nat.bc", V + "/harness/replay.cpp", "-I", V + "/harness", "-o", b + ".tmp", "-ldl", "-lcrypto", "-lssl", "-Wl,--unresolved-symbols=ignore-all"])
        if r.returncode: return None, r.stderr[-1500:]
        os.rename(b + ".tmp", b)
    return b, ""


def asan_bin(h, d):
    b = d + "/replay_asan"
    if not os.path.exists(b):
        objs, fails = repo_bitcode("asan")
        o = d + "/h_asan.o"
        r = sh([CXX] + [x for x in BASE] + h.flags + inc() + ["-g", "-fsanitize=address", "-c", h.path, "-o", o])
        if r.returncode: return None, r.stderr[-1500:]
        r = sh([CXX, "-std=gnu++20", "-O1", "-w", "-no-pie", "-rdynamic", "-no-pie", "-fsanitize=address", o] + objs + [V + "/harness/replay.cpp", "-I", V + "/harness", "-o", b + ".tmp", "-ldl", "-lcrypto", "-lssl", "-Wl,--unresolved-symbols=ignore-all"])
        if r.returncode: return None, r.stderr[-1500:]
        os.rename(b + ".tmp", b)
    return b, ""


def write_values(path, inputs, head=()):
    with open(path, "w") as f:
        for l in head: f.write("! " + l.replace("\n", "\n! ") + "\n")
        for n, v in inputs: f.write(f"{n} {v}\n")


def run_native(b, vals, fn, params, env=None, timeout=70):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        r = subprocess.run([b, vals, fn] + [str(p) for p in params], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def confirm(h, d, v, vals):
    """does the counterexample reproduce against natively compiled code?"""
    b, err = native_bin(d)
    if b:
        rc, out, _ = run_native(b, vals, v["fn"], v["params"])
        if rc == 77 and "ASSERT-FAIL" in out: return "native: " + [l for l in out.splitlines() if l.startswith("ASSERT-FAIL")][0]
        if rc != 0 and rc != 78 and v["kind"] != "assert": return f"native: abnormal end (status {rc})"
        if rc in (-6, -11, -4, 132, 134, 139): return f"native: crash (status {rc})"
        if rc in ("timeout", -14): return "native: no result within 60 s"
    b, err2 = asan_bin(h, d)
    if b:
        for fill in ("190", "0", "255", "1"):
            rc, out, e = run_native(b, vals, v["fn"], v["params"], {"ASAN_OPTIONS": f"detect_leaks=0:detect_stack_use_after_return=1:malloc_fill_byte={fill}:max_malloc_fill_size=65536:free_fill_byte={fill}:max_free_fill_size=65536:abort_on_error=0:exitcode=99"})
            if rc == 99: return "sanitizer: " + next((l.strip() for l in e.splitlines() if "ERROR: AddressSanitizer" in l), "error")
            if rc == 77: return "native: " + [l for l in out.splitlines() if l.startswith("ASSERT-FAIL")][0]
            if rc not in (0, 78): return f"native: abnormal end (status {rc})"
    return None


def known_findings():
    r = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m: r.append(m.groups())
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    dev = "--dev" in sys.argv
    only = [a[5:] for a in sys.argv if a.startswith("--fn=")]
    t0 = time.time()
    deadline = t0 + float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "1500"))
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(f"{EVID}/{prop}-*.replay"): os.unlink(f)
    se = engine()
    bcs, fails = repo_bitcode()
    hs = [Harness(f) for f in sorted(glob.glob(V + "/harness/*.cpp")) if os.path.basename(f) not in ("runtime.cpp", "runtime_ios.cpp", "replay.cpp")]
    hs = [h for h in hs if any(j[0] == prop for j in h.jobs)]
    notes, incomplete, jobs = [], [], []
    for f in fails: incomplete.append("source does not compile with the stand-in headers: " + f)
    tmp = tempfile.mkdtemp(prefix="se-" + prop + "-")
    dirs = {}

    def bh(h):
        log = []
        with Lock("h-" + h.name): dirs[h.name] = build_harness(h, bcs, log)
        for l in log: incomplete.append(f"{h.name}: {l}")
    with cf.ThreadPoolExecutor(NPROC) as ex: list(ex.map(bh, hs))
    for h in hs:
        if not dirs[h.name]: continue
        for j in h.jobs:
            if j[0] == prop and tier in j[1] and (not only or j[2] in only): jobs.append((h, j))
    jobs.sort(key=lambda x: -int(x[1][4].get("prio", "0")))
    budget = float(os.environ.get("VERIF_JOBTIME", "120" if tier == "quick" else "600"))

    def run(i):
        h, (p, tiers, fn, params, opts) = jobs[i]
        left = deadline - time.time()
        if left < 2: return i, None, "not started: time budget exhausted"
        t = min(left, float(opts.get("time", budget)))
        out = f"{tmp}/{i}.json"
        cmd = [se, dirs[h.name] + "/sym.bc", fn, "--time", str(t), "--repo", REPO, "--out", out, "--query-ms", opts.get("query_ms", "20000" if tier == "quick" else "120000")]
        if "steps" in opts: cmd += ["--steps", opts["steps"]]
        if dev: cmd.append("-v")
        cmd += ["--"] + [str(x) for x in params]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=t + 90,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30)))
        except subprocess.TimeoutExpired:
            return i, None, "executor timed out"
        if r.returncode or not os.path.exists(out): return i, None, f"executor ended with {r.returncode}: {r.stderr[-500:]}"
        rep = json.load(open(out))
        if dev and r.stderr: print(r.stderr[-3000:])
        # witnesses: replay natively and compare
        val = bad = 0; badmsg = []
        b, err = (None, "")
        if rep["witnesses"]:
            with Lock("nat-" + h.name): b, err = native_bin(dirs[h.name])
            if not b: badmsg.append("replay binary: " + err)
        if b:
            for k, w in enumerate(rep["witnesses"]):
                vf = f"{tmp}/{i}-{k}.val"
                write_values(vf, w["inputs"])
                rc, so, se_ = run_native(b, vf, fn, params)
                obs = [l[4:] for l in so.splitlines() if l.startswith("OBS ")]
                cov = [l[6:] for l in so.splitlines() if l.startswith("COVER ")]
                if rc == 0 and obs == w["observed"] and cov == w["covers"]: val += 1
                else:
                    bad += 1; badmsg.append(f"{fn}{params} witness {k}: rc={rc} native obs={obs} covers={cov} engine obs={w['observed']} covers={w['covers']} {so[-200:]}")
        rep["validated"] = val; rep["mismatch"] = badmsg
        return i, rep, None
    reps = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for i, rep, err in ex.map(run, range(len(jobs))):
            h, j = jobs[i]
            if err: incomplete.append(f"{j[2]}{j[3]}: {err}")
            if rep:
                reps.append((h, j, rep))
                for x in rep["incomplete"]: incomplete.append(f"{j[2]}{j[3]}: {x}")
                for x in rep["mismatch"]: incomplete.append("engine/native mismatch: " + x)
                if dev: print(f"{j[2]}{j[3]}: paths={rep['paths']} killed={rep['killed']} insts={rep['instructions']} asserts={rep['asserts']}/{rep['asserts_symbolic']} queries={rep['solver']['queries']} z3={rep['solver']['z3']} zt={rep['solver']['time_s']:.1f} wall={rep['wall_s']:.1f} viol={len(rep['violations'])} valid={rep['validated']}/{len(rep['witnesses'])} covers={rep['covers']}")
    # violations
    known = known_findings()
    confirmed, unconfirmed, knownhit = [], [], {}
    seen = set()
    n = 0
    for h, j, rep in reps:
        for v in rep["violations"]:
            key = f"{j[2]}|{v['kind']}|{v['msg']}"
            v["fn"], v["params"] = j[2], j[3]
            k = next((x for x in known if x[0] == prop and x[1] == key), None)
            if (key in seen) and not k: continue
            if key in seen: continue
            path = f"{EVID}/{prop}-{n}.replay"; n += 1
            write_values(path, v["inputs"], [f"property {prop}", f"harness {h.name} function {v['fn']} params {v['params']}", f"{v['kind']}: {v['msg']}", "at " + v["where"], v["backtrace"]])
            how = confirm(h, dirs[h.name], v, path)
            if dev: print(f"  {key} at {v['where']}\n{v['backtrace']}    inputs {v['inputs'][:40]}\n    confirm: {how}")
            if not how:
                unconfirmed.append(f"{key} at {v['where']}"); os.unlink(path); continue
            seen.add(key)
            if k: knownhit[key] = k[2]; continue
            confirmed.append((key, path, v, how))
    for key, what in knownhit.items(): print(f"KNOWN-FINDING: property={prop} {what}")
    for key, path, v, how in confirmed:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['kind']}: {v['msg']} in {v['fn']}{v['params']} at {v['where']}; {how}")
        print("  inputs: " + " ".join(f"{a}={b}" for a, b in v["inputs"][:48]))
    for u in unconfirmed: incomplete.append("counterexample did not reproduce natively (not reported): " + u)
    for x in incomplete[:20]: print("NOTE incomplete: " + x[:1500])
    S = lambda k: sum(r[2][k] for r in reps)
    Q = lambda k: sum(r[2]["solver"][k] for r in reps)
    covers = {}
    for h, j, r in reps:
        for k, c in r["covers"].items(): covers[f"{j[2]}:{k}"] = covers.get(f"{j[2]}:{k}", 0) + c
    samples = []
    for h, j, r in reps:
        for w in r["witnesses"][:1]:
            if len(samples) < 8: samples.append({"harness": j[2], "params": j[3], "inputs": dict(w["inputs"][:24]), "reached": w["covers"][:8], "observed": w["observed"][:8]})
    funcs = sorted({f for _, _, r in reps for f in r["functions"]})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": S("paths") + S("killed"), "transitions": S("instructions"), "traces_validated_against_impl": sum(r[2]["validated"] for r in reps), "samples": samples,
            "exhaustive": not incomplete and bool(reps), "jobs": len(jobs), "jobs_completed": sum(1 for r in reps if not r[2]["incomplete"]),
            "paths": S("paths"), "infeasible_or_assumed_away": S("killed"), "forks": S("forks"), "assertions_decided": S("asserts"), "assertions_symbolic": S("asserts_symbolic"),
            "memory_accesses_checked": S("memory_checks"), "solver_queries": Q("queries"), "queries_reaching_z3": Q("z3"), "z3_sat": Q("sat"), "z3_unsat": Q("unsat"), "z3_unknown": Q("unknown"),
            "solver_time_s": round(Q("time_s"), 2), "slowest_query_s": round(max([r[2]["solver"]["max_s"] for r in reps] or [0]), 2),
            "functions_encoded": funcs, "repo_lines_encoded": len({l for _, _, r in reps for l in r["lines"]}), "reachability_witnesses": covers,
            "bounds": sorted({b for h in hs for b in h.bounds}), "incomplete": incomplete[:50],
        },
        "assumptions": sorted({a for h in hs for a in h.assumes}) + ["CRAFT++ support library replaced by the stand-in headers in /verif/shim; error-context texts dropped",
            "libstdc++ container code is executed from its headers; a few out-of-line pieces, ctype, strtol and inet_* are modelled in harness/runtime.cpp",
            "allocation never fails below 8 MiB"],
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    with open(f"{EVID}/{prop}.json", "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print(f"{prop} {tier}: jobs={len(jobs)} paths={ev['coverage']['paths']} queries={Q('queries')} z3={Q('z3')} solver={Q('time_s'):.1f}s validated={ev['coverage']['traces_validated_against_impl']} violations={len(confirmed)} exhaustive={ev['coverage']['exhaustive']} wall={ev['wall_s']}s")
    if not confirmed and not reps:
        print(f"{prop}: nothing could be explored"); return 2
    return 1 if confirmed else 0


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        engine(); repo_bitcode(); sys.exit(0)
    sys.exit(main())
