#!/usr/bin/env python3
"""run.py <property> : build from /repo's working tree, explore, write evidence.

Tier and seed come from VERIF_TIER / VERIF_SEED (or --tier).  Exit 0: the
property held on everything explored; exit 1 + a VIOLATION line otherwise.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
JOBS = os.cpu_count() or 8
INC = ["src", "src/core/common", "src/core/distributions", "src/core/model",
       "src/core/trainingset", "src/models/gmm", "src/models/hmm",
       "src/models/kmeans", "dependencies/jsoncpp/include",
       "dependencies/jsoncpp/src"]
SEQ = dict(cxx="g++", flags=["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer",
       "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS",
       "-DUSE_PTHREAD", "-pthread", "-w"], link=["-fsanitize=address,undefined", "-pthread"])
WRAP = ["memcpy", "memmove", "memset", "memcmp", "strlen",
        "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
        "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
        "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"]
# instrumented for ThreadSanitizer, linked with rt_sched.cpp in place of its runtime
TSAN = dict(cxx="g++", flags=["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer",
       "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
       "-D_GLIBCXX_ASSERTIONS", "-DUSE_PTHREAD", "-pthread", "-w"],
       link=["-pthread", "-ldl", "-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAP])


def sources():
    out = []
    for base in ("src", "dependencies/jsoncpp/src"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".cc", ".cxx", ".c"))]
    return sorted(out)


def incdirs():
    ds = [os.path.join(REPO, i) for i in INC]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if d not in ds and any(f.endswith((".hpp", ".h")) for f in fs):
            ds.append(d)
    return ["-I" + d for d in ds]


def tree_hash(extra):
    h = hashlib.sha256()
    for base in ("src", "dependencies/jsoncpp"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd[:3]) + " ... " + cmd[-1] + "\n" + r.stdout[-6000:] + "\n")
        raise SystemExit(3)
    return r.stdout


def compile_cached(cfg_name, cfg, flags, src, name):
    """object file of src, cached by the preprocessed text"""
    base = [cfg["cxx"]] + flags + incdirs() + ["-I" + os.path.join(V, "harness")]
    r = subprocess.run(base + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        sys.stderr.write(r.stderr.decode(errors="replace")[-6000:] + "\n")
        raise SystemExit(3)
    h = hashlib.sha256(repr([cfg["cxx"], flags]).encode() + r.stdout)
    # asserts and checks mention lines: keep the positions of the project's own lines
    h.update(open(src, "rb").read())
    o = os.path.join(BUILD, "o-%s-%s-%s.o" % (cfg_name, name, h.hexdigest()[:20]))
    if not os.path.exists(o):
        t = o + ".%d.tmp.o" % os.getpid()
        sh(base + ["-c", "-o", t, src])
        os.rename(t, o)
    else:
        os.utime(o)
    return o


def build(cfg_name, cfg, harness_files, exe_name):
    """library objects + harness"""
    hd = os.path.join(V, "harness")
    os.makedirs(BUILD, exist_ok=True)
    for f in os.listdir(BUILD):        # objects of trees not seen for a long time
        p = os.path.join(BUILD, f)
        try:
            if f.startswith("o-") and time.time() - os.path.getmtime(p) > 6 * 3600:
                os.remove(p)
        except OSError:
            pass
    with ThreadPoolExecutor(JOBS) as ex:
        jobs = []
        for hf in harness_files:
            fl = list(cfg["flags"])
            if hf == "rt_sched.cpp":          # the scheduler runtime itself is not instrumented
                fl = [f for f in fl if not f.startswith("-fsanitize")]
                fl = ["-O2" if f == "-O1" else f for f in fl]
            if hf == "explore.cpp":
                fl = [f for f in fl if not f.startswith(("-fsanitize", "-fno-sanitize", "-ftrivial", "-D_GLIBCXX"))]
            jobs.append(ex.submit(compile_cached, cfg_name, cfg, fl, os.path.join(hd, hf), hf.replace("/", "_")))
        for i, s in enumerate(sources()):
            jobs.append(ex.submit(compile_cached, cfg_name, cfg, list(cfg["flags"]), s, "%02d-%s" % (i, os.path.basename(s))))
        objs = [j.result() for j in jobs]
    exe = os.path.join(BUILD, exe_name)
    t = exe + ".%d" % os.getpid()
    sh([cfg["cxx"], "-o", t] + objs + cfg["link"])
    os.rename(t, exe)
    return exe


def selftest():
    """small programs with known defects, which the scheduler and its monitor have to see, and their correct twins"""
    exe = build("conc", TSAN, ["rt_selftest.cpp", "rt_sched.cpp"], "conc-selftest")
    names = re.findall(r"^RT_SCENARIO\((\w+)", open(os.path.join(V, "harness", "rt_selftest.cpp")).read(), re.M)

    def run(n):
        d = os.path.join(BUILD, "selftest-%s-%d" % (n, os.getpid()))
        os.makedirs(d, exist_ok=True)
        r = subprocess.run([exe, "--only", n, "--jobs", "2", "--property", "selftest", "--replay-dir", d], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        shutil.rmtree(d, ignore_errors=True)
        return n, r
    bad = 0
    with ThreadPoolExecutor(max(1, JOBS // 2)) as ex:
        for n, r in ex.map(run, names):
            if r.returncode != (1 if n.startswith("bad_") else 0):
                bad += 1
                print("self-test %s: exit %d\n%s" % (n, r.returncode, r.stdout))
    print("self-test of the scheduler: %d programs, %d wrong" % (len(names), bad))
    return 1 if bad else 0


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    if pid == "setup":      # build everything once, so that the checks only rebuild what changed
        checks = json.load(open(os.path.join(V, "checks.json")))
        for p, c in sorted(checks.items()):
            if not p.startswith("_"):
                k = c.get("kind", "seq")
                build(k, SEQ if k == "seq" else TSAN,
                      c["files"] + (["explore.cpp"] if k == "seq" else ["rt_sched.cpp"]), "%s-%s" % (k, p))
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    checks = json.load(open(os.path.join(V, "checks.json")))
    c = checks[pid]
    kind = c.get("kind", "seq")
    rep_dir = os.path.join(V, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cfg = SEQ if kind == "seq" else TSAN
    files = c["files"] + (["explore.cpp"] if kind == "seq" else ["rt_sched.cpp"])
    exe = build(kind, cfg, files, "%s-%s" % (kind, pid))
    tb = time.time() - t0
    out = os.path.join(BUILD, "out-%s-%d.json" % (pid, os.getpid()))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte=255:"
        "max_malloc_fill_size=1048576:allocator_may_return_null=0:detect_stack_use_after_return=0:"
        "max_allocation_size_mb=2048:quarantine_size_mb=8:strict_string_checks=1:detect_container_overflow=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    budget = c.get("budget_" + tier, 600 if tier == "quick" else 3000)
    cmd = [exe, "--tier", tier, "--jobs", str(JOBS), "--out", out, "--property", pid,
           "--replay-dir", rep_dir, "--budget", str(budget),
           "--known", os.path.join(V, "known_findings.txt")]
    if only:
        cmd += ["--only", only]
    print("[%s] %s tier, build %.1fs" % (pid, tier, tb), flush=True)
    r = subprocess.run(cmd, env=env)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print("check error: harness ended with %d" % r.returncode)
        return 3
    res = json.load(open(out))
    os.remove(out)
    cov = {}
    samples = []
    for s in res["scenarios"]:
        for x in s.get("samples", []):
            if x.strip() and len(samples) < 6:
                samples.append({"scenario": s["name"], "trace": x[:1500]})
    level = c["level"]
    if level == "model_checking":
        cov = {"states": res["states"], "transitions": res["operations"],
               "traces_validated_against_impl": res["executions"]}
    else:
        cov = {"evaluations": res["executions"], "distinct_nontrivial": res["states"],
               "rule": c["rule"]}
    cov["distinct_outcomes"] = res.get("outcomes", 0)
    cov["samples"] = samples
    cov["exhaustive"] = bool(res["exhaustive"])
    cov["bounds"] = c.get("bounds_" + tier, c.get("bounds", ""))
    cov["scenarios"] = [{k: v for k, v in s.items() if k != "samples"} for s in res["scenarios"]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": c.get("assumptions", []), "violations": res["violations"],
          "wall_s": round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(set(res.get("known_keys", "").split())):
        txt = ""
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"finding: property=%s key=%s (.*)" % (pid, re.escape(k)), l)
            if m:
                txt = m.group(1)
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, txt, k))
    if res["violations"]:
        print("  " + res["message"])
        print("VIOLATION property=%s replay=%s" % (pid, res["replay"]))
        return 1
    print("[%s] ok: %d executions, %d operations, %d states, exhaustive=%s, %.1fs" % (
        pid, res["executions"], res["operations"], res["states"], res["exhaustive"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
