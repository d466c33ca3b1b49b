#!/usr/bin/env python3
"""Check driver: builds the working tree of /repo together with one exploration harness, runs the
shards of the enumeration, confirms and records violations, writes the evidence file.

  run.py C01 [--tier quick|thorough]      decide one property
  run.py --replay out/C01.json            run the recorded case again
"""
import argparse, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FBSTAB_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
OUT = os.path.join(VERIF, "out")
EIGEN = "/usr/include/eigen3"
JOBS = 8

FLAVORS = {
    "plain": ["-O2"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "trace": ["-O1", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=0"],
}
WRAPPED = ["malloc", "free", "calloc", "realloc", "aligned_alloc", "memalign", "posix_memalign", "memcpy", "memmove", "memset",
           "snprintf", "vsnprintf", "sprintf", "vsprintf", "__snprintf_chk", "__vsnprintf_chk", "__sprintf_chk", "__vsprintf_chk",
           "strlen", "strcpy", "strncpy", "strcat",
           "pthread_mutex_lock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
# property -> (harness, flavor, flavor of the harness itself)
CHECKS = {
    "C01": ("grid.cc", "plain"), "C02": ("grid.cc", "plain"), "C03": ("grid.cc", "plain"),
    "C04": ("grid.cc", "plain"), "C05": ("grid.cc", "plain"), "C06": ("grid.cc", "plain"),
    "C07": ("ops.cc", "plain"), "C08": ("newton.cc", "plain"), "C09": ("guess.cc", "plain"),
    "C10": ("reuse.cc", "plain"), "C11": ("limits.cc", "plain"), "C12": ("grid.cc", "plain"),
    "C13": ("options.cc", "plain"), "C14": ("sizes.cc", "asan"), "C15": ("memory.cc", "asan"),
    "C16": ("printing.cc", "plain"), "C17": ("threads.cc", "trace"), "C18": ("faults.cc", "plain"),
    "C19": ("sequence.cc", "asan"), "C20": ("linesearch.cc", "plain"), "C21": ("qdldl.cc", "asan"),
    "C22": ("components.cc", "plain"), "C23": ("core.cc", "plain"), "C24": ("leak.cc", "plain"),
}
ASSUME = {
    "*": ["IEEE-754 double arithmetic, Eigen 3.4.0 and the installed compiler are trusted",
          "coverage is complete for the enumerated finite spaces named under families, nothing is claimed beyond them"],
}


def log(*a):
    print(*a, flush=True)


def sources():
    return [f for f in tree() if f.endswith((".cc", ".cpp", ".cxx"))]


def tree():
    """Every non-test source file of the library."""
    fs = []
    for top in ("fbstab", "tools"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "examples", "build"))
            fs += [os.path.join(d, f) for f in files if f.endswith((".h", ".hpp", ".cc", ".cpp", ".cxx", ".inc", ".inl", ".ipp"))]
    return sorted(fs)


def tree_key(extra):
    h = hashlib.sha256()
    for f in tree():
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def run_all(cmds):
    """Runs compile commands, JOBS at a time; stops at the first failure."""
    todo, live = list(cmds), []
    while todo or live:
        while todo and len(live) < JOBS:
            c = todo.pop(0)
            live.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
        p, c = live.pop(0)
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            for q, _ in live:
                q.kill()
            log("BUILD-ERROR:", " ".join(c))
            log(out[-4000:])
            sys.exit(2)


def build(pid):
    harness, flavor = CHECKS[pid]
    flags = FLAVORS[flavor] + os.environ.get("MC_CXXFLAGS", "").split()  # development aid: other rounding
    inc = ["-I" + REPO, "-isystem", EIGEN]
    libdir = os.path.join(WORK, "lib-%s-%s" % (flavor, tree_key([flags])))
    hdr = sorted(glob.glob(VERIF + "/harness/*.h") + glob.glob(VERIF + "/harness/*/*/*.h"))
    hk = hashlib.sha256(b"".join(open(f, "rb").read() for f in hdr + [os.path.join(VERIF, "harness", h) for h in (harness, "sched.cpp")])).hexdigest()[:12]
    exe = os.path.join(libdir, "%s-%s" % (harness.replace(".cc", ""), hk))
    if os.path.exists(exe):
        return exe
    os.makedirs(WORK, exist_ok=True)
    tmp = os.path.join(WORK, "tmp-%d" % os.getpid())
    os.makedirs(tmp)
    try:
        cmds, objs = [], []
        have_lib = os.path.isdir(libdir)
        if not have_lib:
            for s in sources():
                o = os.path.join(tmp, os.path.relpath(s, REPO).replace("/", "_") + ".o")
                cmds.append(["g++", "-std=c++11", "-pthread", "-w"] + flags + inc + ["-c", s, "-o", o])
        ho = os.path.join(tmp, "harness.o")
        cmds.append(["g++", "-std=c++14", "-pthread", "-w"] + flags + inc +
                    ["-I" + VERIF + "/harness", "-I" + VERIF + "/harness/stub", "-c", os.path.join(VERIF, "harness", harness), "-o", ho])
        extra = []
        link = [f for f in flags if f.startswith(("-fsanitize=", "-fno-sanitize="))]
        if flavor == "trace":  # the scheduler itself is not instrumented and takes the place of the race detector
            link = ["-Wl,--wrap=" + w for w in WRAPPED]
            so = os.path.join(tmp, "sched.obj")
            cmds.append(["g++", "-std=c++14", "-pthread", "-w", "-O2", "-I" + VERIF + "/harness", "-c",
                         os.path.join(VERIF, "harness", "sched.cpp"), "-o", so])
            extra = [so]
        run_all(cmds)
        if not have_lib:
            os.makedirs(tmp + "/lib")
            for f in glob.glob(tmp + "/*.cc.o"):
                shutil.move(f, tmp + "/lib")
            try:
                os.rename(tmp + "/lib", libdir)
            except OSError:
                pass  # another check was faster
        objs = sorted(glob.glob(libdir + "/*.cc.o"))
        e = os.path.join(tmp, "exe")
        run_all([["g++", "-pthread"] + link + [ho] + extra + objs + ["-ldl", "-o", e]])
        os.rename(e, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="exitcode=43:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0")


def shards(exe, pid, tier, which, n, prefix, extra=()):
    procs = []
    for i in which:
        base = "%s-%d" % (prefix, i)
        for suf in (".json", ".crash", ".log"):
            if os.path.exists(base + suf):
                os.remove(base + suf)
        f = open(base + ".log", "wb")
        procs.append((i, base, subprocess.Popen([exe, "--prop", pid, "--tier", tier, "--shard", str(i), "--nshards", str(n), "--out", base] + list(extra),
                                                stdout=f, stderr=f, stdin=subprocess.DEVNULL, env=ENV)))
    res = []
    for i, base, p in procs:
        rc = p.wait()
        r = {"rc": rc, "shard": i, "violated": False}
        if os.path.exists(base + ".json"):
            try:
                r.update(json.load(open(base + ".json")))
            except ValueError:
                pass
        if "cases" not in r or rc not in (0, 1):
            r["violated"] = True
            r["crashed"] = True
            txt = open(base + ".crash").read().split("\n") if os.path.exists(base + ".crash") else ["exit %d" % rc, "?", "-1"]
            tail = open(base + ".log", "rb").read()[-1500:].decode(errors="replace")
            r["family"], r["index"] = txt[1], int(txt[2])
            r["message"] = "the code under test ended the process (%s): %s" % (txt[0], tail.strip())
        res.append(r)
    return res


def known_findings(pid):
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            # finding: property=<id> case=<family>:<index> <what fails>
            if line.startswith("finding:") and ("property=%s " % pid) in line:
                key = [w for w in line.split() if w.startswith("case=")][0][5:]
                known.append((key, line[len("finding:"):].strip()))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="build everything once")
    a = ap.parse_args()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    t0 = time.time()
    if a.setup:
        for p in sorted(CHECKS):
            build(p)
        log("built in %.1fs" % (time.time() - t0))
        return
    if a.replay:
        rec = json.load(open(a.replay))
        exe = build(rec["property"])
        pre = os.path.join(OUT, "replay-%d" % os.getpid())
        extra = ["--family", rec["family"], "--index", str(rec["index"])] if rec["mode"] == "case" else []
        r = shards(exe, rec["property"], rec["tier"], [rec["shard"]], rec["nshards"], pre, extra)[0]
        log("violated:", r["violated"], r.get("message", ""))
        sys.exit(1 if r["violated"] else 0)

    pid, tier = a.pid, a.tier
    exe = build(pid)
    t_build = time.time() - t0
    known = known_findings(pid)
    kargs = [x for k, _ in known for x in ("--known", k)]
    pre = os.path.join(OUT, "%s-%s" % (pid, tier))
    res = shards(exe, pid, tier, range(JOBS), JOBS, pre, kargs)

    viol = None
    for r in res:
        if not r["violated"]:
            continue
        # confirm in a new process: the single case first, then the history of the shard
        mode = None
        if r["index"] >= 0 and r["family"] not in ("", "?"):
            rr = shards(exe, pid, tier, [r["shard"]], JOBS, pre + "-confirm", kargs + ["--family", r["family"], "--index", str(r["index"])])[0]
            if rr["violated"]:
                mode = "case"
        if mode is None:
            rr = shards(exe, pid, tier, [r["shard"]], JOBS, pre + "-confirm", kargs)[0]
            if rr["violated"]:
                mode = "shard"
        if mode is None:
            log("UNCONFIRMED: shard %d case %s:%s did not repeat: %s" % (r["shard"], r["family"], r["index"], r["message"][:500]))
            continue
        viol = dict(property=pid, tier=tier, mode=mode, shard=r["shard"], nshards=JOBS, family=r["family"], index=r["index"],
                    message=rr.get("message", r["message"]))
        break

    good = [r for r in res if "cases" in r]
    merge = {}
    for key in ("families", "run", "notes"):
        m = {}
        for r in good:
            for k, v in r.get(key, {}).items():
                m[k] = max(m.get(k, 0), v) if key == "families" else m.get(k, 0) + v
        merge[key] = m
    tot = lambda k: sum(r.get(k, 0) for r in good)
    complete = viol is None and all(merge["run"].get(k, 0) == v for k, v in merge["families"].items()) and len(good) == JOBS
    samples = [s for r in good for s in r.get("samples", [])][:6]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("validated"),
            "samples": samples or ["(none recorded)"],
            "cases": tot("cases"), "exhaustive": bool(complete), "families": merge["families"], "outcomes": merge["notes"],
            "states_not_hashed": tot("overflow"),
            "explanation": "states: distinct explored states (end states and intermediate iterates hashed by the harness); transitions: solver steps or "
                           "operations executed on the real code; traces_validated_against_impl: executions of the real code judged by the oracle. "
                           "families: size of every enumerated space; exhaustive: each was enumerated completely.",
            "build_s": round(t_build, 1),
        },
        "assumptions": ASSUME["*"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        path = os.path.join(OUT, pid + ".json")
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        log(viol["message"][:3000])
        log("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))
        sys.exit(1)
    if any(r["violated"] for r in res):
        sys.exit(3)  # something happened once and could not be repeated
    for k, line in known:
        if any(k in r.get("known", []) for r in good):
            log("KNOWN-FINDING: " + line)
    log("%s %s: %d cases, %d states, %d transitions, %d judged; %s; %.1fs (build %.1fs)" % (
        pid, tier, tot("cases"), tot("states"), tot("transitions"), tot("validated"), "complete" if complete else "INCOMPLETE", time.time() - t0, t_build))
    if not complete:
        sys.exit(3)


main()
