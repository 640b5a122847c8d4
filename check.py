#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]   decide one property
   check.py --replay FILE                           rerun a counterexample
   check.py --all [--tier ...]                      every claimed property

The encoding is rebuilt from /repo's working tree on every run: clang lowers
the harness together with the repository's headers to LLVM IR, engine/symex.py
executes that IR symbolically, z3 decides every branch and assertion, and every
counterexample is replayed natively before it is reported."""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
try:
    import z3  # noqa
except ImportError:
    for cand in ("/opt/veriftools/pyvenv/bin/python3",
                 "/opt/veriftools/pyvenv/bin/python", "python3-vt"):
        if shutil.which(cand) and os.environ.get("VERIF_REEXEC") != "1":
            os.environ["VERIF_REEXEC"] = "1"
            os.execvp(cand, [cand] + sys.argv)
    raise
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "sources", "include")
CLANG = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else "clang++"
COMMON = ["-std=c++17", "-I" + INC, "-I" + os.path.join(HERE, "stubs"),
          "-I" + os.path.join(HERE, "harness"),
          "-include", os.path.join(HERE, "harness", "prelude.h"), "-w",
          "-pthread", "-DVERIF_HARNESS"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def must(cmd):
    r = sh(cmd)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-2000:])


def srcs_of(job):
    return [os.path.join(HERE, "harness", s) for s in
            ([job["src"]] if isinstance(job["src"], str) else job["src"])]


def build_key(job):
    return (tuple(srcs_of(job)), tuple(job.get("defs", ())),
            tuple(job.get("irflags", ())), bool(job.get("free_hook")))


def build_ir(job, out):
    """bitcode of the harness and everything it instantiates from /repo"""
    parts = []
    # -O0 keeps clang from speculating or folding undefined behaviour away;
    # SROA then only turns local variables into registers.
    fl = job.get("irflags") or ["-O0", "-Xclang", "-disable-O0-optnone"]
    for i, s in enumerate(srcs_of(job)):
        bc = "%s.%d.bc" % (out, i)
        must([CLANG, "-c", "-emit-llvm", "-g0", "-fno-exceptions",
              "-fno-vectorize", "-fno-slp-vectorize", "-DVERIF_SYM=1"] + fl +
             ["-fsanitize=array-bounds,return,vla-bound",
              "-fsanitize-trap=array-bounds,return,vla-bound",
              "-D_GLIBCXX_ASSERTIONS"] + COMMON + list(job.get("defs", ())) +
             [s, "-o", bc])
        parts.append(bc)
    lk = parts[0]
    if len(parts) > 1:
        lk = out + ".l.bc"
        must(["llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"]
             + parts + ["-o", lk])
    must(["opt-18" if shutil.which("opt-18") else "opt", "-passes=sroa", lk,
          "-o", out])


def entries_file(jobs, path):
    names = sorted(set(j["entry"] for j in jobs))
    with open(path, "w") as f:
        f.write("#include <stdint.h>\nextern \"C\" {\n")
        for n in names:
            f.write("void %s(uint64_t);\n" % n)
        f.write("}\nstruct entry { const char *name; void (*fn)(uint64_t); };"
                "\nentry g_entries[] = {\n")
        for n in names:
            f.write('{"%s", %s},\n' % (n, n))
        f.write("{0, 0}};\n")


def build_native(key, jobs, out, mode, scratch):
    job = jobs[0]
    ent = out + ".entries.cpp"
    entries_file(jobs, ent)
    if mode == "san":
        cc = [CLANG, "-O1", "-g", "-fsanitize=address,undefined",
              "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function",
              "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
    else:
        cc = ["g++", "-O2"]
    if job.get("free_hook"):
        cc = cc + ["-DVERIF_FREE_HOOK", "-Wl,--wrap=free"]
    srcs = srcs_of(job) + [os.path.join(HERE, "harness", "native.cpp"), ent]
    if job.get("threads"):
        # every access to memory is announced to the replay scheduler
        if mode != "san":
            return False
        cc = [CLANG, "-O1", "-g"]
        objs = []
        for i, s in enumerate(srcs_of(job)):
            bc = "%s.t%d.ll" % (out, i)
            must([CLANG, "-S", "-emit-llvm", "-g0", "-fno-exceptions", "-O0",
                  "-Xclang", "-disable-O0-optnone"] + COMMON +
                 list(job.get("defs", ())) + [s, "-o", bc])
            instrument_accesses(bc)
            o = "%s.t%d.o" % (out, i)
            must([CLANG, "-c", "-O1", bc, "-o", o])
            objs.append(o)
        srcs = objs + srcs[-2:]
        must(cc + COMMON + ["-DVERIF_THREADS"] + list(job.get("defs", ())) +
             srcs + ["-o", out])
        return True
    must(cc + COMMON + list(job.get("defs", ())) + srcs + ["-o", out])
    return True


def instrument_accesses(path):
    """inserts a call of verif_access() before every atomic operation of textual
    IR: these are the executor's scheduling points"""
    import re
    out = []
    pat = re.compile(r"^\s+(%[\w.]+ = )?(load atomic|store atomic|atomicrmw|"
                     r"cmpxchg)\b")
    seen = False
    for line in open(path):
        if line.startswith("declare void @verif_access"):
            seen = True
        if pat.match(line):
            out.append("  call void @verif_access()\n")
        out.append(line)
    if not seen:
        out.append("\ndeclare void @verif_access()\n")
    open(path, "w").writelines(out)


def run_native(binary, job, arg, vecs, scratch, sched=None, timeout=120):
    fd, vf = tempfile.mkstemp(dir=scratch)
    with os.fdopen(fd, "w") as f:
        for v in vecs:
            f.write(" ".join(str(x[2]) for x in v) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return"
               "_null=1:abort_on_error=0:exitcode=97:handle_abort=0",
               UBSAN_OPTIONS="exitcode=98:print_stacktrace=0:halt_on_error=1",
               MALLOC_PERTURB_="165")
    if sched is not None:
        env["VERIF_SCHED"] = "".join(str(x) for x in sched)
    try:
        r = subprocess.Popen([binary, job["entry"], str(arg), vf], env=env,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, errors="replace",
                             start_new_session=True)
        stdout, stderr = r.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(r.pid, signal.SIGKILL)  # and what it has started
        r.communicate()
        return [dict(status="TIMEOUT", obs=[], fail="", reach=[], end="")
                for _ in vecs], "timeout"
    res = []
    cur = None
    for line in stdout.splitlines():
        k, _, v = line.partition(" ")
        if k == "BEGIN":
            cur = dict(status=None, obs=[], fail="", reach=[], end="")
            res.append(cur)
        elif cur is None:
            continue
        elif k == "OBS":
            n, _, x = v.rpartition(" ")
            cur["obs"].append((n, int(x)))
        elif k == "REACH":
            cur["reach"].append(v)
        elif k == "FAIL":
            cur["fail"] = v
        elif k == "ABORTED":
            cur["end"] = "abort"
        elif k == "DONE":
            cur["end"] = "ret"
        elif k in ("EXIT", "SIGNAL"):
            cur["status"] = (k, int(v))
        elif k in ("ASSUME", "OUTOFINPUT"):
            cur["end"] = k
    return res, stderr[-3000:]


def native_bad(x):
    """did the native run fail (other than by running out of inputs)?"""
    if x["status"] == "TIMEOUT":
        return True
    if x["status"] is None:
        return False
    k, c = x["status"]
    return k == "SIGNAL" or c not in (0, 4, 5)


# ---------------------------------------------------------------- symbolic job
SLOTS = None  # processors: a long exploration is divided when one is free


def work(task):
    ir, job, arg, opts = task[:4]
    t0 = time.time()
    out = dict(entry=job["entry"], arg=arg, key=task[4] if len(task) > 4
               else None, error=None, viol=None)
    held = False
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    try:
        import symex
        symex.ROTATE = opts.get("seed", 0)
        mod = symex.Module(ir)
        o = dict(opts)
        o.update(job.get("opts", {}))
        if "budget" in o:
            o["deadline"] = min(time.time() + o["budget"], o["end"])

            def late(*_):
                raise symex.OutOfBudget("time budget used up on one path")
            signal.signal(signal.SIGALRM, late)
            signal.alarm(max(1, int(o["deadline"] - time.time()) + 10))
        e = symex.Engine(mod, o)
        if not job.get("threads") and o.get("smt_log") is None:
            symex.SLOTS = SLOTS
        if SLOTS is not None:
            SLOTS.acquire()
            held = True
        try:
            try:
                e.run(job["entry"], [arg])
            except symex.Violation as v:
                if e.split_to:
                    e.split_done(viol=(v.kind, v.msg, v.vec, v.extra))
                raise
            except BaseException as x:
                if e.split_to:
                    e.split_done(error=str(x) or repr(x))
                raise
            if e.split_to:
                e.split_done()
        except symex.Violation as v:
            out["viol"] = dict(kind=v.kind, msg=v.msg, vec=v.vec,
                               extra=v.extra)
        except (symex.Inconclusive, symex.Unsupported,
                symex.OutOfBudget) as x:
            out["error"] = str(x)
        out["stats"] = e.stats
        out["labels"] = e.labels
        out["samples"] = [s for s in e.samples if s]
        for n in e.covered:  # some only by a part split off
            if n in mod.funcs:
                mod.decode(mod.funcs[n])
        out["functions"] = {n: mod.funcs[n].ninstr for n in e.covered
                            if n in mod.funcs}
        if o.get("smt_log") is not None:
            out["smt"] = e.smt_log
    except BaseException as x:
        out["error"] = "engine: " + "".join(
            traceback.format_exception_only(type(x), x)).strip() + "\n" + \
            traceback.format_exc()[-1500:]
    if held:
        SLOTS.release()
    out["wall"] = time.time() - t0
    return out


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names),
                           stdout=subprocess.PIPE, text=True)
        return r.stdout.splitlines()
    except OSError:
        return names


def expand(prop, tier):
    jobs = []
    for j in prop["jobs"]:
        t = j.get("tier", "both")
        if t != "both" and t != tier:
            continue
        jobs.append(j)
    return jobs


def run_check(pid, tier, seed, verbose=False):
    import props
    prop = props.PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    pool = None
    try:
        return run_check2(pid, prop, tier, seed, scratch, t0, verbose)
    finally:
        for p in mp.active_children():
            p.terminate()
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(pid, tier, seed, prop, cov, t0, nviol, suffix=""):
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.get(
        "level", "model_checking"), coverage=cov,
        assumptions=prop.get("assumptions", []) + GENERAL,
        wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))


GENERAL = [
    "x86-64 data layout as lowered by clang 18 (-O0 plus SROA, "
    "-fno-exceptions)",
    "trusted: clang's lowering, engine/llvmir.py, engine/symex.py, z3; "
    "sampled paths are re-run natively (clang ASan/UBSan and g++ -O2) and must "
    "agree on outcome and observed values",
]


def fmt_vec(vec):
    return [[n, w, v] for n, w, v in vec]


def run_check2(pid, prop, tier, seed, scratch, t0, verbose):
    jobs = expand(prop, tier)
    groups = {}
    for j in jobs:
        groups.setdefault(build_key(j), []).append(j)
    # ---- build
    irs, natives = {}, {}
    ctx = mp.get_context("fork")
    global SLOTS
    SLOTS = ctx.Semaphore(8)
    from concurrent.futures import ThreadPoolExecutor
    tp = ThreadPoolExecutor(8)
    futs = {}
    for i, (k, js) in enumerate(groups.items()):
        base = os.path.join(scratch, "b%d" % i)
        irs[k] = base + ".bc"
        futs[k] = [tp.submit(build_ir, js[0], irs[k])]
        natives[k] = {}
        if js[0].get("native", True):
            for mode in ("san", "opt"):
                natives[k][mode] = base + "." + mode
                futs[k].append(tp.submit(build_native, k, js, natives[k][mode],
                                         mode, scratch))
    try:
        for k in groups:
            futs[k][0].result()
    except BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (pid, e))
        return 2
    # ---- symbolic execution, one task per (entry, arg)
    opts = dict(seed=seed, collect=prop.get("collect", 4),
                budget=prop.get("budget", 800 if tier == "quick" else 3600),
                end=t0 + (830 if tier == "quick" else 4 * 3600),
                qtimeout=60000 if tier == "quick" else 300000)
    tasks = []
    for k, js in groups.items():
        for j in js:
            args = j.get("args", [0])
            if isinstance(args, dict):
                args = args[tier]
            for a in args:
                tasks.append((irs[k], j, a, opts, k))
    jobs_of = {(t[4], t[1]["entry"], t[2]): t[1] for t in tasks}
    tasks.sort(key=lambda t: -t[1].get("weight", 1))
    results, viols, errors = [], [], []
    with ctx.Pool(min(8, max(1, len(tasks))), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(work, tasks):
            results.append(r)
            if verbose:
                print("  [%s(%s)] %.1fs %s %s" % (
                    r["entry"], r["arg"], r["wall"], r.get("stats"),
                    r["error"] or r["viol"] or ""))
                sys.stdout.flush()
            if r["error"]:
                errors.append(r)
            if r["viol"]:
                viols.append(r)
                if not verbose:
                    break
    for k in groups:
        for f in futs[k][1:]:
            try:
                if f.result() is False:
                    natives[k].pop("opt", None)
            except BuildError as e:
                print("NATIVE-BUILD-ERROR property=%s\n%s" % (pid, e))
                return 2
    # ---- counterexamples are replayed before they are reported
    rc = 0
    nviol = 0
    notes = []
    for r in viols:
        job = jobs_of[(r["key"], r["entry"], r["arg"])]
        v = r["viol"]
        rep = dict(property=pid, src=job["src"], defs=job.get("defs", []),
                   entry=r["entry"], arg=r["arg"], kind=v["kind"],
                   message=v["msg"], inputs=fmt_vec(v["vec"]),
                   where=demangle(v["extra"]["where"].split(" <- ")),
                   threads=bool(job.get("threads")),
                   free_hook=bool(job.get("free_hook")),
                   schedule=v["extra"]["sched"], native={})
        confirmed = False
        for mode, b in natives[r["key"]].items():
            res, err = run_native(b, job, r["arg"], [v["vec"]], scratch,
                                  v["extra"]["sched"],
                                  30 if v["kind"] == "hang" else 120)
            x = res[0] if res else dict(status=None)
            bad = bool(res) and native_bad(x)
            rep["native"][mode] = dict(result=x, stderr=err, fails=bad)
            confirmed |= bad
        std_ub = v["kind"] in ("ub", "memory") or v["extra"].get("uninit") \
            or not job.get("native", True) and v["kind"] != "hang"
        rep["confirmed_natively"] = confirmed
        if confirmed or std_ub:
            nviol += 1
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            path = os.path.join(HERE, "evidence", "%s.replay.json" % pid)
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            if rc != 1:
                print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s" % (v["kind"], v["msg"]))
            print("  inputs: %s" % ", ".join(
                "%s=%d" % (n, x) for n, w, x in v["vec"][:40]))
            print("  in %s" % " <- ".join(rep["where"][:4]))
            print("  native replay: %s" % ("reproduced" if confirmed else
                  "no visible effect (standard-level undefined behaviour)"))
            rc = 1
        else:
            notes.append("counterexample of %s(%s) did not reproduce natively:"
                         " %s %s %s" % (r["entry"], r["arg"], v["msg"],
                                        v["vec"], rep["native"]))
    # ---- encoding validation: sampled paths must agree with native runs
    validated = 0
    disagreements = []
    samples = []
    if rc == 0:
        agg = {}
        for r in results:
            if r.get("samples"):
                agg.setdefault((r["key"], r["entry"], r["arg"]), []).extend(
                    r["samples"])
        todo = []
        for (k, en, a), ss in agg.items():
            job = jobs_of[(k, en, a)]
            for mode, b in natives[k].items():
                if job.get("threads"):
                    for s in ss:
                        todo.append((b, job, a, [s], mode))
                else:
                    todo.append((b, job, a, ss, mode))

        def one(t):
            b, job, a, ss, mode = t
            res, err = run_native(b, job, a, [s["vec"] for s in ss], scratch,
                                  ss[0]["sched"] if job.get("threads")
                                  else None)
            bad = []
            for s, x in zip(ss, res):
                exp_end = "abort" if s["end"] == "abort" else "ret"
                if native_bad(x) or x["end"] != exp_end or \
                        x["obs"] != [tuple(o) for o in s["obs"]]:
                    bad.append((mode, job["entry"], a, s, x, err[-400:]))
            if len(res) != len(ss):
                bad.append((mode, job["entry"], a, "missing results", err))
            return len(ss) - len(bad), bad
        for n, bad in tp.map(one, todo):
            validated += n
            disagreements += bad
        for (k, en, a), ss in list(agg.items())[:6]:
            for s in ss[:1]:
                samples.append(dict(
                    entry=en, arg=a, end=s["end"],
                    inputs=["%s=%d" % (n, v) for n, w, v in s["vec"]],
                    observed=["%s=%d" % (n, v) for n, v in s["obs"]]))
    # ---- vacuity
    labels = {}
    for r in results:
        for l, n in r.get("labels", {}).items():
            labels[l] = labels.get(l, 0) + n
    need = []
    for j in jobs:
        need += j.get("reach", [])
    missing = [l for l in dict.fromkeys(need) if not labels.get(l)]
    st = {}
    for r in results:
        for kk, vv in r.get("stats", {}).items():
            st[kk] = max(st.get(kk, 0), vv) if kk == "maxpath" else \
                st.get(kk, 0) + vv
    funcs = {}
    for r in results:
        funcs.update(r.get("functions", {}))
    dm = demangle(sorted(funcs))
    ours = [d for d in dm if "utils::" in d and not d.startswith("std::")]
    cov = dict(
        states=st.get("paths", 0), transitions=st.get("forks", 0) +
        st.get("paths", 0),
        traces_validated_against_impl=validated, samples=samples or
        [dict(note="no sample: a violation ended the run")],
        symbolic_paths=st.get("paths", 0),
        solver_queries=st.get("queries", 0),
        assertion_queries=st.get("assert_queries", 0),
        asserts_evaluated=st.get("asserts", 0),
        ub_conditions_checked=st.get("ubchecks", 0),
        solver_seconds=round(st.get("solver_s", 0), 2),
        longest_path_instructions=st.get("maxpath", 0),
        expected_aborts_reached=st.get("aborts", 0),
        paths_dropped_by_assumptions=st.get("dropped", 0),
        jobs=len(tasks), jobs_done=len(results),
        reachability_witnesses=labels,
        ir_functions_encoded=len(funcs),
        ir_instructions_encoded=sum(funcs.values()),
        repo_functions_encoded=ours[:400],
        bounds=prop.get("bounds", ""), exhaustive=False,
        solver="z3 %s" % z3.get_version_string())
    write_evidence(pid, tier, seed, prop, cov, t0, nviol)
    if rc == 1:
        return 1
    for r in errors:
        print("INCONCLUSIVE property=%s %s(%s): %s" % (pid, r["entry"],
                                                       r["arg"], r["error"]))
    for n in notes:
        print("INCONCLUSIVE property=%s %s" % (pid, n[:3000]))
    for d in disagreements[:3]:
        print("ENCODING-MISMATCH property=%s %r" % (pid, d))
    if missing:
        print("VACUOUS property=%s never reached: %s" % (pid, missing))
    if errors or notes or disagreements or missing:
        return 2
    for k in prop.get("known", []):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("OK property=%s tier=%s jobs=%d paths=%d queries=%d solver=%.1fs "
          "validated=%d wall=%.1fs" % (
              pid, tier, len(tasks), st.get("paths", 0), st.get("queries", 0),
              st.get("solver_s", 0), validated, time.time() - t0))
    return 0


def do_replay(path):
    rep = json.load(open(path))
    job = dict(src=rep["src"], defs=rep["defs"], entry=rep["entry"],
               threads=rep.get("threads"), free_hook=rep.get("free_hook"))
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        rc = 0
        for mode in ("san", "opt"):
            b = os.path.join(scratch, mode)
            if build_native(None, [job], b, mode, scratch) is False:
                continue
            res, err = run_native(b, job, rep["arg"], [rep["inputs"]], scratch,
                                  rep.get("schedule"))
            print(mode, res, err)
            if res and native_bad(res[0]):
                rc = 1
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        return do_replay(a.replay)
    if a.all:
        import props
        bad = 0
        for p in props.PROPS:
            rc = run_check(p, a.tier, seed, a.v)
            sys.stdout.flush()
            if rc:
                bad = 1
                print("  -> exit %d for %s" % (rc, p))
        return bad
    return run_check(a.property, a.tier, seed, a.v)


if __name__ == "__main__":
    sys.exit(main())
