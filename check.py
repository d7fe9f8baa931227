#!/usr/bin/env python3
"""Decide one property: lower the current /repo sources and the harness to LLVM
IR, execute the harness entries symbolically, discharge every obligation with
SMT/SAT solvers, replay every counterexample against a native build of the same
sources."""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, shutil, resource
import signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
import props  # noqa: E402

CLANG = "/usr/bin/clang++-18"
CC = "/usr/bin/clang-18"
LINK = "/usr/bin/llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link"
ENGINE_SRC = os.path.join(VERIF, "engine")
BUILD = os.path.join(VERIF, "build")
SYMX = os.path.join(BUILD, "symx")
INCS = ["include", "libs/include", "back-end/include", "back-end/Exu/include",
        "back-end/Lsu/include", "back-end/tools/include", "MemSubSystem/include",
        "diff/include", "GenSimpoint/include/api", "legacy/mmu/include", "front-end"]
COMMON = ["-std=c++20", "-DNDEBUG", "-fignore-exceptions", "-fno-threadsafe-statics",
          "-Wno-everything", "-fno-strict-aliasing", "-DVERIF_HARNESS=1"]
BCFLAGS = ["-O1", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-unroll-loops", "-march=x86-64", "-fno-exceptions"]
NATFLAGS = ["-O1", "-g1", "-ftrivial-auto-var-init=zero", "-fno-exceptions"]
NPROC = os.cpu_count() or 4
MEMCAP = 14 << 30


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-j8", "-C", ENGINE_SRC, "OUT=" + BUILD, "all"],
                           capture_output=True, text=True)
        if r.returncode:
            print(r.stdout + r.stderr)
            sys.exit("engine build failed")


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, work, deadline):
        self.prop, self.tier, self.work, self.deadline = prop, tier, work, deadline
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.slots = threading.Semaphore(NPROC)
        self.nat = {}
        self.natlock = {}
        self.stop = threading.Event()

    def left(self):
        return self.deadline - time.time()

    def run(self, cmd, **kw):
        with self.slots:
            return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)

    def run_stoppable(self, cmd, errfile, timeout):
        """Run the engine; gives up when another entry has already confirmed a violation."""
        with self.slots:
            if self.stop.is_set():
                return None
            with open(errfile, "w") as ef:
                p = subprocess.Popen(cmd, stdout=ef, stderr=ef, start_new_session=True,
                                     preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMCAP, MEMCAP)))
                end = time.time() + timeout
                nap = 0.01
                while True:
                    rc = p.poll()
                    if rc is not None:
                        return rc
                    if time.time() > end or self.stop.is_set():
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        p.wait()
                        return None
                    time.sleep(nap)
                    nap = min(0.1, nap * 1.5)


def incs():
    r = []
    for i in INCS:
        r += ["-I", os.path.join(REPO, i)]
    return r + ["-I", REPO, "-I", os.path.join(VERIF, "harness"),
                "-I", os.path.join(VERIF, "harness", "shim"), "-I", os.path.join(VERIF, "harness", "shim", "axi"), "-I", ENGINE_SRC]


def sources(u):
    s = [os.path.join(VERIF, "harness", u["harness"])]
    for x in u.get("repo", []):
        s.append(os.path.join(REPO, x))
    for x in u.get("extra", []):
        s.append(os.path.join(VERIF, "harness", x))
    return s


def roomy_vector(ctx):
    """Copy of the library's vector headers with a different growth policy (which the language leaves open):
    the first allocation has room for 32 elements, so that vectors of a symbolic small size do not move."""
    d = os.path.join(ctx.work, "roomy")
    with ctx.lock:
        if not os.path.isdir(d):
            os.makedirs(os.path.join(d, "bits"))
            for f, a, b in (("stl_vector.h", "size() + (std::max)(size(), __n);", "size() + (std::max)(size(), (std::max)(__n, size_type(32)));"),
                            ("vector.tcc", "if (this->capacity() < __n)", "__n = (std::max)(__n, size_type(32));\n      if (this->capacity() < __n)")):
                src = sorted(glob.glob("/usr/include/c++/*/bits/" + f))
                if src:
                    with open(src[-1]) as i, open(os.path.join(d, "bits", f), "w") as o:
                        o.write(i.read().replace(a, b))
    return d


def compile_one(ctx, u, src, out, flags):
    lang = [] if not src.endswith(".c") else ["-x", "c++"]
    pre = ["-I", roomy_vector(ctx)] if u.get("vec") else []
    pre += ["-I" + os.path.join(VERIF, "harness", d) for d in u.get("path", [])]
    cmd = [CLANG] + flags + COMMON + ["-D" + d for d in u.get("defs", [])] + [x for f in u.get("incl", []) if not src.endswith("/sx_stubs.cpp") for x in ("-include", f)] + pre + incs() + lang + ["-c", src, "-o", out]
    r = ctx.run(cmd)
    if r.returncode:
        raise Inconclusive("compile failed: %s\n%s" % (src, r.stderr[-3000:]))


def build_bc(ctx, u):
    d = os.path.join(ctx.work, u["name"])
    os.makedirs(d, exist_ok=True)
    jobs = []
    srcs = sources(u) + [os.path.join(VERIF, "harness", "sx_stubs.cpp")]
    with cf.ThreadPoolExecutor(8) as ex:
        for i, s in enumerate(srcs):
            o = os.path.join(d, "bc%d.bc" % i)
            jobs.append((ex.submit(compile_one, ctx, u, s, o, BCFLAGS), o))
        for j, _ in jobs:
            j.result()
    m = os.path.join(d, "m.bc")
    r = ctx.run([LINK] + [o for _, o in jobs] + ["-o", m])
    if r.returncode:
        raise Inconclusive("llvm-link failed: " + r.stderr[-2000:])
    return m


def build_native(ctx, u, asan=False):
    key = (u["name"], asan)
    with ctx.lock:
        lk = ctx.natlock.setdefault(key, threading.Lock())
    with lk:
        if key in ctx.nat:
            return ctx.nat[key]
        d = os.path.join(ctx.work, u["name"] + ("-asan" if asan else "-nat"))
        os.makedirs(d, exist_ok=True)
        fl = NATFLAGS + (["-fsanitize=address"] if asan else [])
        jobs = []
        srcs = sources(u) + [os.path.join(ENGINE_SRC, "sx_native.cpp")]
        with cf.ThreadPoolExecutor(8) as ex:
            for i, s in enumerate(srcs):
                o = os.path.join(d, "n%d.o" % i)
                jobs.append((ex.submit(compile_one, ctx, u, s, o, fl), o))
            for j, _ in jobs:
                j.result()
        exe = os.path.join(d, "replay")
        r = ctx.run([CLANG] + (["-fsanitize=address"] if asan else []) + ["-rdynamic", "-Wl,--unresolved-symbols=ignore-all",
                    "-no-pie"] + [o for _, o in jobs] + ["-o", exe, "-ldl"])
        if r.returncode:
            raise Inconclusive("native link failed: " + r.stderr[-2000:])
        ctx.nat[key] = exe
        return exe


def native_run(ctx, exe, entry, model, watch):
    env = dict(os.environ, SX_MODEL=model, SX_WATCH=watch,
               ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1")
    env.pop("ICACHE", None)
    try:
        r = ctx.run([exe, entry], env=env, timeout=60, cwd=ctx.work)
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"
    return r.returncode, r.stdout, r.stderr


def run_entry(ctx, u, e, bc):
    name = e["name"]
    out = os.path.join(ctx.work, u["name"] + "." + name + ".json")
    tmo = e.get("timeout", 120)
    if ctx.tier == "thorough":
        tmo *= 3
    tmp = os.path.join(ctx.work, "tmp." + u["name"] + "." + name)
    os.makedirs(tmp, exist_ok=True)
    cmd = [SYMX, bc, "--entry", name, "--out", out, "--timeout", str(tmo),
           "--solvers", e.get("solvers", "z3,kissat"), "--tmp", tmp,
           "--loop-check", str(e.get("loop_check", 4)), "--exec-limit", str(e.get("exec_limit", 400))]
    if e.get("ptr_check"):
        cmd += ["--ptr-check", str(e["ptr_check"])]
    if e.get("branch_check"):
        cmd += ["--branch-check", e["branch_check"]]
    if ctx.tier == "thorough":
        cmd.append("--cross")
    kf = [x for x in props.KNOWN if x["property"] == ctx.prop and x["entry"] == name]
    res = None
    for first in ([True, False] if not kf else [False]):
        t = time.time()
        rc = ctx.run_stoppable(cmd + (["--first"] if first else []), out + ".err", max(30, ctx.left()))
        if rc is None:
            if ctx.stop.is_set():
                return dict(entry=name, unit=u["name"], stopped=True)
            return dict(entry=name, unit=u["name"], error="time budget exhausted", wall=time.time() - t)
        err = open(out + ".err", errors="replace").read()
        if rc or not os.path.exists(out):
            return dict(entry=name, unit=u["name"], error="engine: " + err[-1500:], wall=time.time() - t)
        if os.environ.get("SX_DEBUG"):
            print(err[-3000:])
        res = judge(ctx, u, name, json.load(open(out)), kf, time.time() - t)
        if res["cex"] or not any(o["verdict"] == "skipped" for o in res["obligations"]):
            break
    if res["cex"]:
        ctx.stop.set()
    return res


def judge(ctx, u, name, res, kf, wall):
    res["unit"] = u["name"]
    res["wall"] = wall
    res["problems"], res["cex"], res["replays"], res["known"] = [], [], 0, []
    for o in res["obligations"]:
        if o["verdict"] in ("unsat", "skipped"):
            continue
        if o["verdict"] != "sat":
            res["problems"].append("undecided: [%s] %s %s" % (o["kind"], o["msg"], o.get("note", "")))
            continue
        if o["kind"] == "unsupported":
            # reachable unmodelled behaviour: no verdict for this path
            res["problems"].append("unmodelled but reachable: " + o["msg"])
            continue
        asan = o["kind"] == "oob"
        try:
            exe = build_native(ctx, u, asan)
        except Inconclusive as x:
            res["problems"].append(str(x))
            continue
        rc, so, se = native_run(ctx, exe, name, o["model"], o["msg"] if o["kind"] == "assert" else "-")
        res["replays"] += 1
        ok = False
        if o["kind"] == "assert":
            ok = rc == 42 and ("SX-FAIL " + o["msg"]) in so
        elif o["kind"] == "oob":
            ok = rc == 99 or rc < 0
        else:
            ok = rc not in (0, 42, 43, 44, 45, 124)
        if not ok:
            res["problems"].append("counterexample for [%s] %s did not reproduce natively (rc %d) %s" % (o["kind"], o["msg"], rc, se[-300:]))
            if os.environ.get("SX_DEBUG"):
                shutil.copy(o["model"], "/tmp/last.cex")
            continue
        k = [x for x in kf if x["msg"] == o["msg"]]
        if k:
            res["known"].append(k[0])
            continue
        res["cex"].append(dict(kind=o["kind"], msg=o["msg"], model=o["model"], stdout=so[-2000:], stderr=se[-2000:], rc=rc, asan=asan))
    obs_checked = 0
    for c in res["covers"]:
        if c["verdict"] != "sat":
            res["problems"].append("reachability witness '%s' is %s" % (c["msg"], c["verdict"]))
            continue
        try:
            exe = build_native(ctx, u, False)
        except Inconclusive as x:
            res["problems"].append(str(x))
            continue
        rc, so, se = native_run(ctx, exe, name, c["model"], "-")
        res["replays"] += 1
        if rc != 0 or ("SX-COVER " + c["msg"]) not in so.split("\n"):
            res["problems"].append("witness '%s' not reproduced natively (rc %d) %s" % (c["msg"], rc, se[-300:]))
            if os.environ.get("SX_DEBUG"):
                shutil.copy(c["model"], "/tmp/last.cov")
            continue
        nat = {}
        for l in so.split("\n"):
            if l.startswith("SX-OBS "):
                _, n, v = l.split(" ")
                nat[n] = v
        for n, v in c["obs"].items():
            if n in nat and int(nat[n], 16) != int(v, 16):
                res["problems"].append("encoding disagrees with the compiled code on %s: %s vs %s (witness %s)" % (n, v, nat[n], c["msg"]))
            obs_checked += 1
    res["obs_checked"] = obs_checked
    if not res["covers"] and not res["cex"]:
        res["problems"].append("no reachability witness in " + name)
    if res["cross"]["conflict"]:
        res["problems"].append("solvers disagree")
    return res


def save_cex(ctx, u, r, c, n):
    d = os.path.join(VERIF, "evidence", "replay", ctx.prop, "%s-%d" % (r["entry"], n))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(c["model"], os.path.join(d, "model.txt"))
    with open(os.path.join(d, "info.json"), "w") as f:
        json.dump(dict(property=ctx.prop, entry=r["entry"], unit=u["name"], kind=c["kind"], failed=c["msg"], native_stdout=c["stdout"], native_stderr=c["stderr"], native_rc=c["rc"]), f, indent=1)
    sh = os.path.join(d, "replay.sh")
    with open(sh, "w") as f:
        f.write("#!/bin/bash\n# rebuilds the native harness from the current sources and replays this counterexample\ncd %s && exec python3 check.py --prop %s --replay %s\n" % (VERIF, ctx.prop, d))
    os.chmod(sh, 0o755)
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay", default="")
    ap.add_argument("--budget", type=float, default=0)
    a = ap.parse_args()
    p = props.PROPS[a.prop]
    t0 = time.time()
    build_engine()
    budget = a.budget or (780 if a.tier == "quick" else 3000)
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    rc = 2
    try:
        rc = go(a, p, t0, work, t0 + budget)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work dir", work)
    sys.exit(rc)


def go(a, p, t0, work, deadline):
    ctx = Ctx(a.prop, a.tier, work, deadline)
    units = [u for u in p["units"] if a.tier == "thorough" or u.get("tier", "quick") == "quick"]
    if a.replay:
        info = json.load(open(os.path.join(a.replay, "info.json")))
        u = [u for u in p["units"] if u["name"] == info["unit"]][0]
        exe = build_native(ctx, u, info["kind"] == "oob")
        rc, so, se = native_run(ctx, exe, info["entry"], os.path.join(a.replay, "model.txt"), info["failed"] if info["kind"] == "assert" else "-")
        print(so, se)
        print("native exit status", rc)
        return 0
    results, problems = [], []

    def one_unit(u):
        ents = [e for e in u["entries"] if (a.tier == "thorough" or e.get("tier", "quick") == "quick") and (not a.only or a.only in e["name"])]
        if not ents:
            return
        try:
            bc = build_bc(ctx, u)
        except Inconclusive as x:
            problems.append(str(x))
            return
        with cf.ThreadPoolExecutor(16) as ex:
            fs = [ex.submit(run_entry, ctx, u, e, bc) for e in ents]
            for f in fs:
                results.append((u, f.result()))

    with cf.ThreadPoolExecutor(max(1, len(units))) as ex:
        for f in [ex.submit(one_unit, u) for u in units]:
            f.result()
    viol = 0
    replays = []
    shutil.rmtree(os.path.join(VERIF, "evidence", "replay", a.prop), ignore_errors=True)
    known = []
    for u, r in results:
        if "stopped" in r:
            continue
        if "error" in r:
            problems.append("%s: %s" % (r["entry"], r["error"]))
            continue
        for m in r["problems"]:
            problems.append("%s: %s" % (r["entry"], m))
        for c in r["cex"]:
            d = save_cex(ctx, u, r, c, viol)
            viol += 1
            replays.append(d)
            print("  %s: [%s] %s" % (r["entry"], c["kind"], c["msg"]))
            print("VIOLATION property=%s replay=%s" % (a.prop, d))
        known += r["known"]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    good = [r for _, r in results if "error" not in r and "stopped" not in r]
    fns = sorted({f for r in good for f in r["functions"]})
    fns = [f for f in fns if not f.startswith(("std::", "hx_", "void std::", "__gnu"))]
    ob = sum(len(r["obligations"]) + len(r["trivial_by_msg"]) for r in good)
    dis = sum(sum(1 for o in r["obligations"] if o["verdict"] == "unsat") + len(r["trivial_by_msg"]) for r in good)
    samples = []
    for r in good:
        for c in r["covers"][:1]:
            if c["verdict"] == "sat" and os.path.exists(c["model"]):
                samples.append(dict(entry=r["entry"], witness=c["msg"], model=open(c["model"]).read().split("\n")[:12], observed=dict(list(c["obs"].items())[:8])))
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=p.get("level", "other"),
              coverage=dict(
                  explanation="Symbolic execution of the current /repo sources (LLVM IR) with state merging; every obligation is decided by SAT/SMT for all input values inside the bounds. " + p.get("bounds", ""),
                  bounds=p.get("bounds", ""),
                  obligations=ob, discharged=dis,
                  discharged_by_rewriting=sum(len(r["trivial_by_msg"]) for r in good),
                  obligation_instances=sum(sum(o["instances"] for o in r["obligations"]) + r["trivial"] for r in good),
                  functions_encoded=fns, instructions_executed=sum(r["instructions"] for r in good),
                  expression_nodes=sum(r["nodes"] for r in good), symbolic_input_bits=sum(r["input_bits"] for r in good),
                  solver_queries=sum(r["queries"] + r["feas_queries"] for r in good), unsat_queries=sum(r["unsat_queries"] for r in good),
                  solver_s=round(sum(r["solve_s"] + r["feas_s"] for r in good), 3), exec_s=round(sum(r["exec_s"] for r in good), 3),
                  witnesses=sum(len(r["covers"]) for r in good),
                  native_replays=sum(r["replays"] for r in good), observed_values_compared=sum(r.get("obs_checked", 0) for r in good),
                  cross_checked=sum(r["cross"]["agree"] for r in good),
                  entries=[dict(entry=r["entry"], unit=r["unit"], wall_s=round(r["wall"], 2), obligations=len(r["obligations"]) + len(r["trivial_by_msg"]),
                                verdicts={o["kind"] + ": " + o["msg"][:160]: o["verdict"] + " by " + o["solver"] for o in r["obligations"]}) for r in good],
                  samples=samples[:6],
                  checker_cmd="python3 check.py --prop %s --tier %s" % (a.prop, a.tier),
                  trusted_base=["clang 18 front end", "engine/symx", "z3/kissat/cvc5"]),
              assumptions=p.get("assumptions", []) + sorted({s for r in good for s in r["stubs"]}),
              wall_s=round(time.time() - t0, 3), violations=viol)
    if problems:
        ev["coverage"]["inconclusive"] = problems
    if known:
        ev["coverage"]["known_findings"] = [k["what"] for k in known]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for m in problems:
        print("INCONCLUSIVE " + m)
    for r in good:
        print("  %-28s %6.1fs exec %.1fs solve %.1fs obligations %d" % (r["entry"], r["wall"], r["exec_s"], r["solve_s"], len(r["obligations"]) + len(r["trivial_by_msg"])))
    print("%s: %d obligations, %d discharged, %d violations, %d inconclusive, %.1fs" % (a.prop, ob, dis, viol, len(problems), time.time() - t0))
    if viol:
        return 1
    return 2 if problems else 0


if __name__ == "__main__":
    main()
