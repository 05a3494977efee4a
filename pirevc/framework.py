"""Check runner: proof items (contracts, case by case, in parallel), replay harness, verdict, evidence."""
import json, os, subprocess, sys, time, traceback, multiprocessing, hashlib, shutil, re
import z3
import ir, sym, driver
from sym import Engine, Unmodelled, Align, TRUE, FALSE, short

VERIF, REPO, BUILD = driver.VERIF, driver.REPO, driver.BUILD


class Item:
    """One proof item: a contract of one function (or a lemma), possibly split into cases.
    run(case) returns an Engine whose obligations decide it (None: the function does not exist)."""

    def __init__(self, name, run, cases=((),), functions=(), desc="", weight=1, budget=240, timeout=20000, thorough_only=False, optional=False):
        self.name, self.run, self.cases, self.functions, self.desc = name, run, list(cases), list(functions), desc
        self.weight, self.budget, self.timeout, self.thorough_only, self.optional = weight, budget, timeout, thorough_only, optional


_ITEMS = []


def _work(task):
    ii, ci = task
    it = _ITEMS[ii]
    case = it.cases[ci]
    Align.atoms.clear()
    t0 = time.time()
    res = dict(item=ii, case=ci, obls=[], loops=[], inlined=[], assumed=[], error=None, solver=0.0, wall=0.0, kind=None)
    eng = None
    try:
        eng = it.run(case)
        if eng is None:
            res["error"] = "function not found"; res["kind"] = "missing"
        else:
            driver.discharge_seq(eng, it.timeout)
    except Unmodelled as e:
        res["error"], res["kind"] = str(e), "unmodelled"
    except (ir.IRError, driver.BuildError) as e:
        res["error"], res["kind"] = str(e)[:500], "build"
    except Exception as e:
        res["error"], res["kind"] = traceback.format_exc()[-1500:], "internal"
    eng = eng or getattr(it, "eng", None)
    if eng is not None:
        res["obls"] = [(o.name, o.kind, o.status, o.backend, round(o.t, 3), o.fn, o.soft, o.model) for o in eng.obls]
        res["loops"] = [tuple(l) for l in eng.loops]
        res["inlined"] = sorted(eng.inlined)
        res["assumed"] = sorted(eng.assumed)
        res["solver"] = eng.solver_time
    res["wall"] = time.time() - t0
    return res


def run_items(items, jobs=8, budget=600, log=print):
    global _ITEMS
    _ITEMS = items
    tasks = []
    for i, it in enumerate(items):
        for c in range(len(it.cases)): tasks.append((i, c))
    tasks.sort(key=lambda t: -items[t[0]].weight)
    out = []
    ctx = multiprocessing.get_context("fork")
    t0 = time.time()
    with ctx.Pool(jobs, maxtasksperchild=16) as pool:
        pend = [(t, pool.apply_async(_work, (t,))) for t in tasks]
        for t, a in pend:
            left = budget - (time.time() - t0)
            try:
                out.append(a.get(timeout=max(0.1, left)))
            except multiprocessing.TimeoutError:
                out.append(dict(item=t[0], case=t[1], obls=[], loops=[], inlined=[], assumed=[], error="time budget of the check exhausted", solver=0, wall=0, kind="timeout"))
        pool.terminate()
    return out


class Harness:
    """Replay harness / bounded stand-in: a program built from the real sources."""

    def __init__(self, src, seconds=40, thorough=300, flags=("-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=undefined"), libs=True, tests=None, sources=(), desc="", cxx="g++", timeout_case=60):
        self.src, self.seconds, self.thorough, self.flags, self.libs = src, seconds, thorough, flags, libs
        self.sources, self.desc, self.cxx, self.tests = sources, desc, cxx, tests
        self.timeout_case = timeout_case


LIBSRC = ["pire/approx_matching.cpp", "pire/classes.cpp", "pire/easy.cpp", "pire/encoding.cpp", "pire/fsm.cpp",
          "pire/half_final_fsm.cpp", "pire/re_lexer.cpp", "pire/read_unicode.cpp", "pire/scanner_io.cpp",
          "pire/scanners/null.cpp", "pire/stub/utf8.cpp", "pire/extra/capture.cpp", "pire/extra/count.cpp", "pire/extra/glyphs.cpp"]


def build_lib(flags, tag):
    """Compiles the library sources of the working tree; cached by content of all of /repo/pire."""
    h = hashlib.sha1()
    h.update(" ".join(flags).encode())
    for root, _, files in sorted(os.walk(os.path.join(REPO, "pire"))):
        for f in sorted(files):
            if f.endswith((".h", ".cpp", ".y", ".lpp")):
                p = os.path.join(root, f)
                h.update(p[len(REPO):].encode()); h.update(open(p, "rb").read())
    d = os.path.join(BUILD, "lib-%s-%s" % (tag, h.hexdigest()[:16]))
    lib = os.path.join(d, "libpire.a")
    if os.path.exists(lib): return d, lib
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    inc = ["-I" + VERIF + "/cfg", "-I" + REPO, "-I" + REPO + "/pire", "-I" + tmp]
    p = subprocess.run(["bison", "--defines=" + os.path.join(tmp, "re_parser.h"), "-o", os.path.join(tmp, "re_parser.cpp"), os.path.join(REPO, "pire/re_parser.y")], capture_output=True, text=True)
    if p.returncode: raise driver.BuildError("bison: " + p.stderr[-1500:])
    srcs = [os.path.join(REPO, s) for s in LIBSRC if os.path.exists(os.path.join(REPO, s))]
    extra = [os.path.join(REPO, "pire", f) for f in sorted(os.listdir(os.path.join(REPO, "pire"))) if f.endswith(".cpp")]
    for s in extra:
        if s not in srcs: srcs.append(s)
    srcs.append(os.path.join(tmp, "re_parser.cpp"))
    procs = []
    objs = []
    for s in srcs:
        o = os.path.join(tmp, hashlib.sha1(s.encode()).hexdigest()[:8] + "_" + os.path.basename(s) + ".o")
        objs.append(o)
        procs.append((s, subprocess.Popen(["g++", "-std=c++11", "-w", "-g1", "-include", "limits", *flags, *inc, "-c", s, "-o", o], stderr=subprocess.PIPE, text=True)))
    err = ""
    for s, p in procs:
        _, e = p.communicate()
        if p.returncode: err += s + ": " + e[-1500:]
    if err: raise driver.BuildError("library: " + err[:3000])
    subprocess.run(["ar", "rcs", os.path.join(tmp, "libpire.a"), *objs], check=True)
    for o in objs: os.unlink(o)
    try: os.rename(tmp, d)
    except OSError: pass
    return d, lib


FAST = ("-O2", "-D_GLIBCXX_ASSERTIONS")


def build_harness(h, flags=None):
    flags = flags or h.flags
    tag = hashlib.sha1(" ".join(flags).encode()).hexdigest()[:6]
    d, lib = build_lib(list(flags), tag)
    src = os.path.join(VERIF, "harness", h.src)
    key = hashlib.sha1(b"".join(open(os.path.join(VERIF, "harness", f), "rb").read() for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".h") or f == h.src)).hexdigest()[:12]
    exe = os.path.join(d, os.path.splitext(h.src)[0] + "-" + key)
    if os.path.exists(exe): return exe
    cmd = [h.cxx, "-std=c++11", "-w", "-g1", "-include", "limits", *flags, "-I" + VERIF + "/cfg", "-I" + VERIF + "/harness", "-I" + REPO,
           "-I" + REPO + "/pire", src, lib, "-o", exe + ".tmp"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise driver.BuildError("harness %s: %s" % (h.src, p.stderr[-3000:]))
    os.rename(exe + ".tmp", exe)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")


WORKERS = 7


def run_harness(h, seed, seconds, known=(), extra=(), workers=WORKERS):
    """Runs the harness in several processes (cases are dealt out by index); returns stats and the first violation."""
    # most workers run an optimized build, two a sanitized one
    import threading
    exes, errs = {}, []
    def mk(k, fl):
        try: exes[k] = build_harness(h, fl)
        except Exception as e: errs.append(e)
    ths = [threading.Thread(target=mk, args=("fast", FAST)), threading.Thread(target=mk, args=("san", h.flags))]
    for t in ths: t.start()
    for t in ths: t.join()
    if errs: raise errs[0]
    exe = exes["san"]
    out = dict(evaluations=0, distinct=0, samples=[], violations=[], notes=[], exe=exe)
    t0 = time.time()
    procs = []
    for w in range(workers):
        status = os.path.join(BUILD, "status.%d.%d" % (os.getpid(), w))
        cmd = [exes["san" if w < 2 else "fast"], "--seed", str(seed), "--seconds", "%d" % max(1, seconds), "--status", status, "--worker", str(w), str(workers)]
        for k in known: cmd += ["--known", k]
        cmd += list(extra)
        fo, fe = open(status + ".out", "w+b"), open(status + ".err", "w+b")
        procs.append((w, status, fo, fe, subprocess.Popen(cmd, stdout=fo, stderr=fe, env=ENV, preexec_fn=_limits)))
    deadline = t0 + seconds + h.timeout_case
    for w, status, fo, fe, p in procs:
        try:
            rc = p.wait(timeout=max(0.1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = -99
        fo.seek(0); fe.seek(0)
        so, se = fo.read().decode(errors="replace"), fe.read().decode(errors="replace")
        cur = open(status, errors="replace").read().split("\0")[0].strip() if os.path.exists(status) else ""
        for f in (status, status + ".out", status + ".err"):
            if os.path.exists(f): os.unlink(f)
        for l in so.split("\n"):
            if l.startswith("STAT "):
                d = json.loads(l[5:])
                out["evaluations"] += d["evaluations"]; out["distinct"] += d["distinct"]
                if len(out["samples"]) < 6: out["samples"] += d.get("samples", [])[:6]
                pt = out.setdefault("per_test", {})
                for k, v in d.get("tests", {}).items(): pt[k] = pt.get(k, 0) + v
            if l.startswith("KNOWN "): out["notes"].append(l[6:])
        if rc == 0: continue
        test, idx = (cur.split() + ["?", "0"])[:2]
        if rc == 1:
            msg = " | ".join(l[5:] for l in so.split("\n") if l.startswith("FAIL "))
        elif rc == -99:
            msg = "does not terminate (no answer within the time limit)"
        elif rc in (-9, -15):
            out["notes_env"] = "worker killed"; continue
        else:
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|terminate called[^\n]*|Assertion[^\n]*)", se)
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", se)
            msg = "crash (exit %d): %s %s" % (rc, m.group(1) if m else se[-300:], " <- ".join(f.split(" /")[0][:80] for f in fr[:4]))
        out["violations"].append((test, idx, msg[:1500]))
    out["wall"] = time.time() - t0
    return out


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == pid: res.append((m.group(2), m.group(3)))
    return res


def run_check(pid, items, harness, level="proof", trusted=(), assumptions=(), tier=None, notes=""):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    # ---- proofs
    total_budget = 560 if tier == "quick" else 3000
    items = [i for i in items if tier == "thorough" or not i.thorough_only]
    hproc = None
    results = run_items(items, budget=total_budget) if items else []
    failed, undecided, proved_items = [], [], []
    obl_n = obl_d = 0
    backends = {}
    fn_list, loops, inlined, assumed = [], [], set(), set()
    solver = 0.0
    summary = {}
    for r in results:
        it = items[r["item"]]
        s = summary.setdefault(it.name, dict(cases=0, obligations=0, discharged=0, wall=0.0, errors=[], functions=it.functions))
        s["cases"] += 1
        s["wall"] += r["wall"]
        solver += r["solver"]
        inlined |= set(r["inlined"]); assumed |= set(r["assumed"])
        for l in r["loops"]:
            if l not in loops and len(loops) < 60: loops.append(l)
        covers = [o for o in r["obls"] if o[1] == "cover"]
        real = [o for o in r["obls"] if o[1] != "cover"]
        if r["error"]:
            if r["kind"] == "missing" and it.optional: continue
            undecided.append((it.name, it.cases[r["case"]], r["kind"], r["error"]))
            s["errors"].append(r["error"][:200])
            obl_n += 1; s["obligations"] += 1
        if not real and not r["error"]:
            undecided.append((it.name, it.cases[r["case"]], "vacuous", "no obligation was generated"))
        for o in covers:
            if o[2] == "proved":       # the negation of reachability was proved: contradictory precondition
                undecided.append((it.name, it.cases[r["case"]], "vacuous", "precondition is contradictory: " + o[0]))
        for o in real:
            obl_n += 1; s["obligations"] += 1
            if o[2] == "proved":
                obl_d += 1; s["discharged"] += 1
                backends[o[3]] = backends.get(o[3], 0) + 1
            elif o[2] == "failed":
                failed.append((it.name, it.cases[r["case"]], o))
            else:
                undecided.append((it.name, it.cases[r["case"]], "unknown", "%s: %s (%s)" % (o[5][:80], o[0], o[3])))
    hard = [f for f in failed if not f[2][6]]
    soft = [f for f in failed if f[2][6]]
    for f in failed[:12]: print("obligation failed: item=%s case=%s %s [%s]%s" % (f[0], f[1], f[2][0], f[2][1], " (rests on an inferred invariant)" if f[2][6] else ""))
    for u in undecided[:12]: print("undecided: item=%s case=%s %s: %s" % (u[0], u[1], u[2], u[3][-300:]))
    # ---- harness
    viol = None
    hs = None
    known = load_known(pid)
    if harness is not None:
        secs = harness.seconds if tier == "quick" else harness.thorough
        if (failed or undecided) and tier == "quick": secs = max(secs, min(240, 3 * secs))
        try:
            hs = run_harness(harness, seed, secs, known=[k for k, _ in known])
            for nt in sorted(set(hs["notes"])):
                print("KNOWN-FINDING: property=%s %s" % (pid, nt))
            if hs["violations"]: viol = hs["violations"][0]
        except driver.BuildError as e:
            hs = dict(error=str(e)[:2000], evaluations=0, distinct=0, samples=[], violations=[])
            print("harness could not be built:", str(e)[:1500])
    rc = 0
    line = None
    if viol is not None:
        rp = os.path.join(VERIF, "build", "replay", "%s-%s-%s.json" % (pid, viol[0], viol[1]))
        json.dump(dict(property=pid, test=viol[0], index=viol[1], seed=seed, what=viol[2],
                       rerun="%s --seed %d --only %s %s" % (hs["exe"], seed, viol[0], viol[1]),
                       build="python3-vt /verif/pirevc/replay.py <this file>",
                       failed_obligations=[dict(item=f[0], case=str(f[1]), name=f[2][0], function=f[2][5]) for f in failed[:10]]), open(rp, "w"), indent=1)
        print("failing input on the real code: test %s #%s: %s" % viol)
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        rc = 1
    elif hard:
        f = hard[0]
        rp = os.path.join(VERIF, "build", "replay", "%s-obligation.json" % pid)
        json.dump(dict(property=pid, failed_obligations=[dict(item=x[0], case=str(x[1]), name=x[2][0], kind=x[2][1], function=x[2][5], verifier_output=x[2][7]) for x in hard[:10]]), open(rp, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)
        rc = 1
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 1), violations=1 if rc else 0,
              assumptions=list(assumptions),
              coverage=dict(obligations=obl_n, discharged=obl_d,
                            checker_cmd="python3-vt /verif/pirevc/check.py %s" % pid,
                            trusted_base=["clang 18 front end and sroa/simplifycfg/loop-simplify/lcssa", "pirevc IR reader and VC generator", "z3 5.3 (python), cvc5 1.1.2"] + list(trusted),
                            back_ends=backends, solver_seconds=round(solver, 1),
                            items=[dict(name=k, **{kk: (round(vv, 1) if isinstance(vv, float) else vv) for kk, vv in v.items()}) for k, v in summary.items()],
                            functions_under_contract=sorted({f for i in items for f in i.functions}),
                            inlined_callees=sorted(short(x) for x in inlined)[:200],
                            assumed_contracts=sorted(assumed),
                            loops=[dict(function=short(l[0]), header=l[1], how=l[2], invariants=l[3], measure=l[4] if len(l) > 4 else "bounded") for l in loops],
                            failed=[dict(item=f[0], case=str(f[1]), name=f[2][0], rests_on_invariant=f[2][6]) for f in failed[:20]],
                            undecided=[dict(item=u[0], case=str(u[1]), why=u[2], detail=u[3][-300:]) for u in undecided[:30]],
                            bounded_stand_in=dict(label="bounded: concrete executions of the real code, never counted as discharged",
                                                  evaluations=hs["evaluations"], distinct_nontrivial=hs["distinct"],
                                                  samples=hs.get("samples", []), tests=hs.get("per_test", {}), what=harness.desc) if hs else None,
                            evaluations=hs["evaluations"] if hs else 0,
                            distinct_nontrivial=hs["distinct"] if hs else 0,
                            rule=harness.desc if harness else "", samples=(hs or {}).get("samples", []),
                            explanation=notes))
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged, %d failed, %d undecided; stand-in: %s evaluations; %.0fs" %
          (pid, obl_d, obl_n, len(failed), len(undecided), hs["evaluations"] if hs else "-", time.time() - t0))
    if line: print(line)
    return rc
