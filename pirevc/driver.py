"""Compilation of wrapper units, discharge of obligations, bookkeeping shared by all properties."""
import json, os, subprocess, sys, time, hashlib, pickle
import z3
import ir, sym
from sym import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PIRE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = ir.LLVM
PASSES = "sroa,simplifycfg,loop-simplify,lcssa"


class BuildError(Exception):
    pass


def compile_ir(tu, defines=(), includes=(), passes=PASSES, flags=()):
    """clang -O0 -> LLVM IR of a wrapper unit that includes the real sources; returns an ir.Module."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tu", tu)
    tag = tu.replace("/", "_") + "".join("_" + d.split("=")[0] for d in defines)
    ll = os.path.join(BUILD, "%s.%d.ll" % (tag, os.getpid()))
    cmd = [LLVM + "clang++", "-std=c++11", "-w", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone",
           "-fno-discard-value-names", "-I" + VERIF + "/cfg", *["-I" + i for i in includes], "-I" + REPO,
           "-I" + REPO + "/pire", "-include", "limits", *["-D" + d for d in defines], *flags, src, "-o", ll]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError("clang: " + p.stderr[:3000])
    ol = ll + ".opt"
    p = subprocess.run([LLVM + "opt", "-S", "-passes=" + passes, ll, "-o", ol], capture_output=True, text=True)
    if p.returncode: raise BuildError("opt: " + p.stderr[:2000])
    text = open(ol).read()
    os.unlink(ll); os.unlink(ol)
    return ir.parse_module(text)


def check_one(facts, claim, timeout):
    """claim = not guard or goal."""
    t = time.time()
    s = z3.Solver(); s.set("timeout", 300)
    s.add(Not(claim))
    if s.check() == z3.unsat: return "proved", None, "z3 (no hypothesis needed)", time.time() - t
    neg = flat_and(simp(z3.Not(claim)), [])
    pure = [weaken_pure(x) for x in neg]
    pure = [x for x in pure if not z3.is_true(x)]
    if pure:
        s = z3.Solver(); s.push(); s.set("timeout", 2000)
        for f in facts:
            if pure_bv(f): s.add(f)
        for x in pure: s.add(x)
        r = s.check()
        if r == z3.unsat: return "proved", None, "z3 (bit-vectors)", time.time() - t
        s = z3.SolverFor("QF_BV"); s.set("timeout", min(timeout, 5000) if r == z3.unknown else 1)
        for f in facts:
            if pure_bv(f): s.add(f)
        for x in pure: s.add(x)
        if s.check() == z3.unsat: return "proved", None, "z3 (QF_BV)", time.time() - t
    s = z3.Solver(); s.set("timeout", timeout)
    for f in facts: s.add(f)
    s.add(Not(claim))
    r = s.check()
    if r == z3.unsat: return "proved", None, "z3", time.time() - t
    if r == z3.sat:
        m = s.model()
        return "failed", model_text(m), "z3", time.time() - t
    # second opinion: cvc5 on the same query
    smt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        fn = os.path.join(BUILD, "q%d.smt2" % os.getpid())
        with open(fn, "w") as f: f.write(smt)
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, fn], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        os.unlink(fn)
        if p.stdout.strip().startswith("unsat"): return "proved", None, "cvc5", time.time() - t
    except Exception:
        pass
    return "unknown", None, "z3+cvc5", time.time() - t


def model_text(m):
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        if d.arity() == 0:
            out.append("%s = %s" % (d.name(), str(m[d])[:300]))
        else:
            out.append("%s = %s" % (d.name(), str(m[d])[:400]))
        if len(out) > 120: break
    return "\n".join(out)


def model_dict(m):
    return {d.name(): str(m[d])[:2000] for d in m.decls()}


def relevant(facts, claim):
    """Facts connected to the claim through shared uninterpreted symbols (sound: only drops hypotheses)."""
    syms = consts_of
    have = set(syms(claim))
    fs = [(f, syms(f)) for f in facts]
    used = [False] * len(fs)
    ch = True
    while ch:
        ch = False
        for i, (f, s) in enumerate(fs):
            if not used[i] and (not s or s & have):
                used[i] = True
                if not s <= have:
                    have |= s; ch = True
    return [f for i, (f, s) in enumerate(fs) if used[i]]


def discharge(eng, timeout=30000, jobs=8):
    """Discharges the open obligations of an engine in parallel processes."""
    todo = [i for i, o in enumerate(eng.obls) if o.status is None]
    if not todo: return
    pipes = []
    n = min(jobs, len(todo))
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = []
            try:
                for i in todo[k::n]:
                    o = eng.obls[i]
                    fs = relevant(eng.facts, o.claim)
                    res.append((i,) + check_one(fs, o.claim, timeout))
            except BaseException as e:
                res.append((-1, "error", repr(e), "", 0))
            with os.fdopen(w, "wb") as f: pickle.dump(res, f)
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data: continue
        for i, stt, mdl, be, t in pickle.loads(data):
            if i < 0: continue
            o = eng.obls[i]
            o.status, o.model, o.backend, o.t = stt, mdl, be, t
            eng.solver_time += t
    for i in todo:
        if eng.obls[i].status is None: eng.obls[i].status = "unknown"


def discharge_seq(eng, timeout=20000):
    for o in eng.obls:
        if o.status is not None: continue
        fs = relevant(eng.facts, o.claim)
        if o.kind == "cover":
            s = z3.Solver(); s.push(); s.set("timeout", 700)
            for f in fs: s.add(f)
            s.add(Not(o.claim))
            r = s.check()
            o.status = "proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown"
            o.backend = "z3"
            continue
        if eng.deadline and time.time() > eng.deadline:
            o.status, o.backend = "unknown", "time budget"
            continue
        o.status, o.model, o.backend, o.t = check_one(fs, o.claim, timeout)
        if o.status == "failed" and eng.products:
            r = check_one(relevant(eng.facts + [f for _, f in eng.products.values()], o.claim), o.claim, timeout)
            o.status, o.model, o.backend, o.t = r[0], r[1], r[2], r[3] + o.t
        eng.solver_time += o.t
