from lib import *
from framework import Item, Harness, run_check

from runspec import *
from runspec import item_fn, item_dorun, dorun_contract, Range, any_text
NI = ("-Xclang", "-disable-llvm-passes")
M = lambda: module("run_abs.cpp", (), NI)
S1, S2 = AbsScanner(1), AbsScanner(2)
single = lambda d: "Scn<1>" in d and "Pair<" not in d
paired = lambda d: "Pair<" in d


def run1(case):
    """Run(sc, st, begin, end) from DoRun's contract"""
    e = Engine(M(), S1.contracts())
    st = start()
    sc = e.new_region(st, "scanner", 1, readonly=True)
    t = any_text(e, st, [S1])
    rg = Range(t, [S1], "run")
    e.contracts.append(dorun_contract(rg))
    s0 = z3.BitVec("s0", 64)
    t.at_start(e, s0)
    s = cell64(e, st, "state", s0)
    rv, out, th = e.call_function(e.find("vc_run"), [ptr(sc), ptr(s), V(t.begin, t.r), V(t.end, t.r)], st, top=True)
    e.stack.append(e.find("vc_run"))
    no_throw(e, th, "Run")
    e.oblige(out, "state after Run(begin,end) is the state after stepping byte by byte", e.load(out, ptr(s), ir.I(64)).e == t.D[0](t.end), "post")
    cover(e, out)
    return e


def run2(case):
    """Run(sc1, sc2, st1, st2, begin, end) from DoRun<ScannerPair>'s contract"""
    e = Engine(M(), S1.contracts() + S2.contracts())
    st = start()
    a, b = e.new_region(st, "scanner1", 1, readonly=True), e.new_region(st, "scanner2", 1, readonly=True)
    s0, s1 = z3.BitVecs("s0 s1", 64)
    x, y = cell64(e, st, "state1", s0), cell64(e, st, "state2", s1)
    t = any_text(e, st, [S1, S2])
    rg = Range(t, [S1, S2], "run")
    dr = dorun_contract(rg)

    def ap(e, st, ar, inst):
        # the pair runs over exactly these two scanners
        e.oblige(st, "the pair refers to the two scanners", z3.And(e.load(st, ar[0], ir.PTR).e == a.base, e.load(st, V(simp(ar[0].e + bv(8)), ar[0].prov), ir.PTR).e == b.base), "pre")
        return dr.apply(e, st, ar, inst)
    e.contracts.append(Contract(dr.match, ap, "DoRun<ScannerPair>"))
    e.facts += [t.D[0](t.begin) == s0, t.D[1](t.begin) == s1]
    f = e.find("vc_run2")
    rv, out, th = e.call_function(f, [ptr(a), ptr(b), ptr(x), ptr(y), V(t.begin, t.r), V(t.end, t.r)], st, top=True)
    e.stack.append(f)
    no_throw(e, th, "Run")
    for k, r in ((0, x), (1, y)):
        e.oblige(out, "state %d after running two scanners at once is the state it reaches alone" % (k + 1), e.load(out, ptr(r), ir.I(64)).e == t.D[k](t.end), "post")
    cover(e, out)
    return e


def pair_steps():
    """Step<ScannerPair>: both components step [item wrappers: vc_pair_step]"""
    def ap(e, st, a, inst):
        for k, S in ((0, S1), (8, S2)):
            p = V(simp(a[1].e + bv(k)), a[1].prov)
            x = e.load(st, p, ir.I(64)).e
            e.store(st, p, V(e.canonical(simp(S.step(x, a[2].e)))), ir.I(64))
    return Contract(lambda d: d.startswith("void Pire::Step<Pire::ScannerPair<"), ap, "Step<ScannerPair>")


fns = {}
for _f in ("SafeRunChunk", "RunChunk", "RunAligned"):
    fns[_f] = item_fn(M, [S1], "run", _f, sel=single)
    fns[_f + " (pair)"] = item_fn(M, [S1, S2], "run", _f, sel=paired, contracts=[pair_steps()])
dorun1, dorun2 = item_dorun(M, [S1], "run", sel=single), item_dorun(M, [S1, S2], "run", sel=paired)


RUNF = z3.Function("run", BV(64), BV(64), BV(64), BV(64))


def run_contract():
    def ap(e, st, a, inst):
        s = e.load(st, a[1], ir.I(64)).e
        e.store(st, a[1], V(RUNF(s, a[2].e, a[3].e)), ir.I(64))
    return Contract(lambda d: d.startswith("void Pire::Run<vc::Scn<1>"), ap, "Run<Scanner>(sc, st, begin, end): st' = run(st, begin, end) [proved by item Run]")


def helper(case):
    name = case[0]
    e = Engine(M(), S1.contracts() + S2.contracts() + [run_contract()])
    st = start()
    a, b = e.new_region(st, "scanner1", 1, readonly=True), e.new_region(st, "scanner2", 1, readonly=True)
    s, s2, p, q, n = z3.BitVecs("s s2 p q n", 64)
    c = z3.BitVec("c", 16)
    st.g = z3.ULT(c, bv(264, 16))
    f = e.find(name)
    B, E = bv(ir_const("BeginMark"), 16), bv(ir_const("EndMark"), 16)
    cell = lambda e0, nm="state": ptr(cell64(e, st, nm, e0))
    pair = lambda: pair_cell(e, st, s, s2)
    args, post = {
        "vc_step": lambda: ([ptr(a), cell(s), V(c)], lambda o, r, A: ld(e, o, A[1]) == S1.step(s, c)),
        "vc_pair_step": lambda: ([ptr(a), ptr(b), pair(), V(c)], lambda o, r, A: And(ld(e, o, A[2]) == S1.step(s, c), ld(e, o, A[2], 8) == S2.step(s2, c))),
        "vc_pair_init": lambda: ([ptr(a), ptr(b), pair()], lambda o, r, A: And(ld(e, o, A[2]) == S1.init, ld(e, o, A[2], 8) == S2.init)),
        "vc_pair_final": lambda: ([ptr(a), ptr(b), pair()], lambda o, r, A: r.e == z3.Or(S1.F(s), S2.F(s2))),
        "vc_pair_dead": lambda: ([ptr(a), ptr(b), pair()], lambda o, r, A: r.e == z3.And(S1.Dd(s), S2.Dd(s2))),
        "vc_helper_init": lambda: ([ptr(a)], lambda o, r, A: r.e == S1.init),
        "vc_runner": lambda: ([ptr(a)], lambda o, r, A: r.e == S1.init),
        "vc_runner_at": lambda: ([ptr(a), V(s)], lambda o, r, A: r.e == s),
        "vc_helper_run": lambda: ([ptr(a), V(s), V(p), V(q)], lambda o, r, A: r.e == RUNF(s, p, q)),
        "vc_helper_run_size": lambda: ([ptr(a), V(s), V(p), V(n)], lambda o, r, A: r.e == RUNF(s, p, p + n)),
        "vc_helper_begin": lambda: ([ptr(a), V(s)], lambda o, r, A: r.e == S1.step(s, B)),
        "vc_helper_end": lambda: ([ptr(a), V(s)], lambda o, r, A: r.e == S1.step(s, E)),
        "vc_helper_step": lambda: ([ptr(a), V(s), V(c)], lambda o, r, A: r.e == S1.step(s, c)),
        "vc_helper_yes": lambda: ([ptr(a), V(s)], lambda o, r, A: r.e == S1.F(s)),
        "vc_helper_no": lambda: ([ptr(a), V(s)], lambda o, r, A: r.e == z3.Not(S1.F(s))),
        "vc_matches": lambda: ([ptr(a), V(p), V(q)], lambda o, r, A: r.e == S1.F(RUNF(S1.init, p, q))),
    }[name]()
    rv, out, th = e.call_function(f, args, st, top=True)
    e.stack.append(f)
    no_throw(e, th, name)
    e.oblige(out, name[3:] + " meets its contract", post(out, rv, args), "post")
    cover(e, out)
    return e


def ld(e, st, p, off=0): return e.load(st, V(simp(p.e + bv(off)), p.prov), ir.I(64)).e


def pair_cell(e, st, x, y):
    r = e.new_region(st, "pair", 16)
    st.mem[r] = Cells({0: (8, V(x)), 8: (8, V(y))})
    return ptr(r)


HELPERS = ["vc_step", "vc_pair_step", "vc_pair_init", "vc_pair_final", "vc_pair_dead", "vc_helper_init", "vc_runner", "vc_runner_at", "vc_helper_run",
           "vc_helper_run_size", "vc_helper_begin", "vc_helper_end", "vc_helper_step", "vc_helper_yes", "vc_helper_no", "vc_matches"]


def main():
    RC = [(i,) for i in range(8)]
    items = []
    for k, f in fns.items():
        n = k.split()[0]
        items.append(Item(k, f, RC if n == "RunChunk" else [()], ["Impl::AlignedRunner<Scanner>::RunAligned(RunPred)" if n == "RunAligned" else "Impl::%s<RunPred>" % n, "Pire::Step"], weight=4 if "pair" in k else 3))
    items += [
        Item("DoRun", dorun1, [()], ["Impl::DoRun<RunPred>"]),
        Item("DoRun (pair)", dorun2, [()], ["Impl::DoRun<ScannerPair, RunPred>"]),
        Item("Run", run1, [()], ["Pire::Run"]),
        Item("Run of two scanners", run2, [()], ["Pire::Run(sc1, sc2, ...)", "ScannerPair::ScannerPair"]),
        Item("Run of the slow scanner", __import__("C19").run_loop, [()], ["Pire::Run<SlowScanner> (specialization)"]),
        Item("wrappers", helper, [(h,) for h in HELPERS], ["Step", "ScannerPair::Next/TakeAction/Initialize/Final/Dead", "RunHelper::Run/Begin/End/Step/State/operator!/operator Tag*", "Runner", "Matches"]),
    ]
    M()
    return run_check("C01", items, Harness("C01.cpp", 20, desc="Run() against Step() on random automata of every scanner type, texts in page-guarded buffers, all alignments mod 16, splits, pairs"),
                     assumptions=["the scanner's Next/TakeAction/Final/Dead/Initialize are functions of (state, argument) that touch nothing but the state passed to them (contracts of the concrete scanners: C02, C04, C12, C13, C19)",
                                  "reads of the whole aligned words that contain the text are allowed (documented behaviour of run.h)"],
                     notes="Each run.h function is proved against its own contract for an arbitrary scanner, with begin, end, length and alignment arbitrary; callers use the callees' contracts. AlignedRunner of the Scanner class is covered by C02.")
