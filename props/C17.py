from C04 import eng, run1, b, FinalList, Lists, ALL
from multi import *
from framework import Item, Harness, run_check

VEC = "std::vector<unsigned long, std::allocator<unsigned long>>::"


def vec(name): return lambda d: d.startswith(VEC + name)


def state_obj(e, s, st, matched=None, ids=None, state=None):
    """a state object of the half-final scanner; matched: the vector of counts"""
    so = offs(s.m, "off_hfst_")
    f = {so["state"]: (8, V(state, s.tr)) if state is not None else (8, V(z3.BitVec("scannerState", 64)))}
    if matched is not None: f.update(vecf(so["counts"], matched, matched.base, simp(matched.base + z3.ZeroExt(32, s.regexps) * bv(8))))
    return obj(e, st, "state", gconst(s.m, "vc_size_hfst"), f), so


def take(case):
    """TakeAction: in a final state, every entry of the state's list adds one to its regexp; otherwise nothing changes"""
    e, st = eng(case[0])
    e.cut_hint = lambda f, L: "cut"; e.use_iter = False; e.opaque_cells = True
    s = Multi(e, st, e.m)
    i, j, v0 = z3.BitVecs("i j v0", 64)
    e.fact(z3.ULT(i, s.S)); s.is_state(i); s.divides(i)
    fl = FinalList(s, i)
    C = z3.Function("occurrences", BV(64), BV(64))
    e.facts += [C(fl.begin) == 0, z3.ULT(j, z3.ZeroExt(32, s.regexps))]
    fl.hooks.append(lambda a, w: e.fact(C(simp(a + bv(8))) == C(a) + z3.If(w == j, bv(1), bv(0))))
    P = Probe(e, st, "counts", z3.ZeroExt(32, s.regexps), j, v0, 8)
    q, so = state_obj(e, s, st, P.r, state=s.state(i))

    def templates(eng_, ctx):
        out = []
        cells = [v for v in ctx.vars if v[0] == "cell" and v[1][0] is P.cell]
        for v in ctx.vars:
            if v[0] in ("phi", "cell") and eng_.getv(ctx.hst, v).prov is s.ft:
                for c in cells: out.append(("count = occurrences before " + vname(v), lambda ev, v=v, c=c: ev(c).e == v0 + C(ev(v).e)))
        return out
    e.templates.append(templates)
    fin = z3.Extract(0, 0, s.flags(st, s.state(i))) == bv(1, 1)
    rv, o = run1(e, st, "vc_hf_take", [ptr(s.r), ptr(q), V(z3.BitVec("action", 32))])
    e.oblige(o, "each regexp is counted as often as the state's list names it", get(e, o, P.cell, 0) == z3.If(fin, v0 + C(fl.T), v0), "post")
    e.oblige(o, "the state stays", get(e, o, q, so["state"]) == s.state(i), "frame")
    cover(e, o)
    return e


def initialize(case):
    """Initialize: the initial state, all counts zero, then the matches of the initial state"""
    e, st = eng(case[0])
    s = Multi(e, st, e.m)
    q, so = state_obj(e, s, st)
    log = []
    at_ = lambda p: conc(simp(p.e - q.base))
    e.contracts += [Contract(vec("clear()"), lambda e, st, a, i: log.append(("clear", at_(a[0]))), "std::vector::clear"),
                    Contract(vec("resize(unsigned long)"), lambda e, st, a, i: log.append(("resize", at_(a[0]), a[1].e)), "std::vector::resize"),
                    Contract(vec("assign(unsigned long, unsigned long const&)"), lambda e, st, a, i: log.append(("assign", at_(a[0]), a[1].e, e.load(st, a[2], ir.I(64)).e)), "std::vector::assign"),
                    Contract(lambda d: "HalfFinalScanner<" in d and "::TakeAction(" in d, lambda e, st, a, i: log.append(("take", at_(a[1]), get(e, st, q, so["state"]))), "TakeAction [item TakeAction]")]
    every = onpaths(e, 4)
    rv, o = run1(e, st, "vc_hf_init", [ptr(s.r), ptr(q)])
    every(o)
    e.oblige(o, "starts in the initial state", get(e, o, q, so["state"]) == s.init, "post")
    if any(x[1] is None for x in log): raise Unmodelled("vector of the state not identified")
    vs = [x for x in log if x[0] != "take" and x[1] == so["counts"]]
    takes = [x for x in log if x[0] == "take"]
    n = z3.ZeroExt(32, s.regexps)
    kinds = [x[0] for x in vs]
    if kinds == ["clear", "resize"]: zero = vs[1][2] == n
    elif kinds == ["assign"]: zero = z3.And(vs[0][2] == n, vs[0][3] == 0)
    else: raise Unmodelled("how the counts are set up")
    e.oblige(o, "all counts are zero", zero, "post")
    e.oblige(o, "then the matches of the initial state are counted, once", z3.And(z3.BoolVal(len(takes) == 1 and log[-1][0] == "take" and takes[0][1] == 0), takes[0][2] == s.init) if takes else FALSE, "post")
    cover(e, o)
    return e


def next_(case):
    """Next: the scanner's transition; the counts stay (they change in TakeAction)"""
    var, fn = case
    e, st = eng(var)
    s = Multi(e, st, e.m)
    i, c, j, v0 = z3.BitVec("i", 64), z3.BitVec("c", 16), z3.BitVec("j", 64), z3.BitVec("v0", 64)
    e.facts += [z3.ULT(i, s.S), z3.ULT(c, bv(s.maxchar, 16)), z3.ULT(j, z3.ZeroExt(32, s.regexps))]; s.is_state(i)
    P = Probe(e, st, "counts", z3.ZeroExt(32, s.regexps), j, v0, 8)
    q, so = state_obj(e, s, st, P.r, state=s.state(i))
    if fn == "vc_hf_next": l = s.letter(c)
    else:
        l = z3.ZeroExt(48, c)
        e.fact(z3.And(z3.UGE(l, bv(s.H)), z3.ULT(l, bv(s.H) + s.L)))
    rv, o = run1(e, st, fn, [ptr(s.r), ptr(q), V(c)])
    e.oblige(o, "moves to the state of the entry", get(e, o, q, so["state"]) == s.entry(o, s.state(i), l), "post")
    e.oblige(o, "counts stay", get(e, o, P.cell, 0) == v0, "frame")
    cover(e, o)
    return e


def queries(case):
    """Final, Dead, StateIndex look at the scanner's state; Result(i) is the count of regexp i"""
    e, st = eng(case[0])
    s = Multi(e, st, e.m)
    i, j, v0 = z3.BitVecs("i j v0", 64)
    e.facts += [z3.ULT(i, s.S), z3.ULT(j, z3.ZeroExt(32, s.regexps))]; s.is_state(i); s.divides(i)
    P = Probe(e, st, "counts", z3.ZeroExt(32, s.regexps), j, v0, 8)
    q, so = state_obj(e, s, st, P.r, state=s.state(i))
    fl = s.flags(st, s.state(i))
    rv, o = run1(e, st, "vc_hf_final", [ptr(s.r), ptr(q)])
    e.oblige(o, "Final is bit 0 of the state's flags", b(rv.e) == (z3.Extract(0, 0, fl) == bv(1, 1)), "post")
    rv, o = run1(e, o, "vc_hf_dead", [ptr(s.r), ptr(q)])
    e.oblige(o, "Dead is bit 1 of the state's flags", b(rv.e) == (z3.Extract(1, 1, fl) == bv(1, 1)), "post")
    rv, o = run1(e, o, "vc_hf_stateindex", [ptr(s.r), ptr(q)])
    e.oblige(o, "StateIndex is the number of the row", rv.e == i, "post")
    rv, o = run1(e, o, "vc_hf_result", [ptr(q), V(j)])
    e.oblige(o, "Result(j) is the count of j", rv.e == v0, "post")
    cover(e, o)
    return e


def ids(case):
    """GetMatchedRegexpsIds: every regexp with a count is listed once, no other (watched at one arbitrary regexp)"""
    e, st = eng(case[0])
    e.cut_hint = lambda f, L: "cut"; e.use_iter = False; e.opaque_cells = True
    s = Multi(e, st, e.m)
    j, v0 = z3.BitVecs("j v0", 64)
    n = z3.ZeroExt(32, s.regexps)
    e.facts += [z3.ULT(j, n)]
    P = Probe(e, st, "counts", n, j, v0, 8)
    q, so = state_obj(e, s, st, P.r)
    cnt = e.new_region(st, "listings of j", 8)
    st.mem[cnt] = Cells({0: (8, V(z3.BitVec("garbage", 64)))})

    def who(a):
        k = conc(simp(a[0].e - q.base))
        if k != so["ids"]: raise Unmodelled("another vector than the list of ids")

    def clear(e, st, a, i): who(a); e.store(st, ptr(cnt), V(bv(0)), ir.I(64))

    def push(e, st, a, i):
        who(a)
        e.store(st, ptr(cnt), V(get(e, st, cnt, 0) + z3.If(e.load(st, a[1], ir.I(64)).e == j, bv(1), bv(0))), ir.I(64))
    e.contracts += [Contract(vec("clear()"), clear, "std::vector::clear"), Contract(vec("push_back("), push, "std::vector::push_back")]

    def templates(eng_, ctx):
        out = []
        cs = [v for v in ctx.vars if v[0] == "cell" and v[1][0] is cnt]
        for v in ctx.vars:
            h = eng_.getv(ctx.hst, v) if v[0] in ("phi", "cell") else None
            if h is None or v in cs or h.prov is not None or not isinstance(h.e, z3.BitVecRef) or h.e.size() != 64: continue
            out.append((vname(v) + " <= regexps", lambda ev, v=v: z3.ULE(ev(v).e, n)))
            for c in cs: out.append(("listed before " + vname(v), lambda ev, v=v, c=c: ev(c).e == z3.If(z3.And(z3.UGT(ev(v).e, j), v0 != 0), bv(1), bv(0))))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_hf_ids", [ptr(q)])
    e.oblige(o, "a regexp is listed once exactly when it has a count", get(e, o, cnt, 0) == z3.If(v0 != 0, bv(1), bv(0)), "post")
    e.oblige(o, "counts stay", get(e, o, P.cell, 0) == v0, "frame")
    cover(e, o)
    return e


def finals(case):
    """BuildFinals: one list per state, with as many zeros as the automaton's count"""
    C = z3.Function("count", BV(64), BV(64))
    L = Lists(case[0], lambda i: C(i))
    e = L.e
    fsm = e.new_region(L.st, "fsm", None, readonly=True)

    def getcount(e, st, a, i):
        e.oblige(st, "GetCount of an existing state", z3.ULT(a[1].e, L.s.S), "pre")
        L.unfold(a[1].e)
        return V(C(a[1].e))
    e.contracts.append(Contract("Pire::HalfFinalFsm::GetCount(unsigned long) const", getcount, "HalfFinalFsm::GetCount [item GetCount]"))
    store = L.I.store

    def store_index(e, st, p, v, ty):
        # the outer loop's state is the one whose index is written
        L.outers = [("state", simp(z3.LShR(simp(p.e - L.I.r.base), 3)))]
        store(e, st, p, v, ty)
    L.I.store = store_index
    rv, o = run1(e, L.st, "vc_hf_finals", [ptr(L.s.r), ptr(fsm)])
    L.check(o)
    return e


def MH(): return module("hffsm.cpp", (), NI)


def count(case):
    """GetCount: 0 for a state that is not final, its tag, or 1 without one"""
    e = Engine(MH(), []); st = start()
    f = e.new_region(st, "fsm", None, readonly=True)
    s, T = z3.BitVec("s", 64), z3.Function("tag", BV(64), BV(64))
    F = z3.Function("final", BV(64), z3.BoolSort())
    e.contracts += [Contract("Pire::Fsm::IsFinal(unsigned long) const", lambda e, st, a, i: V(F(a[1].e)), "Fsm::IsFinal"), Contract("Pire::Fsm::Tag(unsigned long) const", lambda e, st, a, i: V(T(a[1].e)), "Fsm::Tag")]
    rv, o = run1(e, st, "vc_hf_count", [ptr(f), V(s)])
    e.oblige(o, "the state's multiplicity", rv.e == z3.If(F(s), z3.If(T(s) != 0, T(s), bv(1)), bv(0)), "post")
    cover(e, o)
    return e


def total(case):
    """GetTotalCount: the sum of the counts (ghost: partial sums)"""
    e = Engine(MH(), []); st = start()
    e.cut_hint = lambda f, L: "cut"; e.use_iter = False
    f = e.new_region(st, "fsm", None, readonly=True)
    C, SUM, S = z3.Function("count", BV(64), BV(64)), z3.Function("sum", BV(64), BV(64)), z3.BitVec("states", 64)
    e.fact(SUM(bv(0)) == 0)

    def getcount(e, st, a, i):
        x = a[1].e
        e.fact(SUM(simp(x + bv(1))) == SUM(x) + C(x))
        return V(C(x))
    e.contracts += [Contract("Pire::HalfFinalFsm::GetCount(unsigned long) const", getcount, "GetCount [item GetCount]"), Contract("Pire::Fsm::Size() const", lambda e, st, a, i: V(S), "Fsm::Size")]

    def templates(eng_, ctx):
        vs = [v for v in ctx.vars if v[0] in ("phi", "cell") and isinstance(eng_.getv(ctx.hst, v).e, z3.BitVecRef) and eng_.getv(ctx.hst, v).e.size() == 64]
        out = [(vname(v) + " <= states", lambda ev, v=v: z3.ULE(ev(v).e, S)) for v in vs]
        return out + [("%s = sum(%s)" % (vname(v), vname(w)), lambda ev, v=v, w=w: ev(v).e == SUM(ev(w).e)) for v in vs for w in vs if v is not w]
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_hf_total", [ptr(f)])
    e.oblige(o, "the sum over all states", rv.e == SUM(S), "post")
    cover(e, o)
    return e


def lemmas(case): return row_lemmas(MM("reloc"))


def main():
    for v in ALL: MM(v)
    MH()
    V4 = [(v,) for v in ALL]
    items = [Item("TakeAction", take, V4, ["HalfFinalScanner::TakeAction"], weight=3),
             Item("Initialize", initialize, V4, ["HalfFinalScanner::Initialize"]),
             Item("Next", next_, [(v, f) for v in ALL for f in ("vc_hf_next", "vc_hf_nextt")], ["HalfFinalScanner::Next", "HalfFinalScanner::NextTranslated"]),
             Item("Queries", queries, V4, ["HalfFinalScanner::Final", "HalfFinalScanner::Dead", "HalfFinalScanner::StateIndex", "HalfFinalScanner::State::Result"]),
             Item("Matched ids", ids, [("reloc",)], ["HalfFinalScanner::State::GetMatchedRegexpsIds"]),
             Item("BuildFinals", finals, [("reloc",), ("nonreloc-nomask",)], ["HalfFinalScanner::BuildFinals"], weight=5),
             Item("BuildFinals, other variants", finals, [("reloc-nomask",), ("nonreloc",)], ["HalfFinalScanner::BuildFinals"], weight=5, thorough_only=True),
             Item("GetCount", count, [()], ["HalfFinalFsm::GetCount"]),
             Item("GetTotalCount", total, [()], ["HalfFinalFsm::GetTotalCount"]),
             Item("Row lemmas", lemmas, [()], ["row arithmetic"])]
    return run_check("C17", items, Harness("C17.cpp", 14, desc="random automata under every counting configuration: results after every prefix against the automaton's multiplicities, and against the match positions of the language; glued scanners against their parts; Run against Step"),
                     assumptions=["the scanner's tables are laid out as Init/SetJump leave them (C04)", "std::vector's clear/resize/push_back behave as documented", "the counting constructions MakeScanner/MakeNonGreedyCounter/MakeGreedyCounter yield automata whose counts are the configured match counts (bounded stand-in)"],
                     notes="Counts are watched at one arbitrary regexp; lists at one arbitrary state and position.")
