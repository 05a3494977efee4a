from lib import *
from framework import Item, Harness, run_check

from runspec import *
from runspec import item_fn, item_dorun, dorun_contract, Range, any_text
NI = ("-Xclang", "-disable-llvm-passes")
M = lambda: module("run_abs.cpp", (), NI)


class DeadScanner(AbsScanner):
    """An arbitrary scanner whose dead flag is sound (C20): a dead state is not final and all its successors are dead."""

    def axiom(self, s, c):
        n = self.step(s, c)
        return z3.Implies(self.Dd(s), z3.And(z3.Not(self.F(s)), self.Dd(n), z3.Not(self.F(n))))

    def contracts(self):
        out = AbsScanner.contracts(self)
        nxt = out[0].apply

        def ap(e, st, a, inst):
            s = e.load(st, a[1], ir.I(64)).e
            e.fact(self.axiom(s, a[2].e))
            return nxt(e, st, a, inst)
        out[0] = Contract(out[0].match, ap)
        return out


S = DeadScanner(1)


def prefix(which):
    def run(case):
        e = Engine(M(), S.contracts()); e.opaque_cells = True
        st = start()
        sc = e.new_region(st, "scanner", 1, readonly=True)
        tb, te = z3.Bool("through_begin"), z3.Bool("through_end")
        B, E = bv(ir_const("BeginMark"), 16), bv(ir_const("EndMark"), 16)
        t = any_text(e, st, [S], which)
        e.contracts.append(dorun_contract(Range(t, [S], which)))
        D, end = t.D[0], t.end
        s0 = z3.If(tb, S.step(S.init, B), S.init)
        t.at_start(e, s0)
        e.fact(S.axiom(S.init, B)); e.fact(S.axiom(D(end), E))
        f = e.find("vc_%s_prefix" % which)
        rv, out, th = e.call_function(f, [ptr(sc), V(t.begin, t.r), V(t.end, t.r), V(tb), V(te)], st, top=True)
        e.stack.append(f)
        no_throw(e, th, "prefix search")
        wf = z3.And(te, S.F(S.step(D(end), E)))      # final after the end mark
        if which == "longest":
            e.oblige(out, "LongestPrefix returns the last final position, or the end through the end mark", rv.e == z3.If(wf, end, t.LF(end)), "post")
        else:
            e.oblige(out, "ShortestPrefix returns the first final position, or the end through the end mark", rv.e == z3.If(t.FF(end) != 0, t.FF(end), z3.If(wf, end, bv(0))), "post")
        cover(e, out)
        return e
    return run


def suffix(which):
    def run(case):
        e = Engine(M(), S.contracts()); e.UNROLL_SYM = 2
        st = start()
        sc = e.new_region(st, "scanner", 1, readonly=True)
        tb, te = z3.Bool("through_begin"), z3.Bool("through_end")
        B, E = bv(ir_const("BeginMark"), 16), bv(ir_const("EndMark"), 16)
        t = Text.backwards(e, st, [S], prefix="last" if which == "longest" else "first")
        D, end = t.D[0], t.end
        t.at_start(e, z3.If(te, S.step(S.init, E), S.init))
        e.fact(S.axiom(S.init, E)); e.fact(S.axiom(D(end), B))
        f = e.find("vc_%s_suffix" % which)
        rv, out, th = e.call_function(f, [ptr(sc), V(t.begin, t.r), V(t.end, t.r), V(te), V(tb)], st, top=True)
        e.stack.append(f)
        no_throw(e, th, "suffix search")
        wf = z3.And(tb, S.F(S.step(D(end), B)))
        if which == "longest":
            e.oblige(out, "LongestSuffix returns the last final position, or the end through the begin mark", rv.e == z3.If(wf, end, t.LF(end)), "post")
        else:
            e.oblige(out, "ShortestSuffix returns the first final position, or the end through the begin mark", rv.e == z3.If(t.FF(end) != 0, t.FF(end), z3.If(wf, end, bv(0))), "post")
        cover(e, out)
        return e
    return run


longest_prefix, shortest_prefix = prefix("longest"), prefix("shortest")
longest_suffix, shortest_suffix = suffix("longest"), suffix("shortest")


def lemmas(case):
    """The lemmas about the ghosts that prefix()/suffix() instantiate, by induction on the distance to the end:
    base (at the end) and step (from the next position to this one), for forward (d=1) and backward (d=-1) texts."""
    d = case[0]
    e = Engine(M(), [])
    st = start()
    D, LF, FF = z3.Function("D0", BV(64), BV(64)), z3.Function("LF", BV(64), BV(64)), z3.Function("FF", BV(64), BV(64))
    byte = z3.Function("text", BV(64), BV(8))
    a, E, b, dd = z3.BitVec("a", 64), z3.BitVec("E", 64), z3.BitVec("b", 64), bv(d)
    n = a + dd
    c = z3.ZeroExt(8, byte(a))
    # a is a position of the text that is not the end; positions are small enough not to wrap (facts of Text)
    lo = 4096 if d == 1 else 4095
    inside = (lambda x: z3.And(z3.ULE(b, x), z3.ULE(x, E))) if d == 1 else (lambda x: z3.And(z3.ULE(E, x), z3.ULE(x, b)))
    e.facts += [z3.UGE(b, bv(lo)), z3.ULE(b, bv(1 << 48)), z3.UGE(E, bv(lo)), z3.ULE(E, bv(1 << 48))]

    def L(x):
        s = D(x)
        return [("a dead state stays dead and not final up to the end", z3.Implies(S.Dd(s), z3.And(S.Dd(D(E)), z3.Not(S.F(s)), z3.Not(S.F(D(E)))))),
                ("the last final position does not move after a dead state", z3.Implies(S.Dd(s), LF(E) == LF(x))),
                ("the first final position does not move after a dead state", z3.Implies(S.Dd(s), FF(E) == FF(x))),
                ("the first final position never moves once it is set", z3.Implies(FF(x) != 0, FF(E) == FF(x))),
                ("no first final position means that this state is not final", z3.Implies(FF(x) == 0, z3.Not(S.F(s))))]
    unfold = [D(n) == S.step(D(a), c), LF(n) == z3.If(S.F(D(n)), n, LF(a)), FF(n) == z3.If(FF(a) != 0, FF(a), z3.If(S.F(D(n)), n, bv(0)))]
    # deadness axiom (property of the scanner, C20): for dead s: not final, successors dead and not final
    ax = [S.axiom(D(a), c)]
    # a dead state is not final, at the end too (instance of the axiom's first part)
    c2 = z3.BitVec("any", 16)
    for nm, f in L(E):
        s1 = State(And(S.axiom(D(E), c2), FFwf(FF, S, D, E)), {}, {})
        e.oblige(s1, "base: " + nm, f, "lemma")
    hyp = And(inside(a), a != E, *unfold, *ax, *[f for _, f in L(n)], FFwf(FF, S, D, a))
    for nm, f in L(a):
        e.oblige(State(hyp, {}, {}), "step: " + nm, f, "lemma")
    # FFwf itself is an invariant from begin on
    e.oblige(State(FF(b) == z3.If(S.F(D(b)), b, bv(0)), {}, {}), "base: first final position is well formed", FFwf(FF, S, D, b), "lemma")
    e.oblige(State(And(inside(a), a != E, *unfold, FFwf(FF, S, D, a)), {}, {}), "step: first final position is well formed", FFwf(FF, S, D, n), "lemma")
    cover(e, State(hyp, {}, {}), "induction hypothesis is satisfiable")
    return e


def FFwf(FF, S, D, x):
    """no first final position up to x implies that x is not final"""
    return z3.Implies(FF(x) == 0, z3.Not(S.F(D(x))))


single = lambda d: "Scn<1>" in d and "Pair<" not in d
fns = {(w, f): item_fn(M, [S], w, f, sel=single) for w in ("longest", "shortest") for f in ("SafeRunChunk", "RunChunk", "RunAligned")}
dorun = {w: item_dorun(M, [S], w, sel=single) for w in ("longest", "shortest")}


def main():
    RC = [(i,) for i in range(8)]
    items = []
    for (w, n), f in fns.items():
        P = "LongestPrefixPred" if w == "longest" else "ShortestPrefixPred"
        items.append(Item("%s (%s)" % (n, P), f, RC if n == "RunChunk" else [()], ["Impl::%s%s<%s>" % ("AlignedRunner::" if n == "RunAligned" else "", n, P), "Impl::%s::operator()" % P], weight=5 if n == "SafeRunChunk" else 3))
    for w in dorun:
        P = "LongestPrefixPred" if w == "longest" else "ShortestPrefixPred"
        items.append(Item("DoRun (%s)" % P, dorun[w], [()], ["Impl::DoRun<%s>" % P]))
    items += [
        Item("LongestPrefix", longest_prefix, [()], ["Pire::LongestPrefix"], weight=4),
        Item("ShortestPrefix", shortest_prefix, [()], ["Pire::ShortestPrefix"], weight=5),
        Item("LongestSuffix", longest_suffix, [()], ["Pire::LongestSuffix"], weight=6),
        Item("ShortestSuffix", shortest_suffix, [()], ["Pire::ShortestSuffix"], weight=6),
        Item("lemmas", lemmas, [(1,), (-1,)], ["induction lemmas about first and last final positions"]),
    ]
    M()
    return run_check("C03", items, Harness("C03.cpp", 25, desc="prefix and suffix searches against a byte-by-byte oracle: random automata, scanner types, masks, alignments mod 16, page-guarded buffers, all mark combinations"),
                     assumptions=["the scanner's methods are functions of (state, argument); a dead state is not final and stays dead (C20)",
                                  "the text does not start at the null address"],
                     notes="Each function is proved against its own contract for an arbitrary scanner, with alignment and length arbitrary. The Scanner-specific AlignedRunner is covered by C02.")
