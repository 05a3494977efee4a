from multi import *
from framework import Item, Harness, run_check
ALL = list(VARIANTS)


def eng(variant):
    e = Engine(MM(variant), [])
    e.abstract_mul = True
    return e, start()


def run1(e, st, fn, args):
    f = e.find(fn)
    e.stack[:] = []
    rv, o, th = e.call_function(f, args, st, top=True)
    e.stack.append(f)
    no_throw(e, th, fn)
    return rv, o


def b(x): return x if z3.is_bool(x) else x != 0


def rowsize(case):
    """RowSize(): header and letters fit, whole words; the same number that the other items use"""
    e, st = eng(case[0])
    s = Multi(e, st, e.m)
    rv, o = run1(e, st, "vc_rowsize", [ptr(s.r)])
    e.oblige(o, "header and letters fit in a row", z3.UGE(rv.e, s.L + bv(s.H)), "post")
    e.oblige(o, "rows are whole words", (rv.e * bv(s.w)) & bv(15) == 0, "post")
    e.oblige(o, "the row length of the other items", rv.e == s.R, "post")
    cover(e, o)
    return e


def layout(case):
    """Markup() and BufSize(): the four tables lie in the buffer one after another"""
    e, st = eng(case[0])
    s = Multi(e, st, e.m, readonly=False)
    size, o1 = run1(e, st, "vc_bufsize", [ptr(s.r)])
    buf = e.new_region(o1, "buf", kind="bytes", size=size.e)
    rv, o = run1(e, o1, "vc_markup", [ptr(s.r), ptr(buf)])
    lt, ft, fi, tr = [get(e, o, s.r, s.o[k]) - buf.base for k in ("ltab", "final", "findex", "trans")]
    F = z3.ZeroExt(32, s.ftsize)
    e.oblige(o, "the letter table starts the buffer and ends before the final table", z3.And(lt == 0, z3.ULE(bv(s.maxchar * 2), ft)), "post")
    e.oblige(o, "the final table ends before the final index", z3.And(z3.ULE(ft + F * bv(8), fi), z3.ULE(fi, bv(1 << 40))), "post")
    e.oblige(o, "the final index ends before the rows", z3.And(z3.ULE(fi + s.S * bv(8), tr), z3.ULE(tr, bv(1 << 40))), "post")
    e.oblige(o, "the rows end before the end of the buffer", z3.And(z3.ULE(tr + s.tsize, size.e), z3.ULE(size.e, bv(1 << 41))), "post")
    e.oblige(o, "every table is aligned", z3.And(ft & bv(7) == 0, fi & bv(7) == 0, tr & bv(7) == 0, size.e & bv(7) == 0), "post")
    cover(e, o)
    return e


def index(case):
    """IndexToState and StateIndex are inverse; SetInitial, Initialize"""
    e, st = eng(case[0])
    s = Multi(e, st, e.m, readonly=False)
    i = z3.BitVec("i", 64)
    e.fact(z3.ULT(i, s.S)); s.is_state(i); s.divides(i)
    rv, o = run1(e, st, "vc_index2state", [ptr(s.r), V(i)])
    e.oblige(o, "IndexToState(i) is the row of i", rv.e == s.state(i), "post")
    rv, o = run1(e, st, "vc_stateindex", [ptr(s.r), V(s.state(i), s.tr)])
    e.oblige(o, "StateIndex(row of i) is i", rv.e == i, "post")
    rv, o = run1(e, st, "vc_setinitial", [ptr(s.r), V(i)])
    e.oblige(o, "SetInitial(i) makes the row of i the initial state", get(e, o, s.r, s.o["initial"]) == s.state(i), "post")
    q = e.new_region(o, "state", 8)
    rv, o2 = run1(e, o, "vc_init", [ptr(s.r), ptr(q)])
    e.oblige(o2, "Initialize() starts there", get(e, o2, q, 0) == s.state(i), "post")
    cover(e, o2)
    return e


def next_(case):
    """Next(s, c): the entry of the row for the class of c, wherever the tables are"""
    var, fn = case
    e, st = eng(var)
    s = Multi(e, st, e.m)
    i, c = z3.BitVec("i", 64), z3.BitVec("c", 16)
    e.fact(z3.ULT(i, s.S)); s.is_state(i)
    q = e.new_region(st, "state", 8)
    e.store(st, ptr(q), V(s.state(i), s.tr), ir.I(64))
    e.fact(z3.ULT(c, bv(s.maxchar, 16)))
    if fn == "vc_next": l = s.letter(c)
    else:
        l = z3.ZeroExt(48, c)
        e.fact(z3.And(z3.UGE(l, bv(s.H)), z3.ULT(l, bv(s.H) + s.L)))
    rv, o = run1(e, st, fn, [ptr(s.r), ptr(q), V(c)])
    e.oblige(o, "moves to the state of the entry", get(e, o, q, 0) == s.entry(o, s.state(i), l), "post")
    e.oblige(o, "no action", rv.e == 0, "post")
    cover(e, o)
    return e


def setjump(case):
    """SetJump(from, c, to), then: the entry of (from, class of c) leads to the row of to; every other entry, header and table is as before"""
    e, st = eng(case[0])
    s = Multi(e, st, e.m, readonly=False)
    fr, to, y = z3.BitVecs("from to y", 64)
    c = z3.BitVec("c", 16)
    for i in (fr, to): e.fact(z3.ULT(i, s.S)); s.is_state(i)
    e.facts += [z3.ULT(c, bv(s.maxchar, 16)), z3.ULT(y, s.tsize)]
    s.on_letter(e, st, V(simp(s.lt.base + z3.ZeroExt(48, c) * bv(2))), 2, None)
    lc = s.letter(c)
    byte = s.read(st, s.tr, simp(s.tr.base + y), 1)
    rv, o = run1(e, st, "vc_setjump", [ptr(s.r), V(fr), V(c), V(to)])
    e.oblige(o, "the entry leads to the state", s.entry(o, s.state(fr), lc) == s.state(to), "post")
    at_ = simp(s.row(fr) * bv(s.w) + lc * bv(s.w))
    e.oblige(o, "the entry lies in the row, past the header", z3.And(z3.UGE(lc, bv(s.H)), z3.ULT(lc, s.R), z3.ULE(at_ + bv(s.w), s.tsize)), "post")
    e.oblige(o, "no other byte of the rows changes", z3.Implies(z3.Or(z3.ULT(y, at_), z3.UGE(y, at_ + bv(s.w))), s.read(o, s.tr, simp(s.tr.base + y), 1) == byte), "frame")
    cover(e, o)
    return e


def settag(case):
    """SetTag(i, v): the flags of state i, nothing else"""
    e, st = eng(case[0])
    s = Multi(e, st, e.m, readonly=False)
    i, y, v = z3.BitVecs("i y v", 64)
    e.fact(z3.ULT(i, s.S)); s.is_state(i)
    e.fact(z3.ULT(y, s.tsize))
    byte = s.read(st, s.tr, simp(s.tr.base + y), 1)
    rv, o = run1(e, st, "vc_settag", [ptr(s.r), V(i), V(v)])
    e.oblige(o, "the flags are set", s.flags(o, s.state(i)) == v, "post")
    at_ = simp(s.row(i) * bv(s.w) + bv(s.o["flags"]))
    e.oblige(o, "no other byte of the rows changes", z3.Implies(z3.Or(z3.ULT(y, at_), z3.UGE(y, at_ + bv(8))), s.read(o, s.tr, simp(s.tr.base + y), 1) == byte), "frame")
    cover(e, o)
    return e


def flags(case):
    """Final and Dead are bits 0 and 1 of the flags of the state"""
    e, st = eng(case[0])
    s = Multi(e, st, e.m)
    i, c = z3.BitVec("i", 64), z3.BitVec("c", 16)
    e.fact(z3.ULT(i, s.S)); s.is_state(i)
    q = e.new_region(st, "state", 8, readonly=True)
    st.mem[q] = Cells({0: (8, V(s.state(i), s.tr))})
    fl = s.flags(st, s.state(i))
    for fn, bit in (("vc_final", 0), ("vc_dead", 1)):
        rv, o = run1(e, st, fn, [ptr(s.r), ptr(q)])
        e.oblige(o, ("Final", "Dead")[bit] + " is its bit of the flags", b(rv.e) == (z3.Extract(bit, bit, fl) == bv(1, 1)), "post")
    e.fact(z3.ULT(c, bv(s.maxchar, 16)))
    rv, o = run1(e, st, "vc_translate", [ptr(s.r), V(c)])
    e.oblige(o, "Translate is the letter table", z3.ZeroExt(48, rv.e) == s.letter(c), "post")
    cover(e, o)
    return e


class FinalList:
    """the list of accepted regexps of one state: arbitrary numbers up to a terminator"""

    def __init__(self, s, i):
        self.s, e = s, s.e
        self.T = z3.BitVec("terminator", 64)
        self.begin = simp(s.ft.base + word(s.fi, simp(s.fi.base + i * bv(8)), 8) * bv(8))
        self.W = z3.Function("listed", BV(64), BV(64))
        Align.set(self.T, 3)
        e.facts += [z3.ULE(self.begin, self.T), z3.ULE(s.ft.base, self.begin), z3.ULT(self.T, s.ft.base + s.ft.size), z3.UGE(s.ft.size, bv(8)), z3.ULE(self.T, s.ft.base + s.ft.size - bv(8)), (self.T - self.begin) & bv(7) == 0]
        s.ft.on_load = self.load
        self.hooks = []
        e.templates.append(self.templates)

    def load(self, e, st, p, n, ty):
        e.bounds(st, self.s.ft, p, n, "load")
        if n != 8: raise Unmodelled("access to the final table that is not a word")
        a = simp(p.e)
        w = self.W(a)
        e.fact(z3.Implies(a == self.T, w == bv((1 << 64) - 1)))
        e.fact(z3.Implies(z3.And(z3.ULE(self.begin, a), z3.ULT(a, self.T), (a - self.begin) & bv(7) == 0), z3.ULT(w, z3.ZeroExt(32, self.s.regexps))))
        for h in self.hooks: h(a, w)
        return V(w)

    def templates(self, eng, ctx):
        out = []
        for v in ctx.vars:
            if v[0] not in ("phi", "cell") or eng.getv(ctx.hst, v).prov is not self.s.ft: continue
            n, p = vname(v), (lambda ev, v=v: ev(v).e)
            out += [(n + " <= terminator", lambda ev, p=p: z3.ULE(p(ev), self.T)), (n + " >= begin", lambda ev, p=p: z3.UGE(p(ev), self.begin)),
                    (n + " whole words", lambda ev, p=p: (p(ev) - self.begin) & bv(7) == 0), (n + " at begin", lambda ev, p=p: p(ev) == self.begin)]
        return out


def accepted(case):
    """AcceptedRegexps(s): the list of the state's final index, up to the terminator"""
    var, fn = case
    e, st = eng(var)
    e.cut_hint = lambda f, L: "cut"; e.use_iter = False; e.opaque_cells = True
    s = Multi(e, st, e.m)
    i = z3.BitVec("i", 64)
    e.fact(z3.ULT(i, s.S)); s.is_state(i); s.divides(i)
    fl = FinalList(s, i)
    if fn == "vc_accepted":
        q = e.new_region(st, "state", 8, readonly=True)
        st.mem[q] = Cells({0: (8, V(s.state(i), s.tr))})
        rv, o = run1(e, st, fn, [ptr(s.r), ptr(q)])
        f, l = [x.e for x in rv.e] if isinstance(rv.e, list) else (z3.Extract(63, 0, rv.e), z3.Extract(127, 64, rv.e))
        e.oblige(o, "starts at the state's list", f == fl.begin, "post")
        e.oblige(o, "ends at its terminator", l == fl.T, "post")
    else:
        rv, o = run1(e, st, fn, [ptr(s.r), V(i)])
        e.oblige(o, "the length of the list", rv.e * bv(8) == fl.T - fl.begin, "post")
    cover(e, o)
    return e


class Lists:
    """Writing the lists of all states, one after another, watched at one arbitrary state q.
    CNT(i): how many numbers the list of i has; K(i): where the list of i starts, in bytes from the start of the table
    (a list takes its numbers and a terminator: K(i+1) = K(i) + 8 * CNT(i) + 8)."""

    def __init__(self, var, cnt=None):
        e, st = self.e, self.st = eng(var)
        e.cut_hint = lambda f, L: "cut"; e.use_iter = False; e.opaque_cells = True; e.generic = False
        s = self.s = Multi(e, st, e.m, readonly=False)
        K = self.K = z3.Function("K", BV(64), BV(64))
        self.FL = z3.Function("flags", BV(64), BV(64))
        s.tr.on_load = self.on_row
        self.last = None
        self.CNT = cnt or self.fin
        q, p = self.q, self.p = z3.BitVecs("q p", 64)
        F = z3.ZeroExt(32, s.ftsize)
        e.facts += [z3.ULT(q, s.S), K(bv(0)) == 0, z3.ULE(K(s.S), F * bv(8)), z3.ULT(p, bv(1 << 31))]
        self.W = Watch(e, st, "final table", F, [K(q) + p * bv(8), K(q) + self.CNT(q) * bv(8)], base=s.ft.base, bytes=True)
        self.I = Watch(e, st, "final index", s.S, [q], base=s.fi.base)
        st.mem[s.r].d[s.o["final"]] = (8, ptr(self.W.r)); st.mem[s.r].d[s.o["findex"]] = (8, ptr(self.I.r))
        self.unfold(q)
        e.contracts += [Contract(lambda d: "::IndexToState(unsigned long) const" in d, self.i2s, "IndexToState [item States and rows]"),
                        Contract(lambda d: d.endswith("::BuildShortcuts()"), lambda e, st, a, i: None, "BuildShortcuts: writes masks in row headers only (C02, bounded)")]
        e.templates.append(self.templates)

    def fin(self, i): return z3.If(z3.Extract(0, 0, self.FL(i)) == bv(1, 1), bv(1), bv(0))

    def on_row(self, e, st, p, n, ty):
        # the flags of state i are called FL(i)
        if n == 8 and self.last is not None and z3.eq(simp(p.e), simp(self.s.state(self.last) + bv(self.s.o["flags"]))):
            e.bounds(st, self.s.tr, p, n, "load")
            return V(self.FL(self.last))
        raise Unmodelled("access to a row that is not the flags of a state")

    def unfold(self, i):
        K, S, q = self.K, self.s.S, self.q
        one, c = simp(i + bv(1)), self.CNT(i)
        self.s.is_state(i)
        self.e.fact(z3.Implies(z3.ULT(i, S), z3.And(K(one) == K(i) + c * bv(8) + bv(8), z3.ULE(c, bv(1 << 31)), z3.ULT(K(i), K(one)), z3.ULE(K(one), K(S)), K(i) & bv(7) == 0)))
        # monotone [item List lemmas]
        self.e.fact(z3.Implies(z3.And(z3.UGT(i, q), z3.ULE(i, S)), z3.And(z3.UGE(K(i), K(simp(q + bv(1)))), z3.ULE(K(i), K(S)))))
        self.e.fact(z3.Implies(z3.ULT(i, q), z3.ULE(K(one), K(q))))

    def i2s(self, e, st, a, i):
        x = self.last = a[1].e
        self.unfold(x)
        return V(self.s.state(x), self.s.tr)

    def templates(self, eng, ctx):
        out, ws, ns = [], [], []
        for v in ctx.vars:
            if v[0] not in ("phi", "cell"): continue
            h = eng.getv(ctx.hst, v)
            if h.prov is self.W.r: ws.append((vname(v), lambda ev, v=v: ev(v).e))
            elif h.prov is None and isinstance(h.e, z3.BitVecRef) and h.e.size() == 64 and not (v[0] == "cell" and v[1][0] in self.W.cells + self.I.cells): ns.append((vname(v), lambda ev, v=v: ev(v).e))
        cell = lambda r: next((v for v in ctx.vars if v[0] == "cell" and v[1][0] is r), None)
        val = lambda r: (lambda ev, c=cell(r): ev(c).e) if cell(r) else (lambda ev: get(eng, ctx.hst, r, 0))
        S, K, q, p, ft = self.s.S, self.K, self.q, self.p, self.W.r.base
        a, z, ix = val(self.W.cells[0]), val(self.W.cells[1]), val(self.I.cells[0])
        good = (("index", lambda ev: ix(ev) == z3.LShR(K(q), 3)), ("numbers", lambda ev: z3.Implies(z3.ULT(p, self.CNT(q)), a(ev) == 0)), ("terminator", lambda ev: z(ev) == bv((1 << 64) - 1)))
        inner = cell(self.I.cells[0]) is None        # the loop does not write the index: it is inside a state's list
        for n, i in ns:
            if not inner or not self.outers:
              for wn, w in ws:
                out.append(("%s = list of %s" % (wn, n), lambda ev, w=w, i=i: w(ev) == ft + K(i(ev))))
            if not inner or not self.outers:
              out.append((n + " <= S", lambda ev, i=i: z3.ULE(i(ev), S)))
              for gn, g in good: out.append(("%s before %s written" % (gn, n), lambda ev, i=i, g=g: z3.Implies(z3.UGT(i(ev), q), g(ev))))
            for on, oi in self.outers if inner else ():
                out.append(("%s <= count of %s" % (n, on), lambda ev, i=i, oi=oi: z3.ULE(i(ev), self.CNT(oi))))
                for wn, w in ws: out.append(("%s in list of %s at %s" % (wn, on, n), lambda ev, w=w, i=i, oi=oi: w(ev) == ft + K(oi) + bv(8) * i(ev)))
                out.append(("%s written so far in list of %s" % (n, on), lambda ev, i=i, oi=oi: z3.Implies(z3.And(oi == q, z3.UGT(i(ev), p)), a(ev) == 0)))
        for on, oi in self.outers if inner else ():
            out.append(("index of %s" % on, lambda ev, oi=oi: z3.Implies(oi == q, ix(ev) == z3.LShR(K(q), 3))))
            for gn, g in good: out.append(("%s before %s written" % (gn, on), lambda ev, oi=oi, g=g: z3.Implies(z3.UGT(oi, q), g(ev))))
        return out
    outers = ()

    def check(self, o):
        e, q = self.e, self.q
        W, I, c = self.W, self.I, self.CNT(q)
        e.oblige(o, "the state's index is the place of its list", I.value(o, 0) == z3.LShR(self.K(q), 3), "post")
        e.oblige(o, "the list has as many zeros as the state counts", z3.Implies(z3.ULT(self.p, c), W.value(o, 0) == 0), "post")
        e.oblige(o, "and a terminator", W.value(o, 1) == bv((1 << 64) - 1), "post")
        cover(e, o)


def finish(case):
    """FinishBuild(): one list per state, {0} for the final ones"""
    L = Lists(case[0])
    rv, o = run1(L.e, L.st, "vc_finish", [ptr(L.s.r)])
    L.check(o)
    return L.e


def simple(case):
    """SimpleScanner: SetJump/SetTag/SetInitial write the entry, the flag, the initial state; Next/Final/StateIndex read them; nothing else changes"""
    fn = case[0]
    e = Engine(MS(), []); st = start()
    s = Simple(e, st, e.m, readonly=False)
    i, to, v, y = z3.BitVecs("i to v y", 64)
    c = z3.BitVec("c", 16)
    for n in (i, to): e.fact(z3.ULT(n, s.S)); s.is_state(n)
    s.divides(i)
    e.facts += [z3.ULT(c, bv(s.maxchar, 16)), z3.ULT(y, s.tsize)]
    byte = lambda o: s.read(o, simp(s.tr.base + y), 1)
    was = byte(st)
    outside = lambda at_: z3.Or(z3.ULT(y, simp(at_)), z3.UGE(y, simp(at_ + bv(8))))
    if fn == "jump":
        rv, o = run1(e, st, "vc_setjump", [ptr(s.r), V(i), V(c), V(to)])
        e.oblige(o, "the entry leads to the state", s.entry(o, s.state(i), c) == s.state(to), "post")
        e.oblige(o, "no other byte changes", z3.Implies(outside((s.row(i) + bv(1) + z3.ZeroExt(48, c)) * bv(8)), byte(o) == was), "frame")
    elif fn == "tag":
        rv, o = run1(e, st, "vc_settag", [ptr(s.r), V(i), V(v)])
        e.oblige(o, "the flag is written", s.flag(o, s.state(i)) == v, "post")
        e.oblige(o, "no other byte changes", z3.Implies(outside(s.row(i) * bv(8)), byte(o) == was), "frame")
        q = cell64(e, o, "state", s.state(i), s.tr)
        rv, o = run1(e, o, "vc_final", [ptr(s.r), ptr(q)])
        e.oblige(o, "Final: the flag is not zero", b(rv.e) == (v != 0), "post")
        rv, o = run1(e, o, "vc_dead", [ptr(s.r), ptr(q)])
        e.oblige(o, "never dead", z3.Not(b(rv.e)), "post")
    elif fn == "next":
        q = cell64(e, st, "state", s.state(i), s.tr)
        rv, o = run1(e, st, "vc_next", [ptr(s.r), ptr(q), V(c)])
        e.oblige(o, "moves to the state of the entry", get(e, o, q, 0) == s.entry(o, s.state(i), c), "post")
        e.oblige(o, "no action", rv.e == 0, "post")
    elif fn == "layout":
        rv, o = run1(e, st, "vc_bufsize", [ptr(s.r)])
        e.oblige(o, "the buffer holds all rows", z3.And(rv.e == s.tsize, z3.ULE(rv.e, bv(1 << 45))), "post")
        buf = e.new_region(o, "buf", kind="bytes", size=rv.e)
        rv, o = run1(e, o, "vc_markup", [ptr(s.r), ptr(buf)])
        e.oblige(o, "rows start at the buffer", get(e, o, s.r, s.o["trans"]) == buf.base, "post")
    else:
        rv, o = run1(e, st, "vc_setinitial", [ptr(s.r), V(i)])
        q = e.new_region(o, "state", 8)
        rv, o = run1(e, o, "vc_init", [ptr(s.r), ptr(q)])
        e.oblige(o, "Initialize() gives the state that SetInitial() named", get(e, o, q, 0) == s.state(i), "post")
        rv, o = run1(e, o, "vc_stateindex", [ptr(s.r), V(s.state(i), s.tr)])
        e.oblige(o, "StateIndex(row of i) is i", rv.e == i, "post")
    cover(e, o)
    return e


def loaded(case):
    """LoadedScanner: the same for its rows (target and action), tags, initial state, layout"""
    fn = case[0]
    e = Engine(MS(), []); e.abstract_mul = True; st = start()
    s = LoadedW(e, st, e.m, readonly=False)
    i, k, to, x = z3.BitVecs("i k to x", 64)
    c = z3.BitVec("c", 16)
    a, t = z3.BitVec("a", 32), z3.BitVec("t", 8)
    for n in (i, k, to): e.fact(z3.ULT(n, s.S)); s.is_state(n)
    s.differ(i, k)
    e.facts += [z3.ULT(c, bv(s.maxchar, 16)), z3.ULT(x, s.L)]
    s.on_letter(e, st, V(simp(s.lt.base + z3.ZeroExt(48, c))), 1, None)
    l = s.letter(c)
    cell = lambda o: s.read(o, s.jt, simp(s.state(k) + x * bv(8)), 8)
    was = cell(st)
    tag = s.read(st, s.tt, simp(s.tt.base + k), 1)
    if fn == "jump":
        rv, o = run1(e, st, "vl_setjump", [ptr(s.r), V(i), V(c), V(to), V(a)])
        g, act = s.cell(o, s.state(i), l)
        e.oblige(o, "the entry leads to the state", g == s.state(to), "post")
        e.oblige(o, "the entry has the action", act == a, "post")
        e.oblige(o, "no other entry changes", z3.Implies(z3.Or(k != i, x != l), cell(o) == was), "frame")
    elif fn == "tag":
        rv, o = run1(e, st, "vl_settag", [ptr(s.r), V(i), V(t)])
        e.oblige(o, "the tag is written, no other", s.read(o, s.tt, simp(s.tt.base + k), 1) == z3.If(k == i, t, tag), "post")
    elif fn == "next":
        q = cell64(e, st, "state", s.state(i), s.jt)
        q.size = bv(gconst(e.m, "vc_size_cap_state"))
        if gconst(e.m, "vc_cap_state"): raise Unmodelled("layout of the capturing state")
        out = e.new_region(st, "action", 4)
        g, act = s.cell(st, s.state(i), l)
        rv, o = run1(e, st, "vl_next", [ptr(s.r), ptr(q), V(c), ptr(out)])
        e.oblige(o, "moves to the state of the entry", get(e, o, q, 0) == g, "post")
        e.oblige(o, "returns its action", get(e, o, out, 0, 32) == act, "post")
    elif fn == "layout":
        rv, o = run1(e, st, "vl_bufsize", [ptr(s.r)])
        size = rv.e
        buf = e.new_region(o, "buf", kind="bytes", size=size)
        rv, o = run1(e, o, "vl_markup", [ptr(s.r), ptr(buf)])
        lt, jt, tt = [get(e, o, s.r, s.o[n]) - buf.base for n in ("letters", "jumps", "tags")]
        e.oblige(o, "letters, rows and tags lie in the buffer one after another", z3.And(lt == 0, z3.ULE(bv(s.maxchar), jt), z3.ULE(jt, bv(1 << 40)), z3.ULE(jt + s.tsize, tt), z3.ULE(tt, bv(1 << 40)), z3.ULE(tt + s.S, size), z3.ULE(size, bv(1 << 41))), "post")
    else:
        rv, o = run1(e, st, "vl_setinitial", [ptr(s.r), V(i)])
        e.oblige(o, "the initial state is the row of i", get(e, o, s.r, s.o["initial"]) == s.state(i), "post")
    cover(e, o)
    return e


def list_lemma(case):
    """K is monotone: induction step"""
    e = Engine(MM("reloc"), [])
    e.facts = []
    st = start()
    Kq1, Ki, Ki1, KS, c = z3.Ints("Kq1 Ki Ki1 KS c")
    e.oblige(st, "K grows from q on", z3.Implies(z3.And(Ki >= Kq1, Ki1 == Ki + c, c >= 0), Ki1 >= Kq1), "lemma")
    e.oblige(st, "K stays below the total", z3.Implies(z3.And(Ki1 <= KS, Ki1 == Ki + c, c >= 0), Ki <= KS), "lemma")
    return e


def lemmas(case): return row_lemmas(MM("reloc"))


def main():
    MS()
    for v in ALL: MM(v)
    V4 = [(v,) for v in ALL]
    items = [Item("RowSize", rowsize, V4, ["Scanner::RowSize"]),
             Item("Layout", layout, V4, ["Scanner::BufSize", "Scanner::Markup"]),
             Item("States and rows", index, V4, ["Scanner::IndexToState", "Scanner::StateIndex", "Scanner::SetInitial", "Scanner::Initialize"]),
             Item("Next", next_, [(v, f) for v in ALL for f in ("vc_next", "vc_nextt")], ["Scanner::Next", "Scanner::NextTranslated", "Scanner::Translate", "Relocatable::Go", "Nonrelocatable::Go"]),
             Item("SetJump", setjump, V4, ["Scanner::SetJump", "Relocatable::Diff", "Nonrelocatable::Diff"]),
             Item("SetTag", settag, V4, ["Scanner::SetTag"]),
             Item("Final/Dead", flags, V4, ["Scanner::Final", "Scanner::Dead", "Scanner::Header"]),
             Item("AcceptedRegexps", accepted, [(v, f) for v in ALL for f in ("vc_accepted", "vc_acccount")], ["Scanner::AcceptedRegexps", "Scanner::AcceptedRegexpsCount"]),
             Item("FinishBuild", finish, V4, ["Scanner::FinishBuild"], weight=3),
             Item("SimpleScanner", simple, [(x,) for x in ("jump", "tag", "next", "layout", "initial")], ["SimpleScanner::SetJump", "SimpleScanner::SetTag", "SimpleScanner::SetInitial", "SimpleScanner::Initialize", "SimpleScanner::Next", "SimpleScanner::Final", "SimpleScanner::Dead", "SimpleScanner::StateIndex", "SimpleScanner::BufSize", "SimpleScanner::Markup"]),
             Item("LoadedScanner", loaded, [(x,) for x in ("jump", "tag", "next", "layout", "initial")], ["LoadedScanner::SetJump", "LoadedScanner::SetTag", "LoadedScanner::SetInitial", "LoadedScanner::BufSize", "LoadedScanner::Markup", "LoadedScanner::StateSize", "LoadedScanner::TransitionIndex"]),
             Item("List lemmas", list_lemma, [()], ["induction over the states"]),
             Item("Row lemmas", lemmas, [()], ["row arithmetic"])]
    return run_check("C04", items, Harness("C04.cpp", 14, desc="random deterministic automata (up to every byte a class of its own, up to 60 states) compiled to every scanner type, and built directly: every state and character against the automaton; SetJump frames"),
                     assumptions=["row offsets fit 32 bits in the relocatable variants (scanners up to 2 GB)", "the letter table maps into header + classes (Init fills it from the partition: C10, bounded here)",
                                  "BuildScanner calls SetTag/SetJump once per state and class (bounded stand-in)", "BuildShortcuts writes row headers only (C02)"],
                     notes="States, entries, list positions and bytes are arbitrary; products by the row length are named by an uninterpreted function, with the row lemmas (proved over the integers) as its only axioms.")
