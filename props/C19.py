from table import *
from framework import Item, Harness, run_check
M = lambda: module("slow.cpp", (), NI)
SMALL = 1 << 40


def size_of(n): return gconst(M(), "vc_size_" + n)


def isvec(d, *methods):
    return d.startswith(("std::vector<unsigned int, std::allocator<unsigned int>>::", "void std::vector<unsigned int, std::allocator<unsigned int>>::")) and any("::%s(" % m in d or "::%s<" % m in d for m in methods)


# ---------------------------------------------------------------- bit sets, at the level of bytes

class Bits:
    """A BitSet object of any size n: its bytes are an arbitrary array of n/8+1 bytes (or more)."""

    def __init__(self, e, st, name="set", n=None, readonly=False):
        o = self.o = offs(M(), "off_bs_")
        self.n = z3.BitVec(name + "_size", 64) if n is None else n
        self.cap = z3.BitVec(name + "_bytes", 64)
        e.facts += [z3.ULE(self.n, bv(SMALL)), z3.ULE(self.cap, bv(SMALL)), z3.UGT(self.cap, z3.LShR(self.n, 3))]
        self.d = e.new_region(st, name + "_data", kind="bytes", size=self.cap, align=16, readonly=readonly)
        f = vecf(o["data"], self.d, self.d.base, simp(self.d.base + self.cap))
        f[o["size"]] = (8, V(self.n))
        self.r = obj(e, st, name, size_of("bs"), f, readonly=readonly)
        self.e = e

    def bit(self, st, i, d=None):
        """bit i of the set as the state st has it"""
        base = get(self.e, st, self.r, self.o["data"])
        b = self.e.read_bytes(st.mem[d or self.d].a, simp(base + z3.LShR(i, 3)), 1)
        return z3.Extract(0, 0, z3.LShR(b, z3.Extract(7, 0, i & bv(7)))) == bv(1, 1)

    def size(self, st): return get(self.e, st, self.r, self.o["size"])


def run1(e, st, fn, args):
    f = e.find(fn)
    e.stack[:] = []
    rv, o, th = e.call_function(f, args, st, top=True)
    e.stack.append(f)
    no_throw(e, th, fn)
    return rv, o


def bits_rw(case):
    fn = case[0]
    e = Engine(M(), [])
    st = start()
    s = Bits(e, st, readonly=fn in ("vc_bs_test", "vc_bs_size"))
    i, j = z3.BitVecs("i j", 64)
    e.facts += [z3.ULT(i, s.n), z3.ULT(j, s.n)]
    was = s.bit(st, j)
    rv, o = run1(e, st, fn, [ptr(s.r)] + ([V(i)] if fn not in ("vc_bs_size", "vc_bs_clear") else []))
    if fn == "vc_bs_test": e.oblige(o, "Test(i) tells whether i is in the set", (rv.e if z3.is_bool(rv.e) else rv.e != 0) == s.bit(st, i), "post")
    elif fn == "vc_bs_size": e.oblige(o, "Size() is the size", rv.e == s.n, "post")
    else:
        want = {"vc_bs_set": z3.If(i == j, TRUE, was), "vc_bs_reset": z3.If(i == j, FALSE, was), "vc_bs_clear": FALSE}[fn]
        e.oblige(o, {"vc_bs_set": "Set(i) adds i and nothing else", "vc_bs_reset": "Reset(i) removes i and nothing else", "vc_bs_clear": "Clear() removes everything"}[fn], s.bit(o, j) == want, "post")
        e.oblige(o, "the size stays", s.size(o) == s.n, "frame")
    cover(e, o)
    return e


def resize_contract(get_old):
    """std::vector<unsigned char>::resize(n): the first min(n, size) bytes stay, the others are zero"""
    def ap(e, st, a, inst):
        b = e.load(st, a[0], ir.PTR)
        en = e.load(st, V(simp(a[0].e + bv(8)), a[0].prov), ir.PTR)
        n = a[1].e
        r = e.new_region(st, "resized", kind="bytes", size=n, align=16)
        old = st.mem[b.prov].a
        x = z3.BitVec("x!resize", 64)
        st.mem[r] = Raw(z3.Lambda([x], z3.If(z3.ULT(x - r.base, en.e - b.e), z3.Select(old, x - r.base + b.e), bv(0, 8))))
        for k, v in ((0, r.base), (8, r.base + n), (16, r.base + n)): e.store(st, V(simp(a[0].e + bv(k)), a[0].prov), V(simp(v), r), ir.PTR)
        get_old.append(r)
    return Contract(lambda d: d.startswith("std::vector<unsigned char") and "::resize(unsigned long)" in d, ap, "std::vector::resize(n): keeps the first bytes, the others are zero")


def ctor_contract(got):
    """std::vector<unsigned char>(n): n zero bytes"""
    def ap(e, st, a, inst):
        n = a[1].e
        r = e.new_region(st, "bytes", kind="bytes", size=n, align=16)
        v = e.load(st, a[2], ir.I(8)).e if len(a) > 3 else bv(0, 8)
        st.mem[r] = Raw(z3.K(BV(64), v))
        for k, x in ((0, r.base), (8, r.base + n), (16, r.base + n)): e.store(st, V(simp(a[0].e + bv(k)), a[0].prov), V(simp(x), r), ir.PTR)
        got.append(r)
    return Contract(lambda d: d.startswith("std::vector<unsigned char") and "::vector(unsigned long" in d, ap, "std::vector(n[, x]): n bytes, zero or x")


def bits_new(case):
    e = Engine(M(), [])
    st = start()
    o_ = offs(M(), "off_bs_")
    n, j = z3.BitVecs("n j", 64)
    e.facts += [z3.ULE(n, bv(SMALL)), z3.ULT(j, n)]
    s = obj(e, st, "set", size_of("bs"), {})
    got = []
    e.contracts.append(ctor_contract(got))
    rv, o = run1(e, st, case[0], [ptr(s)] + ([V(n)] if case[0] == "vc_bs_new" else []))
    want = n if case[0] == "vc_bs_new" else bv(0)
    e.oblige(o, "Size() of the new set", get(e, o, s, o_["size"]) == want, "post")
    b, en = get(e, o, s, o_["data"]), get(e, o, s, o_["data"] + 8)
    e.oblige(o, "there is a byte for every element and the terminator", z3.UGT(en - b, z3.LShR(want, 3)), "inv")
    e.oblige(o, "one array of bytes", z3.BoolVal(len(got) == 1), "post")
    if case[0] == "vc_bs_new" and len(got) == 1:
        by = e.read_bytes(o.mem[got[0]].a, simp(b + z3.LShR(j, 3)), 1)
        e.oblige(o, "the new set is empty", z3.Extract(0, 0, z3.LShR(by, z3.Extract(7, 0, j & bv(7)))) == bv(0, 1), "post")
    cover(e, o)
    return e


def bits_resize(case):
    """Resize(m): the elements below m stay, new ones are absent. Invariant used and kept: every bit of the array that is not an element
    and not the terminator (bit n) is zero."""
    e = Engine(M(), [])
    st = start()
    s = Bits(e, st)
    m, j, k = z3.BitVecs("m j k", 64)
    e.facts += [z3.ULE(m, bv(SMALL)), z3.ULT(j, m)]
    was = s.bit(st, j)
    inv = lambda st, i, n, lim, d=None: z3.Implies(z3.And(z3.UGT(i, n), z3.ULT(z3.LShR(i, 3), lim)), z3.Not(s.bit(st, i, d)))
    for i in (j, k): e.fact(inv(st, i, s.n, s.cap))
    got = []
    e.contracts.append(resize_contract(got))
    rv, o = run1(e, st, "vc_bs_resize", [ptr(s.r), V(m)])
    e.oblige(o, "one new array", z3.BoolVal(len(got) == 1), "post")
    if len(got) != 1: return e
    e.oblige(o, "Resize() sets the size", s.size(o) == m, "post")
    now = s.bit(o, j, got[0])
    e.oblige(o, "the elements that fit stay, nothing is added", now == z3.And(z3.ULT(j, s.n), was), "post")
    e.oblige(o, "there is a byte for every element and the terminator", z3.UGT(got[0].size, z3.LShR(m, 3)), "inv")
    e.oblige(o, "no bit beyond the elements is set but the terminator", inv(o, k, m, got[0].size, got[0]), "inv")
    cover(e, o)
    return e


def bits_swap(case):
    e = Engine(M(), [])
    st = start()
    a, b = Bits(e, st, "a"), Bits(e, st, "b")
    F = [("data", 0), ("data", 8), ("data", 16), ("size", 0)]
    va, vb = [[get(e, st, x.r, x.o[f] + k) for f, k in F] for x in (a, b)]
    rv, o = run1(e, st, "vc_bs_swap", [ptr(a.r), ptr(b.r)])
    for (f, k), x, y in zip(F, va, vb):
        e.oblige(o, "%s+%d of both are exchanged" % (f, k), z3.And(get(e, o, a.r, a.o[f] + k) == y, get(e, o, b.r, b.o[f] + k) == x), "post")
    cover(e, o)
    return e


# ---------------------------------------------------------------- the scanner: one arbitrary state q is watched

class SlowSc:
    """An arbitrary SlowScanner (in memory or mapped), one arbitrary automaton state q. Ghosts:
       J(s,l,a)  q is among the targets of (s,l) stored before the address a
       T(s,l)    q is a target of (s,l)
       E(p)      q is a target of one of the current states listed before the address p"""

    def __init__(self, mapped, name="scanner"):
        m = M()
        e = self.e = Engine(m, []); e.opaque_cells = True; e.use_iter = False; e.abstract_mul = True; e.generic = False; e.cut_hint = lambda f, L: "cut"
        st = self.st = start()
        o = self.o = offs(m, "off_")
        self.mapped = mapped
        self.S, self.L, self.q, self.start, self.SL = z3.BitVecs("states letters q start rows", 64)
        e.facts += [z3.ULE(bv(1), self.S), z3.ULE(self.S, bv(1 << 31)), z3.UGE(self.L, bv(1)), z3.ULE(self.L, bv(1 << 9)), z3.ULT(self.q, self.S), z3.ULT(self.start, self.S), z3.ULE(self.SL, bv(1 << 40))]
        self.lt = table(e, st, "letters", gconst(m, "vc_max_char") * 8)
        self.ft = table(e, st, "finals", self.S)
        self.nj = z3.BitVec("njumps", 64)
        e.fact(z3.ULE(self.nj, bv(SMALL)))
        self.jt = table(e, st, "jumps", self.nj * bv(4), align=4)
        self.pt = table(e, st, "jumpPos", (self.SL + bv(1)) * bv(8))
        self.vt = table(e, st, "vec", self.SL * bv(24))
        f = {o["states"]: (8, V(self.S)), o["letters"]: (8, V(self.L)), o["start"]: (8, V(self.start)),
             o["finals"]: (8, ptr(self.ft)), o["ltab"]: (8, ptr(self.lt)), o["need"]: (1, V(bv(0, 8)))}
        n = size_of("slow")
        self.r = r = obj(e, st, name, n, f, readonly=True)
        c = st.mem[r].d
        if mapped: c.update({o["jumps"]: (8, ptr(self.jt)), o["jumpPos"]: (8, ptr(self.pt)), o["vecptr"]: (8, V(bv(0)))})
        else:
            c.update({o["jumps"]: (8, V(bv(0))), o["jumpPos"]: (8, V(bv(0))), o["vecptr"]: (8, V(simp(r.base + bv(o["vec"])), r))})
            c.update(vecf(o["vec"], self.vt, self.vt.base, simp(self.vt.base + self.vt.size)))
        self.P64 = z3.Function("row_word", BV(64), BV(64))
        self.W = z3.Function("target", BV(64), BV(32))
        self.cur_word = z3.Function("listed", BV(64), BV(32))
        self.J = z3.Function("J", BV(64), BV(64), z3.BoolSort())
        self.T = z3.Function("T", BV(64), z3.BoolSort())
        self.E = z3.Function("E", BV(64), z3.BoolSort())
        self.FE = z3.Function("FE", BV(64), z3.BoolSort())
        self.lt.on_load = self.load_letter
        self.jt.on_load = self.load_target
        self.pt.on_load = self.load_row
        self.vt.on_load = self.load_row
        self.row = self.last = None
        self.seen = {}

    def is_ptr(self, v): return v

    def load_letter(self, e, st, p, n, ty):
        e.bounds(st, self.lt, p, n, "load")
        # table invariant: every entry of the letter table is a class number
        w = word(self.lt, p.e, 8)
        if n == 8: e.fact(z3.ULT(w, self.L))

    def letter(self, c): return word(self.lt, simp(self.lt.base + z3.ZeroExt(48, c) * bv(8)), 8)

    def load_target(self, e, st, p, n, ty):
        e.bounds(st, self.jt, p, n, "load")
        if n != 4: raise Unmodelled("access to the jump list that is not a state")
        a = simp(p.e)
        w = self.W(a)
        e.fact(z3.ULT(z3.ZeroExt(32, w), self.S))          # table invariant: targets are states
        if self.row is not None:
            e.fact(self.J(self.row, simp(a + bv(4))) == z3.Or(self.J(self.row, a), z3.ZeroExt(32, w) == self.q))
        return V(w)

    def load_row(self, e, st, p, n, ty):
        r = p.prov
        e.bounds(st, r, p, n, "load")
        if n != 8: raise Unmodelled("access to the row table")
        a = simp(p.e)
        w = self.P64(a)
        # table invariant: rows are consecutive slices of the jump list
        if self.mapped:
            e.fact(z3.Implies(z3.ULE(a - self.pt.base, self.SL * bv(8)), z3.ULE(w, self.nj)))
            return V(w)
        e.fact(z3.And(z3.ULE(self.jt.base, w), z3.ULE(w, self.jt.base + self.nj * bv(4)), (w & bv(3)) == 0))
        return V(w, self.jt)

    def bounds_of(self, s):
        """begin and end of the slice of (s, l), as the tables give them"""
        k = self.e.mul(s, self.L) + self.l
        if self.mapped:
            a = self.pt.base + k * bv(8)
            return simp(self.jt.base + self.P64(simp(a)) * bv(4)), simp(self.jt.base + self.P64(simp(a + bv(8))) * bv(4))
        a = self.vt.base + k * bv(24)
        return self.P64(simp(a)), self.P64(simp(a + bv(8)))

    def current(self, st, l, name="current"):
        """the current state: any list of states"""
        e, o = self.e, self.o
        self.l = l
        self.n = z3.BitVec("listed_states", 64)
        e.fact(z3.ULE(self.n, self.S))
        self.cl = table(e, st, "list", self.n * bv(4), align=4)
        self.cl.on_load = self.load_current
        self.end = simp(self.cl.base + self.n * bv(4))
        e.fact(z3.Not(self.E(self.cl.base)))
        e.fact(z3.Not(self.FE(self.cl.base)))
        f = vecf(o["st_states"], self.cl, self.cl.base, self.end)
        self.cur = obj(e, st, name, size_of("st"), f, readonly=True)
        e.templates.append(self.templates)
        return self.cur

    def load_current(self, e, st, p, n, ty):
        e.bounds(st, self.cl, p, n, "load")
        if n != 4: raise Unmodelled("access to the list of states")
        a = simp(p.e)
        w = self.cur_word(a)
        s = z3.ZeroExt(32, w)
        e.fact(z3.ULT(s, self.S))                          # invariant: listed states are states
        e.fact(self.FE(simp(a + bv(4))) == z3.Or(self.FE(a), z3.Extract(0, 0, self.ft.f(simp(self.ft.base + s))) == bv(1, 1)))
        # lemma (induction): FE is monotone along the list
        for x in (a, simp(a + bv(4))): e.fact(z3.Implies(z3.And(self.FE(x), z3.ULE(x, self.end)), self.FE(self.end)))
        if self.l is not None:
            # row arithmetic (lemma "rows"): a row number of the table and its successor
            k = self.e.mul(s, self.L) + self.l
            e.fact(z3.ULT(k, self.SL))
            if self.mapped: e.fact(z3.ULE(k * bv(8), self.pt.size - bv(16)))
            else: e.fact(z3.ULE(k * bv(24), self.vt.size - bv(24)))
            b, en = self.bounds_of(s)
            e.fact(z3.And(z3.ULE(b, en), z3.ULE(self.jt.base, b), z3.ULE(en, self.jt.base + self.nj * bv(4)), ((en - b) & bv(3)) == 0))
            e.fact(z3.Not(self.J(s, b)))
            e.fact(self.T(s) == self.J(s, en))
            e.fact(self.E(simp(a + bv(4))) == z3.Or(self.E(a), self.T(s)))
            self.row = s
        self.last = a
        return V(w)

    def next_state(self, st, name="next"):
        """the other state object: bit sets and list through their contracts, at q"""
        e, o = self.e, self.o
        self.nx = obj(e, st, name, size_of("st"), {})
        self.flag = e.new_region(st, name + " flag of q", 1)
        self.cnt = e.new_region(st, name + " listings of q", 8)
        e.store(st, ptr(self.flag), V(z3.BitVec("old_flag", 8)), ir.I(8))
        e.store(st, ptr(self.cnt), V(z3.BitVec("old_count", 64)), ir.I(64))
        fo = self.o["st_flags"]
        me = lambda p, off: p.prov is self.nx and conc(simp(p.e - self.nx.base)) == off

        def need(e, st, a, off, what):
            if not me(a[0], off): raise Unmodelled(what + " of another object")

        def test(e, st, a, i):
            need(e, st, a, fo, "BitSet::Test")
            e.oblige(st, "Test: within the bit set", z3.ULT(a[1].e, self.S), "pre")
            return V(z3.If(a[1].e == self.q, get(e, st, self.flag, 0, 8) != 0, e.fresh("flag", 1)))

        def put(v):
            def ap(e, st, a, i):
                need(e, st, a, fo, "BitSet::Set/Reset")
                e.oblige(st, "Set: within the bit set", z3.ULT(a[1].e, self.S), "pre")
                e.store(st, ptr(self.flag), V(simp(z3.If(a[1].e == self.q, bv(v, 8), get(e, st, self.flag, 0, 8)))), ir.I(8))
            return ap

        def clr(e, st, a, i):
            need(e, st, a, fo, "BitSet::Clear")
            e.store(st, ptr(self.flag), V(bv(0, 8)), ir.I(8))

        def vclr(e, st, a, i):
            need(e, st, a, self.o["st_states"], "vector::clear")
            e.store(st, ptr(self.cnt), V(bv(0)), ir.I(64))

        def push(e, st, a, i):
            need(e, st, a, self.o["st_states"], "vector::push_back")
            v = z3.ZeroExt(32, e.load(st, a[1], ir.I(32)).e)
            e.oblige(st, "a listed state is a state", z3.ULT(v, self.S), "inv")
            e.store(st, ptr(self.cnt), V(simp(get(e, st, self.cnt, 0) + z3.If(v == self.q, bv(1), bv(0)))), ir.I(64))
        e.contracts += [Contract("Pire::BitSet::Test(unsigned long) const", test, "BitSet::Test [item BitSet]"), Contract("Pire::BitSet::Set(unsigned long)", put(1), "BitSet::Set [item BitSet]"),
                        Contract("Pire::BitSet::Reset(unsigned long)", put(0), "BitSet::Reset [item BitSet]"), Contract("Pire::BitSet::Clear()", clr, "BitSet::Clear [item BitSet]"),
                        Contract(lambda d: isvec(d, "clear"), vclr, "std::vector::clear"), Contract(lambda d: isvec(d, "push_back", "emplace_back"), push, "std::vector::push_back"),
                        Contract(lambda d: isvec(d, "reserve"), lambda e, st, a, i: None, "std::vector::reserve")]
        return self.nx

    def templates(self, eng, ctx):
        out = []
        cell = lambda r: next((v for v in ctx.vars if v[0] == "cell" and v[1][0] is r), None)
        fl, cn = (cell(self.flag), cell(self.cnt)) if hasattr(self, "flag") else (None, None)
        ps, ts = [], []
        for v in ctx.vars:
            if v[0] not in ("phi", "cell"): continue
            h = eng.getv(ctx.hst, v)
            if h.prov is self.cl: ps.append((vname(v), lambda ev, v=v: ev(v).e))
            if h.prov is self.jt: ts.append((vname(v), lambda ev, v=v: ev(v).e))
        outer = list(ps)
        if self.last is not None and not outer: ps.append(("last listed", lambda ev, a=self.last: a))
        for n, p in outer:
            out.append((n + " <= end", lambda ev, p=p: z3.ULE(p(ev), self.end)))
            out.append((n + " >= begin", lambda ev, p=p: z3.UGE(p(ev), self.cl.base)))
            out.append((n + " whole words", lambda ev, p=p: ((p(ev) - self.cl.base) & bv(3)) == 0))
            out.append(("no final state before " + n, lambda ev, p=p: z3.Not(self.FE(p(ev)))))
        if fl is not None:
            for n, p in ps:
                out.append(("flag = E(%s)" % n, lambda ev, p=p: (ev(fl).e != 0) == self.E(p(ev))))
                for tn, t in ts:
                    if self.row is not None:
                            b0, en0 = self.bounds_of(self.row)
                            out.append(("flag = E(%s) or J(%s)" % (n, tn), lambda ev, p=p, t=t, row=self.row, b0=b0, en0=en0: (ev(fl).e != 0) == z3.Or(self.E(p(ev)), z3.And(b0 != en0, self.J(row, t(ev))))))
        if fl is not None and cn is not None:
            out.append(("count = flag", lambda ev: ev(cn).e == z3.If(ev(fl).e != 0, bv(1), bv(0))))
        if ts and self.row is not None:
            b, en = self.bounds_of(self.row)
            for tn, t in ts:
                # an empty slice may be walked from anywhere (a null pointer in the code)
                out.append((tn + " <= end", lambda ev, t=t: z3.Implies(b != en, z3.ULE(t(ev), en))))
                out.append((tn + " >= begin", lambda ev, t=t: z3.Implies(b != en, z3.UGE(t(ev), b))))
                out.append((tn + " whole words", lambda ev, t=t: z3.Implies(b != en, ((en - t(ev)) & bv(3)) == 0)))
                out.append((tn + " null if empty", lambda ev, t=t: z3.Implies(b == en, t(ev) == 0)))
                out.append((tn + " at the end if empty", lambda ev, t=t: z3.Implies(b == en, t(ev) == en)))
        return out


def nextt(case):
    """NextTranslated(current, next, l): q is in the next state exactly when it is a target of a current state; listed once"""
    fn, mapped = case
    s = SlowSc(mapped == "mapped")
    e, st = s.e, s.st
    c = z3.BitVec("c", 16)
    if fn == "vc_nextt":
        l = z3.ZeroExt(48, c); e.fact(z3.ULT(l, s.L))
    else:
        e.fact(z3.ULT(c, bv(gconst(M(), "vc_max_char"), 16)))
        l = z3.ZeroExt(48, z3.Extract(15, 0, s.letter(c)))
        e.fact(z3.ULT(s.letter(c), s.L))
    cur = s.current(st, simp(l))
    nx = s.next_state(st)
    rv, o = run1(e, st, fn, [ptr(s.r), ptr(cur), ptr(nx), V(c)])
    fl, cn = get(e, o, s.flag, 0, 8), get(e, o, s.cnt, 0)
    e.oblige(o, "q is flagged exactly when a current state has a transition to it", (fl != 0) == s.E(s.end), "post")
    e.oblige(o, "q is listed once if flagged and not otherwise", cn == z3.If(fl != 0, bv(1), bv(0)), "post")
    e.oblige(o, "the action is 0", rv.e == 0, "post")
    cover(e, o)
    return e


def final(case):
    s = SlowSc(False)
    e, st = s.e, s.st
    cur = s.current(st, None)
    rv, o = run1(e, st, case[0], [ptr(s.r), ptr(cur)])
    e.oblige(o, "final exactly when a listed state is final", (rv.e if z3.is_bool(rv.e) else rv.e != 0) == s.FE(s.end), "post")
    cover(e, o)
    return e



# ---------------------------------------------------------------- whole-state operations, over the contracts above

ST = "Pire::SlowScanner::State"
NT3 = "Pire::SlowScanner::NextTranslated(Pire::SlowScanner::State const&, Pire::SlowScanner::State&, unsigned short) const"
NX3 = "Pire::SlowScanner::Next(Pire::SlowScanner::State const&, Pire::SlowScanner::State&, unsigned short) const"
NX2 = "Pire::SlowScanner::Next(Pire::SlowScanner::State&, unsigned short) const"
STEP = z3.Function("step", BV(64), BV(64), BV(64))      # the set reached from a set by a letter class
LETTER = z3.Function("class_of", BV(16), BV(64))
START = z3.BitVec("initial_set", 64)


class Sets:
    """Two state objects as abstract values (the set of states they hold) and the size their bit sets have room for"""

    def __init__(self, e, st, scanner):
        self.e, self.sc = e, scanner
        n = self.n = size_of("st")
        self.r = e.new_region(st, "states", 4096, align=16)
        self.cells = [e.new_region(st, "set %d" % k, 8) for k in (0, 1)]
        self.room = [e.new_region(st, "room %d" % k, 8) for k in (0, 1)]
        self.init = z3.BitVec("set", 64)
        self.S = z3.BitVec("states", 64)
        for x, v in zip(self.cells + self.room, (self.init, bv(0), self.S, bv(0))): e.store(st, ptr(x), V(v), ir.I(64))
        self.alive = 1
        self.calls = {}
        e.on_alloca = self.alloca
        d = lambda name: "Pire::SlowScanner::State::" + name
        C = Contract
        e.contracts += [C(d("State()"), self.ctor0, "State() [item State objects]"), C(d("State(unsigned long)"), self.ctor1, "State(n) [item State objects]"),
                        C(d("~State()"), lambda e, st, a, i: None, "~State()"),
                        C(d("Swap(Pire::SlowScanner::State&)"), self.swap, "State::Swap [item State objects]"),
                        C(lambda x: x.startswith(d("operator=(")), self.assign, "State::operator= (memberwise copy)"),
                        C(lambda x: x.startswith("Pire::SlowScanner::Initialize("), self.initialize, "Initialize [item Initialize]")]

    def alloca(self, n):
        if n != self.n: return None
        if self.alive > 1: raise Unmodelled("a third state object")
        self.alive += 1
        return at(self.r, self.n)

    def which(self, p):
        if p.prov is not self.r: raise Unmodelled("a state object that is not one of the two")
        return simp(p.e == self.r.base)

    def read(self, st, p, c=None):
        c = c or self.cells
        return simp(z3.If(self.which(p), get(self.e, st, c[0], 0), get(self.e, st, c[1], 0)))

    def write(self, st, p, v, c=None):
        c = c or self.cells
        first = self.which(p)
        for k, r in enumerate(c):
            g = first if k == 0 else simp(z3.Not(first))
            self.e.store(st, ptr(r), V(simp(z3.If(g, v, get(self.e, st, r, 0)))), ir.I(64))

    def need(self, st, p, what):
        self.e.oblige(st, what + ": an existing state object", z3.Or(p.e == self.r.base, p.e == self.r.base + bv(self.n)), "pre")

    def ctor0(self, e, st, a, i):
        self.need(st, a[0], "State()")
        self.write(st, a[0], bv(0)); self.write(st, a[0], bv(0), self.room)

    def ctor1(self, e, st, a, i):
        self.need(st, a[0], "State(n)")
        self.write(st, a[0], bv(0)); self.write(st, a[0], a[1].e, self.room)

    def swap(self, e, st, a, i):
        for c in (self.cells, self.room):
            x, y = self.read(st, a[0], c), self.read(st, a[1], c)
            self.write(st, a[0], y, c); self.write(st, a[1], x, c)

    def assign(self, e, st, a, i):
        for c in (self.cells, self.room): self.write(st, a[0], self.read(st, a[1], c), c)
        return a[0]

    def initialize(self, e, st, a, i):
        self.need(st, a[1], "Initialize")
        self.write(st, a[1], START); self.write(st, a[1], self.S, self.room)

    def step(self, kind):
        """contract of NextTranslated/Next(current, next, l): next becomes the step of current [item Next]"""
        def ap(e, st, a, i):
            src, dst = a[1], a[2]
            for p in (src, dst): self.need(st, p, kind)
            e.oblige(st, kind + ": current and next are different objects", src.e != dst.e, "pre")
            e.oblige(st, kind + ": next has room for every state", z3.UGE(self.read(st, dst, self.room), self.S), "pre")
            c = LETTER(a[3].e) if kind == "Next" else z3.ZeroExt(48, a[3].e)
            self.calls[kind] = self.calls.get(kind, 0) + 1
            self.write(st, dst, STEP(self.read(st, src), c))
            return V(bv(0, 32))
        return ap


def plain(fn_ro=True):
    m = M()
    e = Engine(m, [])
    st = start()
    r = obj(e, st, "scanner", size_of("slow"), {}, readonly=fn_ro)
    return e, st, r


def twoarg(case):
    """NextTranslated(s, l) and Next(s, c): s becomes its step; Next(a, b, c) is NextTranslated at the class of c"""
    fn = case[0]
    e, st, r = plain()
    s = Sets(e, st, r)
    o_ = offs(M(), "off_")
    st.mem[r].d[o_["states"]] = (8, V(s.S))
    e.contracts += [Contract(NT3, s.step("NextTranslated"), "NextTranslated(current, next, l) [item Next]"),
                    Contract(lambda d: d.startswith("Pire::SlowScanner::Translate("), lambda e, st, a, i: V(z3.Extract(15, 0, LETTER(a[1].e))), "Translate [item Translate]")]
    c = z3.BitVec("c", 16)
    e.fact(z3.ULT(LETTER(c), bv(1 << 16)))
    if fn == "vc_next":
        st0 = at(s.r, s.n)
        s.alive = 2
        e.store(st, ptr(s.room[1]), V(s.S), ir.I(64))
        rv, o = run1(e, st, fn, [ptr(r), ptr(s.r), st0, V(c)])
        now = get(e, o, s.cells[1], 0)
        e.oblige(o, "the current state stays", get(e, o, s.cells[0], 0) == s.init, "frame")
    else:
        rv, o = run1(e, st, fn, [ptr(r), ptr(s.r), V(c)])
        now = get(e, o, s.cells[0], 0)
    if not s.calls: raise Unmodelled("does not go through NextTranslated(current, next, l)")
    e.oblige(o, "the state becomes the set reached by the letter", now == STEP(s.init, LETTER(c) if "next2" in fn or fn == "vc_next" else z3.ZeroExt(48, c)), "post")
    e.oblige(o, "its bit set keeps room for every state", get(e, o, s.room[1 if fn == "vc_next" else 0], 0) == s.S, "inv")
    e.oblige(o, "the action is 0", rv.e == 0, "post")
    cover(e, o)
    return e


def run_loop(case):
    """Run(scanner, state, begin, end) with its two alternating state objects: the state becomes the fold of Next over the text"""
    e, st, r = plain()
    e.generic = False; e.cut_hint = lambda f, L: "cut"; e.use_iter = False
    s = Sets(e, st, r)
    size = z3.BitVec("length", 64)
    e.fact(z3.ULE(size, bv(SMALL)))
    t = table(e, st, "text", size, align=1)
    end = simp(t.base + size)
    G = z3.Function("G", BV(64), BV(64))          # the fold of Next over the text before an address
    e.fact(G(t.base) == s.init)
    e.contracts.append(Contract(NX3, s.step("Next"), "Next(current, next, c) [item Next]"))

    def load(e, st, p, n, ty):
        e.bounds(st, t, p, n, "load")
        for k in range(n):
            a = simp(p.e + bv(k))
            e.fact(G(simp(a + bv(1))) == STEP(G(a), LETTER(z3.ZeroExt(8, t.f(a)))))
    t.on_load = load

    def templates(eng, ctx):
        out, ps, ss = [], [], []
        cell = lambda q: next((v for v in ctx.vars if v[0] == "cell" and v[1][0] is q), None)
        val = lambda q: (lambda ev, c=cell(q): ev(c).e) if cell(q) else (lambda ev: get(eng, ctx.hst, q, 0))
        for v in ctx.vars:
            if v[0] not in ("phi", "cell"): continue
            h = eng.getv(ctx.hst, v)
            if h.prov is t: ps.append((vname(v), lambda ev, v=v: ev(v).e))
            if h.prov is s.r: ss.append((vname(v), lambda ev, v=v: ev(v).e))
        two = lambda x: z3.Or(x == s.r.base, x == s.r.base + bv(s.n))
        for n, x in ss:
            out.append((n + " is one of the two", lambda ev, x=x: two(x(ev))))
            for n2, y in ss:
                if n < n2: out.append(("%s and %s differ" % (n, n2), lambda ev, x=x, y=y: x(ev) != y(ev)))
            for pn, p in ps:
                out.append(("set of %s = G(%s)" % (n, pn), lambda ev, x=x, p=p: z3.If(x(ev) == s.r.base, val(s.cells[0])(ev), val(s.cells[1])(ev)) == G(p(ev))))
        for k in (0, 1):
            out.append(("room %d" % k, lambda ev, k=k: val(s.room[k])(ev) == s.S))
        for pn, p in ps:
            out.append((pn + " <= end", lambda ev, p=p: z3.ULE(p(ev), end)))
            out.append((pn + " >= begin", lambda ev, p=p: z3.UGE(p(ev), t.base)))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_run", [ptr(r), ptr(s.r), ptr(t), V(end, t)])
    if not s.calls: raise Unmodelled("does not go through Next(current, next, c)")
    e.oblige(o, "the state is the fold of Next over the text", get(e, o, s.cells[0], 0) == G(end), "post")
    cover(e, o)
    return e


def translate(case):
    s = SlowSc(True)
    e, st = s.e, s.st
    c = z3.BitVec("c", 16)
    e.fact(z3.ULT(c, bv(gconst(M(), "vc_max_char"), 16)))
    rv, o = run1(e, st, "vc_translate", [ptr(s.r), V(c)])
    e.oblige(o, "the class of the letter table", z3.ZeroExt(48, rv.e) == z3.ZeroExt(48, z3.Extract(15, 0, s.letter(c))), "post")
    cover(e, o)
    return e


def state_new(case):
    """State(n): an empty list and a bit set of n"""
    e = Engine(M(), [])
    st = start()
    o_ = offs(M(), "off_")
    n = z3.BitVec("n", 64)
    e.fact(z3.ULE(n, bv(SMALL)))
    s = obj(e, st, "state", size_of("st"), {})
    made = []

    def bs(e, st, a, i):
        made.append((conc(simp(a[0].e - s.base)) if a[0].prov is s else None, a[1].e))
    e.contracts += [Contract("Pire::BitSet::BitSet(unsigned long)", bs, "BitSet(n) [item BitSet construction]"), Contract(lambda d: isvec(d, "reserve"), lambda e, st, a, i: None, "std::vector::reserve")]
    rv, o = run1(e, st, "vc_state_ctor", [ptr(s), V(n)])
    e.oblige(o, "no states listed", get(e, o, s, o_["st_states"]) == get(e, o, s, o_["st_states"] + 8), "post")
    e.oblige(o, "its bit set has n elements", z3.And(z3.BoolVal(len(made) == 1 and made[0][0] == o_["st_flags"]), made[0][1] == n) if made else FALSE, "post")
    cover(e, o)
    return e


def state_swap(case):
    e = Engine(M(), [])
    st = start()
    o_, b_ = offs(M(), "off_"), offs(M(), "off_bs_")
    F = [o_["st_states"] + k for k in (0, 8, 16)] + [o_["st_flags"] + b_["data"] + k for k in (0, 8, 16)] + [o_["st_flags"] + b_["size"]]
    a, b = [obj(e, st, n, size_of("st"), {f: (8, V(z3.BitVec("%s_%d" % (n, f), 64))) for f in F}) for n in ("a", "b")]
    va, vb = [[get(e, st, x, f) for f in F] for x in (a, b)]
    rv, o = run1(e, st, "vc_state_swap", [ptr(a), ptr(b)])
    for f, x, y in zip(F, va, vb): e.oblige(o, "the words at %d are exchanged" % f, z3.And(get(e, o, a, f) == y, get(e, o, b, f) == x), "post")
    cover(e, o)
    return e


def initialize(case):
    """Initialize(state): exactly the initial state, flags: none, with room for every state"""
    e, st, r = plain()
    o_ = offs(M(), "off_")
    S, start_ = z3.BitVecs("states start", 64)
    st.mem[r].d[o_["states"]] = (8, V(S)); st.mem[r].d[o_["start"]] = (8, V(start_))
    e.facts += [z3.ULE(S, bv(1 << 31)), z3.ULT(start_, S)]
    s = obj(e, st, "state", size_of("st"), {})
    cnt, tok = e.new_region(st, "listed", 8), e.new_region(st, "which bit set", 8)
    first = e.new_region(st, "first listed", 8)
    for x in (cnt, tok, first): e.store(st, ptr(x), V(z3.BitVec("old_" + x.name.replace(" ", "_"), 64)), ir.I(64))
    sizes = {}
    mine = lambda p, off: p.prov is s and conc(simp(p.e - s.base)) == off

    def need(p, off, what):
        if not mine(p, off): raise Unmodelled(what + " of another object")

    def clear(e, st, a, i):
        need(a[0], o_["st_states"], "clear"); e.store(st, ptr(cnt), V(bv(0)), ir.I(64))

    def push(e, st, a, i):
        need(a[0], o_["st_states"], "push_back")
        n = get(e, st, cnt, 0)
        v = z3.ZeroExt(32, e.load(st, a[1], ir.I(32)).e)
        e.store(st, ptr(first), V(simp(z3.If(n == 0, v, get(e, st, first, 0)))), ir.I(64))
        e.store(st, ptr(cnt), V(simp(n + bv(1))), ir.I(64))

    def bs(e, st, a, i):
        k = bv(1 + len(sizes)); sizes[len(sizes) + 1] = a[1].e
        e.store(st, a[0], V(k), ir.I(64))

    def swap(e, st, a, i):
        x, y = a
        if mine(y, o_["st_flags"]): x, y = y, x
        need(x, o_["st_flags"], "Swap")
        t = get(e, st, tok, 0)
        e.store(st, ptr(tok), V(e.load(st, V(y.e, y.prov), ir.I(64)).e), ir.I(64))
        e.store(st, V(y.e, y.prov), V(t), ir.I(64))
    e.contracts += [Contract("Pire::BitSet::BitSet(unsigned long)", bs, "BitSet(n) [item BitSet construction]"), Contract("Pire::BitSet::~BitSet()", lambda e, st, a, i: None, "~BitSet()"),
                    Contract("Pire::BitSet::Swap(Pire::BitSet&)", swap, "BitSet::Swap [item BitSet::Swap]"), Contract(lambda d: isvec(d, "clear"), clear, "std::vector::clear"),
                    Contract(lambda d: isvec(d, "push_back", "emplace_back"), push, "std::vector::push_back"), Contract(lambda d: isvec(d, "reserve"), lambda e, st, a, i: None, "std::vector::reserve")]
    rv, o = run1(e, st, "vc_init", [ptr(r), ptr(s)])
    e.oblige(o, "one state is listed", get(e, o, cnt, 0) == bv(1), "post")
    e.oblige(o, "it is the initial one", get(e, o, first, 0) == start_, "post")
    e.oblige(o, "the bit set is a fresh one", get(e, o, tok, 0) == bv(1), "post")
    e.oblige(o, "with an element for every state", sizes.get(1, bv(0)) == S, "post")
    cover(e, o)
    return e


def simple(case):
    """Dead(), TakeAction(), AcceptedRegexps(), SetInitial(), SetTag()"""
    fn = case[0]
    e, st, r = plain(fn_ro=not fn.startswith("vc_set"))
    o_ = offs(M(), "off_")
    s = obj(e, st, "state", size_of("st"), {}, readonly=True)
    if fn == "vc_dead":
        rv, o = run1(e, st, fn, [ptr(r), ptr(s)])
        e.oblige(o, "no state is called dead", (z3.Not(rv.e) if z3.is_bool(rv.e) else rv.e == 0), "post")
    elif fn == "vc_take":
        rv, o = run1(e, st, fn, [ptr(r), ptr(s), V(z3.BitVec("action", 32))])
        e.oblige(o, "an action changes nothing", (z3.Not(rv.e) if z3.is_bool(rv.e) else rv.e == 0), "post")
    elif fn == "vc_accepted":
        fin = z3.Bool("final")
        e.contracts.append(Contract(lambda d: d.startswith("Pire::SlowScanner::Final("), lambda e, st, a, i: V(fin), "Final [item Final]"))
        rv, o = run1(e, st, fn, [ptr(r), ptr(s)])
        b, en = [x.e for x in rv.e] if isinstance(rv.e, list) else (z3.Extract(63, 0, rv.e), z3.Extract(127, 64, rv.e))
        e.oblige(o, "one regexp is accepted exactly in a final state", en - b == z3.If(fin, bv(8), bv(0)), "post")
    elif fn == "vc_setinitial":
        x = z3.BitVec("x", 64)
        rv, o = run1(e, st, fn, [ptr(r), V(x)])
        e.oblige(o, "the initial state is set", get(e, o, r, o_["start"]) == x, "post")
    else:
        x, tag, k = z3.BitVec("x", 64), z3.BitVec("tag", 8), z3.BitVec("k", 64)
        S = z3.BitVec("states", 64)
        e.facts += [z3.ULT(x, S), z3.ULT(k, S), z3.ULE(S, bv(SMALL))]
        ft = e.new_region(st, "finals", kind="bytes", size=S)
        st.mem[r].d[o_["finals"]] = (8, ptr(ft)); st.mem[r].d[o_["states"]] = (8, V(S))
        was = e.read_bytes(st.mem[ft].a if hasattr(st.mem[ft], "a") else st.mem[ft], simp(ft.base + k), 1) if ft in st.mem else None
        e.load(st, at(ft, k), ir.I(8))
        was = get(e, st, ft, k, 8)
        rv, o = run1(e, st, fn, [ptr(r), V(x), V(tag)])
        e.oblige(o, "the state is final exactly when the tag is not zero, the others stay", get(e, o, ft, k, 8) == z3.If(k == x, z3.If(tag != 0, bv(1, 8), bv(0, 8)), was), "post")
    cover(e, o)
    return e


def lemmas(case):
    """row numbers and the monotone ghost, by arithmetic and induction"""
    e = Engine(M(), [])
    st = start()
    s, S, l, L = z3.Ints("s S l L")
    pre = z3.And(s >= 0, s < S, l >= 0, l < L, S <= 2 ** 31, L <= 2 ** 9)
    k = s * L + l
    e.oblige(st, "a row number is a row", z3.Implies(pre, z3.And(k >= 0, k < S * L)), "lemma")
    e.oblige(st, "no overflow", z3.Implies(pre, (S * L + 1) * 24 < 2 ** 64), "lemma")
    e.oblige(st, "rows of vectors lie in the array", z3.Implies(z3.And(k < S * L, k >= 0), k * 24 + 24 <= S * L * 24), "lemma")
    e.oblige(st, "offsets of rows lie in the array", z3.Implies(z3.And(k < S * L, k >= 0), (k + 1) * 8 + 8 <= (S * L + 1) * 8), "lemma")
    f0, f1, fe, fin = z3.Bools("FE_a FE_next FE_end final_a")
    # backward induction over the list: FE(next) -> FE(end), FE(next) = FE(a) or final(a)  =>  FE(a) -> FE(end); base: FE(end) -> FE(end)
    e.oblige(st, "once final, final at the end", z3.Implies(z3.And(z3.Implies(f1, fe), f1 == z3.Or(f0, fin)), z3.Implies(f0, fe)), "lemma")
    return e


def main():
    M()
    items = [Item("BitSet elements", bits_rw, [("vc_bs_set",), ("vc_bs_reset",), ("vc_bs_test",), ("vc_bs_size",), ("vc_bs_clear",)], ["BitSet::Set/Reset/Test/Size/Clear"]),
             Item("BitSet construction", bits_new, [("vc_bs_new",), ("vc_bs_new0",)], ["BitSet::BitSet"]),
             Item("BitSet::Resize", bits_resize, [()], ["BitSet::Resize"]),
             Item("BitSet::Swap", bits_swap, [()], ["BitSet::Swap"]),
             Item("Next", nextt, [("vc_nextt", "memory"), ("vc_nextt", "mapped")], ["SlowScanner::NextTranslated(State const&, State&, Char)"], weight=5),
             Item("Next in place", twoarg, [("vc_nextt2",), ("vc_next2",), ("vc_next",)], ["SlowScanner::NextTranslated(State&, Char)", "SlowScanner::Next(State&, Char)", "SlowScanner::Next(State const&, State&, Char)"]),
             Item("Run", run_loop, [()], ["Run<SlowScanner>"]),
             Item("Translate", translate, [()], ["SlowScanner::Translate"]),
             Item("State objects", state_new, [()], ["State::State(size_t)"]),
             Item("State swap", state_swap, [()], ["State::Swap"]),
             Item("Initialize", initialize, [()], ["SlowScanner::Initialize"]),
             Item("Simple methods", simple, [("vc_dead",), ("vc_take",), ("vc_accepted",), ("vc_setinitial",), ("vc_settag",)], ["SlowScanner::Dead/TakeAction/AcceptedRegexps/SetInitial/SetTag"]),
             Item("Final", final, [("vc_final",), ("vc_canstop",)], ["SlowScanner::Final/CanStop"]),
             Item("Lemmas", lemmas, [()], ["row arithmetic", "monotone ghost"])]
    return run_check("C19", items, Harness("C19.cpp", 14, desc="random automata and regexps: the state after every prefix against the set of reachable states, bit sets of every size against std::set, saved and mapped copies"),
                     assumptions=["the letter table maps into the classes, transition rows are consecutive slices of the target list, targets are states (constructor and SetJump: C04; image checks: C06)",
                                  "std::vector's clear/push_back/reserve/resize/constructor behave as documented"],
                     notes="The state is watched at one arbitrary automaton state q: flagged and listed once exactly when a listed state has a transition to q.")
