from multi import *
from framework import Item, Harness, run_check
from C04 import eng, run1, b, ALL
FIELDS = ("states", "letters", "regexps", "initial", "ftsize", "ltab", "final", "findex", "trans", "buffer")
W4 = ("states", "letters", "regexps", "ftsize", "statesCount", "lettersCount", "regexpsCount")


def width(s, n): return 32 if (n in W4[:4] if isinstance(s, Multi) else n in W4[4:] if isinstance(s, LoadedW) else False) else 64


def snap(e, st, s, names): return {n: get(e, st, s.r, s.o[n], width(s, n)) for n in names}


def same(e, o, got, want, what, skip=()):
    for n in want:
        if n not in skip: e.oblige(o, "%s: %s" % (what, n), got[n] == want[n], "post")


def pair(kind, readonly=False, buffers=(True, True)):
    """two objects of a class about which nothing is known but what the class guarantees"""
    if kind == "simple":
        e = Engine(MS(), []); st = start()
        mk = lambda n, s, ro, bf: Simple(e, st, e.m, name=n, suffix=s, readonly=ro, buffer=bf)
        names, fns = ("states", "initial", "trans", "buffer"), "vc_"
    elif kind == "loaded":
        e = Engine(MS(), []); e.abstract_mul = True; st = start()
        mk = lambda n, s, ro, bf: LoadedW(e, st, e.m, name=n, suffix=s, readonly=ro, buffer=bf)
        names, fns = ("statesCount", "lettersCount", "regexpsCount", "initial", "letters", "jumps", "tags", "buffer"), "vl_"
    else:
        e, st = eng(kind)
        mk = lambda n, s, ro, bf: Multi(e, st, e.m, name=n, suffix=s, readonly=ro, buffer=bf)
        names, fns = FIELDS, "vc_"
    x, y = mk("a", "", False, buffers[0]), mk("b", "_b", readonly, buffers[1])
    return e, st, x, y, names, fns


def swap(case):
    """Swap exchanges every field: each object is afterwards, field by field, what the other was"""
    e, st, x, y, names, fn = pair(case[0])
    a, c = snap(e, st, x, names), snap(e, st, y, names)
    rv, o = run1(e, st, fn + "swap", [ptr(x.r), ptr(y.r)])
    same(e, o, snap(e, o, x, names), c, "the first is what the second was")
    same(e, o, snap(e, o, y, names), a, "the second is what the first was")
    cover(e, o)
    return e


def alias(case):
    """Alias: the same tables, no buffer of its own; the source (read-only here) does not change"""
    e, st, x, y, names, fn = pair(case[0], readonly=True, buffers=(False, True))
    c = snap(e, st, y, names)
    rv, o = run1(e, st, fn + "alias", [ptr(x.r), ptr(y.r)])
    got = snap(e, o, x, names)
    same(e, o, got, c, "what the source has", ("buffer",))
    e.oblige(o, "the copy owns no buffer", got["buffer"] == 0, "post")
    cover(e, o)
    return e


class Null:
    """Null(): some scanner, the same every time"""

    def __init__(self, e, st, s): self.s, self.e = s, e

    def contract(self): return Contract(lambda d: d.split("(")[0].endswith("::Null"), lambda e, st, a, i: ptr(self.s.r), "Null() is one fixed scanner")


def ctor(case):
    """the constructors: mapped and empty sources are aliased, others copied (copy); exchanged with a null scanner (move); converted"""
    kind, fn, own = case
    e, st, x, y, names, p = pair(kind, readonly=fn != "move", buffers=(False, own))
    st.mem[x.r] = Cells({})                       # not constructed yet
    c = snap(e, st, y, names)
    null = {"simple": Simple, "loaded": LoadedW}.get(kind, Multi)(e, st, e.m, name="null", suffix="_null", readonly=True)
    n = snap(e, st, null, names)
    calls = []
    def deep(e, st, a, i):
        e.oblige(st, "DeepCopy of the source into the new object", z3.BoolVal(a[0].prov is x.r and a[1].prov is y.r), "pre")
        calls.append(st.g)
        for k in names: e.store(st, at(x.r, x.o[k]), V(e.fresh("copied_" + k, width(x, k))), ir.I(width(x, k)))
    e.contracts += [Null(e, st, null).contract(), Contract(lambda d: "::DeepCopy" in d, deep, "DeepCopy [item DeepCopy]")]
    rv, o = run1(e, st, p + fn, [ptr(x.r), ptr(y.r)])
    got = snap(e, o, x, names)
    if fn == "move":
        same(e, o, got, c, "the new object is what the source was")
        same(e, o, snap(e, o, y, names), n, "the source is null", ("buffer",))
    elif own: e.oblige(o, "a scanner that owns its tables is copied with them", z3.BoolVal(len(calls) == 1), "post")
    else:
        same(e, o, got, c, "what the source has", ("buffer",))
        e.oblige(o, "the copy owns no buffer", got["buffer"] == 0, "post")
    cover(e, o)
    return e


def convert(case):
    """conversion: the empty scanner becomes the empty scanner of the other kind, any other one is copied whether it owns its tables or not"""
    kind, own = case
    e, st, x, y0, names, p = pair(kind, buffers=(False, False))
    y = other(e, st, kind, buffer=own)
    st.mem[x.r] = Cells({})
    null = Multi(e, st, e.m, name="null", suffix="_null", readonly=True)
    n = snap(e, st, null, names)
    calls = []
    empty = z3.Bool("source_empty")
    def deep(e, st, a, i):
        e.oblige(st, "DeepCopy of the source into the new object", z3.BoolVal(a[0].prov is x.r and a[1].prov is y.r), "pre")
        e.oblige(st, "only of a source that is not empty", z3.Not(empty), "pre")
        calls.append(1)
        for k in names: e.store(st, at(x.r, x.o[k]), V(z3.BitVec("copied_" + k, width(x, k))), ir.I(width(x, k)))
    def isempty(e, st, a, i):
        if a[0].prov is not y.r: raise Unmodelled("Empty() of another object")
        return V(empty)
    e.contracts += [Null(e, st, null).contract(), Contract(lambda d: "::DeepCopy" in d, deep, "DeepCopy [item DeepCopy]"), Contract(lambda d: d.endswith("::Empty() const"), isempty, "Empty()")]
    rv, o = run1(e, st, "vc_convert", [ptr(x.r), ptr(y.r)])
    got = snap(e, o, x, names)
    for k in names:
        if k != "buffer": e.oblige(o, "an empty source gives the empty scanner, another one its deep copy: %s" % k, got[k] == z3.If(empty, n[k], z3.BitVec("copied_" + k, width(x, k))), "post")
    e.oblige(o, "both are reached", z3.BoolVal(len(calls) == 1), "post")
    cover(e, o)
    return e


class OtherMulti(Multi):
    pass


def other(e, st, kind, buffer=True):
    """a scanner of the same shortcut kind with the other relocation"""
    pair_ = {"reloc": "nonreloc", "nonreloc": "reloc", "reloc-nomask": "nonreloc-nomask", "nonreloc-nomask": "reloc-nomask"}
    return Multi(e, st, MM(pair_[kind]), name="src", suffix="_src", readonly=True, buffer=buffer)


def flatcopy(case):
    """SimpleScanner and LoadedScanner that own their tables: copied byte by byte into a buffer of its own, the initial state moved along"""
    kind = case[0]
    e, st, x, y, names, p = pair(kind, readonly=True, buffers=(False, True))
    st.mem[x.r] = Cells({})
    size, o = run1(e, st, p + "bufsize", [ptr(y.r)])
    src = e.new_region(o, "source_buffer", kind="bytes", size=size.e)
    src.readonly = True
    fields = o.mem[y.r].d
    # the tables of an object that owns its buffer lie in it, as Markup() says [C04 Layout]
    tmp = e.new_region(o, "layout", e.m and y.r.size)
    o.mem[tmp] = Cells(dict(fields))
    rv, o = run1(e, o, p + "markup", [ptr(tmp), ptr(src)])
    o.mem[y.r] = Cells(dict(o.mem[tmp].d))
    ptrs = ("trans",) if kind == "simple" else ("letters", "jumps", "tags")
    rows = ptrs[0] if kind == "simple" else "jumps"
    off = z3.BitVec("initial_offset", 64)
    e.fact(z3.ULE(off, bv(1 << 41)))
    o.mem[y.r].d[y.o["initial"]] = (8, V(simp(get(e, o, y.r, y.o[rows]) + off), src))
    o.mem[y.r].d[y.o["buffer"]] = (8, ptr(src))
    c = snap(e, o, y, names)
    k = z3.BitVec("k", 64)
    e.fact(z3.ULT(k, size.e))
    was = e.read_bytes(e.lower(o, src).a, simp(src.base + k), 1)
    rv, o = run1(e, o, p + "copy", [ptr(x.r), ptr(y.r)])
    got = snap(e, o, x, names)
    buf = e.load(o, at(x.r, x.o["buffer"]), ir.PTR)
    if buf.prov is None or buf.prov is src: raise Unmodelled("the copy has no buffer of its own")
    e.oblige(o, "the copy has a buffer of its own", z3.And(buf.e != 0, z3.BoolVal(buf.prov is not src)), "post")
    for n in names:
        if n in ptrs + ("initial",): e.oblige(o, "%s: at the same place of its own buffer" % n, got[n] - buf.e == c[n] - src.base, "post")
        elif n != "buffer": e.oblige(o, "%s: what the source has" % n, got[n] == c[n], "post")
    e.oblige(o, "every byte of the tables is copied", e.read_bytes(e.lower(o, buf.prov).a, simp(buf.e + k), 1) == was, "post")
    cover(e, o)
    return e


# ---------------------------------------------------------------- DeepCopy

class Row:
    """One row of a scanner, at ADDR(i). Of the one being built only the watched place of row q is kept; the source's entries lead to TARGET."""

    def __init__(self, D, st, x, i):
        self.D, self.x, self.i = D, x, i
        e = D.e
        self.r = e.new_region(st, "row of " + ("source" if x is D.src else "copy"), None, base=D.addr(x, i))
        st.mem[self.r] = Cells({})
        self.r.lv = self
        self.size = simp(x.R * bv(x.w))

    def gep(self, e, st, p): return p

    def place(self, e, st, p, n, what):
        off = simp(p.e - self.r.base)
        k = conc(off)
        e.oblige(st, what + " within the row", z3.BoolVal(k + n <= self.x.H * self.x.w) if k is not None and k < self.x.H * self.x.w else z3.And(z3.ULE(off, self.size - bv(n)), z3.ULE(bv(n), self.size)), "memory")
        return off, k

    def load(self, e, st, p, ty):
        D, s = self.D, self.x
        n = e.m.bits(ty) // 8
        if s is not D.src: raise Unmodelled("read of a row being built")
        off, k = self.place(e, st, p, n, "load")
        if k is not None and k < s.H * s.w: return V(D.HEAD(self.i, bv(k)) if n == 8 else z3.Extract(8 * n - 1, 0, D.HEAD(self.i, bv(k))))
        if n != s.w: raise Unmodelled("load of another width from a row")
        l = simp(z3.LShR(off - bv(s.H * s.w), {4: 2, 8: 3}[s.w]))
        w = e.fresh("entry", 8 * n)
        t = D.DEST(self.i, l)
        # the entries of a scanner lead to states of it (C04)
        e.fact(z3.Implies(z3.And(z3.ULT(self.i, s.S), z3.ULT(l, s.L), off == (l + bv(s.H)) * bv(s.w)),
                          z3.And(z3.ULT(t, s.S), (self.r.base + z3.SignExt(32, w) if s.w == 4 else w) == D.addr(s, t))))
        D.dests.append(t)
        return V(w)

    def store(self, e, st, p, v, ty):
        D = self.D
        n = e.m.bits(ty) // 8
        if self.x is D.src: e.oblige(st, "the source does not change", FALSE, "frame"); return
        off, k = self.place(e, st, p, n, "store")
        hit = z3.And(self.i == D.q, off == D.off)
        if n == D.n:
            e.oblige(st, "store at the watched place or beside it", z3.Or(off == D.off, z3.ULE(off + bv(n), D.off), z3.ULE(D.off + bv(n), off)), "pre")
            e.store(st, ptr(D.cell), V(simp(z3.If(hit, v.e, D.value(st)))), ir.I(8 * n))
        else: e.oblige(st, "store beside the watched place", z3.Or(z3.ULE(off + bv(n), D.off), z3.ULE(D.off + bv(D.n), off)), "pre")


class Deep:
    """DeepCopy between scanners of any relocation, watched at one state q and one entry, or the flag word, of it.
    ADDR(i): where the row of state i is; rows of different states are disjoint [C04 Row lemmas]."""

    def __init__(self, kind, conv, what):
        e, st = self.e, self.st = eng(kind)
        e.cut_hint = lambda f, L: None if "RowHeader" in f.dem else "cut"; e.use_iter = False; e.opaque_cells = True; e.generic = False
        self.what = what
        self.src = s = other(e, st, kind) if conv else Multi(e, st, MM(kind), name="src", suffix="_src", readonly=True)
        d = self.dst = Multi(e, st, e.m, name="dst", suffix="_src", readonly=False, buffer=False)     # the same counts
        self.q, self.l, self.c = z3.BitVecs("q l c", 64)
        self.A = {s: z3.Function("ADDR_src", BV(64), BV(64)), d: z3.Function("ADDR_copy", BV(64), BV(64))}
        self.DEST = z3.Function("target", BV(64), BV(64), BV(64))       # where the entry (state, class) of the source leads
        self.HEAD = z3.Function("header", BV(64), BV(64), BV(64))
        e.facts += [z3.ULT(self.q, s.S), z3.ULT(self.l, s.L), z3.ULT(self.c, bv(s.maxchar))]
        self.dests, self.rows_seen = [], []
        self.inits = z3.BitVec("initial_index", 64)
        e.fact(z3.ULT(self.inits, s.S))
        st.mem[s.r].d[s.o["initial"]] = (8, V(self.addr(s, self.inits)))
        if what == "entry": off, self.n = simp((self.l + bv(d.H)) * bv(d.w)), d.w
        else: off, self.n = bv(d.o["flags"]), 8
        self.off = off
        self.cell = e.new_region(st, "watched place", self.n)
        st.mem[self.cell] = Cells({0: (self.n, V(z3.BitVec("old_cell", 8 * self.n)))})
        self.LW = Watch(e, st, "letters", bv(s.maxchar), [self.c], n=2)
        st.mem[d.r] = Cells({d.o["buffer"]: (8, V(bv(0)))})
        s.lt.on_load = None
        e.contracts += [Contract(lambda n: "::IndexToState(unsigned long) const" in n, self.i2s, "IndexToState: the row of the state [C04 States and rows]"),
                        Contract(lambda n: "::StateIndex(unsigned long) const" in n, self.index, "StateIndex [C04 States and rows]"),
                        Contract(lambda n: "::Markup(void*)" in n, self.markup, "Markup: disjoint tables [C04 Layout]")]
        e.templates.append(self.templates)

    def addr(self, x, i): return self.A[x](i)

    def value(self, st): return get(self.e, st, self.cell, 0, 8 * self.n)

    def which(self, p):
        if p.prov is self.src.r: return self.src
        if p.prov is self.dst.r: return self.dst
        raise Unmodelled("another scanner")

    def i2s(self, e, st, a, inst):
        x, i = self.which(a[0]), a[1].e
        e.oblige(st, "the number of a state", z3.ULT(i, x.S), "pre")
        if x is self.dst and not any(z3.eq(i, k) for k in self.rows_seen) and z3.is_const(i) and not i.decl().name().startswith("index!") and not isinstance(i, z3.BitVecNumRef): self.rows_seen.append(i)
        return V(self.addr(x, i), Row(self, st, x, i).r)

    def index(self, e, st, a, inst):
        x, p = self.which(a[0]), a[1].e
        r = e.fresh("index")
        for i in [self.inits] + self.dests: e.fact(z3.Implies(p == self.addr(x, i), r == i))
        return V(r)

    def markup(self, e, st, a, inst):
        d = self.dst
        for k, r in (("ltab", self.LW.r), ("final", d.ft), ("findex", d.fi), ("trans", d.tr)): e.store(st, at(a[0].prov, d.o[k]), ptr(r), ir.PTR)

    def templates(self, eng, ctx):
        out, ns = [], []
        for v in ctx.vars:
            if v[0] not in ("phi", "cell"): continue
            h = eng.getv(ctx.hst, v)
            if h.prov is None and isinstance(h.e, z3.BitVecRef) and h.e.size() == 64 and not (v[0] == "cell" and v[1][0] in [self.cell] + self.LW.cells): ns.append((vname(v), lambda ev, v=v: ev(v).e))
        cell = lambda r: next((v for v in ctx.vars if v[0] == "cell" and v[1][0] is r), None)
        val = lambda r: (lambda ev, c=cell(r): ev(c).e) if cell(r) else (lambda ev: get(eng, ctx.hst, r, 0, 8 * self.n if r is self.cell else 16))
        w, lw = val(self.cell), val(self.LW.cells[0])
        S, L, q, l, c = self.src.S, self.src.L, self.q, self.l, self.c
        good, goodl = lambda ev: w(ev) == self.want(), lambda ev: lw(ev) == self.wantl()
        if cell(self.LW.cells[0]) is not None:
            for n, i in ns:
                out += [(n + " <= MaxChar", lambda ev, i=i: z3.ULE(i(ev), bv(self.src.maxchar))), ("letter before %s copied" % n, lambda ev, i=i: z3.Implies(z3.UGT(i(ev), c), goodl(ev)))]
            return out
        k = next((k for k in reversed(self.rows_seen) if any(v.prov is None and z3.eq(v.e, k) for cn, v in ctx.consts)), None)
        if k is None:                     # over the states
            for n, i in ns: out += [(n + " <= S", lambda ev, i=i: z3.ULE(i(ev), S)), ("state before %s copied" % n, lambda ev, i=i: z3.Implies(z3.UGT(i(ev), q), good(ev)))]
        else:                             # over the classes of state k
            out.append(("states before this one copied", lambda ev: z3.Implies(z3.UGT(k, q), good(ev))))
            if self.what == "flags": out.append(("the flags of this one copied", lambda ev: z3.Implies(k == q, good(ev))))
            for n, i in ns:
                out.append((n + " <= L", lambda ev, i=i: z3.ULE(i(ev), L)))
                if self.what != "flags": out.append(("entries before %s copied" % n, lambda ev, i=i: z3.Implies(z3.And(k == q, z3.UGT(i(ev), l)), good(ev))))
        return out

    def want(self):
        if self.what == "flags": return self.HEAD(self.q, bv(self.src.o["flags"]))
        d = self.dst
        t = self.addr(d, self.DEST(self.q, self.l))
        return simp(z3.Extract(31, 0, t - self.addr(d, self.q))) if d.w == 4 else t

    def wantl(self):
        s, d = self.src, self.dst
        return simp(word(s.lt, simp(s.lt.base + self.c * bv(2)), 2) + bv(d.H - s.H, 16))


def deepcopy(case):
    kind, conv, what = case
    D = Deep(kind, conv, what)
    e, s, d = D.e, D.src, D.dst
    j = z3.BitVec("j", 64)
    F = z3.ZeroExt(32, s.ftsize)
    e.facts += [z3.ULT(j, F * bv(8))]
    j2 = z3.BitVec("j2", 64)
    e.fact(z3.ULT(j2, s.S * bv(8)))
    rv, o = run1(e, D.st, "vc_deepconv" if conv else "vc_deepcopy", [ptr(d.r), ptr(s.r)])
    if what == "entry":
        e.oblige(o, "the entry of every state and class leads to the state of the same number", D.value(o) == D.want(), "post")
        e.oblige(o, "the class of every character is the same", D.LW.value(o, 0) == D.wantl(), "post")
        for k in ("states", "letters", "regexps", "ftsize"): e.oblige(o, k + " are the same", get(e, o, d.r, d.o[k], 32) == getattr(s, k), "post")
        e.oblige(o, "the initial state has the same number", get(e, o, d.r, d.o["initial"]) == D.addr(d, D.inits), "post")
        e.oblige(o, "the signature is that of the new kind", get(e, o, d.r, d.o["rsig"]) == bv(1 if d.w == 4 else 2), "post")
        e.oblige(o, "the final table is copied", d.read(o, d.ft, simp(d.ft.base + j), 1) == word(s.ft, simp(s.ft.base + j), 1), "post")
        e.oblige(o, "the final index is copied", d.read(o, d.fi, simp(d.fi.base + j2), 1) == word(s.fi, simp(s.fi.base + j2), 1), "post")
    else: e.oblige(o, "the flags of every state are the same", D.value(o) == D.want(), "post")
    cover(e, o)
    return e


def main():
    MS()
    for v in ALL: MM(v)
    K = ALL + ["simple", "loaded"]
    items = [Item("Swap", swap, [(k,) for k in K], ["Scanner::Swap", "SimpleScanner::Swap", "LoadedScanner::Swap", "DoSwap"]),
             Item("Alias", alias, [(k,) for k in K], ["Scanner::Alias", "SimpleScanner::Alias", "LoadedScanner::Alias"]),
             Item("Constructors", ctor, [(k, f, own) for k in ALL for f, own in (("copy", True), ("copy", False), ("move", True), ("move", False))] + [(k, "copy", False) for k in ("simple", "loaded")], ["Scanner::Scanner(const Scanner&)", "Scanner::Scanner(Scanner&&)"]),
             Item("Conversion", convert, [(k, own) for k in ALL for own in (True, False)], ["Scanner::Scanner(const Scanner<AnotherRelocation>&)"]),
             Item("Flat copy", flatcopy, [("simple",), ("loaded",)], ["SimpleScanner::SimpleScanner(const SimpleScanner&)", "LoadedScanner::LoadedScanner(const LoadedScanner&)"]),
             Item("DeepCopy", deepcopy, [(k, c, w) for k in ALL for c in (False, True) for w in ("entry", "flags")], ["Scanner::DeepCopy"], weight=3)]
    return run_check("C05", items, Harness("C05.cpp", 14, desc="histories of copies, assignments, swaps, moves, conversions, maps, loads and destructions of objects of every scanner type: each behaves like the scanner it descends from"),
                     assumptions=["row offsets fit 32 bits in the relocatable variants", "the SlowScanner's copy (vectors of vectors) is bounded", "assignment is copy and Swap (bounded)"],
                     notes="Two objects with arbitrary fields; DeepCopy is watched at an arbitrary state, class, character and byte.")
