"""Specification vocabulary shared by the properties: abstract scanners, texts with ghost functions."""
import functools, os, sys
import z3
import ir, driver
from sym import *
from driver import compile_ir


@functools.lru_cache(maxsize=None)
def module(tu, defines=(), flags=()):
    return compile_ir(tu, defines=defines, flags=flags)


class AbsScanner:
    """A scanner about which nothing is known: each method is an arbitrary function."""

    def __init__(self, k=1):
        n = str(k)
        self.cls = "vc::Scn<%d>" % k
        self.N = z3.Function("delta" + n, BV(64), BV(16), BV(64))
        self.A = z3.Function("action" + n, BV(64), BV(16), BV(32))
        self.T = z3.Function("take" + n, BV(64), BV(32), BV(64))
        self.F = z3.Function("final" + n, BV(64), z3.BoolSort())
        self.Dd = z3.Function("dead" + n, BV(64), z3.BoolSort())
        self.init = z3.BitVec("initial" + n, 64)

    def step(self, s, c): return self.T(self.N(s, c), self.A(s, c))

    def contracts(self):
        c = self.cls

        def nxt(e, st, a, inst):
            s = e.load(st, a[1], ir.I(64)).e
            e.store(st, a[1], V(self.N(s, a[2].e)), ir.I(64))
            return V(self.A(s, a[2].e))

        def take(e, st, a, inst):
            s = e.load(st, a[1], ir.I(64)).e
            e.store(st, a[1], V(e.canonical(simp(self.T(s, a[2].e)))), ir.I(64))
        return [Contract(c + "::Next(unsigned long&, unsigned short) const", nxt),
                Contract(c + "::TakeAction(unsigned long&, unsigned int) const", take),
                Contract(c + "::Final(unsigned long const&) const", lambda e, st, a, i: V(self.F(e.load(st, a[1], ir.I(64)).e))),
                Contract(c + "::Dead(unsigned long const&) const", lambda e, st, a, i: V(self.Dd(e.load(st, a[1], ir.I(64)).e))),
                Contract(c + "::Initialize(unsigned long&) const", lambda e, st, a, i: e.store(st, a[1], V(self.init), ir.I(64)))]


class Text:
    """The text between begin and end with ghost functions over positions (addresses):
        D(a)   the state of the scanner after the bytes before a        (D(begin) given)
        LF(a)  the last position in [begin,a] whose state is final, or 0
        FF(a)  the first position in [begin,a] whose state is final, or 0
    They are unfolded at every byte that is read (facts of the definition), and the lemmas below
    (proved separately by induction, item "lemmas") are instantiated at every such position."""
    # begin = B+i and end = E+j with B, E word-aligned; E = B, or E = B+8+L: together all alignments and lengths
    CASES = [(i, j, same) for i in range(8) for j in range(8) for same in (True, False) if not (same and j < i)]

    def __init__(self, eng, st, case, scanners=(), prefix=False, noexit=None, masks=None):
        i, j, same = case
        b0, L = z3.BitVec("B", 64), z3.BitVec("L", 64)
        Align.set(b0, 3); Align.set(L, 3)
        eng.facts += [b0 & bv(7) == 0, L & bv(7) == 0, z3.UGE(b0, bv(4096)), z3.ULE(b0, bv(1 << 46)), z3.ULE(L, bv(1 << 46))]
        e0 = b0 if same else b0 + bv(8) + L
        begin, end = simp(b0 + bv(i)), simp(e0 + bv(j))
        if j: e0 = e0 + bv(8)
        # the region is the words that the text touches: a read outside them is a failed obligation
        self.setup(eng, st, begin, end, b0, simp(e0 - b0), scanners, prefix, noexit, masks)

    @classmethod
    def words(cls, eng, st, case, scanners=(), **kw):
        """begin and end are word-aligned; case = (begin mod 16, end mod 16, short)"""
        i, j, same = case
        b0, L = z3.BitVec("B", 64), z3.BitVec("L", 64)
        Align.set(b0, 4); Align.set(L, 4)
        eng.facts += [b0 & bv(15) == 0, L & bv(15) == 0, z3.UGE(b0, bv(4096)), z3.ULE(b0, bv(1 << 46)), z3.ULE(L, bv(1 << 46))]
        e0 = b0 if same else b0 + bv(16) + L
        t = cls.__new__(cls)
        t.setup(eng, st, simp(b0 + bv(i)), simp(e0 + bv(j)), simp(b0 + bv(i)), simp(e0 + bv(j) - b0 - bv(i)), scanners, **kw)
        return t
    WCASES = [(i, j, same) for i in (0, 8) for j in (0, 8) for same in (True, False) if not (same and j < i)]

    @classmethod
    def backwards(cls, eng, st, scanners=(), **kw):
        """positions are addresses below: D(a) = state after the bytes above a have been read downwards"""
        e, n = z3.BitVec("R", 64), z3.BitVec("n", 64)
        eng.facts += [z3.UGE(e, bv(1 << 12)), z3.ULE(e, bv(1 << 46)), z3.ULE(n, bv(1 << 46))]
        t = cls.__new__(cls)
        # text = [rend+1, rbegin]; begin = rbegin = rend + n
        t.setup(eng, st, simp(e + n), e, simp(e + bv(1)), n, scanners, dir=-1, **kw)
        return t

    def setup(self, eng, st, begin, end, base, size, scanners, prefix=False, noexit=None, masks=None, dir=1):
        self.begin, self.end, self.dir = begin, end, dir
        self.prefix, self.noexit, self.masks = prefix, noexit, masks
        self.f = z3.Function("text", BV(64), BV(8))
        self.r = eng.new_region(st, "text", kind="bytes", base=base, size=size, init=UF(self.f), readonly=True)
        self.r.on_load = self.on_load
        self.D, self.done = [], {}
        self.scs = list(scanners)
        for k, sc in enumerate(self.scs): self.D.append(z3.Function("D%d" % k, BV(64), BV(64)))
        self.LF, self.FF = z3.Function("LF", BV(64), BV(64)), z3.Function("FF", BV(64), BV(64))
        eng.templates.append(self.templates)
        eng.havoc_hooks = list(eng.havoc_hooks) + [self.on_havoc]
        if prefix: self.start_facts(eng)
        if prefix or noexit is not None:
            self.point(eng, self.begin); self.point(eng, self.end)

    def never(self, eng, c):
        """a condition that the hypotheses about addresses refute"""
        c = simp(c)
        if z3.is_false(c): return True
        if z3.is_true(c): return False
        return eng.check([c], 1000) == z3.unsat

    def at_start(self, eng, s0, k=0):
        """the state at begin is s0"""
        eng.fact(self.D[k](self.begin) == s0)
        eng.define(s0, self.D[k](self.begin))

    def start_facts(self, eng):
        """the ghosts at begin"""
        sc, b = self.scs[0], self.begin
        if self.prefix != "first": eng.fact(self.LF(b) == z3.If(sc.F(self.D[0](b)), b, bv(0)))
        if self.prefix != "last": eng.fact(self.FF(b) == z3.If(sc.F(self.D[0](b)), b, bv(0)))

    def on_load(self, eng, st, p, n, ty):
        for i in range(n): self.unfold(eng, simp(p.e + bv(i)))
        return None

    def on_havoc(self, eng, st, vars_):
        for v in vars_:
            if v[0] in ("phi", "cell"):
                x = eng.getv(st, v)
                if x.prov is self.r and not isinstance(x.e, list):
                    self.point(eng, x.e)
                    if self.prefix: self.unfold(eng, simp(x.e - bv(self.dir)))

    def unfold(self, eng, a):
        k = (a.get_id(), len(eng.loop_facts))
        if k in self.done: return
        first_time = a.get_id() not in self.done
        self.done[k] = self.done[a.get_id()] = a
        n = simp(a + bv(self.dir))
        stop = simp(self.begin - bv(self.dir))      # the definitions hold everywhere except at begin
        never = self.never(eng, a == stop)
        g = (lambda f: f) if never else (lambda f: z3.Implies(a != stop, f))
        last, first = self.prefix and self.prefix != "first", self.prefix and self.prefix != "last"
        for D, sc in zip(self.D, self.scs):
            step = sc.step(D(a), self.byte(a))
            eng.fact(g(D(n) == step))
            if never: eng.define(step, D(n))
        if self.masks is not None and first_time: eng.fact(self.masks(self.D[0](a), self.byte(a)))
        if self.prefix:
            f = self.scs[0].F(self.D[0](n))
            if last:
                eng.fact(g(self.LF(n) == z3.If(f, n, self.LF(a))))
                if never: eng.define(z3.If(f, n, self.LF(a)), self.LF(n))
            if first:
                eng.fact(g(self.FF(n) == z3.If(self.FF(a) != 0, self.FF(a), z3.If(f, n, bv(0)))))
        if self.prefix or self.noexit is not None: self.point(eng, n)

    def inside(self, a):
        lo, hi = (self.begin, self.end) if self.dir == 1 else (self.end, self.begin)
        return z3.And(z3.ULE(lo, a), z3.ULE(a, hi))

    def point(self, eng, a):
        """Instances of the lemmas at position a."""
        k = ("p", a.get_id(), len(eng.loop_facts))
        if k in self.done: return
        self.done[k] = a
        inside = eng.decide(simp(self.inside(a)))
        if z3.is_false(inside): return
        for x in self.point_facts(a): eng.fact(z3.Implies(inside, x))

    def point_facts(self, a):
        sc, D, E = self.scs[0], self.D[0], self.end
        s, LF, FF = D(a), self.LF, self.FF
        out = []
        first, last = self.prefix and self.prefix != "last", self.prefix and self.prefix != "first"
        if self.prefix: out.append(z3.Implies(sc.Dd(s), z3.And(sc.Dd(D(E)), z3.Not(sc.F(s)), z3.Not(sc.F(D(E))))))
        if last: out.append(z3.Implies(sc.Dd(s), LF(E) == LF(a)))
        if first: out += [z3.Implies(sc.Dd(s), FF(E) == FF(a)), z3.Implies(FF(a) != 0, FF(E) == FF(a)), z3.Implies(FF(a) == 0, z3.Not(sc.F(s)))]
        if self.noexit is not None:
            ne = self.noexit(s)
            out.append(z3.Implies(ne, D(E) == s))
            if last: out.append(z3.Implies(ne, LF(E) == z3.If(z3.And(a != E, sc.F(s)), E, LF(a))))
            if first: out.append(z3.Implies(z3.And(ne, FF(a) == 0), FF(E) == 0))
        return out

    def byte(self, a): return z3.ZeroExt(8, self.f(a))

    def templates(self, eng, ctx):
        """variable = ghost(position): the position is a pointer variable, or derived from a counter."""
        out, ptrs, vs, cnt = [], [], [], []
        for v in ctx.vars:
            if v[0] not in ("phi", "cell"): continue
            h = eng.getv(ctx.hst, v)
            if not isinstance(h.e, z3.BitVecRef) or h.e.size() != 64: continue
            if h.prov is self.r: ptrs.append((vname(v), lambda ev, v=v: ev(v).e, eng.getv(ctx.entry, v).e))
            elif not (eng.opaque_cells and v[0] == "cell"): cnt.append(v)
            vs.append(v)
        base = [(n, f) for n, f, _ in ptrs]
        for v in cnt:
            for cn, c in ctx.consts:
                if c.prov is self.r:
                    base.append(("%s-%s" % (cn, vname(v)), lambda ev, v=v, c=c: c.e - ev(v).e))
                    base.append(("%s+%s" % (cn, vname(v)), lambda ev, v=v, c=c: c.e + ev(v).e))
        for cn, c in ctx.consts:
            if c.prov is self.r: base.append((cn, lambda ev, c=c: c.e))
        G = [("D%d" % k, D) for k, D in enumerate(self.D)]
        first, last = self.prefix and self.prefix != "last", self.prefix and self.prefix != "first"
        if last: G.append(("LF", self.LF))
        if first: G.append(("FF", self.FF))
        for v in vs:
            for pn, pf in base:
                for gn, g in G:
                    # a state is no pointer into the text, a position is no state
                    if eng.opaque_cells and gn[0] == "D" and eng.getv(ctx.hst, v).prov is self.r: continue
                    if eng.opaque_cells and gn[0] != "D" and v[0] == "phi" and eng.getv(ctx.hst, v).prov is self.r: continue
                    out.append(("%s = %s(%s)" % (vname(v), gn, pn), lambda ev, v=v, pf=pf, g=g: ev(v).e == g(pf(ev))))
        for n, f, e0 in ptrs:
            for k, D in enumerate(self.D):
                out.append(("D%d(%s) = D%d(init)" % (k, n, k), lambda ev, f=f, e0=e0, D=D: D(f(ev)) == D(e0)))
            if self.prefix:
                b, d = self.begin, bv(self.dir)
                F, D, LF, FF = self.scs[0].F, self.D[0], self.LF, self.FF
                if last:
                    for v in vs:
                        out.append(("%s = LF before %s" % (vname(v), n), lambda ev, v=v, f=f: ev(v).e == z3.If(f(ev) == b, bv(0), LF(f(ev) - d))))
                    out.append(("LF(%s) while looping" % n, lambda ev, f=f, e0=e0: LF(f(ev)) == z3.If(z3.And(f(ev) != e0, F(D(e0))), f(ev), LF(e0))))
                if first:
                    out.append(("FF before %s = 0" % n, lambda ev, f=f: z3.Or(f(ev) == b, FF(f(ev) - d) == 0)))
                    out.append(("FF(%s) = FF(init)" % n, lambda ev, f=f, e0=e0: FF(f(ev)) == FF(e0)))
                    out.append(("FF(%s) = 0" % n, lambda ev, f=f: FF(f(ev)) == 0))
        return out


def vname(v): return v[1] if isinstance(v[1], str) else "%s+%d" % (v[1][0].name, v[1][1]) if isinstance(v[1], tuple) else str(v[1])


def cell64(eng, st, name, e, prov=None):
    r = eng.new_region(st, name, 8)
    st.mem[r] = Cells({0: (8, V(e, prov))})
    return r


def ptr(r): return V(r.base, r)


def start(): return State(TRUE, {}, {})


def no_throw(eng, throws, name):
    for t in throws: eng.oblige(t, "%s does not throw" % name, FALSE, "post")


def cover(eng, st, name="precondition is satisfiable"):
    """Vacuity guard: this must NOT be provable."""
    if st is not None: eng.oblige(st, name, FALSE, "cover")


@functools.lru_cache(maxsize=None)
def ir_const(name):
    """Value of a Pire enumerator, from the real headers."""
    import subprocess, tempfile
    src = '#include <pire/defs.h>\nextern "C" const unsigned long vc_value = Pire::%s;\n' % name
    p = subprocess.run([driver.LLVM + "clang++", "-std=c++11", "-w", "-S", "-emit-llvm", "-I" + driver.VERIF + "/cfg", "-I" + driver.REPO, "-I" + driver.REPO + "/pire", "-x", "c++", "-", "-o", "-"],
                       input=src, capture_output=True, text=True)
    if p.returncode: raise driver.BuildError(p.stderr[:500])
    import re
    return int(re.search(r"vc_value = .*constant i64 (-?\d+)", p.stdout).group(1))


def onpaths(e, n):
    """The last n contracts keep a record that the claims read as a whole: returns a function that states that every call recorded happens on every path."""
    gs = []
    e.contracts[-n:] = [Contract(k.match, lambda e, st, a, i, k=k: (gs.append(st.g), k.apply(e, st, a, i))[1], k.name, k.trusted) for k in e.contracts[-n:]]

    def claim(o):
        for g in {g.sexpr(): g for g in gs if not z3.is_true(simp(g))}.values():
            e.oblige(o, "what is done is done on every path", g, "post", soft=True)
    return claim
