from lib import *
from framework import Item, Harness, run_check
from runspec import *
from runspec import item_fn, item_dorun, dorun_contract, Range, any_text

VARIANTS = {
    "reloc2": ("Relocatable", "ExitMasks<2>"), "nonreloc2": ("Nonrelocatable", "ExitMasks<2>"),
    "reloc1": ("Relocatable", "ExitMasks<1>"), "reloc3": ("Relocatable", "ExitMasks<3>"),
    "relocno": ("Relocatable", "NoShortcuts"), "nonrelocno": ("Nonrelocatable", "NoShortcuts"),
}


@functools.lru_cache(maxsize=None)
def mod(variant, sse=True):
    r, s = VARIANTS[variant]
    return compile_ir("masks.cpp", defines=("VC_RELOC=" + r, "VC_SHORT=" + s) + (("VC_MASKS",) if s != "NoShortcuts" else ()), flags=("-Xclang", "-disable-llvm-passes", "-fno-access-control") + (() if sse else ("-U__SSE2__", "-U__MMX__")))


def nmasks(variant):
    s = VARIANTS[variant][1]
    return int(s[10:-1]) if s.startswith("ExitMasks") else 0


NO_SHORTCUT, NO_EXIT = 1, 2


def fill(b):
    """the byte in every byte of a word"""
    return z3.Concat(*[b] * 8)


class MaskScanner(AbsScanner):
    """Scanner<Relocation, Shortcutting> through the contracts of its methods: Next() is an arbitrary function of
    (state, character), Final/Dead/masks arbitrary functions of the state, constrained only by the representation
    invariant that BuildShortcuts establishes (item BuildShortcuts)."""

    def __init__(self, k):
        AbsScanner.__init__(self, 1)
        self.k = k
        self.M = [z3.Function("mask%d" % i, BV(64), BV(64)) for i in range(k)]
        self.cls = "Pire::Impl::Scanner<"

    def step(self, s, c): return self.N(s, c)

    def dead_axiom(self, s, c):
        n = self.step(s, c)
        return z3.Implies(self.Dd(s), z3.And(z3.Not(self.F(s)), self.Dd(n), z3.Not(self.F(n))))

    def inv(self, s, c):
        """representation invariant at state s and byte c: a byte on which s leaves is one of its masks"""
        if not self.k: return TRUE
        b = z3.Extract(7, 0, c)
        return z3.Or(self.M[0](s) == bv(NO_SHORTCUT), self.N(s, c) == s,
                     z3.And(self.M[0](s) != bv(NO_EXIT), z3.Or(*[m(s) == fill(b) for m in self.M])))

    def noexit(self, s): return self.M[0](s) == bv(NO_EXIT) if self.k else FALSE

    def contracts(self, run=True):
        m = lambda suffix: lambda d: d.startswith("Pire::Impl::Scanner<") and d.endswith(suffix)

        def nxt(e, st, a, inst):
            s = e.load(st, a[1], ir.I(64)).e
            e.fact(self.dead_axiom(s, a[2].e))
            e.store(st, a[1], V(self.N(s, a[2].e)), ir.I(64))
            return V(bv(0, 32))
        out = [Contract(m(">::Next(unsigned long&, unsigned short) const"), nxt, "Next(s,c): s' = delta(s,c), action 0 [C04]"),
               Contract(m(">::Final(unsigned long const&) const"), lambda e, st, a, i: V(self.F(e.load(st, a[1], ir.I(64)).e)), "Final(s) is a function of s [C04]"),
               Contract(m(">::Dead(unsigned long const&) const"), lambda e, st, a, i: V(self.Dd(e.load(st, a[1], ir.I(64)).e)), "Dead(s) is a function of s [C04]")]
        if self.k:
            out += [Contract(lambda d: "::NoExit<" in d, lambda e, st, a, i: V(self.M[0](a[1].e) == bv(NO_EXIT)), "NoExit(s) = (mask0(s) == 2) [item masks]"),
                    Contract(lambda d: "::NoShortcut<" in d, lambda e, st, a, i: V(self.M[0](a[1].e) == bv(NO_SHORTCUT)), "NoShortcut(s) = (mask0(s) == 1) [item masks]")]
        return out


SKIP = z3.Function("skip_end", BV(64), BV(64), BV(64))


def skip_contract(t, sc, mt=None):
    """ExitMasks::Run(scanner, state, alignOffset, begin, end) [proved by item ExitMasks::Run]: returns a position between
    begin and end, a whole number of blocks after begin, such that no byte before it leaves the state."""
    def ap(e, st, a, inst):
        s, b, en = a[1].e, a[3].e, a[4].e
        p = e.fresh("skip", 64)
        Align.set(p, 4)
        e.oblige(st, "a shortcut is taken only in a state that has one", z3.And(sc.M[0](s) != bv(NO_SHORTCUT), sc.M[0](s) != bv(NO_EXIT)), "pre")
        e.oblige(st, "a shortcut starts in the state of its position", s == t.D[0](b), "pre")
        if mt is not None: e.oblige(st, "the alignment offset makes the masks of this state aligned", ((s + (a[2].e << 3)) & bv(15)) == 0, "pre")
        e.oblige(st, "shortcut range is block-aligned", z3.And((b & bv(15)) == 0, (en & bv(15)) == 0, z3.ULE(b, en)), "pre")
        e.fact(z3.Implies(st.g, z3.And(z3.ULE(b, p), z3.ULE(p, en), (p & bv(15)) == 0)))
        e.fact(z3.Implies(st.g, t.D[0](p) == s))
        for g in skipped(t, sc, b, p): e.fact(z3.Implies(st.g, g))
        t.point(e, p)
        return V(p, t.r)
    return Contract(lambda d: "const* Pire::Impl::ExitMasks<" in d and ">::Run<" in d, ap, "ExitMasks::Run skips only bytes that keep the state [item ExitMasks::Run]")


def skipped(t, sc, b, p):
    """what the ghosts are at p when every byte of [b,p) keeps the state of b"""
    D, F = t.D[0], sc.F
    out = [D(p) == D(b)]
    if t.prefix == "last": out.append(t.LF(p) == z3.If(z3.And(p != b, F(D(b))), p, t.LF(b)))
    if t.prefix == "first": out.append(t.FF(p) == z3.If(t.FF(b) != 0, t.FF(b), z3.If(z3.And(p != b, F(D(b))), b + bv(1), bv(0))))
    return out


def shortcut_templates(sc):
    def tm(eng, ctx):
        out = []
        ws = [v for v in ctx.vars if v[0] in ("phi", "cell")]
        def kind(v):
            x = eng.getv(ctx.hst, v).e
            return None if isinstance(x, list) else "b" if z3.is_bool(x) else x.size()
        for v in ws:
            if kind(v) not in ("b", 8): continue
            for w in ws:
                if kind(w) != 64 or eng.getv(ctx.hst, w).prov is not None: continue
                out.append(("%s or the state has a shortcut (%s)" % (vname(v), vname(w)),
                            lambda ev, v=v, w=w: z3.Or(ev(v).e if z3.is_bool(ev(v).e) else z3.Extract(0, 0, ev(v).e) == bv(1, 1), sc.M[0](ev(w).e) != bv(NO_SHORTCUT))))
        return out
    return tm


@functools.lru_cache(maxsize=None)
def ir_off(variant):
    """offset of m_transitions, read off the real code"""
    e = Engine(mod(variant), [])
    st = start()
    r = e.new_region(st, "scanner", 256, readonly=True)
    offs = []
    r.on_load = lambda eng, st, p, n, ty: offs.append(conc(simp(p.e - r.base))) if n == 8 else None
    out = cell64(e, st, "out", bv(0))
    e.call_function(e.find("vc_layout"), [ptr(r), ptr(out)], st, top=True)
    return offs[-1]


def aligned(variant):
    """prep for item_fn(RunAligned): the contracts of the shortcut functions and the invariants they need"""
    sc = MaskScanner(nmasks(variant))

    def prep(e, st, t, rg):
        # m_transitions of the scanner; rows are a whole number of 16-byte blocks apart (item RowSize of C04), so every
        # state is congruent to it
        mt = z3.BitVec("m_transitions", 64)
        e.fact((mt & bv(7)) == 0)
        off = ir_off(variant)
        r = e.new_region(st, "scanner", 256, readonly=True)
        st.mem[r] = Cells({off: (8, V(mt))})
        t.scanner = r
        ax = sc.dead_axiom
        e.contracts.append(skip_contract(t, sc, mt))
        cong = lambda s: ((s - mt) & bv(15)) == 0
        for c in e.contracts:
            if c.name and c.name.startswith("ExitMasks::Run"):
                ap = c.apply
                def ap2(e, st, a, inst, ap=ap):
                    e.fact(cong(a[1].e))
                    return ap(e, st, a, inst)
                c.apply = ap2
        if sc.k: e.templates.append(shortcut_templates(sc))
    return sc, prep


def runaligned(variant, kind):
    sc, prep = aligned(variant)
    return item_fn(lambda: mod(variant), [sc], kind, "RunAligned", sel=lambda d: "AlignedRunner" in d and "Pire::Impl::Scanner<" in d, noexit=sc.noexit if sc.k else None, prep=prep)


al = {(v, k): runaligned(v, k) for v in VARIANTS for k in ("run", "longest", "shortest")}

def mask_addr_contract(sc, W):
    """hdr.Mask(i, alignOffset): a Word-aligned Word, all of whose size_t's are mask i [items Mask(i, alignOffset), SetMask]"""
    def ap(e, st, a, inst):
        i = conc(a[1].e)
        e.oblige(st, "mask index in range", bv(1, 1) == bv(1 if i is not None and i < sc.k else 0, 1), "pre")
        e.oblige(st, "aligned mask address", ((a[0].e + (a[2].e << 3)) & bv(W - 1)) == 0, "pre")
        r = e.new_region(st, "mask%d" % i, W, readonly=True)
        m = sc.M[i](a[0].e)
        st.mem[r] = Cells({8 * k: (8, V(m)) for k in range(W // 8)})
        return ptr(r)
    return Contract(lambda d: d.endswith("::Mask(unsigned long, unsigned long) const"), ap, "hdr.Mask(i, alignOffset) [items Mask(i, off), SetMask]")


def mask_contract(sc):
    def ap(e, st, a, inst):
        i = conc(a[1].e)
        if i is None or i >= sc.k: raise Unmodelled("mask index")
        return V(sc.M[i](a[0].e))
    return Contract(lambda d: d.endswith("::Mask(unsigned long) const"), ap, "hdr.Mask(i) [item SetMask]")


def check_n(d):
    import re
    m = re.search(r", (\d+)u>::Check\(", d)
    return int(m.group(1)) if m else None


def check_fn(variant, sse):
    """MaskCheckerBase<N>::Check(hdr, off, chunk): true only if no byte of the chunk is a byte of masks 0..N"""
    sc = MaskScanner(nmasks(variant))
    W = 16 if sse else 8

    def run(case):
        n = case[0]
        e = Engine(mod(variant, sse), [mask_addr_contract(sc, W)])
        st = start()
        f = e.find(lambda d: check_n(d) == n)
        if f is None: return None
        h, off, ch = z3.BitVec("hdr", 64), z3.BitVec("off", 64), z3.BitVec("chunk", 8 * W)
        e.fact(((h + (off << 3)) & bv(W - 1)) == 0)
        rv, out, th = e.call_function(f, [V(h), V(off), V(ch)], st, top=True)
        e.stack.append(f)
        no_throw(e, th, "Check")
        for i in range(n + 1):
            m = z3.Concat(*[sc.M[i](h)] * 2) if W == 16 else sc.M[i](h)
            hit = z3.Or(*[z3.Extract(8 * j + 7, 8 * j, m) == z3.Extract(8 * j + 7, 8 * j, ch) for j in range(W)])
            e.oblige(out, "Check is false when a byte of the chunk is one of mask %d" % i, z3.Implies(rv.e, z3.Not(hit)), "post")
        cover(e, out)
        return e
    return run


def skip(variant, sse=True):
    """ExitMasks::Run from the contracts of Check and Mask and the representation invariant"""
    sc = MaskScanner(nmasks(variant))
    W = 16 if sse else 8

    def run(case):
        e = Engine(mod(variant, sse), [mask_contract(sc)]); e.opaque_cells = True
        st = start()
        for n in range(sc.k):
            def ap(e, st, a, inst, n=n):
                s, ch = a[0].e, a[2].e
                e.oblige(st, "aligned mask address", ((s + (a[1].e << 3)) & bv(W - 1)) == 0, "pre")
                r = e.fresh("checked", 1)
                for j in range(W):
                    b = simp(z3.Extract(8 * j + 7, 8 * j, ch))
                    e.fact(z3.Implies(z3.And(st.g, r), z3.And(*[sc.M[i](s) != fill(b) for i in range(n + 1)])))
                return V(r)
            e.contracts.append(Contract(lambda d, n=n: check_n(d) == n, ap, "MaskCheckerBase<%d>::Check [item Check]" % n))
        b, n = z3.BitVec("begin", 64), z3.BitVec("n", 64)
        lg = 4 if W == 16 else 3
        Align.set(b, lg); Align.set(n, lg)
        e.facts += [z3.UGE(b, bv(4096)), z3.ULE(b, bv(1 << 46)), z3.ULE(n, bv(1 << 46)), b & bv(W - 1) == 0, n & bv(W - 1) == 0]
        t = Text.__new__(Text)
        t.setup(e, st, b, simp(b + n), b, n, [sc])
        D = t.D[0]
        s, off = z3.BitVec("s", 64), z3.BitVec("off", 64)
        t.at_start(e, s)
        e.facts += [((s + (off << 3)) & bv(W - 1)) == 0, sc.M[0](s) != bv(NO_SHORTCUT), sc.M[0](s) != bv(NO_EXIT)]
        # representation invariant of s: equal neighbouring masks are the filling at the end
        for i in range(sc.k - 1):
            e.fact(z3.Implies(sc.M[i](s) == sc.M[i + 1](s), z3.And(*[sc.M[j](s) == sc.M[i](s) for j in range(i + 1, sc.k)])))
        def inv(eng, st, p, nb, ty):
            for j in range(nb):
                x, nx = simp(p.e + bv(j)), simp(p.e + bv(j + 1))
                e.fact(sc.inv(s, t.byte(x)))
                e.fact(K(nx) == z3.And(K(x), D(nx) == s))
            return t.on_load(eng, st, p, nb, ty)
        # ghost: every position from begin to x has the state of begin
        K = z3.Function("kept", BV(64), z3.BoolSort())
        e.fact(K(b))

        def kept(eng, ctx):
            return [("every position from begin to %s has the state of begin" % vname(v), lambda ev, v=v: K(ev(v).e)) for v in ctx.vars if v[0] == "phi" and eng.getv(ctx.hst, v).prov is t.r]
        e.templates.append(kept)
        t.r.on_load = inv
        r = scanner_region(e, st)
        f = e.find("vc_mask_run")
        rv, out, th = e.call_function(f, [ptr(r), V(s), V(off), V(t.begin, t.r), V(t.end, t.r)], st, top=True)
        e.stack.append(f)
        no_throw(e, th, "ExitMasks::Run")
        p = rv.e
        e.oblige(out, "the skip ends within the range", z3.And(z3.ULE(t.begin, p), z3.ULE(p, t.end)), "post")
        e.oblige(out, "the skip is a whole number of blocks", (p & bv(W - 1)) == 0, "post")
        e.oblige(out, "every skipped byte keeps the state", K(p), "post")
        cover(e, out)
        return e
    return run


def hdr_setup(e, st, k, name="hdr", ro=False):
    """a row header: 4*k mask words and the flags word, arbitrary contents"""
    r = e.new_region(st, name, 32 * k + 8, readonly=ro, align=8)
    ws = [z3.BitVec("%s_w%d" % (name, i), 64) for i in range(4 * k + 1)]
    st.mem[r] = Cells({8 * i: (8, V(w)) for i, w in enumerate(ws)})
    return r, ws


def header(variant):
    k = nmasks(variant)

    def run(case):
        name = case[0]
        e = Engine(mod(variant), [])
        e.UNROLL_SYM = 5
        st = start()
        r, w = hdr_setup(e, st, k)
        f = e.find(name)
        if f is None: return None
        v = z3.BitVec("v", 64)
        word = lambda o, i: e.load(o, V(simp(r.base + bv(8 * i)), r), ir.I(64)).e

        def masks(o, want, frame=True):
            """mask i is want[i] in all its words, the others are unchanged; flags unchanged"""
            for i in range(k):
                for j in range(4):
                    x = word(o, 4 * i + j)
                    if i in want: e.oblige(o, "%s: word %d of mask %d" % (name[3:], j, i), x == want[i], "post")
                    else: e.oblige(o, "%s leaves word %d of mask %d alone" % (name[3:], j, i), x == w[4 * i + j], "post")
            if frame: e.oblige(o, name[3:] + " leaves the flags alone", word(o, 4 * k) == w[4 * k], "post")
        if name == "vc_mask":
            i = case[1]
            rv, out, th = e.call_function(f, [ptr(r), V(bv(i))], st, top=True)
            e.oblige(out, "Mask(%d) is the first word of the mask" % i, rv.e == w[4 * i], "post")
        elif name == "vc_mask_at":
            i, off = case[1:]
            e.fact((r.base & bv(15)) == bv(8 * (off % 2)))
            rv, out, th = e.call_function(f, [ptr(r), V(bv(i)), V(bv(off))], st, top=True)
            e.oblige(out, "Mask(%d, %d) is aligned" % (i, off), (rv.e & bv(15)) == 0, "post")
            e.oblige(out, "Mask(%d, %d) lies within mask %d" % (i, off, i), z3.And(z3.UGE(rv.e, r.base + bv(32 * i)), z3.ULE(rv.e + bv(16), r.base + bv(32 * i + 32))), "post")
        elif name == "vc_setmask_raw":
            i = case[1]
            rv, out, th = e.call_function(f, [ptr(r), V(bv(i)), V(v)], st, top=True)
            masks(out, {i: v})
        elif name == "vc_setmask":
            i = case[1]
            c = z3.BitVec("c", 8)
            rv, out, th = e.call_function(f, [ptr(r), V(bv(i)), V(c)], st, top=True)
            masks(out, {i: fill(c)})
        elif name in ("vc_set_noexit", "vc_set_noshortcut"):
            rv, out, th = e.call_function(f, [ptr(r)], st, top=True)
            masks(out, {0: bv(NO_EXIT if name == "vc_set_noexit" else NO_SHORTCUT)} if k else {})
        elif name == "vc_finish":
            i = case[1]
            rv, out, th = e.call_function(f, [ptr(r), V(bv(i))], st, top=True)
            j = max(i, 1)
            masks(out, {m: w[4 * (j - 1)] for m in range(j, k)})
        elif name == "vc_hdr_ctor":
            rv, out, th = e.call_function(f, [ptr(r)], st, top=True)
            masks(out, {i: bv(NO_SHORTCUT) for i in range(k)}, frame=False)
            e.oblige(out, "a new header has no flags", word(out, 4 * k) == 0, "post")
        else:
            r2, w2 = hdr_setup(e, st, k, "src", True)
            # the masks of the source are as SetMask leaves them
            for i in range(k): e.facts += [w2[4 * i + j] == w2[4 * i] for j in range(1, 4)]
            rv, out, th = e.call_function(f, [ptr(r), ptr(r2)], st, top=True)
            masks(out, {i: w2[4 * i] for i in range(k)}, frame=False)
            e.oblige(out, "assignment copies the flags", word(out, 4 * k) == w2[4 * k], "post")
        e.stack.append(f)
        no_throw(e, th, name[3:])
        cover(e, out)
        return e
    return run


def header_cases(k):
    c = [("vc_mask", i) for i in range(k)] + [("vc_mask_at", i, o) for i in range(k) for o in (0, 1)] + [("vc_setmask_raw", i) for i in range(k)]
    c += [("vc_setmask", i) for i in range(k)] + [("vc_finish", i) for i in range(k + 1)] if k else []
    return c + [("vc_set_noexit",), ("vc_set_noshortcut",), ("vc_hdr_assign",), ("vc_hdr_assign_n",)] + ([("vc_hdr_ctor",)] if k else [])


def small(variant):
    sc = MaskScanner(nmasks(variant))

    def run(case):
        name = case[0]
        e = Engine(mod(variant), [mask_contract(sc)])
        st = start()
        f = e.find(name)
        if f is None: return None
        r = scanner_region(e, st)
        s, c = z3.BitVec("s", 64), z3.BitVec("c", 8)
        args, want = {
            "vc_noexit": lambda: ([ptr(r), V(s)], sc.noexit(s)),
            "vc_noshortcut": lambda: ([ptr(r), V(s)], sc.M[0](s) == bv(NO_SHORTCUT) if sc.k else TRUE),
            "vc_fill": lambda: ([V(c)], fill(c)),
        }[name]()
        rv, out, th = e.call_function(f, args, st, top=True)
        e.stack.append(f)
        no_throw(e, th, name[3:])
        e.oblige(out, name[3:] + " meets its contract", rv.e == want, "post")
        cover(e, out)
        return e
    return run


def lemmas(case):
    """the ghost lemmas used for NoExit states and skips, by induction (backwards from the end / forwards from a position)"""
    sc = MaskScanner(1)
    e = Engine(mod("reloc2"), [])
    D, LF, FF = z3.Function("D0", BV(64), BV(64)), z3.Function("LF", BV(64), BV(64)), z3.Function("FF", BV(64), BV(64))
    byte = z3.Function("text", BV(64), BV(8))
    a, E, b = z3.BitVec("a", 64), z3.BitVec("E", 64), z3.BitVec("b", 64)
    n = a + bv(1)
    c = z3.ZeroExt(8, byte(a))
    F = sc.F
    e.facts += [z3.UGE(b, bv(4096)), z3.ULE(b, bv(1 << 48)), z3.UGE(E, bv(4096)), z3.ULE(E, bv(1 << 48))]
    unfold = [D(n) == sc.step(D(a), c), LF(n) == z3.If(F(D(n)), n, LF(a)), FF(n) == z3.If(FF(a) != 0, FF(a), z3.If(F(D(n)), n, bv(0)))]

    def L(x):
        ne = sc.noexit(D(x))
        return [("a state without exits holds up to the end", z3.Implies(ne, D(E) == D(x))),
                ("last final position after a state without exits", z3.Implies(ne, LF(E) == z3.If(z3.And(x != E, F(D(x))), E, LF(x)))),
                ("first final position after a state without exits", z3.Implies(z3.And(ne, FF(x) == 0), FF(E) == 0))]
    for nm, f in L(E): e.oblige(State(TRUE, {}, {}), "base: " + nm, f, "lemma")
    ffwf = z3.Implies(FF(a) == 0, z3.Not(F(D(a))))
    # representation invariant with mask 2 (no exit): every byte keeps the state
    hyp = And(z3.ULE(b, a), z3.ULT(a, E), *unfold, z3.Implies(sc.noexit(D(a)), sc.inv(D(a), c)), ffwf, *[f for _, f in L(n)])
    for nm, f in L(a): e.oblige(State(hyp, {}, {}), "step: " + nm, f, "lemma")
    cover(e, State(hyp, {}, {}), "induction hypothesis is satisfiable")
    # kept(x): every position from b to x has the state of b; what the other ghosts are at such an x (skipped())
    K = z3.Function("kept", BV(64), z3.BoolSort())

    class T: pass
    t = T(); t.D, t.LF, t.FF = [D], LF, FF
    ffb = z3.Implies(FF(b) == 0, z3.Not(F(D(b))))

    def S(x):
        for pr in ("last", "first"):
            t.prefix = pr
            for i, g in enumerate(skipped(t, sc, b, x)):
                if i or pr == "last": yield ("skip: " + ("state", {"last": "last final position", "first": "first final position"}[pr])[i], z3.Implies(K(x), g))
    for nm, f in S(b): e.oblige(State(ffb, {}, {}), "base: " + nm, f, "lemma")
    hyp = And(z3.ULE(b, a), z3.ULT(a, E), *unfold, ffb, z3.ULE(E, bv(1 << 48)), K(n) == z3.And(K(a), D(n) == D(b)), *[f for _, f in S(a)])
    for nm, f in S(n): e.oblige(State(hyp, {}, {}), "step: " + nm, f, "lemma")
    cover(e, State(hyp, {}, {}), "induction hypothesis is satisfiable")
    return e


skips = {(v, sse): skip(v, sse) for v in VARIANTS if nmasks(v) for sse in (True, False)}
checks = {(v, sse): check_fn(v, sse) for v in VARIANTS if nmasks(v) for sse in (True, False)}
headers = {v: header(v) for v in VARIANTS}
smalls = {v: small(v) for v in VARIANTS}
sk_reloc2, ch_reloc2, hd_reloc2, sm_reloc2 = skips["reloc2", True], checks["reloc2", True], headers["reloc2"], smalls["reloc2"]
sk_basic, ch_basic = skips["reloc2", False], checks["reloc2", False]
single = lambda d: "Pire::Impl::Scanner<" in d
fns = {f: item_fn(lambda: mod("reloc2"), [MaskScanner(2)], "run", f, sel=single) for f in ("SafeRunChunk", "RunChunk")}
dorun = item_dorun(lambda: mod("reloc2"), [MaskScanner(2)], "run", sel=single)
for (_v, _k), _f in al.items(): globals()["al_%s_%s" % (_v, _k)] = _f


def main():
    items = []
    for (v, k), f in al.items():
        quick = v in ("reloc2", "relocno") or (v, k) == ("nonreloc2", "run")
        items.append(Item("RunAligned %s %s" % (v, k), f, [()], ["Impl::AlignedRunner<Scanner<%s,%s>>::RunAligned" % VARIANTS[v], "Impl::MultiChunk::Process"], weight=9, thorough_only=not quick))
    for (v, sse), f in skips.items():
        quick = v == "reloc2" or (v, sse) == ("reloc3", True)
        items.append(Item("ExitMasks::Run %s%s" % (v, "" if sse else " without SSE"), f, [()], ["Impl::%s::Run" % VARIANTS[v][1], "ExitMasks::MaskChecker::Run", "ExitMasks::MaskCheckerBase::DoRun"], weight=6, thorough_only=not quick))
    for (v, sse), f in checks.items():
        items.append(Item("Check %s%s" % (v, "" if sse else " without SSE"), f, [(n,) for n in range(nmasks(v))], ["ExitMasks::MaskCheckerBase::Check", "%s::CheckBytes/Or/IsAnySet" % ("AvailSSE2" if sse else "BasicInstructionSet")], thorough_only=v in ("nonreloc2",)))
    for v, f in headers.items():
        items.append(Item("row header %s" % v, f, header_cases(nmasks(v)), ["ExtendedRowHeader::SetMask/Mask/operator=", "ExitMasks::SetNoExit/SetNoShortcut/SetMask/FinishMasks", "FillSizeT"], thorough_only=v in ("reloc1", "nonrelocno")))
    for v, f in smalls.items():
        items.append(Item("NoExit/NoShortcut %s" % v, f, [("vc_noexit",), ("vc_noshortcut",), ("vc_fill",)], ["NoExit", "NoShortcut", "FillSizeT"]))
    for n, f in fns.items(): items.append(Item("%s (Scanner)" % n, f, [(i,) for i in range(8)] if n == "RunChunk" else [()], ["Impl::%s<Scanner>" % n], weight=3))
    items += [Item("DoRun (Scanner)", dorun, [()], ["Impl::DoRun<Scanner>"]),
              Item("lemmas", lemmas, [()], ["induction lemmas about states without exits and about skips"])]
    for v in VARIANTS: mod(v)
    mod("reloc2", False)
    return run_check("C02", items, Harness("C02.cpp", 20, desc="every mask count, byte position in word and block, table alignment, no-exit and dead states, against byte-by-byte stepping; page-guarded texts"),
                     assumptions=["Scanner::Next/Final/Dead are functions of (state, character); action 0 (C04)",
                                  "representation invariant of the masks that BuildShortcuts establishes: a byte on which a state leaves is one of its masks, equal neighbouring masks are the filling at the end (bounded: harness C02)",
                                  "m_transitions is 8-aligned and every state is congruent to it modulo 16 (Markup and RowSize, C04)",
                                  "RunAligned's outer loop: partial correctness (no measure inferred)"],
                     notes="Loads through the text are checked against the words that the text touches. The skip, the mask comparison, the header accessors and the aligned runner each have their own contract.")
