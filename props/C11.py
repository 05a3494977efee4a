from multi import *
from C04 import run1, b
from framework import Item, Harness, run_check

GV = {"reloc": (), "reloc-nomask": ("SC=Pire::ScannerNoMask",), "nonreloc": ("SC=Pire::NonrelocScanner",), "nonreloc-nomask": ("SC=Pire::NonrelocScannerNoMask",)}
ALL = list(GV)
TASK = "Pire::Impl::ScannerGlueTask<"
MINUS1 = bv((1 << 64) - 1)


def MG(v): return module("glue.cpp", GV[v], NI)


def eng(variant):
    e = Engine(MG(variant), [])
    e.cut_hint = lambda f, L: "cut"
    e.use_iter = False; e.opaque_cells = True; e.generic = False
    return e, start()


def tr(n): return lambda d: d.startswith("Pire::Impl::Scanner<") and n in d


def words(n): return z3.Concat(z3.BitVecVal(0, 61 - n.size()), n, z3.BitVecVal(0, 3))


class Parts:
    """The two scanners being glued, each known by its contracts: next state, final, dead, list of accepted regexps of a state (C04)."""

    def __init__(self, e, st):
        self.e = e
        self.lhs, self.rhs, self.task = [e.new_region(st, n, 1024, readonly=True) for n in ("lhs", "rhs", "task")]
        F = lambda n, *s: [z3.Function(n + x, *s) for x in ("_lhs", "_rhs")]
        self.N = F("next", BV(64), BV(16), BV(64))
        self.Fin, self.Dead = F("final", BV(64), z3.BoolSort()), F("dead", BV(64), z3.BoolSort())
        self.lo, n31 = F("list", BV(64), BV(64)), F("listLen", BV(64), BV(30))
        self.n = [lambda s, k=k: z3.ZeroExt(34, n31[k](s)) for k in (0, 1)]
        self.nb = [lambda s, k=k: words(n31[k](s)) for k in (0, 1)]       # in bytes
        self.hi = [lambda s, k=k: simp(self.lo[k](s) + self.nb[k](s)) for k in (0, 1)]
        self.W, self.LW, self.lists = F("listed", BV(64), BV(64)), F("number", BV(64), BV(64), BV(64)), {}
        self.cnt = z3.BitVecs("regexps_lhs regexps_rhs", 64)
        for c in self.cnt: e.fact(z3.ULE(c, bv((1 << 31) - 1)))
        self.ft = []
        for k, nm in enumerate(("lhs_final", "rhs_final")):
            r = e.new_region(st, nm, kind="bytes", size=bv(1 << 40), init=UF(z3.Function(nm, BV(64), BV(8))), readonly=True)
            r.on_load = lambda e, st, p, n, ty, k=k: V(self.W[k](simp(p.e)))
            self.ft.append(r)
        self.side = lambda p: 0 if p.prov is self.lhs else 1 if p.prov is self.rhs else self.unknown()

        def nx(e, st, a, i):
            s = e.load(st, a[1], ir.I(64)).e
            e.store(st, a[1], V(self.N[self.side(a[0])](s, a[2].e)), ir.I(64))
            return V(bv(0, 32))

        def query(fs):
            return lambda e, st, a, i: V(fs[self.side(a[0])](e.load(st, a[1], ir.I(64)).e))
        for c in (TASK[:-len("Task<")] + "Common<",):
            e.contracts += [Contract(lambda d, c=c: d.startswith(c) and d.endswith("::Lhs() const"), lambda e, st, a, i: ptr(self.lhs), "Lhs"),
                            Contract(lambda d, c=c: d.startswith(c) and d.endswith("::Rhs() const"), lambda e, st, a, i: ptr(self.rhs), "Rhs")]
        e.contracts += [Contract(tr("::Next(unsigned long&, unsigned short) const"), nx, "Scanner::Next [C04]"),
                        Contract(tr("::Final(unsigned long const&) const"), query(self.Fin), "Scanner::Final [C04]"),
                        Contract(tr("::Dead(unsigned long const&) const"), query(self.Dead), "Scanner::Dead [C04]"),
                        Contract(tr("::AcceptedRegexps(unsigned long const&) const"), self.accepted, "Scanner::AcceptedRegexps [C04]"),
                        Contract(tr("::RegexpsCount() const"), lambda e, st, a, i: V(self.cnt[self.side(a[0])]), "Scanner::RegexpsCount")]

    def unknown(self): raise Unmodelled("a scanner that is neither of the parts")

    def shape(self, k, s):
        """a list is a range of words in its scanner's final table"""
        r = self.ft[k]
        return z3.And(z3.UGE(self.lo[k](s), r.base), z3.ULE(self.lo[k](s), r.base + bv(1 << 39)), (self.lo[k](s) - r.base) & bv(7) == 0)

    def accepted(self, e, st, a, i):
        k, s = self.side(a[0]), e.load(st, a[1], ir.I(64)).e
        e.fact(self.shape(k, s))
        self.lists[k, simp(self.lo[k](s)).get_id()] = (s, self.lo[k](s))
        return V([V(self.lo[k](s), self.ft[k]), V(self.hi[k](s), self.ft[k])])


def pair_call(e, st, fn, task, p=None, q=None, ch=None):
    """call a function of a pair state, whatever the calling convention; the resulting pair"""
    f = e.find(fn)
    out, src, a = None, obj(e, st, "state", 16, {0: (8, V(p)), 8: (8, V(q))}) if p is not None else None, []
    for ty, nm, at_ in f.params:
        if any(x.startswith("sret") for x in at_): out = obj(e, st, "result", 16, {}); a.append(ptr(out))
        elif ty.k == "ptr": a.append(ptr(src) if any(x.startswith("byval") for x in at_) or any(x.prov is task for x in a) else ptr(task))
        elif ty.k == "int" and ty.n == 16: a.append(V(ch))
        elif ty.k == "int" and ty.n == 64: a.append(V(p if not any(z3.is_expr(x.e) and x.e.eq(p) for x in a) else q))
        else: raise Unmodelled("parameter of the joint step")
    rv, o = run1(e, st, fn, a)
    if out is not None: return get(e, o, out, 0), get(e, o, out, 8), o
    return rv.e[0].e, rv.e[1].e, o


def next_(case):
    """a joint state moves by moving its components on the same letter; it starts with the initial states"""
    e, st = eng(case[0])
    P = Parts(e, st)
    p, q, ch = z3.BitVec("p", 64), z3.BitVec("q", 64), z3.BitVec("c", 16)
    x, y, o = pair_call(e, st, "vc_gnext", P.task, p, q, ch)
    e.oblige(o, "left component moves on the letter", x == P.N[0](p, ch), "post")
    e.oblige(o, "right component moves on the letter", y == P.N[1](q, ch), "post")
    cover(e, o)
    i = z3.BitVecs("i1 i2", 64)
    for r, v in zip((P.lhs, P.rhs), i): o.mem[r] = Cells({gconst(e.m, "vc_off_initial"): (8, V(v))})
    x, y, o = pair_call(e, o, "vc_ginitial", P.task)
    e.oblige(o, "the joint initial state is the pair of initial states", z3.And(x == i[0], y == i[1]), "post")
    return e


def equal(case):
    """two characters share a joint class exactly when they share one in both parts"""
    e, st = eng(case[0])
    A, B = z3.BitVecs("a b", 16)
    m = gconst(e.m, "vc_max_char")
    e.facts += [z3.ULT(x, bv(m, 16)) for x in (A, B)]
    t = [table(e, st, n, bv(m * 2)) for n in ("lhs_letters", "rhs_letters")]
    q = obj(e, st, "equality", gconst(e.m, "vc_size_leq"), {})
    rv, o = run1(e, st, "vc_leqnew", [ptr(q), ptr(t[0]), ptr(t[1])])
    rv, o = run1(e, o, "vc_leq", [ptr(q), V(A), V(B)])
    w = lambda r, c: word(r, simp(r.base + z3.ZeroExt(48, c) * bv(2)), 2)
    e.oblige(o, "classes agree in both parts", b(rv.e) == z3.And(*[w(r, A) == w(r, B) for r in t]), "post")
    cover(e, o)
    return e


class Out:
    """the final table of the new scanner, watched at chosen byte offsets"""

    def __init__(self, e, st, size, offs_, base=None):
        self.e, self.W = e, Watch(e, st, "final table", size, offs_, bytes=True, base=base)

    def fill(self, st, at_, n, value):
        """the n bytes at at_ take the words value(k) (k: the byte distance from at_); only they change"""
        e, W = self.e, self.W
        off = simp(at_ - W.r.base)
        e.oblige(st, "the list lies in the final table", z3.And(off & bv(7) == 0, z3.ULE(n, W.count * bv(8)), z3.ULE(off, W.count * bv(8) - n)), "pre")
        for c, j in zip(W.cells, W.js):
            old = e.load(st, ptr(c), ir.I(64)).e
            e.store(st, ptr(c), V(simp(z3.If(z3.And(z3.ULE(off, j), z3.ULT(j - off, n)), value(simp(j - off)), old))), ir.I(64))


def shift(case):
    """Shift(range, n, out): writes the range's numbers plus n at out, in order, nothing else, and returns the end"""
    e, st = eng(case[0])
    P = Parts(e, st)
    s, n = z3.BitVecs("s shift", 64)
    x33, o33, F33 = z3.BitVecs("watched out words", 33)
    x, o0, F = words(x33), words(o33), z3.ZeroExt(31, F33)
    fl, fh = P.lo[0](s), P.hi[0](s)
    e.fact(P.shape(0, s)); 
    W = Watch(e, st, "out", F, [x], bytes=True)
    e.facts += [ z3.ULE(o0 + P.nb[0](s), words(F33)), z3.ULT(x, words(F33))]
    was = W.value(st, 0)
    f = [f for f in e.m.funcs.values() if f.dem and TASK in f.dem and "::Shift<" in f.dem]
    if len(f) != 1: raise Unmodelled("no single Shift")
    f = f[0]

    def done(p):      # the words written when the source pointer is p
        return z3.If(z3.And(z3.ULE(o0, x), z3.ULT(x - o0, p - fl)), P.W[0](simp(fl + (x - o0))) + n, was)

    def templates(eng_, ctx):
        out = []
        src = [v for v in ctx.vars if v[0] in ("phi", "cell") and eng_.getv(ctx.hst, v).prov is P.ft[0]]
        dst = [v for v in ctx.vars if v[0] in ("phi", "cell") and eng_.getv(ctx.hst, v).prov is W.r]
        cell = next((v for v in ctx.vars if v[0] == "cell" and v[1][0] is W.cells[0]), None)
        for v in src:
            p = lambda ev, v=v: ev(v).e
            out += [(vname(v) + " within the range", lambda ev, p=p: z3.And(z3.ULE(fl, p(ev)), z3.ULE(p(ev), fh), (p(ev) - fl) & bv(7) == 0))]
            out += [("distance of " + vname(v), lambda ev, p=p: z3.And(z3.ULE(p(ev) - fl, P.nb[0](s)), z3.Or(p(ev) == fh, z3.ULE(p(ev) - fl, P.nb[0](s) - bv(8)))))]
            for w in dst: out.append(("room at " + vname(w), lambda ev, w=w: z3.And(z3.ULE(ev(w).e - W.r.base, words(F33)), (ev(w).e - W.r.base) & bv(7) == 0)))
            for w in dst: out.append(("%s follows %s" % (vname(w), vname(v)), lambda ev, p=p, w=w: ev(w).e == simp(W.r.base + (o0 + (p(ev) - fl)))))
            if cell: out.append(("written up to " + vname(v), lambda ev, p=p: ev(cell).e == done(p(ev))))
        return out
    e.templates.append(templates)
    a, rng = [], obj(e, st, "range", 16, {0: (8, V(fl, P.ft[0])), 8: (8, V(fh, P.ft[0]))})
    ints = [V(fl, P.ft[0]), V(fh, P.ft[0])]
    ptrs = len([1 for ty, nm, at_ in f.params])
    if ptrs == 5: a = [ptr(P.task)] + ints + [V(n), V(simp(W.r.base + o0), W.r)]
    elif ptrs == 4: a = [ptr(P.task), ptr(rng), V(n), V(simp(W.r.base + o0), W.r)]
    else: raise Unmodelled("parameters of Shift")
    e.stack[:] = []
    rv, o, th = e.call_function(f, a, st, top=True)
    e.stack.append(f)
    no_throw(e, th, "Shift")
    e.oblige(o, "returns the end of what it wrote", rv.e == W.r.base + o0 + P.nb[0](s), "post")
    e.oblige(o, "the numbers of the range, shifted, in order; nothing else changes", W.value(o, 0) == done(fh), "post")
    cover(e, o)
    return e


def accept(case):
    """AcceptStates: for every joint state its list (left numbers, then right numbers shifted, then a terminator), its index, its flags"""
    e, st = eng(case[0])
    P = Parts(e, st)
    N, q = z3.BitVecs("states q", 64)
    x30 = z3.BitVec("x", 30)
    x, x8 = z3.ZeroExt(34, x30), words(x30)
    K34, W34, T = z3.Function("K", BV(64), BV(34)), z3.Function("KW", BV(64), BV(34)), [z3.Function(n, BV(64), BV(64)) for n in ("left", "right")]
    K, KB = (lambda a: z3.ZeroExt(30, K34(a))), (lambda a: words(W34(a)))
    e.facts += [z3.UGE(N, bv(1)), z3.ULE(N, bv(1 << 20)), z3.ULT(q, N)]
    states = e.new_region(st, "states", kind="bytes", size=N * bv(16), init=UF(z3.Function("states", BV(64), BV(8))), readonly=True)
    base = states.base
    end = simp(base + N * bv(16))
    # everything about the state at an address is a function of its number
    A, B = (lambda i: T[0](i)), (lambda i: T[1](i))
    length = lambda i: P.n[0](A(i)) + P.n[1](B(i))
    sa = q

    def number_of(a):
        d = simp(a - base)
        parts = linear(d)
        c = sum(k for k, x in parts if x is None) % (1 << 64)
        var = [(k, x) for k, x in parts if x is not None]
        if all(k % 16 == 0 for k, x in var): return simp(sum([bv(k // 16) * x for k, x in var], bv(c // 16))), c % 16
        return simp(z3.LShR(d - bv(c % 16), 4)), c % 16
    # K: the numbers listed by the states before state i; KB: the bytes of their lists, terminators included (KB = 8 K + 8 per state [lemma])
    e.facts += [K(bv(0)) == 0, KB(bv(0)) == 0, z3.ULE(K(N), bv(1 << 30)), z3.LShR(KB(N), 3) == K(N) + N]
    seen = {}

    def unfold(i):
        i = simp(i)
        if i.get_id() in seen: return
        seen[i.get_id()] = i
        nx, here = simp(i + bv(1)), z3.ULT(i, N)
        e.fact(z3.Implies(here, z3.And(K(nx) == K(i) + length(i), z3.ULE(K(i), K(nx)), z3.ULE(K(nx), K(N)),
                                       KB(nx) == KB(i) + P.nb[0](A(i)) + P.nb[1](B(i)) + bv(8), z3.ULT(KB(i), KB(nx)), z3.ULE(KB(nx), KB(N)))))
        # K is monotone [lemma]
        e.fact(z3.Implies(z3.And(here, z3.UGT(i, sa)), z3.ULE(KB(simp(sa + bv(1))), KB(i))))
        e.fact(z3.Implies(z3.And(here, z3.ULT(i, sa)), z3.ULE(KB(nx), KB(sa))))

    def on_load(e, st, p, n, ty):
        e.bounds(st, states, p, n, "load")
        i, c = number_of(p.e)
        if n != 8 or c not in (0, 8): raise Unmodelled("access to the states that is not a word")
        return V(T[c // 8](i))
    states.on_load = on_load
    unfold(sa)
    vec = obj(e, st, "vector", 24, vecf(0, states, base, end), readonly=True)
    made, flagged = [], e.new_region(st, "flags of q", 8)
    st.mem[flagged] = Cells({0: (8, V(z3.BitVec("flagsBefore", 64)))})
    mine = KB(sa)                          # where the list of q must start, in bytes
    na, nb = P.n[0](A(sa)), P.n[1](B(sa))
    e.facts += [z3.ULT(x, na + nb)]
    total = simp(z3.LShR(KB(N), 3))
    sz = lambda a: simp(P.nb[0](A(a)) + P.nb[1](B(a)))
    part = case[1]
    if part == "left": e.fact(z3.ULT(x, na))
    if part == "right": e.fact(z3.UGE(x, na))
    W = Out(e, st, total, {"left": [simp(mine + x8)], "right": [simp(mine + x8)], "terminator": [simp(mine + sz(sa))], "index": []}[part])
    I = Watch(e, st, "final index", N, [q])
    for j in W.W.js:
        for nm, f in (("the watched word is not before the list of q", z3.ULE(mine, j)), ("the watched word is before the next list", z3.ULE(j, KB(simp(q + bv(1))) - bv(8)))):
            e.oblige(st, nm, f, "lemma"); e.fact(f)
    res = e.new_region(st, "result", 1024)
    cut = lambda v, n: V(v)

    def init(e, st, a, i):
        # Init(states, letters, finalTableSize, startState, regexpsCount) [C04 item Init]
        if a[0].prov is not res or made: raise Unmodelled("Init of another scanner, or twice")
        made.append(1)
        e.oblige(st, "one row per joint state", a[1].e == N, "post")
        e.oblige(st, "the final table has room for every number", a[3].e == K(N), "post")
        e.oblige(st, "the initial state is the first one", a[4].e == 0, "post")
        e.oblige(st, "as many regexps as both parts together", a[5].e == P.cnt[0] + P.cnt[1], "post")
        e.oblige(st, "the joint letter classes", z3.BoolVal(a[2].prov is letters), "post")
        st.mem[res] = Cells({gconst(e.m, "vc_off_final"): (8, ptr(W.W.r)), gconst(e.m, "vc_off_findex"): (8, ptr(I.r))})
    letters = e.new_region(st, "letters", 64, readonly=True)

    def settag(e, st, a, i):
        if a[0].prov is not res: raise Unmodelled("SetTag of another scanner")
        old = get(e, st, flagged, 0)
        e.oblige(st, "SetTag of an existing state", z3.ULT(a[1].e, N), "pre")
        e.store(st, ptr(flagged), V(simp(z3.If(a[1].e == q, a[2].e, old))), ir.I(64))

    def shift_(e, st, a, i):
        # Shift(range, n, out) [item Shift]
        if len(a) == 5: f, l, n, out = a[1], a[2], a[3].e, a[4]
        else: f, l, n, out = e.load(st, a[1], ir.PTR), e.load(st, V(simp(a[1].e + bv(8)), a[1].prov), ir.PTR), a[2].e, a[3]
        if f.prov not in P.ft: raise Unmodelled("Shift of another range")
        k = P.ft.index(f.prov)
        s = P.lists.get((k, simp(f.e).get_id()))
        if s is None or not z3.eq(simp(l.e), P.hi[k](s[0])): raise Unmodelled("Shift of a range that is not a state's list")
        # P.LW(s, d) names the number at distance d in the list of s
        W.fill(st, out.e, P.nb[k](s[0]), lambda d: P.LW[k](s[0], d) + n)
        return V(simp(out.e + (l.e - f.e)), W.W.r)
    e.contracts += [Contract(lambda d: "::Shift<" in d and TASK in d, shift_, "Shift [item Shift]"),
                    Contract(lambda d: tr("::Init<")(d) or " Pire::Impl::Scanner<" in d and "::Init<" in d, init, "Scanner::Init [C04 item Init]"),
                    Contract(tr("::SetTag(unsigned long, unsigned long)"), settag, "Scanner::SetTag [C04]"),
                    Contract(lambda d: "ScannerGlueCommon<" in d and d.endswith("::Letters() const"), lambda e, st, a, i: ptr(letters), "Letters"),
                    Contract(lambda d: "ScannerGlueCommon<" in d and d.endswith("::Sc()"), lambda e, st, a, i: ptr(res), "Sc"),
                    Contract(lambda d: "ScannerGlueCommon<" in d and "::SetSc(" in d, lambda e, st, a, i: None, "SetSc"),
                    Contract(lambda d: tr("::Scanner()")(d) or "std::unique_ptr<Pire::Impl::Scanner<" in d and ("unique_ptr" in d), lambda e, st, a, i: None, "construction of the new scanner")]
    L = lambda k, a: P.lo[k]((A, B)[k](a))
    number = P.LW[0](A(sa), x8) if part == "left" else P.LW[1](B(sa), simp(x8 - P.nb[0](A(sa)))) + P.cnt[0]
    claims = {"left": "the list starts with the left numbers", "right": "the right numbers follow, shifted by the left count", "terminator": "a terminator ends the list"}
    want = {"left": number, "right": number, "terminator": MINUS1}.get(part)
    flags = z3.If(z3.Or(P.Fin[0](A(sa)), P.Fin[1](B(sa))), bv(1), bv(0)) | z3.If(z3.And(P.Dead[0](A(sa)), P.Dead[1](B(sa))), bv(2), bv(0))

    def step(a):
        i = number_of(a)[0]
        unfold(i)
        nx = number_of(simp(a + bv(16)))[0]
        e.fact(z3.Implies(z3.And(z3.ULE(base, a), z3.ULT(a, end), (a - base) & bv(15) == 0), nx == i + bv(1)))
        e.fact(z3.Implies(z3.And(z3.ULE(base, a), z3.ULE(a, end)), z3.And(z3.ULE(i, N), (a == end) == (i == N))))

    def hook(e, st, vars_):
        for v in vars_:
            if v[0] not in ("phi", "cell"): continue
            h = e.getv(st, v)
            if v[0] == "cell" and v[1][0] in W.W.cells + I.cells + [flagged]: continue
            if h.prov is states: step(h.e)
            elif h.prov is None and isinstance(h.e, z3.BitVecRef) and h.e.size() == 64: unfold(h.e)
    e.havoc_hooks = list(e.havoc_hooks) + [hook]

    def templates(eng_, ctx):
        out = []
        mine_ = lambda c: next((v for v in ctx.vars if v[0] == "cell" and v[1][0] is c), None)
        cells = W.W.cells + I.cells + [flagged]
        val = lambda c: (lambda ev, c=mine_(c): ev(c).e) if mine_(c) else (lambda ev: get(eng_, ctx.hst, c, 0))
        ix, fl = [val(c) for c in cells[-2:]]
        goals = [("written", lambda ev: val(cells[0])(ev) == want)] if want is not None else [("index", lambda ev: ix(ev) == z3.LShR(KB(sa), 3)), ("flags", lambda ev: fl(ev) == flags)]
        ps, ns, ws = [], [], []
        for v in ctx.vars:
            if v[0] not in ("phi", "cell") or v[0] == "cell" and v[1][0] in cells: continue
            h = eng_.getv(ctx.hst, v)
            f = lambda ev, v=v: ev(v).e
            if h.prov is states: ps.append((vname(v), f))
            elif h.prov is W.W.r: ws.append((vname(v), f))
            elif h.prov is None and isinstance(h.e, z3.BitVecRef) and h.e.size() == 64: ns.append((vname(v), f))
        for n, p in ps:
            out.append((n + " at a state", lambda ev, p=p: z3.And(z3.ULE(base, p(ev)), z3.ULE(p(ev), end), (p(ev) - base) & bv(15) == 0)))
            for k, f in ns: out.append(("%s = K(%s)" % (k, n), lambda ev, p=p, f=f: f(ev) == K(number_of(p(ev))[0])))
        for n, i in ns:
            out.append((n + " <= states", lambda ev, i=i: z3.ULE(i(ev), N)))
            for wn, w in ws: out.append(("%s = list of %s" % (wn, n), lambda ev, w=w, i=i: w(ev) == simp(W.W.r.base + KB(i(ev)))))
            for gn, g in goals:
                out.append(("%s right before %s" % (gn, n), lambda ev, i=i, g=g: z3.Implies(i(ev) == q + bv(1), g(ev))))
                out.append(("%s before %s" % (gn, n), lambda ev, i=i, g=g: z3.Implies(z3.UGT(i(ev), q + bv(1)), g(ev))))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_accept", [ptr(P.task), ptr(vec)])
    e.oblige(o, "the new scanner has been initialised", z3.BoolVal(bool(made)), "post")
    if want is not None: e.oblige(o, claims[part], W.W.value(o, 0) == want, "post")
    else:
        e.oblige(o, "the state's index is the place of its list", I.value(o, 0) == z3.LShR(KB(sa), 3), "post")
        e.oblige(o, "final: one of the parts is; dead: both are", get(e, o, flagged, 0) == flags, "post")
    cover(e, o)
    return e


class Table:
    """A lookup table in any state: which slots are filled, and the entry (key, value) of each slot"""

    def __init__(self, case):
        e, st = self.e, self.st = eng(case[0])
        g = lambda n: gconst(e.m, "vc_" + n)
        self.N = g("inv_size")
        self.K1, self.K2, self.Val = [z3.Function(n, BV(64), BV(64)) for n in ("key1", "key2", "value")]
        self.F = z3.Function("filled", BV(64), z3.BoolSort())
        self.map = e.new_region(st, "entries", kind="bytes", size=bv(self.N * 24), init=UF(z3.Function("entries", BV(64), BV(8))))
        self.map.lv = self
        self.bits = e.new_region(st, "bits", self.N)
        self.log, self.flips = [], []
        self.t = obj(e, st, "table", g("size_inv"), {g("off_inv_map"): (8, ptr(self.map))}, readonly=True)
        self.boff = g("off_inv_filled")
        self.k = z3.BitVecs("first second", 64)
        self.key = obj(e, st, "key", 16, {0: (8, V(self.k[0])), 8: (8, V(self.k[1]))}, readonly=True)
        vb = lambda d: d.startswith("std::vector<bool")
        e.contracts += [Contract(lambda d: vb(d) and d.endswith("::operator[](unsigned long) const"), lambda e, st, a, i: V(self.filled(st, a)), "std::vector<bool>::operator[] const"),
                        Contract(lambda d: vb(d) and d.endswith("::operator[](unsigned long)"), self.ref, "std::vector<bool>::operator[]"),
                        Contract("std::_Bit_reference::operator bool() const", lambda e, st, a, i: V(self.F(self.slot(st, a[0]))), "_Bit_reference::operator bool"),
                        Contract("std::_Bit_reference::operator=(bool)", self.flip, "_Bit_reference::operator="),
                        Contract(lambda d: "GluedStateLookupTable<" in d and "::Hash(" in d, lambda e, st, a, i: V(self.h), "Hash: a function of the key")]
        self.h = z3.BitVec("hash", 64)
        self.start = self.h & bv(self.N - 1)
        # a slot that is free, and another one: the table is never full [Glue's limit]
        self.free = z3.BitVecs("free1 free2", 64)
        e.facts += [z3.And(z3.ULT(f, bv(self.N)), z3.Not(self.F(f))) for f in self.free] + [self.free[0] != self.free[1]]

    def index(self, e, st, i):
        e.oblige(st, "slot within the table", z3.ULT(i, bv(self.N)), "memory")
        return i

    def filled(self, st, a):
        if not (a[0].prov is self.t and conc(simp(a[0].e - self.t.base)) == self.boff): raise Unmodelled("another vector of bits")
        return self.F(self.index(self.e, st, a[1].e))

    def ref(self, e, st, a, i):
        self.filled(st, a)
        return V([V(simp(self.bits.base + a[1].e), self.bits), V(bv(1))])

    def slot(self, st, p):
        q = self.e.load(st, p, ir.PTR)
        if q.prov is not self.bits: raise Unmodelled("another bit")
        return simp(q.e - self.bits.base)

    def flip(self, e, st, a, i):
        v = a[1].e if z3.is_bool(a[1].e) else a[1].e != 0
        self.flips.append((st.g, self.slot(st, a[0]), v))
        return a[0]

    # the entries: slot * 24 bytes; slots are recovered from the address the code forms
    def gep(self, e, st, p): return p

    def where(self, st, p):
        off = simp(p.e - self.map.base)
        parts = linear(off)
        c = sum(k for k, a in parts if a is None) % (1 << 64)
        slots = [(k, a) for k, a in parts if a is not None]
        if len(slots) == 1 and slots[0][0] == 24 and c < 24 and c % 8 == 0: return self.index(self.e, st, slots[0][1]), c
        raise Unmodelled("access to the entries that is not a field of a slot")

    def load(self, e, st, p, ty):
        i, c = self.where(st, p)
        return V((self.K1, self.K2, self.Val)[c // 8](i))

    def store(self, e, st, p, v, ty):
        i, c = self.where(st, p)
        self.log.append((st.g, i, c // 8, v.e))

    def has(self, i): return z3.And(self.K1(i) == self.k[0], self.K2(i) == self.k[1])

    def dist(self, a): return (a - self.h) & bv(self.N - 1)

    def before(self, w, r): return z3.ULT(self.dist(w), self.dist(r))

    def search(self, r, w):
        """the contract of Search: r is the first slot from the key's hash on that is free or has the key (w: any slot)"""
        return z3.And(z3.ULT(r, bv(self.N)), z3.Or(z3.Not(self.F(r)), self.has(r)), z3.Implies(z3.And(z3.ULT(w, bv(self.N)), self.before(w, r)), z3.And(self.F(w), z3.Not(self.has(w)))))


def search(case):
    """Search(key): the first slot, counting cyclically from the key's hash, that is free or has the key"""
    t = Table(case)
    e = t.e
    w = z3.BitVec("w", 64)
    e.fact(z3.ULT(w, bv(t.N)))
    ws = [("w", w), ("free1", t.free[0]), ("free2", t.free[1])]

    def templates(eng_, ctx):
        out = []
        for v in ctx.vars:
            h = eng_.getv(ctx.hst, v) if v[0] in ("phi", "cell") else None
            if h is None or not isinstance(h.e, z3.BitVecRef) or h.e.size() != 64 or h.prov is not None: continue
            out.append((vname(v) + " is a slot", lambda ev, v=v: z3.ULT(ev(v).e, bv(t.N))))
            for n, x in ws: out.append(("%s before %s is taken by another key" % (n, vname(v)), lambda ev, v=v, x=x: z3.Implies(t.before(x, ev(v).e), z3.And(t.F(x), z3.Not(t.has(x))))))
        return out
    e.templates.append(templates)
    rv, o = run1(e, t.st, "vc_search", [ptr(t.t), ptr(t.key)])
    r = rv.e
    e.oblige(o, "finds a slot", z3.ULT(r, bv(t.N)), "post")
    e.oblige(o, "the slot is free or has the key", z3.Or(z3.Not(t.F(r)), t.has(r)), "post")
    e.oblige(o, "every slot before it is taken by another key", z3.Implies(t.before(w, r), z3.And(t.F(w), z3.Not(t.has(w)))), "post")
    cover(e, o)
    return e


def lookup(case):
    """find: the entry of the key if Search finds it, end() otherwise; insert: the entry that was there, or a new one in the free slot; no other slot changes"""
    t = Table(case)
    e, st = t.e, t.st
    r, w, v = z3.BitVecs("r w v", 64)
    e.contracts.append(Contract(lambda d: "GluedStateLookupTable<" in d and "::Search(" in d, lambda e, st, a, i: V(r), "Search [item Search]"))
    e.fact(t.search(r, w))
    e.fact(z3.ULT(w, bv(t.N)))
    slot = simp(t.map.base + r * bv(24))
    if case[1] == "find":
        rv, o = run1(e, st, "vc_find", [ptr(t.t), ptr(t.key)])
        rv2, o = run1(e, o, "vc_invend", [ptr(t.t)])
        e.oblige(o, "the entry, if the key is there, else end()", rv.e == z3.If(t.F(r), slot, rv2.e), "post")
        e.oblige(o, "end() is no entry", z3.Implies(z3.ULT(w, bv(t.N)), rv2.e != t.map.base + w * bv(24)), "post")
        e.oblige(o, "the entry has the key", z3.Implies(t.F(r), t.has(r)), "post")
        e.oblige(o, "nothing is written", z3.BoolVal(not t.log and not t.flips), "frame")
    else:
        val = obj(e, st, "value", 24, {0: (8, V(t.k[0])), 8: (8, V(t.k[1])), 16: (8, V(v))}, readonly=True)
        p, fresh = e.new_region(st, "entry", 8), e.new_region(st, "fresh", 1)
        rv, o = run1(e, st, "vc_insert", [ptr(t.t), ptr(val), ptr(p), ptr(fresh)])
        e.oblige(o, "the entry of the key", get(e, o, p, 0) == slot, "post")
        e.oblige(o, "new exactly if the key was not there", (get(e, o, fresh, 0, 8) != 0) == z3.Not(t.F(r)), "post")
        new = z3.Not(t.F(r))
        for k, want in enumerate((t.k[0], t.k[1], v)):
            here = [(g, x) for g, i, f, x in t.log if f == k]
            e.oblige(o, "field %d of the new entry is written" % k, z3.Implies(new, z3.Or(*[z3.And(g, x == want) for g, x in here])), "post")
        e.oblige(o, "only the free slot is written, only if the key was not there", z3.And(*[z3.Implies(g, z3.And(new, i == r)) for g, i, f, x in t.log] + [z3.Implies(g, z3.And(new, i == r, x)) for g, i, x in t.flips]), "frame")
        e.oblige(o, "the slot becomes taken", z3.Implies(new, z3.Or(*[g for g, i, x in t.flips])), "post")
    cover(e, o)
    return e


def keyed(case):
    """why the table is a map: with the invariant 'from a key's hash to its slot every slot is taken by another key', Search finds the key's slot,
    the invariant survives an insertion, and holds of the inserted key"""
    t = Table(case)
    e = t.e
    r, L, x = z3.BitVecs("r L x", 64)
    st = start()
    inN = lambda *a: z3.And(*[z3.ULT(y, bv(t.N)) for y in a])
    inv = lambda F, y: z3.Implies(z3.And(inN(y), t.before(y, L)), z3.And(F(y), z3.Not(t.has(y))))
    # the key sits in slot L, the invariant at slot r; Search's contract at slot L
    hyp = z3.And(inN(L), t.F(L), t.has(L), inv(t.F, r), t.search(r, L))
    e.oblige(st, "Search finds the key's slot", z3.Implies(hyp, r == L), "lemma")
    # another key is put into a free slot x: the invariant stays
    F2 = lambda y: z3.Or(t.F(y), y == x)
    o1, o2 = z3.BitVecs("other1 other2", 64)
    has2 = lambda y: z3.If(y == x, z3.And(o1 == t.k[0], o2 == t.k[1]), t.has(y))
    y = z3.BitVec("y", 64)
    e.oblige(st, "an insertion of another key into a free slot keeps it", z3.Implies(z3.And(inN(L, y, x), t.F(L), t.has(L), inv(t.F, y), z3.Not(t.F(x)), z3.Or(o1 != t.k[0], o2 != t.k[1]), t.before(y, L)), z3.And(F2(y), z3.Not(has2(y)), F2(L), has2(L))), "lemma")
    e.oblige(st, "it holds of a key that is put into the slot Search found", z3.Implies(z3.And(t.search(r, y), inN(y), t.before(y, r)), z3.And(t.F(y), z3.Not(t.has(y)))), "lemma")
    cover(e, State(hyp, {}, {}), "the invariant is satisfiable")
    return e


def glue(case):
    """Glue: with an empty part the other one, otherwise the determination of the joint automaton under a limit that leaves the lookup table room"""
    e, st = eng(case[0])
    P = Parts(e, st)
    n = z3.BitVec("maxSize", 64)
    E = z3.Bools("lhsEmpty rhsEmpty")
    res = e.new_region(st, "result", 1024)
    ev = {"copy": [], "det": []}
    e.contracts += [Contract(tr("::Empty() const"), lambda e, st, a, i: V(E[P.side(a[0])]), "Scanner::Empty"),
                    Contract(lambda d: d.startswith("Pire::Impl::Scanner<") and "::Scanner(Pire::Impl::Scanner<" in d, lambda e, st, a, i: ev["copy"].append((st.g, a[0], a[1])), "copy of a scanner [C05]"),
                    Contract(lambda d: d.startswith(TASK) and "::ScannerGlueTask(" in d, lambda e, st, a, i: ev.setdefault("task", []).append((st.g, a[1], a[2])), "ScannerGlueTask()"),
                    Contract(lambda d: d.startswith(TASK) and "::~ScannerGlueTask(" in d, lambda e, st, a, i: None, "~ScannerGlueTask()"),
                    Contract(lambda d: "Pire::Impl::Determine<" in d, lambda e, st, a, i: ev["det"].append((st.g, a[0], a[-1].e)), "Determine [item Determine]")]
    rv, o = run1(e, st, "vc_glue", [ptr(res), ptr(P.lhs), ptr(P.rhs), V(n)])
    N = gconst(e.m, "vc_inv_size")
    lim = z3.If(n != 0, n, bv(80000))
    final = [(g, s) for g, d, s in ev["copy"] if s.prov in (P.lhs, P.rhs)]
    e.oblige(o, "an empty left part: the right one", z3.Implies(E[0], z3.Or(*[g for g, s in final if s.prov is P.rhs])), "post")
    e.oblige(o, "an empty right part: the left one", z3.Implies(z3.And(z3.Not(E[0]), E[1]), z3.Or(*[g for g, s in final if s.prov is P.lhs])), "post")
    e.oblige(o, "both not empty: the joint automaton", z3.Implies(z3.Not(z3.Or(*E)), z3.Or(*[g for g, _, _ in ev["det"]])), "post")
    e.oblige(o, "one result", z3.And(*[z3.Implies(g, z3.Or(*E)) for g, s in final] + [z3.Implies(g, z3.Not(z3.Or(*E))) for g, _, _ in ev["det"]] + [z3.BoolVal(len(ev["det"]) == 1)]), "post")
    for g, _, l in ev["det"]:
        e.oblige(o, "the joint automaton has at most the states allowed", z3.Implies(g, z3.ULE(l, lim)), "post")
        e.oblige(o, "no state of an automaton within the limit is refused", z3.Implies(z3.And(g, z3.ULE(lim, bv(N - 3))), l == lim), "post")
        e.oblige(o, "the lookup table keeps two free slots", z3.Implies(g, z3.ULE(l, bv(N - 3))), "post")
    tasks = ev.get("task", [])
    e.oblige(o, "of the two parts, in order", z3.BoolVal(len(tasks) == 1 and tasks[0][1].prov is P.lhs and tasks[0][2].prov is P.rhs), "post")
    cover(e, o)
    return e


def main():
    from enumlib import enumerate_, ME
    for v in ALL: MG(v)
    ME()
    V4 = [(v,) for v in ALL]
    items = [Item("Next", next_, V4, ["ScannerGlueCommon::Next", "ScannerGlueCommon::Initial"]),
             Item("Letters", equal, V4, ["LettersEquality::operator()"]),
             Item("Shift", shift, V4, ["ScannerGlueTask::Shift"]),
             Item("AcceptStates", accept, [(v, p) for v in ("reloc",) for p in ("left", "right", "terminator", "index")], ["ScannerGlueTask::AcceptStates", "ScannerGlueTask::RangeLen"], weight=9),
             Item("AcceptStates, other variants", accept, [(v, p) for v in ("reloc-nomask", "nonreloc", "nonreloc-nomask") for p in ("left", "right", "terminator", "index")], ["ScannerGlueTask::AcceptStates"], weight=9, thorough_only=True)]
    items += [Item("Search", search, [("reloc",)], ["GluedStateLookupTable::Search"], weight=2),
              Item("Lookup", lookup, [("reloc", f) for f in ("find", "insert")], ["GluedStateLookupTable::find", "GluedStateLookupTable::insert", "GluedStateLookupTable::end"]),
              Item("Lookup lemmas", keyed, [("reloc",)], ["the table is a map"]),
              Item("Enumeration", enumerate_, [()], ["Impl::Determine<Task>"], weight=12),
             Item("Glue", glue, V4, ["Scanner::Glue"])]
    return run_check("C11", items, Harness("C11.cpp", 14, desc="random scanners glued in any nesting against their parts"),
                     assumptions=["Scanner::Next/Final/Dead/AcceptedRegexps/RegexpsCount/SetTag/Init as C04 states them", "prefix sums of list lengths are monotone and fit the representable range (final table below 2^31 words)",
                                  "Impl::Determine<Task> is proved for an arbitrary task whose InvStates is a map (the glue table is one: Lookup, Lookup lemmas)", "the joint letter partition Partition::Append builds from LettersEquality (bounded stand-in)", "std::vector<bool>'s contract; Hash is a function of the key"],
                     notes="Lists are watched at one arbitrary joint state and position; the lookup table at one arbitrary slot and key.")
