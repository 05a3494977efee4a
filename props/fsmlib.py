"""Automata under contract: an automaton is known by its number of states, its initial state, whether one arbitrary transition (s, c, t) exists and whether s is final."""
from lib import *
from table import *

EPS = None


def M(): return module("fsmops.cpp", (), NI)


def eng():
    e = Engine(M(), [])
    e.cut_hint = lambda f, L: "cut"
    e.use_iter = False; e.opaque_cells = True; e.generic = False
    return e, start()


def b8(x): return V(simp(z3.If(x, bv(1, 8), bv(0, 8))))


def fs(n): return lambda d: d == "Pire::Fsm::" + n


def call(e, st, fn, args):
    f = e.find(fn) if isinstance(fn, str) else fn
    e.stack[:] = []
    rv, o, th = e.call_function(f, args, st, top=True)
    e.stack.append(f)
    return rv, o, th


def run1(e, st, fn, args):
    rv, o, th = call(e, st, fn, args)
    no_throw(e, th, fn)
    return rv, o


class Fsms:
    """The automata of a call. Ghost state of each: size, transition (s, c, t) exists, s is final."""

    def __init__(self, e, watch=None):
        self.e, self.off = e, {n: gconst(e.m, "vc_off_" + n) for n in ("initial", "sparsed", "determined", "alt", "trans", "final", "letters", "outputs", "tags")}
        self.size = gconst(e.m, "vc_size_fsm")
        self.eps = gconst(e.m, "vc_epsilon")
        self.s, self.t, self.c = z3.BitVec("s", 64), z3.BitVec("t", 64), z3.BitVec("c", 16)
        self.gs = {}
        self.copies, self.log = [], []
        C = lambda n, f: Contract(fs(n), f, "Fsm::" + n.split("(")[0])
        self.C = {
            "Size": C("Size() const", lambda e, st, a, i: V(self.N(st, a[0]))),
            "Initial": C("Initial() const", lambda e, st, a, i: e.load(st, self.field(a[0], "initial"), ir.I(64))),
            "SetInitial": C("SetInitial(unsigned long)", lambda e, st, a, i: e.store(st, self.field(a[0], "initial"), a[1], ir.I(64))),
            "Resize": C("Resize(unsigned long)", self.resize),
            "Connect": C("Connect(unsigned long, unsigned long, unsigned short)", self.connect),
            "Disconnect": C("Disconnect(unsigned long, unsigned long, unsigned short)", self.disconnect),
            "ConnectFinal": C("ConnectFinal(unsigned long, unsigned short)", self.connectfinal),
            "ClearFinal": C("ClearFinal()", lambda e, st, a, i: self.setF(st, a[0], z3.BoolVal(False))),
            "SetFinal": C("SetFinal(unsigned long, bool)", self.setfinal),
            "IsFinal": C("IsFinal(unsigned long) const", self.isfinal),
            "ClearHints": C("ClearHints()", lambda e, st, a, i: e.store(st, self.field(a[0], "alt"), V(bv(0, 8)), ir.I(8))),
            "Fsm": C("Fsm()", self.ctor), "copy": C("Fsm(Pire::Fsm const&)", self.copy), "~Fsm": C("~Fsm()", lambda e, st, a, i: None),
            "Import": C("Import(Pire::Fsm const&)", self.import_),
            "IsDetermined": C("IsDetermined() const", lambda e, st, a, i: V(e.load(st, self.field(a[0], "determined"), ir.I(8)).e == 1)),
        }

    def use(self, *skip):
        self.e.contracts += [c for n, c in self.C.items() if n not in skip]

    def key(self, p):
        o = conc(simp(p.e - p.prov.base)) if p.prov is not None else None
        if o is None: raise Unmodelled("an automaton at an unknown place")
        return p.prov, o

    def field(self, p, n): return V(simp(p.e + bv(self.off[n])), p.prov)

    def G(self, p):
        k = self.key(p)
        if (k[0].id, k[1]) not in self.gs: raise Unmodelled("not an automaton")
        return self.gs[k[0].id, k[1]]

    def N(self, st, p): return get(self.e, st, self.G(p), 0)
    def T(self, st, p): return get(self.e, st, self.G(p), 8, 8) != 0
    def F(self, st, p): return get(self.e, st, self.G(p), 9, 8) != 0
    def put(self, st, p, o, n, x): self.e.store(st, V(simp(self.G(p).base + bv(o)), self.G(p)), V(simp(x)), ir.I(n))
    def setN(self, st, p, x): self.put(st, p, 0, 64, x)
    def setT(self, st, p, x): self.put(st, p, 8, 8, z3.If(x, bv(1, 8), bv(0, 8)))
    def setF(self, st, p, x): self.put(st, p, 9, 8, z3.If(x, bv(1, 8), bv(0, 8)))
    def initial(self, st, p): return self.e.load(st, self.field(p, "initial"), ir.I(64)).e
    def flag(self, st, p, n): return self.e.load(st, self.field(p, n), ir.I(8)).e == 1

    def ghost(self, st, p, N, T, F):
        k = self.key(p)
        if (k[0].id, k[1]) in self.gs and self.gs[k[0].id, k[1]] in st.mem:      # built again at the same place
            self.setN(st, p, N); self.setT(st, p, T); self.setF(st, p, F); return
        g = self.e.new_region(st, "ghost of " + k[0].name, 16)
        self.gs[k[0].id, k[1]] = g
        st.mem[g] = Cells({0: (8, V(N)), 8: (1, b8(T)), 9: (1, b8(F))})

    def new(self, st, name, readonly=False):
        """an arbitrary automaton"""
        e = self.e
        N, T, F, i = z3.BitVec("N_" + name, 64), z3.Bool("T_" + name), z3.Bool("F_" + name), z3.BitVec("initial_" + name, 64)
        fl = {n: z3.BitVec(n + "_" + name, 8) for n in ("sparsed", "determined", "alt")}
        for x in fl.values(): e.fact(z3.ULE(x, bv(1, 8)))
        r = obj(e, st, name, self.size, {self.off["initial"]: (8, V(i)), **{self.off[n]: (1, V(x)) for n, x in fl.items()}}, readonly=readonly)
        e.facts += [z3.UGE(N, bv(1)), z3.ULE(N, bv(1 << 40)), z3.ULT(i, N), z3.Implies(T, z3.And(z3.ULT(self.s, N), z3.ULT(self.t, N))), z3.Implies(F, z3.ULT(self.s, N))]
        p = ptr(r)
        self.ghost(st, p, N, T, F)
        return p

    def raw(self, st, name):
        return ptr(obj(self.e, st, name, self.size, {}))

    # contracts
    def resize(self, e, st, a, i):
        old = self.N(st, a[0])
        n = a[1].e
        self.setN(st, a[0], n)
        self.setT(st, a[0], z3.And(self.T(st, a[0]), z3.ULT(self.s, n)))
        return V(old)

    def inside(self, st, p, *x):
        for y in x: self.e.oblige(st, "the state exists", z3.ULT(y, self.N(st, p)), "pre", soft=True)

    def connect(self, e, st, a, i):
        self.inside(st, a[0], a[1].e, a[2].e)
        self.setT(st, a[0], z3.Or(self.T(st, a[0]), z3.And(a[1].e == self.s, a[2].e == self.t, a[3].e == self.c)))
        e.store(st, self.field(a[0], "alt"), V(bv(0, 8)), ir.I(8))

    def disconnect(self, e, st, a, i):
        self.setT(st, a[0], z3.And(self.T(st, a[0]), z3.Not(z3.And(a[1].e == self.s, a[2].e == self.t, a[3].e == self.c))))
        e.store(st, self.field(a[0], "alt"), V(bv(0, 8)), ir.I(8))

    def connectfinal(self, e, st, a, i):
        self.inside(st, a[0], a[1].e)
        self.setT(st, a[0], z3.Or(self.T(st, a[0]), z3.And(self.F(st, a[0]), a[1].e == self.t, a[2].e == self.c)))
        e.store(st, self.field(a[0], "alt"), V(bv(0, 8)), ir.I(8))

    def bool(self, x): return x if z3.is_bool(x) else x != 0

    def setfinal(self, e, st, a, i):
        self.setF(st, a[0], z3.If(a[1].e == self.s, self.bool(a[2].e), self.F(st, a[0])))

    def isfinal(self, e, st, a, i):
        if getattr(self, "rhs", None) is not None and a[0].prov is self.rhs.prov: return V(self.RF(a[1].e))
        x = z3.FreshConst(z3.BoolSort(), "final")
        e.fact(z3.Implies(z3.And(st.g, a[1].e == self.s), x == self.F(st, a[0])))
        return V(x)

    def ctor(self, e, st, a, i):
        for n, v in (("sparsed", 0), ("determined", 0), ("alt", 0)): e.store(st, self.field(a[0], n), V(bv(v, 8)), ir.I(8))
        e.store(st, self.field(a[0], "initial"), V(bv(0)), ir.I(64))
        self.ghost(st, a[0], bv(1), z3.BoolVal(False), self.s == 0)

    def copy(self, e, st, a, i):
        for n, w in (("sparsed", 8), ("determined", 8), ("alt", 8), ("initial", 64)): e.store(st, self.field(a[0], n), e.load(st, self.field(a[1], n), ir.I(w)), ir.I(w))
        self.ghost(st, a[0], self.N(st, a[1]), self.T(st, a[1]), self.F(st, a[1]))

    # the transitions of the readonly right operand: functions of any state
    def operand(self, st, name):
        p = self.new(st, name, readonly=True)
        self.RT, self.RF = z3.Function("transition_" + name, BV(64), BV(16), BV(64), z3.BoolSort()), z3.Function("final_" + name, BV(64), z3.BoolSort())
        self.rhs = p
        n = self.N(st, p)
        self.e.fact(z3.ULE(n, bv(1 << 40)))
        self.rfact = lambda s, c, t: self.e.fact(z3.And(z3.Implies(self.RT(s, c, t), z3.And(z3.ULT(s, n), z3.ULT(t, n))), z3.Implies(self.RF(s), z3.ULT(s, n))))
        return p

    def import_(self, e, st, a, i):
        if a[1].prov is not self.rhs.prov: raise Unmodelled("Import of another automaton")
        n, k = self.N(st, a[0]), self.N(st, a[1])
        s, t = simp(self.s - n), simp(self.t - n)
        self.rfact(s, self.c, t)
        self.setT(st, a[0], z3.If(z3.ULT(self.s, n), self.T(st, a[0]), z3.And(z3.UGE(self.t, n), self.RT(s, self.c, t))))
        self.setN(st, a[0], n + k)
        e.store(st, self.field(a[0], "sparsed"), V(bv(0, 8)), ir.I(8))


class Languages:
    """Automata known by their language only; member(L): does L contain one arbitrary word?"""

    def __init__(self, e):
        self.e, self.gs, self.off_det = e, {}, gconst(e.m, "vc_off_determined")
        W = BV(64)
        self.cat, self.alt, self.conj = [z3.Function(n, W, W, W) for n in ("concatenation", "union", "intersection")]
        self.star, self.compl, self.prep, self.app = [z3.Function(n, W, W) for n in ("star", "complement", "anythingBefore", "anythingAfter")]
        self.member = z3.Function("member", W, z3.BoolSort())
        self.empty = z3.BitVec("emptyWord", 64)
        C = lambda n, f: Contract(fs(n), f, "Fsm::" + n.split("(")[0])
        one = lambda op: lambda e, st, a, i: self.upd(st, a[0], op(self.L(st, a[0])))
        two = lambda op: lambda e, st, a, i: self.upd(st, a[0], op(self.L(st, a[0]), self.L(st, a[1])))
        cp = lambda e, st, a, i: self.upd(st, a[0], self.L(st, a[1]))
        self.C = {"+=": C("operator+=(Pire::Fsm const&)", two(self.cat)), "|=": C("operator|=(Pire::Fsm const&)", two(self.alt)), "&=": C("operator&=(Pire::Fsm const&)", two(self.conj)),
                  "Iterate": C("Iterate()", one(self.star)), "Complement": C("Complement()", one(self.compl)), "~": C("~Fsm()", lambda e, st, a, i: None),
                  "copy": C("Fsm(Pire::Fsm const&)", cp), "move": C("Fsm(Pire::Fsm&&)", cp), "=": C("operator=(Pire::Fsm const&)", cp), "=m": C("operator=(Pire::Fsm&&)", cp),
                  "swap": C("Swap(Pire::Fsm&)", self.swap), "Fsm": C("Fsm()", lambda e, st, a, i: self.upd(st, a[0], self.empty)),
                  "prep": C("PrependAnything()", one(self.prep)), "app": C("AppendAnything()", one(self.app))}

    def use(self, *skip):
        self.e.contracts += [c for n, c in self.C.items() if n not in skip]

    def swap(self, e, st, a, i):
        x, y = self.L(st, a[0]), self.L(st, a[1])
        self.upd(st, a[0], y); self.upd(st, a[1], x)

    def key(self, p):
        o = conc(simp(p.e - p.prov.base)) if p.prov is not None else None
        if o is None: raise Unmodelled("an automaton at an unknown place")
        return p.prov.id, o

    def L(self, st, p):
        if self.key(p) not in self.gs: raise Unmodelled("not an automaton")
        g = self.gs[self.key(p)]
        if g not in st.mem: raise Unmodelled("an automaton of another path")
        return get(self.e, st, g, 0)

    def upd(self, st, p, L):
        k = self.key(p)
        if k not in self.gs: self.gs[k] = self.e.new_region(st, "language", 8)
        if getattr(p.prov, "ro", False): self.e.oblige(st, "the operand stays as it is", z3.BoolVal(False), "frame")
        if self.gs[k] in st.mem: self.e.store(st, ptr(self.gs[k]), V(simp(L)), ir.I(64))
        else: st.mem[self.gs[k]] = Cells({0: (8, V(L))})
        return p

    def new(self, st, name, readonly=False):
        r = self.e.new_region(st, name, gconst(self.e.m, "vc_size_fsm"), readonly=readonly)
        r.ro = False
        p = ptr(r)
        L = z3.BitVec("language_" + name, 64)
        self.upd(st, p, L)
        r.ro = readonly
        return p, L

    def raw(self, st, name): return ptr(self.e.new_region(st, name, gconst(self.e.m, "vc_size_fsm")))


STRIDE = 128
WIDTH = 40


class Tree:
    """A std::set or std::map in iteration order: n elements; fields: offset in the node -> value of element i; visit(i): facts about element i.
    mark: the position of the one element of interest, if there is one."""

    def __init__(self, e, st, name, fields, visit=None, n=None):
        self.e, self.name, self.fields, self.visit = e, name, fields, visit
        self.n_ = n if n is not None else z3.BitVec("size_" + name, WIDTH)
        self.n = z3.ZeroExt(64 - WIDTH, self.n_)
        self.r = e.new_region(st, name, None, kind="bytes", init=UF(z3.Function("nodes_" + name, BV(64), BV(8))), readonly=True, align=STRIDE)
        self.r.lv = self
        self.begin = V(self.r.base, self.r)
        self.bytes = z3.Concat(z3.BitVecVal(0, 64 - 7 - WIDTH), self.n_, z3.BitVecVal(0, 7))
        self.end = V(simp(self.r.base + self.bytes), self.r)

    def index(self, p):
        d = simp(p.e - self.r.base)
        parts = linear(d)
        c = sum(k for k, x in parts if x is None) % (1 << 64)
        var = [(k, x) for k, x in parts if x is not None]
        if all(k % STRIDE == 0 for k, x in var): return simp(sum([bv(k // STRIDE) * x for k, x in var], bv(c // STRIDE))), c % STRIDE
        low = conc(simp(z3.Extract(6, 0, d)))
        c = low if low is not None else c
        return simp(z3.LShR(d - bv(c % STRIDE), 7)), c % STRIDE

    def gep(self, e, st, p): return p

    def load(self, e, st, p, ty):
        i, off = self.index(p)
        if off not in self.fields: raise Unmodelled("a node of %s at %d" % (self.name, off))
        e.oblige(st, "an element of " + self.name, z3.ULT(i, self.n), "memory", soft=True)
        if self.visit: self.visit(i)
        return V(self.fields[off](i))

    def store(self, e, st, p, v, ty): raise Unmodelled("a node is written")

    def seen(self, p, mark): return z3.And(z3.ULT(mark, self.n), z3.ULT(mark, self.index(V(p, self.r))[0]))

    def place(self, p): return z3.And((p - self.r.base) & bv(STRIDE - 1) == 0, z3.ULE(p - self.r.base, self.bytes))


class Trees:
    """which tree is at which address, and the container contracts"""

    def __init__(self, e, find):
        self.find = find
        setp = lambda d, *m: (d.startswith("std::set<") or d.startswith("std::map<")) and any(d.endswith("::" + x) for x in m)
        t = lambda p, st: self.find(st, p)
        e.contracts += [Contract(lambda d: setp(d, "begin() const", "begin()"), lambda e, st, a, i: self.find(st, a[0]).begin, "begin()"),
                        Contract(lambda d: setp(d, "end() const", "end()"), lambda e, st, a, i: self.find(st, a[0]).end, "end()"),
                        Contract(lambda d: d.startswith("std::_Rb_tree_increment("), lambda e, st, a, i: V(simp(a[0].e + bv(STRIDE)), a[0].prov), "_Rb_tree_increment")]


def elements(e, name, member, x, bound=None):
    """the element function of a set of numbers: x is a member exactly at the position mark; (fields, visit, mark)"""
    el, mark = z3.Function("element_" + name, BV(64), BV(64)), z3.BitVec("mark_" + name, 64)
    n_ = z3.BitVec("size_" + name, WIDTH)
    n = z3.ZeroExt(64 - WIDTH, n_)
    e.fact(z3.Implies(member, z3.And(z3.ULT(mark, n), el(mark) == x)))

    def visit(i):
        e.fact(z3.Implies(z3.ULT(i, n), (el(i) == x) == z3.And(member, i == mark)))
        if bound is not None: e.fact(z3.Implies(z3.ULT(i, n), z3.ULT(el(i), bound)))
    return {32: el}, visit, mark


def states(ctx, eng_, width=64, prov=None):
    """(name, value in the candidate's evaluation) of the loop's variables of a width or provenance"""
    out = []
    for v in ctx.vars:
        if v[0] not in ("phi", "cell"): continue
        h = eng_.getv(ctx.hst, v)
        if not isinstance(h.e, z3.BitVecRef) or h.e.size() != width or (h.prov is not prov): continue
        out.append((vname(v), lambda ev, v=v: ev(v).e, v))
    return out


def ghostvar(ctx, eng_, region, off):
    v = next((v for v in ctx.vars if v[0] == "cell" and v[1][0] is region and v[1][1] == off), None)
    return (lambda ev: ev(v).e) if v else (lambda ev: get(eng_, ctx.hst, region, off, 8 if off >= 8 else 64))
