from fsmlib import *
import C14
import C11
from framework import Item, Harness, run_check


def MP(): return module("part.cpp", (), NI)


KEY, IDX, VEC = 32, 40, 48  # map node: the key, the class's index, its members


class Part:
    """A partition: n classes with their representatives, in the map's order; cls is an arbitrary equivalence (two items are equivalent if it is equal).
    Invariant: representatives are pairwise inequivalent (where is their position), indices are different and below the counter, what is known of an
    item is the representative of its class."""

    def __init__(self, readonly=False):
        e = self.e = Engine(MP(), [])
        e.cut_hint = lambda f, L: "cut"
        e.use_iter = False; e.opaque_cells = True; e.generic = False
        st = self.st = start()
        W = BV(64)
        self.cls, self.where = z3.Function("class", BV(16), W), z3.Function("where", W, W)
        self.key, self.idx, self.owner = z3.Function("representative", W, BV(16)), z3.Function("index", W, W), z3.Function("owner", W, W)
        self.has, self.inv = z3.Function("known", BV(16), z3.BoolSort()), z3.Function("known_as", BV(16), BV(16))
        self.max0 = z3.BitVec("counter", 64)
        self.off = {n: gconst(e.m, "vc_off_" + n) for n in ("set", "inv", "max")}
        self.t = z3.BitVec("item", 16)
        self.set = Tree(e, st, "classes", {KEY: self.key, IDX: self.idx}, self.visit)
        e.fact(self.set.n == self.max0)
        self.p = ptr(obj(e, st, "partition", gconst(e.m, "vc_size"), {self.off["max"]: (8, V(self.max0)), self.off["set"] + 40: (8, V(self.set.n))}, readonly=readonly))
        self.item = obj(e, st, "the item", 2, {0: (2, V(self.t))}, readonly=True)
        self.at = self.where(self.cls(self.t))
        self.found = z3.And(z3.ULT(self.at, self.set.n), self.cls(self.key(self.at)) == self.cls(self.t))
        self.visit(self.at)
        e.contracts += [Contract(lambda d: d == "VcEq::operator()(unsigned short, unsigned short) const", lambda e, st, a, i: V(self.cls(a[1].e) == self.cls(a[2].e)), "the equivalence")]

    def visit(self, i):
        inside = z3.ULT(i, self.set.n)
        self.e.fact(z3.Implies(inside, z3.And(self.where(self.cls(self.key(i))) == i, self.owner(self.idx(i)) == i, z3.ULT(self.idx(i), self.max0))))

    def known(self, t):
        """the invariant for one item"""
        at = self.where(self.cls(t))
        self.visit(at)
        self.e.fact(z3.Implies(self.has(t), z3.And(z3.ULT(at, self.set.n), self.inv(t) == self.key(at), self.cls(self.key(at)) == self.cls(t))))

    def offset(self, p):
        if p.prov is not self.p.prov: raise Unmodelled("not the partition")
        return conc(simp(p.e - p.prov.base))


def append(case):
    """Append: an item goes to the class it is equivalent to, if there is one, and to a new one with the next index if not; m_inv is told the class's representative"""
    P = Part()
    e, st = P.e, P.st
    log = e.new_region(st, "log", 64)
    PUSH, PPOS, PVAL, INS, IKEY, IIDX, IN, IVAL = range(0, 64, 8)
    st.mem[log] = Cells({o: (8, V(bv(0))) for o in range(0, 64, 8)})
    put = lambda st, o, x: e.store(st, V(simp(log.base + bv(o)), log), V(simp(z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x)), ir.I(64))
    see = lambda st, o: get(e, st, log, o)
    slot = e.new_region(st, "m_inv[item]", 2)
    st.mem[slot] = Cells({0: (2, V(P.inv(P.t)))})
    Trees(e, lambda st, p: P.set if P.offset(p) == P.off["set"] else (_ for _ in ()).throw(Unmodelled("another map")))
    vec = lambda d: d.startswith(("std::vector<unsigned short", "Pire::TVector<unsigned short"))

    def pushback(e, st, a, i):
        if a[0].prov is not P.set.r: raise Unmodelled("push_back of another vector")
        k, o = P.set.index(a[0])
        if o != VEC: raise Unmodelled("push_back at %d" % o)
        put(st, PUSH, see(st, PUSH) + 1); put(st, PPOS, k); put(st, PVAL, e.load(st, a[1], ir.I(16)).e)

    def fill(e, st, a, i):
        n = a[1].e
        for o, x in ((0, z3.SignExt(64 - n.size(), n) if n.size() < 64 else n), (8, z3.ZeroExt(48, a[2].e if a[2].e.size() == 16 else z3.Extract(15, 0, a[2].e)))):
            e.store(st, V(simp(a[0].e + bv(o)), a[0].prov), V(simp(x)), ir.I(64))
        e.store(st, V(simp(a[0].e + bv(16)), a[0].prov), V(bv(0)), ir.I(64))

    def copy(e, st, a, i):
        for o in (0, 8, 16): e.store(st, V(simp(a[0].e + bv(o)), a[0].prov), e.load(st, V(simp(a[1].e + bv(o)), a[1].prov), ir.I(64)), ir.I(64))

    def insert(e, st, a, i):
        if P.offset(a[0]) != P.off["set"]: raise Unmodelled("another map")
        q = lambda o, n: e.load(st, V(simp(a[1].e + bv(o)), a[1].prov), ir.I(n)).e
        put(st, INS, see(st, INS) + 1); put(st, IKEY, q(0, 16)); put(st, IIDX, q(8, 64)); put(st, IN, q(16, 64)); put(st, IVAL, q(24, 64))
        return V([P.set.begin, V(bv(1, 8))])

    def entry(e, st, a, i):
        if P.offset(a[0]) != P.off["inv"]: raise Unmodelled("another map")
        e.oblige(st, "the entry of the item appended", e.load(st, a[1], ir.I(16)).e == P.t, "pre")
        return ptr(slot)
    e.contracts += [Contract(lambda d: vec(d) and d.endswith("::push_back(unsigned short const&)"), pushback, "vector::push_back"),
                    Contract(lambda d: vec(d) and ("(int, unsigned short)" in d or "::vector(unsigned long, unsigned short const&, " in d), fill, "vector(n, x)"),
                    Contract(lambda d: vec(d) and (d.endswith(("> const&)", ">&&)"))) and ("::TVector(" in d or "::vector(" in d), copy, "copy of a vector"),
                    Contract(lambda d: vec(d) and "::~" in d, lambda e, st, a, i: None, "~vector"),
                    Contract(lambda d: "std::map<unsigned short, Pire::ypair<" in d and "::insert" in d, insert, "map::insert"),
                    Contract(lambda d: d.startswith("std::map<unsigned short, unsigned short") and "::operator[](" in d, entry, "map::operator[]")]

    def templates(eng_, ctx):
        out = []
        for nm, x, v in states(ctx, eng_, 64, P.set.r):
            out.append((nm + " among the classes", lambda ev, x=x: P.set.place(x(ev))))
            out.append(("not before " + nm, lambda ev, x=x: z3.Implies(P.found, z3.ULE(P.set.index(V(x(ev), P.set.r))[0], P.at))))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_append", [P.p, ptr(P.item)])
    mx = get(e, o, P.p.prov, P.off["max"])
    z = lambda x: z3.ZeroExt(48, x)
    post = lambda n, x: e.oblige(o, n, x, "post")
    post("an equivalent class: the item is put there, once, and nowhere else", z3.Implies(P.found, z3.And(see(o, PUSH) == 1, see(o, PPOS) == P.at, see(o, PVAL) == z(P.t), see(o, INS) == 0, mx == P.max0)))
    post("the representative is the class's", z3.Implies(P.found, get(e, o, slot, 0, 16) == P.key(P.at)))
    post("no equivalent class: a new one of the item alone, with the next index", z3.Implies(z3.Not(P.found), z3.And(see(o, PUSH) == 0, see(o, INS) == 1, see(o, IKEY) == z(P.t), see(o, IIDX) == P.max0, see(o, IN) == 1, see(o, IVAL) == z(P.t), mx == P.max0 + 1)))
    post("it represents itself", z3.Implies(z3.Not(P.found), get(e, o, slot, 0, 16) == P.t))
    cover(e, o)
    return e


def lookup(case):
    """Representative, Contains, Index, Klass answer by class"""
    P = Part(readonly=True)
    e, st = P.e, P.st
    P.known(P.t)
    zero = obj(e, st, "default", 2, {0: (2, V(bv(0, 16)))}, readonly=True)
    node = obj(e, st, "entry", 40, {32: (2, V(P.t)), 34: (2, V(P.inv(P.t)))}, readonly=True)
    stop = V(simp(node.base + bv(40)), node)

    def find(e, st, a, i):
        k = e.load(st, a[1], ir.I(16)).e
        if P.offset(a[0]) == P.off["inv"]:
            e.oblige(st, "the item is looked up", k == P.t, "pre", soft=True)
            return V(simp(z3.If(P.has(P.t), node.base, stop.e)), node)
        at = P.where(P.cls(k))
        P.visit(at)
        e.oblige(st, "a representative is looked up", z3.And(z3.ULT(at, P.set.n), P.key(at) == k), "pre", soft=True)
        return V(simp(P.set.r.base + (at << 7)), P.set.r)
    e.contracts += [Contract(lambda d: d.startswith("std::map<unsigned short, ") and "::find(unsigned short const&)" in d, find, "map::find"),
                    Contract(lambda d: d.startswith("std::map<unsigned short, ") and d.endswith("::end() const"), lambda e, st, a, i: stop if P.offset(a[0]) == P.off["inv"] else P.set.end, "map::end"),
                    Contract(lambda d: "Pire::DefaultValue<unsigned short>()" in d, lambda e, st, a, i: ptr(zero), "DefaultValue")] + C14.err(None)
    fn, = case
    rv, o, th = call(e, st, fn, [P.p, ptr(P.item)])
    post = lambda n, x: e.oblige(o, n, x, "post")
    has = P.has(P.t)
    if fn in ("vc_rep", "vc_contains"): no_throw(e, th, fn)
    else:
        for t in th: e.oblige(t[0] if isinstance(t, tuple) else t, "throws for an unknown item only", z3.Not(has), "throw")
        post("an unknown item is refused", has)
    if fn == "vc_rep": post("the representative of an item known", rv.e == z3.If(has, P.key(P.at), bv(0, 16)))
    if fn == "vc_contains": post("known", (rv.e if z3.is_bool(rv.e) else rv.e != 0) == has)
    if fn == "vc_index": post("the index of its class", rv.e == P.idx(P.at))
    if fn == "vc_klass": post("the members of its class", rv.e == P.set.r.base + (P.at << 7) + bv(VEC))
    # why that decides equivalence: any two items known
    a, b = z3.BitVecs("a b", 16)
    P.known(a); P.known(b)
    wa, wb = P.where(P.cls(a)), P.where(P.cls(b))
    both = z3.And(P.has(a), P.has(b))
    if fn == "vc_rep": post("representatives agree exactly on equivalent items", z3.Implies(both, (P.key(wa) == P.key(wb)) == (P.cls(a) == P.cls(b))))
    if fn == "vc_index": post("indices agree exactly on equivalent items", z3.Implies(both, (P.idx(wa) == P.idx(wb)) == (P.cls(a) == P.cls(b))))
    cover(e, o)
    return e


ROW = 48


def equality(case):
    """LettersEquality: characters are merged exactly when every state goes to the same states by both"""
    e, st = eng()
    W = BV(64)
    n = z3.BitVec("rows", 40)
    rows = e.new_region(st, "rows", None, kind="bytes", init=UF(z3.Function("row_bytes", W, BV(8))), readonly=True, align=16)
    size = simp(z3.ZeroExt(24, n) * bv(ROW))
    tbl = obj(e, st, "table", 24, {0: (8, V(rows.base, rows)), 8: (8, V(simp(rows.base + size), rows))}, readonly=True)
    q = obj(e, st, "relation", 8, {0: (8, ptr(tbl))}, readonly=True)
    a, b = z3.BitVecs("a b", 16)
    has, to = z3.Function("has", W, W, z3.BoolSort()), z3.Function("targets", W, W, W)
    nodes = e.new_region(st, "nodes", None, kind="bytes", init=UF(z3.Function("node_bytes", W, BV(8))), readonly=True, align=64)
    nodeat = z3.Function("node", W, W, BV(32))
    spot = lambda r, c: simp(nodes.base + (z3.ZeroExt(32, nodeat(r, c)) << 6) + bv(64))
    byid = z3.Function("targets_of_node", W, W)
    za, zb = z3.ZeroExt(48, a), z3.ZeroExt(48, b)
    differs = lambda r: z3.Or(has(r, za) != has(r, zb), z3.And(has(r, za), to(r, za) != to(r, zb)))
    k, n64 = z3.BitVec("k", 64), z3.ZeroExt(24, n)
    e.fact(z3.ULT(k, n64))
    e.use_iter = True

    def number(x):
        """the number of the row at an address"""
        parts = linear(simp(x - rows.base))
        if any(c % ROW for c, y in parts): return z3.Function("row_number", W, W)(x)
        return simp(sum([bv(c // ROW) * (y if y is not None else bv(1)) for c, y in parts], bv(0)))
    witness = e.new_region(st, "the last row compared", 8)
    st.mem[witness] = Cells({0: (8, V(bv(0)))})

    def find(e, st, a_, i):
        if a_[0].prov is not rows: raise Unmodelled("another map")
        r, c = number(a_[0].e), e.load(st, a_[1], ir.I(64)).e
        e.oblige(st, "a row of the table", z3.ULT(r, n64), "memory", soft=True)
        e.store(st, ptr(witness), V(r), ir.I(64))
        e.fact(byid(spot(r, c) + bv(40)) == to(r, c))
        return V(simp(z3.If(has(r, c), spot(r, c), nodes.base)), nodes)

    def ne(e, st, a_, i):
        if a_[0].prov is not nodes or a_[1].prov is not nodes: raise Unmodelled("sets compared")
        return V(byid(a_[0].e) != byid(a_[1].e))
    e.contracts += [Contract(lambda d: d.startswith("std::map<unsigned long, Pire::TSet") and "::find(unsigned long const&)" in d, find, "map::find"),
                    Contract(lambda d: d.startswith("std::map<unsigned long, Pire::TSet") and d.endswith(("::end() const", "::end()")), lambda e, st, a_, i: V(nodes.base, nodes), "map::end"),
                    Contract(lambda d: d.startswith("bool std::operator!=<unsigned long") and "std::set<" in d, ne, "set !="),
                    Contract(lambda d: d.startswith("bool std::operator==<unsigned long") and "std::set<" in d, lambda *x: V(z3.Not(ne(*x).e)), "set ==")]

    def templates(eng_, ctx):
        out = []
        for nm, x, v in states(ctx, eng_, 64, rows):
            out.append((nm + " in the table", lambda ev, x=x: z3.ULE(number(x(ev)), n64)))
            out.append(("rows before %s agree" % nm, lambda ev, x=x: z3.Implies(z3.ULT(k, number(x(ev))), z3.Not(differs(k)))))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_leq", [ptr(q), V(a), V(b)])
    r = rv.e if z3.is_bool(rv.e) else rv.e != 0
    e.oblige(o, "equal: no row differs", z3.Implies(r, z3.Not(differs(k))), "post")
    e.oblige(o, "not equal: the last row compared differs", z3.Implies(z3.Not(r), differs(get(e, o, witness, 0))), "post")
    cover(e, o)
    return e


def sparse(case):
    """Sparse: the classes are those of the transition table, of every character once (Epsilon if asked for)"""
    e, st = eng()
    F = Fsms(e)
    F.use("Size")
    f = F.new(st, "f")
    x, need = z3.BitVec("x", 16), z3.BitVec("need", 1)
    MAX = gconst(e.m, "vc_max_char")
    e.fact(z3.ULT(x, bv(MAX, 16)))
    g = e.new_region(st, "appended x", 8)
    st.mem[g] = Cells({0: (8, V(bv(7)))})
    rel, made = {}, set()

    def relation(e, st, a, i): rel[a[0].prov] = a[1]

    def fresh(e, st, a, i):
        t = rel.get(a[1].prov)
        if t is None: raise Unmodelled("the relation of the classes")
        e.oblige(st, "the classes are those of the automaton's own transitions", t.e == F.field(f, "trans").e, "post")
        made.add(a[0].prov)

    def assign(e, st, a, i):
        if a[1].prov not in made or conc(simp(a[0].e - f.e)) != F.off["letters"]: raise Unmodelled("assignment of classes")
        e.store(st, ptr(g), V(bv(0)), ir.I(64))
        return a[0]

    def append(e, st, a, i):
        if a[0].prov is not f.prov: raise Unmodelled("Append to another partition")
        e.store(st, ptr(g), V(simp(get(e, st, g, 0) + z3.If(e.load(st, a[1], ir.I(16)).e == x, bv(1), bv(0)))), ir.I(64))
    part = lambda d: d.startswith("Pire::Partition<unsigned short, Pire::Fsm::LettersEquality>::")
    e.contracts += [Contract(lambda d: d.startswith("Pire::Fsm::LettersEquality::LettersEquality("), relation, "LettersEquality"),
                    Contract(lambda d: part(d) and "::Partition(Pire::Fsm::LettersEquality const&)" in d, fresh, "Partition"),
                    Contract(lambda d: part(d) and "::operator=(" in d, assign, "Partition::operator="),
                    Contract(lambda d: part(d) and "::~Partition" in d, lambda e, st, a, i: None, "~Partition"),
                    Contract(lambda d: part(d) and "::Append(" in d, append, "Partition::Append")]
    want = lambda upto: z3.If(z3.And(z3.ULT(z3.ZeroExt(16, x), upto), z3.Or(x != bv(F.eps, 16), need == 1)), bv(1), bv(0))

    def templates(eng_, ctx):
        out = []
        G = ghostvar(ctx, eng_, g, 0)
        for n_ in (16, 32, 64):
            for nm, y, v in states(ctx, eng_, n_):
                u = lambda ev, y=y, n_=n_: (z3.Extract(31, 0, y(ev)) if n_ == 64 else z3.ZeroExt(16, y(ev)) if n_ == 16 else y(ev))
                out.append((nm + " a character", lambda ev, u=u: z3.ULE(u(ev), bv(MAX, 32))))
                out.append(("appended below " + nm, lambda ev, u=u: G(ev) == want(u(ev))))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_sparse", [f, V(need == 1)])
    e.oblige(o, "every character once", get(e, o, g, 0) == want(bv(MAX, 32)), "post")
    e.oblige(o, "sparsed", F.flag(o, f, "sparsed"), "post")
    e.oblige(o, "the automaton's transitions and finals stay", z3.And(F.T(o, f) == F.T(st, f), F.F(o, f) == F.F(st, f)), "frame")
    cover(e, o)
    return e


def main():
    M(); MP()
    items = [Item("Append", append, [()], ["Partition::Append", "Partition::DoAppend"]),
             Item("Lookup", lookup, [(f,) for f in ("vc_rep", "vc_contains", "vc_index", "vc_klass")], ["Partition::Representative", "Partition::Contains", "Partition::Index", "Partition::Klass"]),
             Item("Equality", equality, [()], ["Fsm::LettersEquality::operator()"]),
             Item("Sparse", sparse, [()], ["Fsm::Sparse"])]
    return run_check("C10", items, Harness("C10.cpp", 20, desc="partitions, letter classes of automata and scanners against a direct reading of the transitions"),
                     assumptions=["std::map and std::set iterate over their elements, each once; find/insert/operator[] as the standard says", "Split, Unsparse and the classes scanners build upon are checked by the bounded stand-in"],
                     notes="The equivalence is arbitrary: two items are equivalent if an uninterpreted function agrees on them. A class is watched through the position of its representative.")
