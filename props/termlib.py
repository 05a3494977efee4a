"""Fsm::TerminalStates: the final states that go to themselves by every letter."""
from fsmlib import *
from fsmlib import STRIDE

W, B = BV(64), z3.BoolSort()


def terminals(case):
    """TerminalStates: a state is terminal exactly when it is final and goes to itself by the representative of every class of letters"""
    from C08 import deng, setul
    e, st = deng()
    off = {n: gconst(e.m, "vc_off_" + n) for n in ("final", "letters", "trans")}
    f = e.new_region(st, "fsm", gconst(e.m, "vc_size_fsm"), readonly=True)
    res = e.new_region(st, "result", 48)
    q, c, size, lmark = z3.BitVec("q", 64), z3.BitVec("c", 16), z3.BitVec("size", 64), z3.BitVec("mark_letters", 64)
    has, D = z3.Function("hasRow", W, BV(16), B), z3.Function("destination", W, BV(16), W, B)
    T = lambda s, l, x: z3.And(has(s, l), D(s, l, x))
    isfinal, every = z3.Bool("q is final"), z3.Bool("q goes to itself by every letter")
    fields, visit, mark = elements(e, "final", isfinal, q, size)
    finals = Tree(e, st, "final", fields, visit)
    key = z3.Function("representative", W, BV(16))
    letters = Tree(e, st, "letters", {32: key}, None)
    letters.visit = lambda i: e.fact(z3.Implies(z3.ULT(i, letters.n), z3.And((key(i) == c) == (i == lmark), z3.Implies(every, T(q, key(i), q)))))
    e.facts += [z3.ULE(size, bv(1 << 30)), z3.ULT(lmark, letters.n), key(lmark) == c, z3.Implies(every, T(q, c, q))]
    g = e.new_region(st, "ghost of the result", 8)
    st.mem[g] = Cells({0: (8, V(bv(0)))})
    see = lambda st: get(e, st, g, 0)
    rows = e.new_region(st, "rows", None, kind="bytes", init=UF(z3.Function("row_bytes", W, BV(8))), readonly=True, align=STRIDE)
    nodes = e.new_region(st, "entries", None, kind="bytes", init=UF(z3.Function("entry_bytes", W, BV(8))), readonly=True, align=STRIDE)
    hit = e.new_region(st, "destinations", None, kind="bytes", init=UF(z3.Function("dest_bytes", W, BV(8))), readonly=True, align=STRIDE)
    pos, sof, lof = z3.Function("entryNumber", W, BV(16), BV(30)), z3.Function("entryState", W, W), z3.Function("entryLetter", W, BV(16))
    for r in (rows, nodes, hit):
        class Opaque:
            def gep(s, e, st, p): return p
            def load(s, *a): raise Unmodelled("a node is read")
            store = load
        r.lv = Opaque()
    rown = lambda p: simp(z3.LShR(p.e - rows.base, 7))

    def row(e, st, a, i):
        if a[0].prov is not f or conc(simp(a[0].e - f.base)) != off["trans"]: raise Unmodelled("another table")
        e.oblige(st, "a state of the automaton", z3.ULT(a[1].e, size), "pre", soft=True)
        return V(simp(rows.base + (a[1].e << 7)), rows)

    def place(p):
        if p.prov is res: return "result"
        if p.prov is f and conc(simp(p.e - f.base)) == off["final"]: return "final"
        if p.prov is f and conc(simp(p.e - f.base)) == off["letters"]: return "letters"
        if p.prov in (rows, nodes): return "row" if p.prov is rows else "destinations"
        raise Unmodelled("another container")

    def dest(p):
        n = simp(z3.LShR(p.e - nodes.base, 7))
        if conc(simp(z3.Extract(6, 0, p.e - nodes.base))) != 40: raise Unmodelled("part of an entry")
        return n

    def find(e, st, a, i):
        w = place(a[0])
        if w == "row":
            s, l = rown(a[0]), e.load(st, a[1], ir.I(16) if False else ir.I(64)).e
            n = z3.ZeroExt(34, pos(s, z3.Extract(15, 0, l)))
            l = z3.Extract(15, 0, l)
            e.fact(z3.And(sof(n) == s, lof(n) == l))
            return V(simp(z3.If(has(s, l), nodes.base + (n << 7), nodes.base + bv(1 << 50) + (s << 7))), nodes)
        if w == "destinations":
            n, x = dest(a[0]), e.load(st, a[1], ir.I(64)).e
            e.oblige(st, "an entry that is there", z3.ULT(n, bv(1 << 30)), "memory", soft=True)
            return V(simp(z3.If(D(sof(n), lof(n), x), hit.base, hit.base + bv(1 << 40) + (n << 7))), hit)
        raise Unmodelled("find in " + w)

    def end(e, st, a, i):
        w = place(a[0])
        if w == "row": return V(simp(nodes.base + bv(1 << 50) + (rown(a[0]) << 7)), nodes)
        if w == "destinations": return V(simp(hit.base + bv(1 << 40) + (dest(a[0]) << 7)), hit)
        if w == "final": return finals.end
        raise Unmodelled("end of " + w)

    def begin(e, st, a, i):
        if place(a[0]) != "final": raise Unmodelled("elements of another container")
        return finals.begin

    def insert(e, st, a, i):
        if place(a[0]) != "result": raise Unmodelled("insertion into another set")
        x = e.load(st, a[1], ir.I(64)).e
        e.store(st, ptr(g), V(simp(z3.If(x == q, bv(1), see(st)))), ir.I(64))
        return V([V(finals.r.base, finals.r), V(bv(0, 8))])

    def count(e, st, a, i):
        w = place(a[0])
        if w != "destinations": raise Unmodelled("count in " + w)
        n, x = dest(a[0]), e.load(st, a[1], ir.I(64)).e
        return V(z3.If(D(sof(n), lof(n), x), bv(1), bv(0)))
    mp = lambda d: d.startswith(("std::map<unsigned long, Pire::TSet<unsigned long", "Pire::TMap<unsigned long, Pire::TSet<unsigned long"))
    tbl = lambda d: d.startswith(("std::vector<Pire::TMap<unsigned long, Pire::TSet<unsigned long", "Pire::TVector<Pire::TMap<unsigned long, Pire::TSet<unsigned long"))
    both = lambda d: setul(d) or mp(d)
    it = lambda *n: lambda d: both(d) and d.endswith(n)
    e.contracts += [Contract(lambda d: tbl(d) and "::operator[](unsigned long) const" in d, row, "vector::operator[]"),
                    Contract(lambda d: setul(d) and d.endswith(("::TSet()", "::set()")), lambda e, st, a, i: e.oblige(st, "the set that is returned", z3.BoolVal(a[0].prov is res), "pre"), "set()"),
                    Contract(lambda d: setul(d) and "::~" in d, lambda e, st, a, i: None, "~set()"),
                    Contract(lambda d: both(d) and "::find(" in d, find, "find"), Contract(lambda d: setul(d) and "::count(" in d, count, "count"), Contract(it("::end() const", "::end()"), end, "end"),
                    Contract(it("::begin() const", "::begin()"), begin, "begin"), Contract(lambda d: setul(d) and "::insert(unsigned long const&)" in d, insert, "set::insert"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and d.endswith(("::Begin() const", "::begin() const")), lambda e, st, a, i: letters.begin, "Partition::begin"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and d.endswith(("::End() const", "::end() const")), lambda e, st, a, i: letters.end, "Partition::end"),
                    Contract(lambda d: d.startswith("std::_Rb_tree_increment("), lambda e, st, a, i: V(simp(a[0].e + bv(STRIDE)), a[0].prov), "_Rb_tree_increment")]

    def templates(eng_, ctx):
        out = []
        cell = next((y for y in ctx.vars if y[0] == "cell" and y[1][0] is g), None)
        R = (lambda ev: ev(cell).e == 1) if cell else (lambda ev: see(ctx.hst) == 1)
        t = lambda n, x: out.append((n, x))
        if cell: t("the result is a flag", lambda ev: z3.ULE(ev(cell).e, bv(1)))
        t("only such states", lambda ev: z3.Implies(R(ev), z3.And(isfinal, T(q, c, q))))
        for nm, y, v in states(ctx, eng_, 64, finals.r):
            t(nm + " among the final states", lambda ev, y=y: finals.place(y(ev)))
            t("all such states before " + nm, lambda ev, y=y: z3.Implies(z3.And(every, isfinal, finals.seen(y(ev), mark)), R(ev)))
        ptrs = [x[1].e for x in ctx.hst.env.items() if isinstance(x[1], V) and x[1].prov is finals.r and isinstance(x[1].e, z3.BitVecRef)]
        ptrs += [v_.e for r_, cc in ctx.hst.mem.items() if isinstance(cc, Cells) for o_, (n_, v_) in cc.d.items() if isinstance(v_, V) and v_.prov is finals.r and isinstance(v_.e, z3.BitVecRef)]
        cur = []
        for p in ptrs:
            i = finals.index(V(simp(p), finals.r))[0]
            if not any(z3.eq(i, j) for j in cur): cur.append(i)
        el = fields[32]
        for w in (8, 1):
            for nm, y, v in states(ctx, eng_, w):
                ok = lambda ev, y=y, w=w: y(ev) == bv(1, w)
                if w == 8: t(nm + " is a flag", lambda ev, y=y: z3.ULE(y(ev), bv(1, 8)))
                for n2, z, v2 in states(ctx, eng_, 64, letters.r):
                    for k, i in enumerate(cur):
                        t("%s: by the letters before %s (%d)" % (nm, n2, k), lambda ev, ok=ok, z=z, i=i: z3.Implies(z3.And(ok(ev), letters.seen(z(ev), lmark), el(i) == q), T(q, c, q)))
                for k, i in enumerate(cur):
                    t("%s: holds of such a state (%d)" % (nm, k), lambda ev, ok=ok, i=i: z3.Implies(z3.And(every, el(i) == q), ok(ev)))
        for n2, z, v2 in states(ctx, eng_, 64, letters.r):
            t(n2 + " among the letters", lambda ev, z=z: letters.place(z(ev)))
            for k, i in enumerate(cur):
                t("the letters before %s do (%d)" % (n2, k), lambda ev, z=z, i=i: z3.Implies(z3.And(letters.seen(z(ev), lmark), el(i) == q), T(q, c, q)))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_terminals", [ptr(f), ptr(res)])
    e.oblige(o, "only a final state that goes to itself by every letter", z3.Implies(see(o) == 1, z3.And(isfinal, T(q, c, q))), "post")
    e.oblige(o, "every such state", z3.Implies(z3.And(isfinal, every), see(o) == 1), "post")
    cover(e, o)
    return e
