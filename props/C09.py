from fsmlib import *
from C08 import MD, deng, Seq, ulvec
from framework import Item, Harness, run_check

W, B = BV(64), z3.BoolSort()
ROW = 48


def minimize(case):
    """Minimize: the task made of the automaton, minimized, its output taken if that succeeded"""
    e, st = deng()
    F = Fsms(e)
    F.use()
    f = F.new(st, "f")
    ok = z3.Bool("minimized")
    out = F.new(st, "output")
    log = e.new_region(st, "log", 8)
    st.mem[log] = Cells({0: (8, V(bv(0)))})
    step = lambda st: get(e, st, log, 0)
    made = {}

    def seq(st, k, what):
        e.oblige(st, what + ": in its turn", step(st) == k, "post", soft=True)
        e.store(st, ptr(log), V(bv(k + 1)), ir.I(64))

    def ctor(e, st, a, i):
        seq(st, 0, "the task")
        e.oblige(st, "on the automaton", z3.BoolVal(a[1].prov is f.prov), "pre")
        made[a[0].prov] = True

    def mini(e, st, a, i):
        seq(st, 1, "Minimize<>")
        if a[0].prov not in made: raise Unmodelled("another task")
        return V(ok)

    def swap(e, st, a, i):
        for n, w in (("initial", 64), ("determined", 8), ("alt", 8), ("sparsed", 8)):
            x, y = (e.load(st, F.field(p, n), ir.I(w)) for p in a[:2])
            e.store(st, F.field(a[0], n), y, ir.I(w)); e.store(st, F.field(a[1], n), x, ir.I(w))
        v = [(F.N(st, p), F.T(st, p), F.F(st, p)) for p in a[:2]]
        for p, (n, t, x) in zip(a[:2], reversed(v)): F.setN(st, p, n); F.setT(st, p, t); F.setF(st, p, x)
    mt = lambda d: d.startswith("Pire::Impl::FsmMinimizeTask::")
    e.contracts += [Contract(fs("Swap(Pire::Fsm&)"), swap, "Fsm::Swap"),
                    Contract(lambda d: mt(d) and "::FsmMinimizeTask(" in d, ctor, "FsmMinimizeTask"), Contract(lambda d: mt(d) and "::~" in d, lambda e, st, a, i: None, "~FsmMinimizeTask"),
                    Contract(lambda d: mt(d) and d.endswith("::Output()"), lambda e, st, a, i: out, "FsmMinimizeTask::Output"), Contract(lambda d: " Pire::Impl::Minimize<Pire::Impl::FsmMinimizeTask>" in d, mini, "Minimize<FsmMinimizeTask>")]
    rv, o = run1(e, st, "vc_minimize", [f])
    P = lambda n, x: e.oblige(o, n, x, "post")
    same = lambda s1, p, s2, q: z3.And(F.T(s1, p) == F.T(s2, q), F.F(s1, p) == F.F(s2, q), F.N(s1, p) == F.N(s2, q), F.initial(s1, p) == F.initial(s2, q), F.flag(s1, p, "determined") == F.flag(s2, q, "determined"))
    P("the output is taken", z3.Implies(ok, same(o, f, st, out)))
    P("otherwise the automaton is left alone", z3.Implies(z3.Not(ok), same(o, f, st, f)))
    cover(e, o)
    return e


class Slots:
    """Entries of a map under construction: at base the one watched, behind it any other."""

    def __init__(self, e, st, name, read, write):
        self.r = e.new_region(st, name, None, kind="bytes", init=UF(z3.Function("bytes_" + name.replace(" ", "_"), W, BV(8))), align=64)
        self.r.lv = self
        self.e, self.read, self.write = e, read, write

    def at(self, mine): return V(simp(self.r.base + z3.If(mine, bv(0), bv(64))), self.r)
    def gep(self, e, st, p): return p
    def load(self, e, st, p, ty): return V(simp(z3.If(p.e == self.r.base, self.read(st), e.fresh("other"))))
    def store(self, e, st, p, v, ty): self.write(st, z3.If(p.e == self.r.base, v.e, self.read(st)), p.e == self.r.base)


def accept(case):
    """AcceptStates: the quotient by the classes: transitions, finals, tags and outputs of a new state are those of the states of its class, and nothing else"""
    e, st = deng()
    e.use_iter = True
    fo, to_ = {n: gconst(e.m, "vc_off_" + n) for n in ("initial", "sparsed", "determined", "trans", "letters", "outputs", "tags")}, offs(e.m, "off_mt_")
    n = z3.BitVec("rows", 40)
    n64 = z3.ZeroExt(24, n)
    Cn, init = z3.BitVec("classes", 64), z3.BitVec("initial", 64)
    u, v, k, c = z3.BitVec("u", 64), z3.BitVec("v", 64), z3.BitVec("k", 64), z3.BitVec("c", 16)
    bp = z3.BitVec("bit", 64)
    e.fact(z3.ULT(bp, bv(64)))
    bit = bv(1) << bp
    c64 = z3.ZeroExt(48, c)
    cl = z3.Function("class", W, W)
    e.facts += [z3.ULT(k, n64), z3.ULT(init, n64), z3.ULT(u, Cn), z3.ULT(v, Cn), z3.ULE(Cn, n64)]
    S = Seq(e, st, "classes", cl, visit=lambda i: e.fact(z3.Implies(z3.ULT(i, n64), z3.ULT(cl(i), Cn))))
    e.fact(S.n == n64)
    det, sp = z3.BitVec("determined", 8), z3.BitVec("sparsed", 8)
    e.facts += [z3.ULE(det, bv(1, 8)), z3.ULE(sp, bv(1, 8))]
    rows = e.new_region(st, "rows", None, kind="bytes", init=UF(z3.Function("row_bytes", W, BV(8))), readonly=True, align=16)
    f = obj(e, st, "fsm", gconst(e.m, "vc_size_fsm"), {fo["initial"]: (8, V(init)), fo["determined"]: (1, V(det)), fo["sparsed"]: (1, V(sp)),
                                                       fo["trans"]: (8, V(rows.base, rows)), fo["trans"] + 8: (8, V(simp(rows.base + n64 * bv(ROW)), rows))}, readonly=True)
    nw = to_["new"]
    tk = obj(e, st, "task", gconst(e.m, "vc_size_mtask"), {to_["fsm"]: (8, ptr(f)), to_["classes"]: (8, V(Cn)), **vecf(to_["class"], S.r, S.begin.e, S.end.e),
                                                           nw + fo["initial"]: (8, V(z3.BitVec("new_initial", 64))), nw + fo["determined"]: (1, V(z3.BitVec("new_determined", 8))), nw + fo["sparsed"]: (1, V(z3.BitVec("new_sparsed", 8)))})
    # what has been done so far
    NAMES = ["N", "LET", "CUR", "CON", "CW", "FIN", "FW", "LF", "TAG", "TW", "LT", "OCUR", "OJ", "OUT", "OW", "OV"]
    g = e.new_region(st, "ghost", 8 * len(NAMES))
    O = {x: 8 * i for i, x in enumerate(NAMES)}
    st.mem[g] = Cells({o: (8, V(bv(0))) for o in O.values()})
    put = lambda st, x, y: e.store(st, V(simp(g.base + bv(O[x])), g), V(simp(y)), ir.I(64))
    see = lambda st, x: get(e, st, g, O[x])
    put(st, "FIN", z3.If(u == 0, bv(1), bv(0))); put(st, "N", bv(1))      # a new automaton: its one state is final
    # rows: letters in order, each with the one state it leads to; c is at pos, if it is there
    nl, key, dst, has, pos = z3.Function("letters", W, BV(WIDTH)), z3.Function("letter", W, W, W), z3.Function("destination", W, W, W), z3.Function("has", W, B), z3.Function("position", W, W)
    zl = lambda r: z3.ZeroExt(64 - WIDTH, nl(r))

    def rowfact(r):
        e.fact(z3.Implies(has(r), z3.And(z3.ULT(pos(r), zl(r)), key(r, pos(r)) == c64, z3.ULT(dst(r, pos(r)), n64))))
    rowfact(k)
    hit = lambda r: z3.And(has(r), cl(r) == u, cl(dst(r, pos(r))) == v)
    S.visit(dst(k, pos(k))); S.visit(k)

    def number(x):
        parts = linear(simp(x - rows.base))
        if any(a % ROW for a, y in parts): return z3.Function("row_number", W, W)(x)
        return simp(sum([bv(a // ROW) * (y if y is not None else bv(1)) for a, y in parts], bv(0)))
    letters = Tree(e, st, "row", {}, None, n=z3.BitVec("unused", WIDTH))
    dests = e.new_region(st, "first destination", None, kind="bytes", init=UF(z3.Function("dest_bytes", W, BV(8))), readonly=True, align=STRIDE)
    letters.dests = dests

    def lload(e, st, p, ty):
        i, off = letters.index(p)
        r = see(st, "CUR")
        e.oblige(st, "an element of the row", z3.ULT(i, zl(r)), "memory", soft=True)
        rowfact(r)
        e.fact(z3.Implies(z3.ULT(i, zl(r)), z3.And((key(r, i) == c64) == z3.And(has(r), i == pos(r)), z3.ULT(key(r, i), bv(1 << 16)), z3.ULT(dst(r, i), n64))))
        if off != 32: raise Unmodelled("a node of the row at %d" % off)
        return V(key(r, i))
    letters.load = lload

    class Dest:
        def gep(s, e, st, p): return p

        def load(s, e, st, p, ty):
            i = letters.index(V(simp(p.e - dests.base + letters.r.base), letters.r))[0]
            r = see(st, "CUR")
            e.oblige(st, "the destination of an element of the row", z3.ULT(i, zl(r)), "memory", soft=True)
            return V(dst(r, i))

        def store(s, *a): raise Unmodelled("a destination is written")
    dests.lv = Dest()
    # outputs: two levels
    no_ = z3.BitVec("size_outputs", WIDTH)
    zo = z3.ZeroExt(64 - WIDTH, no_)
    ok1, ok2, ov, nj = z3.Function("outputs_from", W, W), z3.Function("outputs_to", W, W, W), z3.Function("output", W, W, W), z3.Function("outputs_of", W, BV(WIDTH))
    zj = lambda r: z3.ZeroExt(64 - WIDTH, nj(r))
    ko, kj = z3.BitVecs("ko kj", 64)
    e.facts += [z3.ULT(ko, zo), z3.ULT(kj, zj(ko))]
    e.facts += [z3.ULT(ok1(ko), n64), z3.ULT(ok2(ko, kj), n64)]
    outer = Tree(e, st, "outputs", {32: ok1}, lambda i: e.fact(z3.Implies(z3.ULT(i, zo), z3.ULT(ok1(i), n64))), n=no_)
    inner = Tree(e, st, "outputs of one", {}, None, n=z3.BitVec("unused2", WIDTH))

    def iload(e, st, p, ty):
        j, off = inner.index(p)
        r = see(st, "OCUR")
        e.oblige(st, "an output", z3.ULT(j, zj(r)), "memory", soft=True)
        e.fact(z3.Implies(z3.ULT(j, zj(r)), z3.ULT(ok2(r, j), n64)))
        put(st, "OJ", j)
        if off == 32: return V(ok2(r, j))
        if off == 40: return V(ov(r, j))
        raise Unmodelled("an output's node at %d" % off)
    inner.load = iload
    ohit = lambda i, j: z3.And(cl(ok1(i)) == u, cl(ok2(i, j)) == v, ov(i, j) & bit != 0)

    def place(p):
        """what a container at an address is"""
        if p.prov is f or p.prov is tk:
            x = conc(simp(p.e - p.prov.base))
            for nm in ("outputs", "tags", "letters"):
                if p.prov is f and x == fo[nm]: return nm
                if p.prov is tk and x == nw + fo[nm]: return "new " + nm
        raise Unmodelled("another container")

    def begin_end(e, st, a, i):
        last = "::end()" in e.cur_fn.dem
        p = a[0]
        if p.prov is rows:
            r = number(p.e)
            e.oblige(st, "a row of the table", z3.ULT(r, n64), "memory", soft=True)
            put(st, "CUR", r); S.visit(r)
            return V(simp(letters.r.base + z3.Concat(z3.BitVecVal(0, 64 - 7 - WIDTH), nl(r), z3.BitVecVal(0, 7))), letters.r) if last else letters.begin
        if p.prov is outer.r:
            r, x = outer.index(p)
            if x != 40: raise Unmodelled("a part of a node")
            e.oblige(st, "an element of the outputs", z3.ULT(r, zo), "memory", soft=True)
            put(st, "OCUR", r)
            return V(simp(inner.r.base + z3.Concat(z3.BitVecVal(0, 64 - 7 - WIDTH), nj(r), z3.BitVecVal(0, 7))), inner.r) if last else inner.begin
        if p.prov is letters.r:
            i_, x = letters.index(p)
            if x != 40 or last: raise Unmodelled("the end of the destinations")
            return V(simp(p.e - bv(40) - letters.r.base + dests.base), dests)
        w = place(p)
        if w == "outputs": return outer.end if last else outer.begin
        if w == "tags" and last: return V(simp(node.base + bv(64)), node)
        raise Unmodelled("elements of " + w)
    # tags
    hast, tagv = z3.Function("hasTag", W, B), z3.Function("tag", W, W)
    node = e.new_region(st, "tag node", None, kind="bytes", init=UF(z3.Function("tag_bytes", W, BV(8))), readonly=True, align=64)
    thit = lambda r: z3.And(cl(r) == u, hast(r), tagv(r) & bit != 0)

    class Node:
        def gep(s, e, st, p): return p

        def load(s, e, st, p, ty):
            e.oblige(st, "a tag that is there", hast(see(st, "LT")), "memory", soft=True)
            d = simp(p.e - node.base)
            if conc(simp(z3.Extract(5, 0, d))) != 40: raise Unmodelled("a tag's node")
            return V(tagv(see(st, "LT")))

        def store(s, *a): raise Unmodelled("a tag is written")
    node.lv = Node()

    def find(e, st, a, i):
        if place(a[0]) != "tags": raise Unmodelled("another map")
        x = e.load(st, a[1], ir.I(64)).e
        put(st, "LT", x)
        return V(simp(z3.If(hast(x), node.base, node.base + bv(64))), node)

    def setbits(V_, W_, wit):
        def w(st, x, mine):
            new = z3.And(mine, x & bit != 0, see(st, V_) & bit == 0)
            for a_, b_ in zip(W_, wit): put(st, a_, z3.If(new, see(st, b_), see(st, a_)))
            put(st, V_, x)
        return w
    tslot = Slots(e, st, "new tags", lambda st: see(st, "TAG"), setbits("TAG", ["TW"], ["LT"]))
    oslot = Slots(e, st, "new outputs", lambda st: see(st, "OUT"), setbits("OUT", ["OW", "OV"], ["OCUR", "OJ"]))
    orow = Slots(e, st, "new output rows", None, None)

    def entry(e, st, a, i):
        x = e.load(st, a[1], ir.I(64)).e
        e.oblige(st, "of a state of the new automaton", z3.ULT(x, see(st, "N")), "pre", soft=True)
        if a[0].prov is orow.r: return oslot.at(z3.And(a[0].e == orow.r.base, x == v))
        w = place(a[0])
        if w == "new tags": return tslot.at(x == u)
        if w == "new outputs": return orow.at(x == u)
        raise Unmodelled("an entry of " + w)
    bool_ = lambda x: x if z3.is_bool(x) else x != 0

    def newfsm(p):
        if p.prov is not tk or conc(simp(p.e - tk.base)) != nw: raise Unmodelled("another automaton")

    def resize(e, st, a, i):
        newfsm(a[0]); put(st, "N", a[1].e)
        return V(bv(1))

    def connect(e, st, a, i):
        newfsm(a[0])
        e.oblige(st, "Connect of states of the new automaton", z3.And(z3.ULT(a[1].e, see(st, "N")), z3.ULT(a[2].e, see(st, "N"))), "pre", soft=True)
        me = z3.And(a[1].e == u, a[2].e == v, a[3].e == c)
        put(st, "CW", z3.If(z3.And(me, see(st, "CON") == 0), see(st, "CUR"), see(st, "CW")))
        put(st, "CON", z3.If(me, bv(1), see(st, "CON")))

    def setfinal(e, st, a, i):
        newfsm(a[0])
        put(st, "FW", z3.If(a[1].e == u, see(st, "LF"), see(st, "FW")))
        put(st, "FIN", z3.If(a[1].e == u, z3.If(bool_(a[2].e), bv(1), bv(0)), see(st, "FIN")))
    fin = z3.Function("final", W, B)

    def isfinal(e, st, a, i):
        if a[0].prov is not f: raise Unmodelled("another automaton")
        put(st, "LF", a[1].e)
        return V(fin(a[1].e))

    def assign(e, st, a, i):
        if place(a[0]) != "new letters" or place(a[1]) != "letters": raise Unmodelled("letters of another automaton")
        put(st, "LET", bv(1))
        return a[0]
    mp = lambda d, *m: d.startswith(("std::map<unsigned long, ", "std::set<unsigned long", "Pire::TMap<unsigned long", "Pire::TSet<unsigned long")) and any(d.endswith("::" + x) for x in m)
    e.contracts += [Contract(lambda d: mp(d, "begin() const", "begin()", "end() const", "end()"), begin_end, "begin()/end()"),
                    Contract(lambda d: d.startswith("std::_Rb_tree_increment("), lambda e, st, a, i: V(simp(a[0].e + bv(STRIDE)), a[0].prov), "_Rb_tree_increment"),
                    Contract(lambda d: mp(d, "find(unsigned long const&) const", "find(unsigned long const&)"), find, "map::find"),
                    Contract(lambda d: mp(d, "operator[](unsigned long const&)", "operator[](unsigned long&&)"), entry, "map::operator[]"),
                    Contract(fs("Resize(unsigned long)"), resize, "Fsm::Resize"), Contract(fs("Connect(unsigned long, unsigned long, unsigned short)"), connect, "Fsm::Connect [C07]"),
                    Contract(fs("SetFinal(unsigned long, bool)"), setfinal, "Fsm::SetFinal [C07]"), Contract(fs("IsFinal(unsigned long) const"), isfinal, "Fsm::IsFinal [C07]"),
                    Contract(fs("Size() const"), lambda e, st, a, i: V(n64), "Fsm::Size"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and "::operator=(" in d, assign, "Partition::operator=")]

    def templates(eng_, ctx):
        out = []
        def gv(x):
            cell = next((y for y in ctx.vars if y[0] == "cell" and y[1][0] is g and y[1][1] == O[x]), None)
            return (lambda ev: ev(cell).e) if cell else (lambda ev: see(ctx.hst, x))
        G = {x: gv(x) for x in NAMES}
        inloop = states(ctx, eng_, 64, letters.r)
        out.append(("a witness of the transition", lambda ev: z3.And(z3.ULE(G["CON"](ev), bv(1)), z3.Implies(G["CON"](ev) == 1, z3.And(z3.ULT(G["CW"](ev), n64), hit(G["CW"](ev)))))))
        out.append(("a witness of the final state", lambda ev: z3.And(z3.ULE(G["FIN"](ev), bv(1)), z3.Implies(G["FIN"](ev) == 1, z3.And(z3.ULT(G["FW"](ev), n64), fin(G["FW"](ev)), cl(G["FW"](ev)) == u)))))
        out.append(("a witness of the tag", lambda ev: z3.Implies(G["TAG"](ev) & bit != 0, z3.And(z3.ULT(G["TW"](ev), n64), thit(G["TW"](ev))))))
        out.append(("a witness of the output", lambda ev: z3.Implies(G["OUT"](ev) & bit != 0, z3.And(z3.ULT(G["OW"](ev), zo), z3.ULT(G["OV"](ev), zj(G["OW"](ev))), ohit(G["OW"](ev), G["OV"](ev))))))
        out.append(("the new automaton's size", lambda ev: z3.And(G["N"](ev) == Cn, G["LET"](ev) == 1)))
        done = lambda ev, i: z3.And(z3.Implies(z3.And(z3.ULT(k, i), fin(k), cl(k) == u), G["FIN"](ev) == 1), z3.Implies(z3.And(z3.ULT(k, i), thit(k)), G["TAG"](ev) & bit != 0))
        tran = lambda ev, i: z3.Implies(z3.And(z3.ULT(k, i), hit(k)), G["CON"](ev) == 1)
        for nm, x, vv in states(ctx, eng_, 64, rows):
            out.append((nm + " in the table", lambda ev, x=x: z3.ULE(number(x(ev)), n64)))
            out.append(("finals and tags of the states before " + nm, lambda ev, x=x: done(ev, number(x(ev)))))
            out.append(("transitions of the states before " + nm, lambda ev, x=x: tran(ev, number(x(ev)))))
        for nm, x, vv in states(ctx, eng_):         # the same with a number of the row
            if vv[0] == "cell" and vv[1][0] is g: continue
            out.append((nm + " in the table", lambda ev, x=x: z3.ULE(x(ev), n64)))
            out.append(("finals and tags of the states before " + nm, lambda ev, x=x: done(ev, x(ev))))
            out.append(("transitions of the states before " + nm, lambda ev, x=x: tran(ev, x(ev))))
        for nm, x, vv in inloop:
            out.append((nm + " in the row", lambda ev, x=x: z3.And((x(ev) - letters.r.base) & bv(STRIDE - 1) == 0, z3.ULE(x(ev) - letters.r.base, zl(G["CUR"](ev)) << 7))))
            out.append(("transitions before " + nm, lambda ev, x=x: z3.And(tran(ev, G["CUR"](ev)), z3.Implies(z3.And(k == G["CUR"](ev), hit(k), z3.ULT(pos(k), letters.index(V(x(ev), letters.r))[0])), G["CON"](ev) == 1))))
        for nm, x, vv in states(ctx, eng_, 64, outer.r):
            out.append((nm + " among the outputs", lambda ev, x=x: outer.place(x(ev))))
            out.append(("outputs before " + nm, lambda ev, x=x: z3.Implies(z3.And(z3.ULT(ko, outer.index(V(x(ev), outer.r))[0]), ohit(ko, kj)), G["OUT"](ev) & bit != 0)))
        for nm, x, vv in states(ctx, eng_, 64, inner.r):
            out.append((nm + " among the outputs of one", lambda ev, x=x: z3.And((x(ev) - inner.r.base) & bv(STRIDE - 1) == 0, z3.ULE(x(ev) - inner.r.base, zj(G["OCUR"](ev)) << 7))))
            out.append(("outputs of one before " + nm, lambda ev, x=x: z3.Implies(z3.And(z3.Or(z3.ULT(ko, G["OCUR"](ev)), z3.And(ko == G["OCUR"](ev), z3.ULT(kj, inner.index(V(x(ev), inner.r))[0]))), ohit(ko, kj)), G["OUT"](ev) & bit != 0)))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_maccept", [ptr(tk)])
    P = lambda n_, x: e.oblige(o, n_, x, "post")
    new = lambda x, w: get(e, o, tk, nw + fo[x], w)
    P("one state for each class", see(o, "N") == Cn)
    P("a transition of a state of the class is one of the new state", z3.Implies(hit(k), see(o, "CON") == 1))
    P("a transition of the new state is one of a state of the class", z3.Implies(see(o, "CON") == 1, hit(see(o, "CW"))))
    P("final if a state of the class is", z3.Implies(z3.And(fin(k), cl(k) == u), see(o, "FIN") == 1))
    P("final only if a state of the class is", z3.Implies(see(o, "FIN") == 1, z3.And(fin(see(o, "FW")), cl(see(o, "FW")) == u)))
    P("the tags of the class", z3.Implies(thit(k), see(o, "TAG") & bit != 0))
    P("no other tags", z3.Implies(see(o, "TAG") & bit != 0, thit(see(o, "TW"))))
    P("the outputs between the classes", z3.Implies(ohit(ko, kj), see(o, "OUT") & bit != 0))
    P("no other outputs", z3.Implies(see(o, "OUT") & bit != 0, ohit(see(o, "OW"), see(o, "OV"))))
    P("starts in the class of the initial state", new("initial", 64) == cl(init))
    P("letters, determined and sparsed as they are", z3.And(see(o, "LET") == 1, new("determined", 8) == det, new("sparsed", 8) == sp))
    cover(e, o)
    return e


def main():
    M(); MD()
    items = [Item("AcceptStates", accept, [()], ["FsmMinimizeTask::AcceptStates"]), Item("Minimize", minimize, [()], ["Fsm::Minimize"])]
    return run_check("C09", items, Harness("C09.cpp", 25, desc="random automata, plain, unfolded, renumbered, with tags and outputs: minimized, against the language, the payload and pairwise inequivalence"),
                     assumptions=["the containers do as the standard says", "every transition of the minimized automaton leads to exactly one state (C08)", "the classes AcceptStates is given: the partition refinement Impl::Minimize<Task> and the first partition of FsmMinimizeTask's constructor are checked by the bounded stand-in"],
                     notes="The quotient is watched at one arbitrary pair of classes, letter, old state, old output and bit; what is proved holds of all.")
