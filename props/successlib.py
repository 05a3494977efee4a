"""FsmDetermineTask::Success: the outputs of the new automaton are those on its transitions."""
from fsmlib import *
from fsmlib import STRIDE

W, B = BV(64), z3.BoolSort()


def success(case):
    """Success: of the outputs found, exactly those between states one of which has a transition to the other remain, as they are"""
    from C08 import deng, ulvec
    e, st = deng()
    off = {n: gconst(e.m, "vc_off_" + n) for n in ("outputs", "trans")}
    nw = gconst(e.m, "vc_off_dt_new")
    tk = e.new_region(st, "task", gconst(e.m, "vc_size_task"))
    u, w, size, lm, dm = z3.BitVecs("u w size lm dm", 64)
    has, E, val = z3.Function("hasOutputs", W, B), z3.Function("hasOutput", W, W, B), z3.Function("output", W, W, W)
    nr_, nd_, el = z3.Function("rowLength", W, BV(WIDTH)), z3.Function("destinationsCount", W, W, BV(WIDTH)), z3.Function("destinationAt", W, W, W, W)
    z = lambda x: z3.ZeroExt(64 - WIDTH, x)
    nr, nd = (lambda s: z(nr_(s))), (lambda s, i: z(nd_(s, i)))
    e.facts += [z3.ULE(size, bv(1 << 30)), z3.ULT(u, size), z3.ULT(w, bv(1 << 30)), z3.Implies(E(u, w), has(u)), z3.ULT(lm, nr(u)), z3.ULT(dm, nd(u, lm))]
    there = z3.And(E(u, w), el(u, lm, dm) == w)
    NAMES = ["NEW", "VAL", "WI", "WJ", "CUR", "LI", "LJ", "SWAP"]
    g = e.new_region(st, "ghost", 8 * len(NAMES))
    O = {x: 8 * i for i, x in enumerate(NAMES)}
    st.mem[g] = Cells({o: (8, V(bv(0))) for o in O.values()})
    put = lambda st, x, y: e.store(st, V(simp(g.base + bv(O[x])), g), V(simp(y)), ir.I(64))
    see = lambda st, x: get(e, st, g, O[x])

    class Opaque:
        def gep(s, e, st, p): return p
        def load(s, e, st, p, ty): raise Unmodelled("a node is read")
        def store(s, *a): raise Unmodelled("a node is written")

    def region(name, lv):
        r = e.new_region(st, name, None, kind="bytes", init=UF(z3.Function("bytes_" + name.replace(" ", "_"), W, BV(8))), readonly=True, align=STRIDE)
        r.lv = lv
        return r

    def num(p):
        """(number, offset in the node): offsets are constants, the rest is a multiple of the node's size [place]"""
        d = simp(p.e - p.prov.base)
        parts = linear(d)
        c = sum(k for k, x in parts if x is None) % STRIDE
        low = conc(simp(z3.Extract(6, 0, d)))
        if low is not None: c = low
        return simp(z3.LShR(d - bv(c), 7)), c
    at = lambda r, i: V(simp(r.base + (i << 7)), r)
    FAR = 1 << 50

    class Dests(Opaque):
        def load(s, e, st, p, ty):
            j, o = num(p)
            if o != 32: raise Unmodelled("a destination's node")
            e.oblige(st, "a destination that is there", z3.And(z3.ULT(see(st, "LI"), nr(see(st, "CUR"))), z3.ULT(j, nd(see(st, "CUR"), see(st, "LI")))), "memory", soft=True)
            put(st, "LJ", j)
            x = el(see(st, "CUR"), see(st, "LI"), j)
            e.fact(z3.Implies(st.g, z3.ULT(x, bv(1 << 30))))
            return V(x)
    opq = Opaque()
    table, row, dests, onode, pnode, newrow = region("table", opq), region("row", opq), region("destinations", Dests()), region("old outputs", opq), region("old output", opq), region("new outputs", opq)
    pos, fof, tof = z3.Function("entryNumber", W, W, BV(30)), z3.Function("entryFrom", W, W), z3.Function("entryTo", W, W)
    local = []

    class Pair(Opaque):
        def load(s, e, st, p, ty):
            n, o = num(p)
            if o == 32: return V(tof(n))
            if o == 40: return V(val(fof(n), tof(n)))
            raise Unmodelled("an output's node")
    pnode.lv = Pair()

    def where(p):
        x = conc(simp(p.e - p.prov.base))
        if p.prov is tk and x == nw + off["outputs"]: return "new"
        if p.prov is tk and x == nw + off["trans"]: return "table"
        if p.prov in local: return "old"
        for r, nm in ((table, "row"), (row, "dests"), (onode, "outputs of"), (newrow, "new outputs of")):
            if p.prov is r: return nm
        raise Unmodelled("another container")

    def swap(e, st, a, i):
        p = [x for x in a[:2] if x.prov is not tk]
        if len(p) != 1 or [x for x in a[:2] if x.prov is tk and where(x) == "new"] == []: raise Unmodelled("another swap")
        local.append(p[0].prov)
        e.oblige(st, "the outputs are taken once, first", z3.And(see(st, "SWAP") == 0, see(st, "NEW") == 0), "pre")
        put(st, "SWAP", bv(1))

    def find(e, st, a, i):
        k, x = where(a[0]), e.load(st, a[1], ir.I(64)).e
        if k == "old":
            e.oblige(st, "the outputs found", see(st, "SWAP") == 1, "pre")
            return V(simp(z3.If(has(x), onode.base + (x << 7), onode.base + bv(FAR))), onode)
        if k == "outputs of":
            s, o = num(a[0])
            if o != 40: raise Unmodelled("part of a node")
            e.oblige(st, "a state with outputs", z3.And(has(s), z3.ULT(s, size)), "memory", soft=True)
            n = z3.ZeroExt(34, pos(s, x))
            e.fact(z3.And(fof(n) == s, tof(n) == x))
            return V(simp(z3.If(E(s, x), pnode.base + (n << 7), pnode.base + bv(FAR))), pnode)
        raise Unmodelled("find in " + k)

    def end(e, st, a, i):
        k = where(a[0])
        if k == "old": return V(simp(onode.base + bv(FAR)), onode)
        if k == "outputs of": return V(simp(pnode.base + bv(FAR)), pnode)
        if k == "row": return at(row, nr(num(a[0])[0]))
        if k == "dests":
            put(st, "LI", num(a[0])[0])
            return at(dests, nd(see(st, "CUR"), num(a[0])[0]))
        raise Unmodelled("end of " + k)

    def begin(e, st, a, i):
        k = where(a[0])
        if k == "row": put(st, "CUR", num(a[0])[0]); return V(row.base, row)
        if k == "dests":
            e.oblige(st, "an entry of the row", z3.ULT(num(a[0])[0], nr(see(st, "CUR"))), "memory", soft=True)
            put(st, "LI", num(a[0])[0]); return V(dests.base, dests)
        raise Unmodelled("elements of " + k)

    def index(e, st, a, i):
        if where(a[0]) != "table": raise Unmodelled("another table")
        e.oblige(st, "a state of the automaton", z3.ULT(a[1].e, size), "pre", soft=True)
        put(st, "CUR", a[1].e)
        return at(table, a[1].e)

    def entry(e, st, a, i):
        if where(a[0]) != "new": raise Unmodelled("another map")
        x = e.load(st, a[1], ir.I(64)).e
        e.oblige(st, "outputs of a state of the automaton", z3.ULT(x, size), "pre", soft=True)
        return at(newrow, x)

    def insert(e, st, a, i):
        if where(a[0]) != "new outputs of": raise Unmodelled("another map")
        s = num(a[0])[0]
        k, v = e.load(st, a[1], ir.I(64)).e, e.load(st, V(simp(a[1].e + bv(8)), a[1].prov), ir.I(64)).e
        me = z3.And(s == u, k == w, see(st, "NEW") == 0)
        for x, y in (("VAL", v), ("WI", see(st, "LI")), ("WJ", see(st, "LJ")), ("NEW", bv(1))): put(st, x, z3.If(me, y, see(st, x)))
        # the witness is of the state the output is entered under
        e.oblige(st, "the transitions looked at are of the same state", s == see(st, "CUR"), "pre", soft=True)
        return V([V(newrow.base, newrow), V(bv(1, 8))])
    cont = lambda d, *m: d.startswith(("std::map<unsigned long, ", "std::set<unsigned long")) and any(d.endswith("::" + x) for x in m)
    tbl = lambda d: d.startswith(("std::vector<Pire::TMap<unsigned long, Pire::TSet<unsigned long", "Pire::TVector<Pire::TMap<unsigned long, Pire::TSet<unsigned long"))
    mp = lambda d: d.startswith(("std::map<unsigned long", "Pire::TMap<unsigned long"))
    e.contracts += [Contract(lambda d: mp(d) and ("::~" in d or d.endswith(("::TMap()", "::map()"))), lambda e, st, a, i: None, "map(), ~map()"),
                    Contract(lambda d: mp(d) and "::swap(" in d, swap, "map::swap"), Contract(lambda d: d == "Pire::Fsm::Size() const", lambda e, st, a, i: V(size), "Fsm::Size"),
                    Contract(lambda d: cont(d, "find(unsigned long const&) const", "find(unsigned long const&)"), find, "find"), Contract(lambda d: cont(d, "end() const", "end()"), end, "end"), Contract(lambda d: cont(d, "begin() const", "begin()"), begin, "begin"),
                    Contract(lambda d: tbl(d) and "::operator[](unsigned long)" in d, index, "vector::operator[]"), Contract(lambda d: cont(d, "operator[](unsigned long const&)", "operator[](unsigned long&&)"), entry, "map::operator[]"),
                    Contract(lambda d: "std::map<unsigned long, unsigned long" in d and "::insert<" in d or mp(d) and "::insert(" in d, insert, "map::insert"),
                    Contract(lambda d: d.startswith("std::_Rb_tree_increment("), lambda e, st, a, i: V(simp(a[0].e + bv(STRIDE)), a[0].prov), "_Rb_tree_increment")]

    def templates(eng_, ctx):
        out = []

        def gv(x):
            cell = next((y for y in ctx.vars if y[0] == "cell" and y[1][0] is g and y[1][1] == O[x]), None)
            return (lambda ev: ev(cell).e) if cell else (lambda ev: see(ctx.hst, x))
        G = {x: gv(x) for x in NAMES}
        t = lambda n, f: out.append((n, f))
        new = lambda ev: G["NEW"](ev) == 1
        when = lambda n, f: t(n, lambda ev: z3.Implies(z3.And(there, f(ev)), new(ev)))
        t("a flag", lambda ev: z3.ULE(G["NEW"](ev), bv(1)))
        t("taken", lambda ev: G["SWAP"](ev) == 1)
        t("only such outputs", lambda ev: z3.Implies(new(ev), z3.And(E(u, w), G["VAL"](ev) == val(u, w), z3.ULT(G["WI"](ev), nr(u)), z3.ULT(G["WJ"](ev), nd(u, G["WI"](ev))), el(u, G["WI"](ev), G["WJ"](ev)) == w)))
        for nm, y, v in states(ctx, eng_):
            if v[0] == "cell" and v[1][0] is g: continue
            t(nm + " <= states", lambda ev, y=y: z3.ULE(y(ev), size))
            when("of the states below " + nm, lambda ev, y=y: z3.ULT(u, y(ev)))
        when("of the states below the current one", lambda ev: z3.ULT(u, G["CUR"](ev)))
        when("of the entries before the last", lambda ev: z3.And(u == G["CUR"](ev), z3.ULT(lm, G["LI"](ev))))
        t("the last entry is one of the row", lambda ev: z3.ULT(G["LI"](ev), nr(G["CUR"](ev))))
        for nm, y, v in states(ctx, eng_, 64, row):
            i = lambda ev, y=y: z3.LShR(y(ev) - row.base, 7)
            t(nm + " in the row", lambda ev, y=y, i=i: z3.And((y(ev) - row.base) & bv(127) == 0, z3.ULE(i(ev), nr(G["CUR"](ev)))))
            when("of the entries before " + nm, lambda ev, i=i: z3.And(u == G["CUR"](ev), z3.ULT(lm, i(ev))))
        for nm, y, v in states(ctx, eng_, 64, dests):
            i = lambda ev, y=y: z3.LShR(y(ev) - dests.base, 7)
            t(nm + " among the destinations", lambda ev, y=y, i=i: z3.And((y(ev) - dests.base) & bv(127) == 0, z3.ULE(i(ev), nd(G["CUR"](ev), G["LI"](ev)))))
            when("of the destinations before " + nm, lambda ev, i=i: z3.And(u == G["CUR"](ev), lm == G["LI"](ev), z3.ULT(dm, i(ev))))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_success", [ptr(tk)])
    P = lambda n, x: e.oblige(o, n, x, "post")
    P("reports success", rv.e if z3.is_bool(rv.e) else rv.e != 0)
    P("the outputs are replaced", see(o, "SWAP") == 1)
    G = lambda x: see(o, x)
    P("an output that remains was there, is as it was, and is on a transition", z3.Implies(G("NEW") == 1, z3.And(E(u, w), G("VAL") == val(u, w), z3.ULT(G("WI"), nr(u)), z3.ULT(G("WJ"), nd(u, G("WI"))), el(u, G("WI"), G("WJ")) == w)))
    P("an output on a transition remains", z3.Implies(there, G("NEW") == 1))
    cover(e, o)
    return e
