"""Impl::Determine<Task> (determine.h) for an arbitrary task: what it enumerates and what it tells the task."""
import itertools
from fsmlib import *

ulvec = lambda d: d.startswith(("std::vector<unsigned long, std::allocator<unsigned long>>::", "Pire::TVector<unsigned long, std::allocator<unsigned long>>::"))

W, B = BV(64), z3.BoolSort()


def ME(): return module("enum.cpp", (), NI)


def enumerate_(case):
    """Determine<Task>: the states are the initial one and everything Next leads to, each once; for each required state and letter the task is told the transition to the state Next gives; Failure exactly when there are more states than allowed"""
    e = Engine(ME(), [])
    e.cut_hint = lambda f, L: "cut"
    e.use_iter = False; e.opaque_cells = True; e.generic = False
    st = start()
    tk, part = e.new_region(st, "task", 8, readonly=True), e.new_region(st, "letters object", 256, readonly=True)
    limit, init = z3.BitVecs("limit initialState", 64)
    q, t, rho, L, lp, c = z3.BitVec("q", 64), z3.BitVec("t", 64), z3.BitVec("rho", 64), z3.BitVec("letterClass", 64), z3.BitVec("mark_letters", 64), z3.BitVec("c", 16)
    Next, Req = z3.Function("Next", W, BV(16), W), z3.Function("Required", W, B)
    key, ci = z3.Function("representative", W, BV(16)), z3.Function("classIndex", W, W)
    letters = Tree(e, st, "letters", {32: key, 40: ci}, None)
    nl = letters.n
    letters.visit = lambda i: e.fact(z3.Implies(z3.ULT(i, nl), z3.And(z3.ULT(ci(i), nl), (ci(i) == L) == (i == lp))))
    e.facts += [z3.ULT(lp, nl), key(lp) == c, ci(lp) == L, z3.ULT(L, nl), q != t]
    NAMES = ["SIZE", "SQ", "ST", "LS", "PEND", "PV", "LASTX", "NF", "NODE", "ROWL", "ROWD", "NR", "RX", "NI", "IX", "IQ", "INVL", "LR", "LJ", "LL", "LF", "PHASE", "CON", "CA", "CB", "CC", "END"]
    g = e.new_region(st, "ghost", 8 * len(NAMES))
    O = {x: 8 * i for i, x in enumerate(NAMES)}
    st.mem[g] = Cells({o: (8, V(bv(0))) for o in O.values()})
    put = lambda st, x, y: e.store(st, V(simp(g.base + bv(O[x])), g), V(simp(y)), ir.I(64))
    see = lambda st, x: get(e, st, g, O[x])
    put(st, "IQ", bv((1 << 64) - 1))
    soft = lambda st, what, x: e.oblige(st, what, x, "pre", soft=True)
    uniq = itertools.count()

    class Arr:
        """an array under contract: load(st, index), store(st, index, value)"""

        def __init__(s, name, shift, load, store=None):
            s.r = e.new_region(st, name, None, kind="bytes", init=UF(z3.Function("bytes_" + name.replace(" ", "_"), W, BV(8))), align=STRIDE)
            s.r.lv = s
            s.shift, s.l, s.s = shift, load, store

        def index(s, p): return simp(z3.LShR(simp(p - s.r.base), s.shift))
        def at(s, i): return V(simp(s.r.base + (i << s.shift)), s.r)
        def gep(s, e, st, p): return p
        def load(s, e, st, p, ty): return V(s.l(st, s.index(p.e)))

        def store(s, e, st, p, v, ty):
            if s.s is None: raise Unmodelled("a write")
            s.s(st, s.index(p.e), v.e)
        def place(s, p, n): return z3.And((p - s.r.base) & bv((1 << s.shift) - 1) == 0, z3.ULE(p - s.r.base, n << s.shift))
    other = lambda w=64: e.fresh("other", w)

    def sload(st, i):
        soft(st, "a state there is", z3.ULT(i, see(st, "SIZE")))
        put(st, "LS", i)
        return z3.If(i == q, see(st, "SQ"), z3.If(i == t, see(st, "ST"), z3.If(z3.And(see(st, "PEND") == 2, i == see(st, "SIZE") - 1), see(st, "PV"), other())))
    states_ = Arr("states", 3, sload)

    def rstore(st, i, v):
        soft(st, "an entry of the row", z3.ULT(i, nl))
        put(st, "ROWL", z3.If(i == L, v, see(st, "ROWL"))); put(st, "ROWD", z3.If(i == L, bv(1), see(st, "ROWD")))
    row = Arr("row", 3, lambda st, i: z3.If(i == L, see(st, "ROWL"), other()), rstore)
    inv = Arr("letters of the classes", 1, None, lambda st, i, v: (soft(st, "a class", z3.ULT(i, nl)), put(st, "INVL", z3.If(i == L, z3.ZeroExt(48, v), see(st, "INVL")))))

    def vload(st, i):
        soft(st, "a class", z3.ULT(i, nl))
        put(st, "LL", i)
        return z3.If(i == L, z3.Extract(15, 0, see(st, "INVL")), other(16))
    inv.l = vload

    def iload(st, i):
        soft(st, "a row there is", z3.ULT(i, see(st, "NI")))
        put(st, "LF", i)
        return z3.If(i == rho, see(st, "IX"), other())
    indices = Arr("indices", 3, iload)
    rows = Arr("rows", 7, None)

    def eload(st, j):
        soft(st, "an entry of the row", z3.ULT(j, nl))
        put(st, "LJ", j)
        return z3.If(z3.And(see(st, "LR") == rho, j == L), see(st, "RX"), other())
    entries = Arr("entries of a row", 3, eload)
    node = Arr("node", 7, lambda st, i: see(st, "NODE"))
    roles, order = {}, []

    def role(p, want=None):
        if p.prov not in roles:
            if want is None: raise Unmodelled("a container with no known part")
            roles[p.prov] = want
        return roles[p.prov]

    def push(e, st, a, i):
        x = e.load(st, a[1], ir.I(64)).e
        w = role(a[0], "states" if "states" not in roles.values() else "indices")
        if w == "states":
            n = see(st, "SIZE")
            soft(st, "a state of its own is added while the states are looked for", z3.And(see(st, "PHASE") == 0, z3.If(see(st, "PEND") == 1, x == see(st, "PV"), z3.And(see(st, "PEND") == 0, z3.Or(n == 0, z3.And(see(st, "NF") == 1, x == see(st, "LASTX")))))))
            put(st, "SQ", z3.If(n == q, x, see(st, "SQ"))); put(st, "ST", z3.If(n == t, x, see(st, "ST")))
            put(st, "PEND", z3.If(see(st, "PEND") == 1, bv(0), bv(2))); put(st, "PV", x)
            e.fact(z3.Implies(st.g, z3.ULT(n, bv(1 << 40))))       # memory
            put(st, "SIZE", n + 1)
        elif w == "indices":
            n = see(st, "NI")
            put(st, "IX", z3.If(n == rho, x, see(st, "IX")))
            put(st, "IQ", z3.If(x == q, n, see(st, "IQ")))
            put(st, "NI", n + 1)
        else: raise Unmodelled("push_back of " + w)

    def insert(e, st, a, i):
        k, v = e.load(st, a[1], ir.I(64)).e, e.load(st, at(a[1].prov, 8) if conc(simp(a[1].e - a[1].prov.base)) == 0 else V(simp(a[1].e + bv(8)), a[1].prov), ir.I(64)).e
        n = see(st, "SIZE")
        soft(st, "the number a state is entered under is its own", z3.If(see(st, "PEND") == 2, z3.And(v == n - 1, k == see(st, "PV")), z3.And(see(st, "PEND") == 0, v == n, z3.Or(n == 0, z3.And(see(st, "NF") == 1, k == see(st, "LASTX"))))))
        put(st, "PEND", z3.If(see(st, "PEND") == 2, bv(0), bv(1))); put(st, "PV", k); put(st, "NODE", v)
        return V([V(node.r.base, node.r), V(bv(1, 8))])

    def find(e, st, a, i):
        x = e.load(st, a[1], ir.I(64)).e
        soft(st, "the map has all the states", see(st, "PEND") == 0)
        hit, r, n = z3.Bool("found!%d" % next(uniq)), other(), see(st, "SIZE")
        e.fact(z3.Implies(z3.And(st.g, hit), z3.And(z3.ULT(r, n), z3.Implies(r == q, x == see(st, "SQ")), z3.Implies(r == t, x == see(st, "ST")))))
        e.fact(z3.Implies(z3.And(st.g, z3.Not(hit)), z3.And(z3.Implies(z3.ULT(q, n), x != see(st, "SQ")), z3.Implies(z3.ULT(t, n), x != see(st, "ST")))))
        put(st, "LASTX", x); put(st, "NF", z3.If(hit, bv(0), bv(1))); put(st, "NODE", r)
        return V(simp(node.r.base + z3.If(hit, bv(0), bv(STRIDE))), node.r)

    def torow(st, p):
        r = rows.index(p.e)
        soft(st, "a row there is", z3.ULT(r, see(st, "NR")))
        put(st, "LR", r)

    def index(e, st, a, i):
        if a[0].prov is rows.r:
            torow(st, a[0])
            return entries.at(a[1].e)
        w = role(a[0])
        arr = {"states": states_, "indices": indices, "row": row, "letters": inv}[w]
        return arr.at(a[1].e)

    def make(w):
        def f(e, st, a, i):
            roles[a[0].prov] = w
            soft(st, "an entry for each letter", a[1].e == nl)
            if w == "row": put(st, "ROWL", bv(0)); put(st, "ROWD", bv(0))
        return f

    def size(e, st, a, i):
        if a[0].prov is rows.r: return V(nl)
        w = role(a[0])
        if w in ("row", "letters"): return V(nl)
        if w not in ("states", "indices"): raise Unmodelled("the size of " + w)
        return V(see(st, "SIZE" if w == "states" else "NI"))

    def rowpush(e, st, a, i):
        if role(a[1]) != "row": raise Unmodelled("another row")
        n = see(st, "NR")
        soft(st, "a complete row", see(st, "ROWD") == 1)
        put(st, "RX", z3.If(n == rho, see(st, "ROWL"), see(st, "RX")))
        put(st, "NR", n + 1)

    def dq(e, st, a, i):
        x = rows.at(see(st, "NR")) if "::end()" in e.cur_fn.dem else rows.at(bv(0))
        for o in (0, 8, 16, 24): e.store(st, V(simp(a[0].e + bv(o)), a[0].prov), x, ir.PTR)

    def cur(st, p): return e.load(st, p, ir.PTR)

    def dqinc(e, st, a, i):
        x = cur(st, a[0])
        e.store(st, a[0], V(simp(x.e + bv(STRIDE)), x.prov), ir.PTR)
        return a[0]

    def vb(e, st, a, i):
        last = "::end()" in e.cur_fn.dem
        if a[0].prov is rows.r:
            torow(st, a[0])
            return entries.at(nl) if last else entries.at(bv(0))
        if role(a[0]) == "letters": return inv.at(nl) if last else inv.at(bv(0))
        raise Unmodelled("elements of " + role(a[0]))

    def accept(e, st, a, i):
        soft(st, "all the states, once", z3.And(z3.BoolVal(roles.get(a[1].prov) == "states"), see(st, "PEND") == 0, see(st, "PHASE") == 0))
        put(st, "PHASE", bv(1))

    def connect(e, st, a, i):
        e.oblige(st, "after AcceptStates", see(st, "PHASE") == 1, "pre", soft=True)
        soft(st, "the state, the transition and the letter belong together", z3.And(see(st, "LF") == see(st, "LR"), see(st, "LJ") == see(st, "LL")))
        me = z3.And(see(st, "LF") == rho, see(st, "LJ") == L)
        put(st, "CON", z3.If(me, see(st, "CON") + 1, see(st, "CON")))
        for o, x in (("CA", a[1].e), ("CB", a[2].e), ("CC", z3.ZeroExt(48, a[3].e))): put(st, o, z3.If(me, x, see(st, o)))
    res = {1: z3.Bool("Success"), 2: z3.Bool("Failure")}

    def finish(k):
        def f(e, st, a, i):
            put(st, "END", bv(k))
            return V(res[k])
        return f
    task = lambda n: lambda d: d.startswith("ATask::" + n + "(")
    us = lambda d: d.startswith(("std::vector<unsigned short, ", "Pire::TVector<unsigned short, "))
    mp = lambda d: d.startswith(("std::map<unsigned long, unsigned long", "Pire::TMap<unsigned long, unsigned long"))
    dqd = lambda d: d.startswith(("std::deque<Pire::TVector<unsigned long", "Pire::TDeque<Pire::TVector<unsigned long"))
    nothing = lambda e, st, a, i: None
    dit = lambda d: "std::_Deque_iterator<Pire::TVector<unsigned long" in d
    e.contracts += [Contract(task("Letters"), lambda e, st, a, i: ptr(part), "Task::Letters"), Contract(task("Initial"), lambda e, st, a, i: V(init), "Task::Initial"),
                    Contract(task("IsRequired"), lambda e, st, a, i: V(Req(e.load(st, a[1], ir.I(64)).e)), "Task::IsRequired"), Contract(task("Next"), lambda e, st, a, i: V(Next(e.load(st, a[1], ir.I(64)).e, a[2].e)), "Task::Next"),
                    Contract(task("AcceptStates"), accept, "Task::AcceptStates"), Contract(task("Connect"), connect, "Task::Connect"), Contract(task("Success"), finish(1), "Task::Success"), Contract(task("Failure"), finish(2), "Task::Failure"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and d.endswith("::Size() const"), lambda e, st, a, i: V(nl), "Partition::Size"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and d.endswith(("::Begin() const", "::begin() const")), lambda e, st, a, i: letters.begin, "Partition::begin"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and d.endswith(("::End() const", "::end() const")), lambda e, st, a, i: letters.end, "Partition::end"),
                    Contract(lambda d: d.startswith("std::_Rb_tree_increment("), lambda e, st, a, i: V(simp(a[0].e + bv(STRIDE)), a[0].prov), "_Rb_tree_increment"),
                    Contract(lambda d: (ulvec(d) or us(d) or mp(d) or dqd(d)) and ("::~" in d or d.endswith(("::TVector()", "::vector()", "::TMap()", "::map()", "::TDeque()", "::deque()"))), nothing, "empty containers, destructors"),
                    Contract(lambda d: ulvec(d) and ("::TVector<unsigned long>(unsigned long)" in d or "::vector(unsigned long" in d or "::TVector<" in d), make("row"), "vector(n)"), Contract(lambda d: us(d) and ("::TVector<unsigned long>(unsigned long)" in d or "::TVector<" in d), make("letters"), "vector(n)"),
                    Contract(lambda d: ulvec(d) and "::push_back(" in d, push, "vector::push_back"), Contract(lambda d: (ulvec(d) or us(d)) and "::operator[](unsigned long)" in d, index, "vector::operator[]"),
                    Contract(lambda d: (ulvec(d) or us(d)) and d.endswith("::size() const"), size, "vector::size"), Contract(lambda d: (ulvec(d) or us(d)) and d.endswith(("::begin()", "::end()")), vb, "vector::begin/end"),
                    Contract(lambda d: mp(d) and "::insert(" in d, insert, "map::insert"), Contract(lambda d: mp(d) and "::find(" in d, find, "map::find"), Contract(lambda d: mp(d) and d.endswith("::end()"), lambda e, st, a, i: node.at(bv(1)), "map::end"),
                    Contract(lambda d: dqd(d) and "::push_back(" in d, rowpush, "deque::push_back"), Contract(lambda d: dqd(d) and d.endswith(("::begin()", "::end()")), dq, "deque::begin/end"),
                    Contract(lambda d: dqd(d) and "::operator[](unsigned long)" in d, lambda e, st, a, i: rows.at(a[1].e), "deque::operator[]"), Contract(lambda d: dqd(d) and d.endswith("::size() const"), lambda e, st, a, i: V(see(st, "NR")), "deque::size"),
                    Contract(lambda d: dit(d) and "operator!=" in d, lambda e, st, a, i: V(cur(st, a[0]).e != cur(st, a[1]).e), "deque iterator !="), Contract(lambda d: dit(d) and ("operator->()" in d or "operator*()" in d), lambda e, st, a, i: cur(st, a[0]), "deque iterator ->"),
                    Contract(lambda d: dit(d) and d.endswith("operator++()"), dqinc, "deque iterator ++")]

    def templates(eng_, ctx):
        out = []

        def gv(x):
            cell = next((y for y in ctx.vars if y[0] == "cell" and y[1][0] is g and y[1][1] == O[x]), None)
            return (lambda ev: ev(cell).e) if cell else (lambda ev: see(ctx.hst, x))
        G = {x: gv(x) for x in NAMES}
        T = lambda n, f: out.append((n, f))
        ph = lambda ev: G["PHASE"](ev)
        T("in step with the map", lambda ev: G["PEND"](ev) == 0)
        T("some states", lambda ev: z3.And(z3.UGE(G["SIZE"](ev), bv(1)), z3.ULE(G["SIZE"](ev), bv(1 << 40))))
        T("not too many states", lambda ev: z3.ULE(G["SIZE"](ev) - 1, limit))
        T("different states", lambda ev: z3.Implies(z3.And(z3.ULT(q, G["SIZE"](ev)), z3.ULT(t, G["SIZE"](ev))), G["SQ"](ev) != G["ST"](ev)))
        T("the first is the initial one", lambda ev: z3.And(z3.Implies(q == 0, G["SQ"](ev) == init), z3.Implies(t == 0, G["ST"](ev) == init)))
        T("as many rows as indices", lambda ev: z3.And(G["NR"](ev) == G["NI"](ev), z3.ULE(G["NR"](ev), G["SIZE"](ev))))
        T("looking for states", lambda ev: ph(ev) == 0)
        T("telling the task", lambda ev: ph(ev) == 1)
        T("nothing told", lambda ev: G["CON"](ev) == 0)
        told = lambda ev: z3.And(G["CON"](ev) == 1, G["CA"](ev) == G["IX"](ev), G["CB"](ev) == G["RX"](ev), G["CC"](ev) == z3.ZeroExt(48, c))
        good = lambda ev: z3.Implies(z3.ULT(rho, G["NR"](ev)), z3.And(z3.ULT(G["RX"](ev), G["SIZE"](ev)), z3.ULT(G["IX"](ev), G["SIZE"](ev)), z3.Implies(G["IX"](ev) == q, z3.And(Req(G["SQ"](ev)), z3.Implies(G["RX"](ev) == t, G["ST"](ev) == Next(G["SQ"](ev), c)), z3.Implies(G["RX"](ev) == q, G["SQ"](ev) == Next(G["SQ"](ev), c))))))
        T("rows are transitions", good)
        iq = lambda ev: z3.And(z3.ULT(G["IQ"](ev), G["NI"](ev)), z3.Implies(G["IQ"](ev) == rho, G["IX"](ev) == q))
        outer = [x[1].e for x in ctx.hst.env.items() if isinstance(x[1], V) and isinstance(x[1].e, z3.BitVecRef) and x[1].e.size() == 64 and x[1].prov is None and x[1].e.decl().arity() == 0 and not z3.is_bv_value(x[1].e)]
        outer = [x for x in outer if not (z3.eq(x, limit) or z3.eq(x, init))]
        for x in outer:
            T("states before %s have rows" % x, lambda ev, x=x: z3.Implies(z3.And(z3.ULT(q, x), Req(G["SQ"](ev))), iq(ev)))
            T("%s < states" % x, lambda ev, x=x: z3.ULT(x, G["SIZE"](ev)))
            T("rows <= %s" % x, lambda ev, x=x: z3.ULE(G["NR"](ev), x))
            T("rows of states before %s" % x, lambda ev, x=x: z3.Implies(z3.ULT(rho, G["NI"](ev)), z3.ULT(G["IX"](ev), x)))
            T("the last one looked at is %s" % x, lambda ev, x=x: G["LS"](ev) == x)
        ints = [(nm, y) for nm, y, v in states(ctx, eng_) if not (v[0] == "cell" and v[1][0] is g)]
        for nm, y in ints:
            T("%s <= states" % nm, lambda ev, y=y: z3.ULE(y(ev), G["SIZE"](ev)))
            T("%s <= rows" % nm, lambda ev, y=y: z3.ULE(y(ev), G["NR"](ev)))
            T("rows <= %s" % nm, lambda ev, y=y: z3.ULE(G["NR"](ev), y(ev)))
            T("%s new states left" % nm, lambda ev, y=y: y(ev) == limit - (G["SIZE"](ev) - 1))
            T("states before %s have rows" % nm, lambda ev, y=y: z3.Implies(z3.And(z3.ULT(q, y(ev)), Req(G["SQ"](ev))), iq(ev)))
            T("rows of states before %s" % nm, lambda ev, y=y: z3.Implies(z3.ULT(rho, G["NI"](ev)), z3.ULT(G["IX"](ev), y(ev))))
            T("rows before %s told" % nm, lambda ev, y=y: z3.If(z3.ULT(rho, y(ev)), told(ev), G["CON"](ev) == 0))
            for x in outer: T("transitions of row %s before %s told" % (x, nm), lambda ev, x=x, y=y: z3.And(z3.ULE(y(ev), nl), z3.If(z3.Or(z3.ULT(rho, x), z3.And(rho == x, z3.ULT(L, y(ev)))), told(ev), G["CON"](ev) == 0)))
        for nm, y, v in states(ctx, eng_, 64, letters.r):
            T(nm + " among the letters", lambda ev, y=y: letters.place(y(ev)))
            T("the letter of the class before " + nm, lambda ev, y=y: z3.Implies(letters.seen(y(ev), lp), G["INVL"](ev) == z3.ZeroExt(48, c)))
            for x in outer:
                T("the row of %s before %s" % (x, nm), lambda ev, x=x, y=y: z3.Implies(letters.seen(y(ev), lp), z3.And(G["ROWD"](ev) == 1, z3.ULT(G["ROWL"](ev), G["SIZE"](ev)), z3.Implies(z3.And(x == q, G["ROWL"](ev) == t), G["ST"](ev) == Next(G["SQ"](ev), c)), z3.Implies(z3.And(x == q, G["ROWL"](ev) == q), G["SQ"](ev) == Next(G["SQ"](ev), c)))))
                T("%s is required" % x, lambda ev, x=x: z3.Implies(x == q, Req(G["SQ"](ev))))
        rv = [(nm, y) for nm, y, v in states(ctx, eng_, 64, rows.r)]
        for nm, y in rv:
            T(nm + " among the rows", lambda ev, y=y: rows.place(y(ev), G["NR"](ev)))
            for n2, z in ints: T("%s is the number of %s" % (n2, nm), lambda ev, y=y, z=z: rows.index(y(ev)) == z(ev))
        ev_, iv_ = [(nm, y) for nm, y, v in states(ctx, eng_, 64, entries.r)], [(nm, y) for nm, y, v in states(ctx, eng_, 64, inv.r)]
        for nm, y in ev_:
            T(nm + " in the row", lambda ev, y=y: entries.place(y(ev), nl))
            T("transitions before %s told" % nm, lambda ev, y=y: z3.If(z3.Or(z3.ULT(rho, G["LR"](ev)), z3.And(rho == G["LR"](ev), z3.ULT(L, entries.index(y(ev))))), told(ev), G["CON"](ev) == 0))
            for n2, z in iv_: T("%s goes with %s" % (n2, nm), lambda ev, y=y, z=z: z3.And((z(ev) - inv.r.base) & bv(1) == 0, inv.index(z(ev)) == entries.index(y(ev)), z3.ULE(z(ev) - inv.r.base, nl << 1)))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_enumerate", [ptr(tk), V(limit)])
    P = lambda n, x: e.oblige(o, n, x, "post")
    ok = see(o, "END") == 1
    Gv = lambda x: see(o, x)
    r = rv.e if z3.is_bool(rv.e) else rv.e != 0
    P("the answer is the task's", z3.If(ok, r == res[1], z3.And(Gv("END") == 2, r == res[2])))
    P("given up only when the limit is reached and one more state is found", z3.Implies(z3.Not(ok), z3.And(Gv("SIZE") - 1 == limit, Gv("NF") == 1, Gv("CON") == 0, Gv("PHASE") == 0)))
    P("not more states than allowed", z3.ULE(Gv("SIZE") - 1, limit))
    P("the first state is the initial one", z3.Implies(q == 0, Gv("SQ") == init))
    P("each state once", z3.Implies(z3.And(z3.ULT(q, Gv("SIZE")), z3.ULT(t, Gv("SIZE"))), Gv("SQ") != Gv("ST")))
    P("every required state has its row", z3.Implies(z3.And(ok, z3.ULT(q, Gv("SIZE")), Req(Gv("SQ"))), z3.And(z3.ULT(Gv("IQ"), Gv("NR")), z3.Implies(Gv("IQ") == rho, Gv("IX") == q))))
    P("the task is told each transition once", z3.Implies(ok, z3.If(z3.ULT(rho, Gv("NR")), z3.And(Gv("CON") == 1, Gv("CA") == Gv("IX"), Gv("CB") == Gv("RX"), Gv("CC") == z3.ZeroExt(48, c)), Gv("CON") == 0)))
    P("a transition leads to the state Next gives", z3.Implies(z3.And(ok, z3.ULT(rho, Gv("NR")), Gv("IX") == q), z3.And(z3.ULT(Gv("RX"), Gv("SIZE")), Req(Gv("SQ")), z3.Implies(Gv("RX") == t, Gv("ST") == Next(Gv("SQ"), c)), z3.Implies(Gv("RX") == q, Gv("SQ") == Next(Gv("SQ"), c)))))
    cover(e, o)
    return e
