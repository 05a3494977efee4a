from fsmlib import *
from framework import Item, Harness, run_check

W, B = BV(64), z3.BoolSort()


def MD(): return module("det.cpp", (), NI)


def deng():
    e = Engine(MD(), [])
    e.cut_hint = lambda f, L: "cut"
    e.use_iter = False; e.opaque_cells = True; e.generic = False
    return e, start()


class Seq:
    """A readonly std::vector of numbers: n of them, element i is el(i)."""

    def __init__(self, e, st, name, el, visit=None, shift=3):
        self.e, self.name, self.el, self.visit, self.shift = e, name, el, visit, shift
        self.n_ = z3.BitVec("size_" + name, WIDTH)
        self.n = z3.ZeroExt(64 - WIDTH, self.n_)
        self.bytes = z3.Concat(z3.BitVecVal(0, 64 - shift - WIDTH), self.n_, z3.BitVecVal(0, shift))
        self.r = e.new_region(st, name, None, kind="bytes", init=UF(z3.Function("bytes_" + name, W, BV(8))), readonly=True, align=64)
        self.r.lv = self
        self.begin, self.end = V(self.r.base, self.r), V(simp(self.r.base + self.bytes), self.r)

    def object(self, st): return obj(self.e, st, self.name + " vector", 24, vecf(0, self.r, self.begin.e, self.end.e), readonly=True)

    def index(self, p): return simp(z3.LShR(simp(p - self.r.base), self.shift))

    def gep(self, e, st, p): return p

    def load(self, e, st, p, ty):
        d = simp(p.e - self.r.base)
        i = self.index(p.e)
        e.oblige(st, "an element of " + self.name, z3.And(z3.ULT(i, self.n), d & bv((1 << self.shift) - 1) == 0), "memory", soft=True)
        if self.visit: self.visit(i)
        return V(self.el(i))

    def store(self, e, st, p, v, ty): raise Unmodelled("an element is written")
    def place(self, p): return z3.And((p - self.r.base) & bv((1 << self.shift) - 1) == 0, z3.ULE(p - self.r.base, self.bytes))


ulvec = lambda d: d.startswith(("std::vector<unsigned long, std::allocator<unsigned long>>::", "Pire::TVector<unsigned long, std::allocator<unsigned long>>::"))
setul = lambda d: d.startswith(("std::set<unsigned long", "Pire::TSet<unsigned long"))


def task(e, st, fsm=None):
    o = offs(e.m, "off_dt_")
    f = fsm or ptr(e.new_region(st, "fsm", gconst(e.m, "vc_size_fsm"), readonly=True))
    return obj(e, st, "task", gconst(e.m, "vc_size_task"), {o["fsm"]: (8, f)}, readonly=True), f, o


def next_(case):
    """Next: the set of what the states of the set go to by the letter, sorted, each once"""
    e, st = deng()
    tk, f, o = task(e, st)
    T = z3.Function("transition", W, BV(16), W, B)
    letter, t, k = z3.BitVec("letter", 16), z3.BitVec("t", 64), z3.BitVec("k", 64)
    el = z3.Function("state", W, W)
    S = Seq(e, st, "states", el)
    e.fact(z3.ULT(k, S.n))
    dests = e.new_region(st, "destinations", 48)
    out = e.new_region(st, "next", 24)
    g = e.new_region(st, "ghost of next", 64)
    MEM, WIT, SORT, UNIQ, FROM, LET, SIZE = 0, 8, 16, 24, 32, 40, 48
    st.mem[g] = Cells({x: (8, V(bv(0))) for x in range(0, 64, 8)})
    elems = e.new_region(st, "elements of next", None, kind="bytes", init=UF(z3.Function("next_bytes", W, BV(8))), readonly=True, align=64)
    put = lambda st, x, v: e.store(st, V(simp(g.base + bv(x)), g), V(simp(v)), ir.I(64))
    see = lambda st, x: get(e, st, g, x)
    dset = e.new_region(st, "elements of the destinations", None, kind="bytes", init=UF(z3.Function("dest_bytes", W, BV(8))), readonly=True, align=64)

    def dest(e, st, a, i):
        e.oblige(st, "Destinations of the automaton", z3.BoolVal(a[0].prov is f.prov), "pre")
        put(st, FROM, a[1].e); put(st, LET, z3.ZeroExt(48, a[2].e))
        return ptr(dests)

    def copy(e, st, a, i):
        if a[0].prov is not dset or a[1].prov is not dset or a[2].prov is not out: raise Unmodelled("copy of another range")
        e.oblige(st, "all the destinations are taken", z3.And(a[0].e == dset.base, a[1].e == dset.base + bv(64)), "pre", soft=True)
        hit = T(see(st, FROM), z3.Extract(15, 0, see(st, LET)), t)
        put(st, WIT, z3.If(z3.And(see(st, MEM) == 0, hit), see(st, FROM), see(st, WIT)))
        put(st, MEM, z3.If(hit, bv(1), see(st, MEM)))
        put(st, SORT, bv(0)); put(st, UNIQ, bv(0))
        return a[2]
    mine = lambda p: p.prov is out
    end = lambda st: V(simp(elems.base + bv(1 << 20)), elems)

    def vb(e, st, a, i):
        if mine(a[0]): return V(elems.base, elems)
        return e.load(st, a[0], ir.PTR)

    def ve(e, st, a, i):
        if mine(a[0]): return end(st)
        return e.load(st, V(simp(a[0].e + bv(8)), a[0].prov), ir.PTR)
    full = lambda e, st, p, q: e.oblige(st, "the whole of next", z3.And(p.e == elems.base, q.e == end(st).e) if p.prov is elems and q.prov is elems else z3.BoolVal(False), "pre", soft=True)

    def sort(e, st, a, i):
        full(e, st, a[0], a[1]); put(st, SORT, bv(1))

    def unique(e, st, a, i):
        full(e, st, a[0], a[1]); put(st, SIZE, see(st, SORT))
        return V(simp(elems.base + bv(64)), elems)

    def erase(e, st, a, i):
        e.oblige(st, "what unique leaves is erased", z3.And(a[1].e == elems.base + bv(64), a[2].e == end(st).e), "pre", soft=True)
        put(st, UNIQ, see(st, SIZE))
        return a[1]
    e.contracts += [Contract(fs("Destinations(unsigned long, unsigned short) const"), dest, "Fsm::Destinations [C07]"),
                    Contract(lambda d: setul(d) and d.endswith(("::begin() const", "::end() const")), lambda e, st, a, i: V(dset.base if "begin" in e.cur_fn.dem else simp(dset.base + bv(64)), dset), "set::begin/end"),
                    Contract(lambda d: d.startswith("std::back_insert_iterator<") and " std::copy<" in d, copy, "copy to back_inserter"),
                    Contract(lambda d: ulvec(d) and "::TVector()" in d, lambda e, st, a, i: (put(st, MEM, bv(0)), None)[1], "TVector()"),
                    Contract(lambda d: ulvec(d) and "::reserve(" in d, lambda e, st, a, i: None, "reserve"), Contract(lambda d: ulvec(d) and "::~" in d, lambda e, st, a, i: None, "~vector"),
                    Contract(lambda d: ulvec(d) and d.endswith(("::begin()", "::begin() const")), vb, "vector::begin"), Contract(lambda d: ulvec(d) and d.endswith(("::end()", "::end() const")), ve, "vector::end"),
                    Contract(lambda d: "void std::sort<" in d, sort, "std::sort"), Contract(lambda d: " std::unique<" in d, unique, "std::unique"), Contract(lambda d: ulvec(d) and "::erase(" in d, erase, "vector::erase")]
    widx = z3.Function("position", W, W)
    sound = lambda st_, wit, mem: z3.Implies(mem == 1, z3.And(T(wit, letter, t)))

    def templates(eng_, ctx):
        out_ = []
        gv = lambda x: ((lambda ev, v=next(v for v in ctx.vars if v[0] == "cell" and v[1][0] is g and v[1][1] == x): ev(v).e) if any(v[0] == "cell" and v[1][0] is g and v[1][1] == x for v in ctx.vars) else (lambda ev: see(ctx.hst, x)))
        M_, Wt = gv(MEM), gv(WIT)
        out_.append(("member: a witness", lambda ev: z3.And(z3.ULE(M_(ev), bv(1)), z3.Implies(M_(ev) == 1, T(Wt(ev), letter, t)))))
        for nm, x, v in states(ctx, eng_, 64, S.r):
            out_.append((nm + " among the states", lambda ev, x=x: S.place(x(ev))))
            out_.append(("what states before %s go to" % nm, lambda ev, x=x: z3.Implies(z3.And(z3.ULT(k, S.index(x(ev))), T(el(k), letter, t)), M_(ev) == 1)))
            # the witness is a state of the set: position() gives one such place
            out_.append(("the witness is before " + nm, lambda ev, x=x: z3.Implies(M_(ev) == 1, inset(Wt(ev)))))
        return out_
    ins = z3.Function("in_the_set", W, B)
    inset = lambda s: ins(s)
    S.visit = lambda i: e.fact(z3.Implies(z3.ULT(i, S.n), ins(el(i))))   # the states of the set are in it
    S.visit(k)
    e.templates.append(templates)
    rv, o_ = run1(e, st, "vc_next", [ptr(tk), ptr(S.object(st)), V(letter), ptr(out)])
    e.oblige(o_, "what a state of the set goes to is in it", z3.Implies(T(el(k), letter, t), see(o_, MEM) == 1), "post")
    e.oblige(o_, "what is in it a state of the set goes to", z3.Implies(see(o_, MEM) == 1, z3.And(T(see(o_, WIT), letter, t), ins(see(o_, WIT)))), "post")
    e.oblige(o_, "sorted, each once: equal sets are equal states", z3.And(see(o_, SORT) == 1, see(o_, UNIQ) == 1), "post")
    cover(e, o_)
    return e


def required(case):
    """IsRequired: a set is followed up unless it has a terminal state"""
    e, st = deng()
    tk, f, o = task(e, st)
    el, term = z3.Function("state", W, W), z3.Function("terminal", W, B)
    S = Seq(e, st, "states", el)
    k = z3.BitVec("k", 64)
    e.fact(z3.ULT(k, S.n))
    node = e.new_region(st, "node", 64)
    last = e.new_region(st, "the last state looked at", 8)
    st.mem[last] = Cells({0: (8, V(bv(0)))})

    def find(e, st, a, i):
        if a[0].prov is not tk or conc(simp(a[0].e - tk.base)) != o["terminals"]: raise Unmodelled("another set")
        s = e.load(st, a[1], ir.I(64)).e
        e.store(st, ptr(last), V(s), ir.I(64))
        return V(simp(z3.If(term(s), node.base, node.base + bv(32))), node)
    e.contracts += [Contract(lambda d: setul(d) and "::find(unsigned long const&)" in d, find, "set::find"), Contract(lambda d: setul(d) and d.endswith(("::end() const", "::end()")), lambda e, st, a, i: V(simp(node.base + bv(32)), node), "set::end")]

    def templates(eng_, ctx):
        out = []
        for nm, x, v in states(ctx, eng_, 64, S.r):
            out.append((nm + " among the states", lambda ev, x=x: S.place(x(ev))))
            out.append(("none terminal before " + nm, lambda ev, x=x: z3.Implies(z3.ULT(k, S.index(x(ev))), z3.Not(term(el(k))))))
        return out
    e.templates.append(templates)
    rv, o_ = run1(e, st, "vc_required", [ptr(tk), ptr(S.object(st))])
    r = rv.e if z3.is_bool(rv.e) else rv.e != 0
    e.oblige(o_, "required: no state is terminal", z3.Implies(r, z3.Not(term(el(k)))), "post")
    e.oblige(o_, "not required: one is", z3.Implies(z3.Not(r), term(get(e, o_, last, 0))), "post")
    cover(e, o_)
    return e


def first(case):
    """Initial: the set of the initial state alone"""
    e, st = deng()
    F = Fsms(e)
    F.use()
    f = F.new(st, "f", readonly=True)
    tk, _, o = task(e, st, f)
    out = obj(e, st, "first", 24, {})
    g = e.new_region(st, "ghost", 16)
    st.mem[g] = Cells({0: (8, V(bv(0))), 8: (8, V(bv(0)))})

    def fill(e, st, a, i):
        n = a[1].e
        e.store(st, ptr(g), V(n if n.size() == 64 else simp(z3.SignExt(64 - n.size(), n))), ir.I(64))
        x = a[2] if isinstance(a[2].e, z3.BitVecRef) and a[2].prov is None else e.load(st, a[2], ir.I(64))
        e.store(st, at(g, 8), x, ir.I(64))
    e.contracts += [Contract(lambda d: ulvec(d) and ("(int, unsigned long)" in d or "::vector(unsigned long, unsigned long const&" in d), fill, "vector(n, x)")]
    rv, o_ = run1(e, st, "vc_first", [ptr(tk), ptr(out)])
    e.oblige(o_, "one state: the initial one", z3.And(get(e, o_, g, 0) == 1, get(e, o_, g, 8) == F.initial(st, f)), "post")
    cover(e, o_)
    return e


def determine(case):
    """Determine: nothing if determined; epsilons removed, the task run on the automaton with the limit, its output taken if it succeeds, the automaton kept if not"""
    e, st = deng()
    F = Fsms(e)
    F.use()
    f = F.new(st, "f")
    limit, ok = z3.BitVec("limit", 64), z3.Bool("fits")
    out = F.new(st, "output")
    e.fact(F.flag(st, out, "determined"))
    log = e.new_region(st, "log", 16)
    st.mem[log] = Cells({0: (8, V(bv(0))), 8: (8, V(bv(0)))})
    step = lambda st: get(e, st, log, 0)
    made = {}

    def seq(k, what):
        def g(e, st, a, i):
            e.oblige(st, what + ": in its turn", step(st) == k, "post", soft=True)
            e.store(st, ptr(log), V(bv(k + 1)), ir.I(64))
        return g
    NE, FE, IE = z3.Bool("T_noeps"), z3.Bool("F_noeps"), z3.BitVec("initial_noeps", 64)

    def rmeps(e, st, a, i):
        seq(0, "RemoveEpsilons")(e, st, a, i)
        F.setT(st, a[0], NE); F.setF(st, a[0], FE)
        e.store(st, F.field(a[0], "alt"), V(bv(0, 8)), ir.I(8))

    def ctor(e, st, a, i):
        seq(1, "the task")(e, st, a, i)
        e.oblige(st, "on the automaton", z3.BoolVal(a[1].prov is f.prov), "pre")
        made[a[0].prov] = True

    def det(e, st, a, i):
        seq(2, "Determine<>")(e, st, a, i)
        if a[0].prov not in made: raise Unmodelled("another task")
        e.oblige(st, "the limit asked for, or the default one", z3.If(limit == 0, a[1].e != 0, a[1].e == limit), "pre")
        return V(ok)

    def swap(e, st, a, i):
        for n, w in (("initial", 64), ("determined", 8), ("alt", 8), ("sparsed", 8)):
            x, y = (e.load(st, F.field(p, n), ir.I(w)) for p in a[:2])
            e.store(st, F.field(a[0], n), y, ir.I(w)); e.store(st, F.field(a[1], n), x, ir.I(w))
        v = [(F.N(st, p), F.T(st, p), F.F(st, p)) for p in a[:2]]
        for p, (n, t, x) in zip(a[:2], reversed(v)): F.setN(st, p, n); F.setT(st, p, t); F.setF(st, p, x)
    dt = lambda d: d.startswith("Pire::Impl::FsmDetermineTask::")
    e.contracts += [Contract(fs("RemoveEpsilons()"), rmeps, "Fsm::RemoveEpsilons"), Contract(fs("Swap(Pire::Fsm&)"), swap, "Fsm::Swap"),
                    Contract(lambda d: dt(d) and "::FsmDetermineTask(" in d, ctor, "FsmDetermineTask"), Contract(lambda d: dt(d) and "::~" in d, lambda e, st, a, i: None, "~FsmDetermineTask"),
                    Contract(lambda d: dt(d) and d.endswith("::Output()"), lambda e, st, a, i: out, "FsmDetermineTask::Output"), Contract(lambda d: " Pire::Impl::Determine<Pire::Impl::FsmDetermineTask>" in d, det, "Determine<FsmDetermineTask>")]
    was = F.flag(st, f, "determined")
    rv, o = run1(e, st, "vc_determine", [f, V(limit)])
    r = rv.e if z3.is_bool(rv.e) else rv.e != 0
    P = lambda n, x: e.oblige(o, n, x, "post")
    same = lambda s1, p, s2, q: z3.And(F.T(s1, p) == F.T(s2, q), F.F(s1, p) == F.F(s2, q), F.N(s1, p) == F.N(s2, q), F.initial(s1, p) == F.initial(s2, q))
    P("determined already: left alone", z3.Implies(was, z3.And(r, same(o, f, st, f))))
    P("the answer is whether it fits", z3.Implies(z3.Not(was), r == ok))
    P("the output is taken", z3.Implies(z3.And(z3.Not(was), ok), z3.And(same(o, f, st, out), F.flag(o, f, "determined"))))
    P("too big: not said to be determined, without its epsilons", z3.Implies(z3.And(z3.Not(was), z3.Not(ok)), z3.And(z3.Not(F.flag(o, f, "determined")), F.T(o, f) == NE, F.F(o, f) == FE, F.N(o, f) == F.N(st, f))))
    cover(e, o)
    return e


def accept(case):
    """AcceptStates: a new state is final exactly when a state of its set is, has exactly the tags of its set's states, goes to itself by every letter if one of them is terminal; the first is the initial one"""
    e, st = deng()
    fo = {n: gconst(e.m, "vc_off_" + n) for n in ("initial", "determined", "final", "letters", "outputs", "tags")}
    of = offs(e.m, "off_dt_")
    nw = of["new"]
    u, k, c, bp = z3.BitVec("u", 64), z3.BitVec("k", 64), z3.BitVec("c", 16), z3.BitVec("bit", 64)
    e.fact(z3.ULT(bp, bv(64)))
    bit = bv(1) << bp
    n_ = z3.BitVec("sets", WIDTH)
    n = z3.ZeroExt(64 - WIDTH, n_)
    e.facts += [z3.UGE(n, bv(1)), z3.ULT(u, n)]
    # the sets: each its elements; el(i, j) is element j of set i
    el, ln = z3.Function("element", W, W, W), z3.Function("members", W, BV(WIDTH))
    zl = lambda i: z3.ZeroExt(64 - WIDTH, ln(i))
    e.fact(z3.ULT(k, zl(u)))
    sets = e.new_region(st, "sets", None, kind="bytes", init=UF(z3.Function("set_bytes", W, BV(8))), readonly=True, align=STRIDE)
    members = e.new_region(st, "members", None, kind="bytes", init=UF(z3.Function("member_bytes", W, BV(8))), readonly=True, align=64)
    vec = e.new_region(st, "vector of sets", 24, readonly=True)
    f = e.new_region(st, "fsm", gconst(e.m, "vc_size_fsm"), readonly=True)
    tk = obj(e, st, "task", gconst(e.m, "vc_size_task"), {of["fsm"]: (8, ptr(f)), nw + fo["initial"]: (8, V(z3.BitVec("new_initial", 64))), nw + fo["determined"]: (1, V(z3.BitVec("new_determined", 8)))})
    NAMES = ["N", "LET", "CUR", "LI", "CON", "CW", "FIN", "FW", "TAG", "TW", "LT", "NT", "NW"]
    g = e.new_region(st, "ghost", 8 * len(NAMES))
    O = {x: 8 * i for i, x in enumerate(NAMES)}
    st.mem[g] = Cells({o: (8, V(bv(0))) for o in O.values()})
    put = lambda st, x, y: e.store(st, V(simp(g.base + bv(O[x])), g), V(simp(y)), ir.I(64))
    see = lambda st, x: get(e, st, g, O[x])
    put(st, "FIN", z3.If(u == 0, bv(1), bv(0))); put(st, "N", bv(1))      # a new automaton: its one state is final
    row = lambda p: simp(z3.LShR(simp(p - sets.base), 7))
    mi = lambda p: simp(z3.LShR(simp(p - members.base), 3))

    class Members:
        def gep(s, e, st, p): return p

        def load(s, e, st, p, ty):
            i, j = see(st, "CUR"), mi(p.e)
            e.oblige(st, "a member of the set", z3.ULT(j, zl(i)), "memory", soft=True)
            put(st, "LI", j)
            return V(el(i, j))

        def store(s, *a): raise Unmodelled("a member is written")
    members.lv = Members()
    term, hast, tagv, fin, notags = z3.Function("terminal", W, B), z3.Function("hasTag", W, B), z3.Function("tag", W, W), z3.Function("final", W, B), z3.Bool("noTags")
    hit = {"CON": lambda j: term(el(u, j)), "NT": lambda j: term(el(u, j)), "FIN": lambda j: fin(el(u, j)), "TAG": lambda j: z3.And(hast(el(u, j)), tagv(el(u, j)) & bit != 0)}
    e.fact(z3.Implies(notags, z3.Not(hast(el(u, k)))))
    lmark, key = z3.BitVec("mark_letters", 64), z3.Function("representative", W, BV(16))
    letters = Tree(e, st, "letters", {32: key}, None)
    letters.visit = lambda i: e.fact(z3.Implies(z3.ULT(i, letters.n), (key(i) == c) == (i == lmark)))
    e.facts += [z3.ULT(lmark, letters.n), key(lmark) == c]
    none = Tree(e, st, "no outputs", {}, None, n=z3.BitVecVal(0, WIDTH))
    node = e.new_region(st, "tag node", None, kind="bytes", init=UF(z3.Function("tag_bytes", W, BV(8))), readonly=True, align=64)
    dummy = e.new_region(st, "lists of new states", 4096)

    def place(p):
        x = conc(simp(p.e - p.prov.base)) if p.prov in (f, tk) else None
        for nm in ("outputs", "tags", "letters", "final"):
            if p.prov is f and x == fo[nm]: return nm
            if p.prov is tk and x == nw + fo[nm]: return "new " + nm
        for nm in ("terminals", "newterminals"):
            if p.prov is tk and x == of[nm]: return nm
        if p.prov is not f and p.prov is not tk: return "local"
        raise Unmodelled("another container")

    class Node:
        def gep(s, e, st, p): return p

        def load(s, e, st, p, ty):
            e.oblige(st, "a tag that is there", hast(see(st, "LT")), "memory", soft=True)
            if conc(simp(z3.Extract(5, 0, p.e - node.base))) != 40: raise Unmodelled("a tag's node")
            return V(tagv(see(st, "LT")))

        def store(s, *a): raise Unmodelled("a tag is written")
    node.lv = Node()

    class Tags:
        """the new tags: the watched state's at base, any other's behind it"""
        def gep(s, e, st, p): return p
        def load(s, e, st, p, ty): return V(simp(z3.If(p.e == slots.base, see(st, "TAG"), e.fresh("other"))))

        def store(s, e, st, p, v, ty):
            new = z3.And(p.e == slots.base, v.e & bit != 0, see(st, "TAG") & bit == 0)
            put(st, "TW", z3.If(new, see(st, "LI"), see(st, "TW")))
            put(st, "TAG", z3.If(p.e == slots.base, v.e, see(st, "TAG")))
    slots = e.new_region(st, "new tags", None, kind="bytes", init=UF(z3.Function("slot_bytes", W, BV(8))), align=64)
    slots.lv = Tags()

    def find(e, st, a, i):
        w, x = place(a[0]), e.load(st, a[1], ir.I(64)).e
        if w == "terminals": return V(simp(z3.If(term(x), node.base, node.base + bv(64))), node)
        if w == "tags":
            put(st, "LT", x)
            e.fact(z3.Implies(notags, z3.Not(hast(x))))
            return V(simp(z3.If(hast(x), node.base, node.base + bv(64))), node)
        if w == "local": return V(dummy.base, dummy)
        raise Unmodelled("find in " + w)

    def end(e, st, a, i):
        w = place(a[0])
        if w in ("terminals", "tags"): return V(simp(node.base + bv(64)), node)
        if w == "outputs": return none.end
        if w == "local": return V(simp(dummy.base + bv(64)), dummy)
        raise Unmodelled("end of " + w)

    def begin(e, st, a, i):
        if place(a[0]) != "outputs" and a[0].prov is not none.r: raise Unmodelled("elements of another container")
        return none.begin

    def entry(e, st, a, i):
        w = place(a[0])
        if w == "new tags":
            x = e.load(st, a[1], ir.I(64)).e
            e.oblige(st, "of a state of the new automaton", z3.ULT(x, see(st, "N")), "pre", soft=True)
            return V(simp(slots.base + z3.If(x == u, bv(0), bv(64))), slots)
        if w == "local" or w == "new outputs": return ptr(dummy)
        raise Unmodelled("an entry of " + w)

    def setof(e, st, a, i):
        if a[0].prov is not vec: raise Unmodelled("another vector")
        e.oblige(st, "one of the sets", z3.ULT(a[1].e, n), "memory", soft=True)
        return V(simp(sets.base + (a[1].e << 7)), sets)

    def vb(e, st, a, i):
        last = "::end()" in e.cur_fn.dem
        if a[0].prov is dummy or a[0].prov is none.r: return ptr(dummy)
        if a[0].prov is not sets: raise Unmodelled("another vector")
        x = row(a[0].e)
        put(st, "CUR", x)
        return V(simp(members.base + z3.Concat(z3.BitVecVal(0, 64 - 3 - WIDTH), ln(x), z3.BitVecVal(0, 3))) if last else members.base, members)
    bool_ = lambda x: x if z3.is_bool(x) else x != 0

    def newfsm(p):
        if p.prov is not tk or conc(simp(p.e - tk.base)) != nw: raise Unmodelled("another automaton")

    def resize(e, st, a, i):
        newfsm(a[0]); put(st, "N", a[1].e)
        return V(bv(1))

    def connect(e, st, a, i):
        newfsm(a[0])
        e.oblige(st, "a terminal state goes to itself", a[1].e == a[2].e, "pre")
        e.oblige(st, "Connect of states of the new automaton", z3.ULT(a[1].e, see(st, "N")), "pre", soft=True)
        me = z3.And(a[1].e == u, a[3].e == c)
        put(st, "CW", z3.If(z3.And(me, see(st, "CON") == 0), see(st, "LI"), see(st, "CW")))
        put(st, "CON", z3.If(me, bv(1), see(st, "CON")))

    def setfinal(e, st, a, i):
        newfsm(a[0])
        put(st, "FW", z3.If(a[1].e == u, see(st, "LI"), see(st, "FW")))
        put(st, "FIN", z3.If(a[1].e == u, z3.If(bool_(a[2].e), bv(1), bv(0)), see(st, "FIN")))

    def isfinal(e, st, a, i):
        if a[0].prov is not f: raise Unmodelled("another automaton")
        return V(fin(a[1].e))

    def clear(e, st, a, i):
        if place(a[0]) != "new final": raise Unmodelled("another set")
        put(st, "FIN", bv(0))

    def insert(e, st, a, i):
        if place(a[0]) != "newterminals": raise Unmodelled("another set")
        me = e.load(st, a[1], ir.I(64)).e == u
        put(st, "NW", z3.If(z3.And(me, see(st, "NT") == 0), see(st, "LI"), see(st, "NW")))
        put(st, "NT", z3.If(me, bv(1), see(st, "NT")))
        return V([V(node.base, node), V(bv(1, 8))])

    def assign(e, st, a, i):
        if place(a[0]) != "new letters" or place(a[1]) != "letters": raise Unmodelled("letters of another automaton")
        put(st, "LET", bv(1))
        return a[0]

    def empty(e, st, a, i):
        if place(a[0]) != "tags": raise Unmodelled("another map")
        return V(notags)
    cont = lambda d, *m: d.startswith(("std::map<unsigned long, ", "std::set<unsigned long")) and any(d.endswith("::" + x) for x in m)
    vs = lambda d: d.startswith("std::vector<Pire::TVector<unsigned long") or d.startswith("Pire::TVector<Pire::TVector<unsigned long")
    e.contracts += [Contract(lambda d: cont(d, "begin() const", "begin()"), begin, "map::begin"), Contract(lambda d: cont(d, "end() const", "end()"), end, "end()"),
                    Contract(lambda d: cont(d, "find(unsigned long const&) const", "find(unsigned long const&)"), find, "find"), Contract(lambda d: cont(d, "operator[](unsigned long const&)", "operator[](unsigned long&&)"), entry, "map::operator[]"),
                    Contract(lambda d: cont(d, "clear()"), clear, "set::clear"), Contract(lambda d: d.startswith("std::set<unsigned long") and "::insert(unsigned long const&)" in d, insert, "set::insert"), Contract(lambda d: cont(d, "empty() const"), empty, "map::empty"),
                    Contract(lambda d: d.startswith(("std::map<", "Pire::TMap<")) and ("::~" in d or d.endswith("::TMap()")), lambda e, st, a, i: None, "map(), ~map"),
                    Contract(lambda d: ulvec(d) and "::push_back(" in d, lambda e, st, a, i: None, "vector::push_back"),
                    Contract(lambda d: ulvec(d) and d.endswith(("::begin()", "::begin() const", "::end()", "::end() const")), vb, "vector::begin/end"),
                    Contract(lambda d: vs(d) and d.endswith("::size() const"), lambda e, st, a, i: V(n), "vector::size"), Contract(lambda d: vs(d) and "::operator[](unsigned long)" in d, setof, "vector::operator[]"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and d.endswith(("::Begin() const", "::begin() const")), lambda e, st, a, i: letters.begin, "Partition::begin"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and d.endswith(("::End() const", "::end() const")), lambda e, st, a, i: letters.end, "Partition::end"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and "::operator=(" in d, assign, "Partition::operator="),
                    Contract(lambda d: d.startswith("std::_Rb_tree_increment("), lambda e, st, a, i: V(simp(a[0].e + bv(STRIDE)), a[0].prov), "_Rb_tree_increment"),
                    Contract(fs("Resize(unsigned long)"), resize, "Fsm::Resize"), Contract(fs("Connect(unsigned long, unsigned long, unsigned short)"), connect, "Fsm::Connect [C07]"),
                    Contract(fs("SetFinal(unsigned long, bool)"), setfinal, "Fsm::SetFinal [C07]"), Contract(fs("IsFinal(unsigned long) const"), isfinal, "Fsm::IsFinal [C07]")]
    ghosts = {"CON": "CW", "NT": "NW", "FIN": "FW", "TAG": "TW"}
    on = lambda x, val: val & bit != 0 if x == "TAG" else val == 1

    def templates(eng_, ctx):
        out = []

        def gv(x):
            cell = next((y for y in ctx.vars if y[0] == "cell" and y[1][0] is g and y[1][1] == O[x]), None)
            return (lambda ev: ev(cell).e) if cell else (lambda ev: see(ctx.hst, x))
        G = {x: gv(x) for x in NAMES}
        out.append(("the new automaton's size", lambda ev: z3.And(G["N"](ev) == n, G["LET"](ev) == 1)))
        for x, w in ghosts.items():
            if x != "TAG": out.append((x + " is a flag", lambda ev, x=x: z3.ULE(G[x](ev), bv(1))))
            out.append((x + ": a witness", lambda ev, x=x, w=w: z3.Implies(on(x, G[x](ev)), z3.And(z3.ULT(G[w](ev), zl(u)), hit[x](G[w](ev))))))
            for nm, y, v in states(ctx, eng_):
                if v[0] == "cell" and v[1][0] is g: continue
                out.append(("%s of the states below %s" % (x, nm), lambda ev, x=x, y=y: z3.Implies(z3.And(z3.ULT(u, y(ev)), hit[x](k)), on(x, G[x](ev)))))
            out.append(("%s of the states below the current one" % x, lambda ev, x=x: z3.Implies(z3.And(z3.ULT(u, G["CUR"](ev)), hit[x](k)), on(x, G[x](ev)))))
            out.append(("%s up to the current one" % x, lambda ev, x=x: z3.Implies(z3.And(z3.ULE(u, G["CUR"](ev)), hit[x](k)), on(x, G[x](ev)))))
            out.append(("%s of every state" % x, lambda ev, x=x: z3.Implies(hit[x](k), on(x, G[x](ev)))))
            for nm, y, v in states(ctx, eng_, 64, members):
                out.append(("%s of the members before %s" % (x, nm), lambda ev, x=x, y=y: z3.Implies(z3.And(u == G["CUR"](ev), z3.ULT(k, mi(y(ev))), hit[x](k)), on(x, G[x](ev)))))
            # while a terminal member is connected, members before it
            out.append(("%s of the members before the last" % x, lambda ev, x=x: z3.Implies(z3.And(u == G["CUR"](ev), z3.ULT(k, G["LI"](ev)), hit[x](k)), on(x, G[x](ev)))))
        for nm, y, v in states(ctx, eng_):
            if v[0] == "cell" and v[1][0] is g: continue
            out.append((nm + " <= the number of sets", lambda ev, y=y: z3.ULE(y(ev), n)))
        out.append(("the last one is a member", lambda ev: z3.ULT(G["LI"](ev), zl(G["CUR"](ev)))))
        for nm, y, v in states(ctx, eng_, 64, members):
            out.append((nm + " in the set", lambda ev, y=y: z3.And((y(ev) - members.base) & bv(7) == 0, z3.ULE(y(ev) - members.base, zl(G["CUR"](ev)) << 3))))
        for nm, y, v in states(ctx, eng_, 64, letters.r):
            out.append((nm + " among the letters", lambda ev, y=y: letters.place(y(ev))))
            out.append(("connected by the letters before " + nm, lambda ev, y=y: z3.Implies(z3.And(u == G["CUR"](ev), letters.seen(y(ev), lmark)), G["CON"](ev) == 1)))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_accept", [ptr(tk), ptr(vec)])
    P = lambda n_, x: e.oblige(o, n_, x, "post")
    P("one state for each set", see(o, "N") == n)
    for x, what in (("CON", "goes to itself by every letter"), ("NT", "is terminal"), ("FIN", "is final"), ("TAG", "has a tag")):
        P("%s if a state of the set is or has" % what, z3.Implies(hit[x](k), on(x, see(o, x))))
        P("%s only if a state of the set is or has" % what, z3.Implies(on(x, see(o, x)), hit[x](see(o, ghosts[x]))))
    P("the first set is the initial state", get(e, o, tk, nw + fo["initial"], 64) == 0)
    P("determined, with the letters", z3.And(see(o, "LET") == 1, get(e, o, tk, nw + fo["determined"], 8) == 1))
    cover(e, o)
    return e


def main():
    from enumlib import enumerate_, ME
    from termlib import terminals
    from successlib import success
    M(); MD(); ME()
    items = [Item("Next", next_, [()], ["FsmDetermineTask::Next"]), Item("IsRequired", required, [()], ["FsmDetermineTask::IsRequired"]), Item("Initial", first, [()], ["FsmDetermineTask::Initial"]),
             Item("AcceptStates", accept, [()], ["FsmDetermineTask::AcceptStates"], weight=3), Item("TerminalStates", terminals, [()], ["Fsm::TerminalStates"], weight=2), Item("Success", success, [()], ["FsmDetermineTask::Success"], weight=4), Item("Enumeration", enumerate_, [()], ["Impl::Determine<Task>"], weight=9), Item("Determine", determine, [()], ["Fsm::Determine"])]
    return run_check("C08", items, Harness("C08.cpp", 20, desc="random automata with epsilons, determined: language, finals, tags, outputs, one transition per state and letter"),
                     assumptions=["std::sort/std::unique/std::copy and the containers do as the standard says", "Impl::Determine<Task> is proved for an arbitrary task with std::map as InvStates; fewer than 2^40 states (memory)",  "RemoveEpsilons, the outputs in AcceptStates are checked by the bounded stand-in"],
                     notes="A set of states is watched at one arbitrary member; what is proved holds of all.")
