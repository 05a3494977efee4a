from fsmlib import *
import C14
from framework import Item, Harness, run_check


def case_(case):
    e, st = eng()
    return e, st, Fsms(e)


def shape(e, o, name, claim):
    """what the operation makes of the transition relation; a different construction of the same language is no violation (soft)"""
    e.oblige(o, name, claim, "post", soft=True)


class Before:
    def __init__(self, A, st, p):
        self.N, self.T, self.F, self.i = A.N(st, p), A.T(st, p), A.F(st, p), A.initial(st, p)


def step(case):
    """the operations on one automaton: which transitions, final states, initial state they leave"""
    e, st, A = case_(case)
    A.use()
    p = A.new(st, "this")
    e.contracts += [Contract(lambda d: d == "Pire::Fsm::DeadStates() const", None)] if 0 else []
    b = Before(A, st, p)
    s, c, t = A.s, A.c, A.t
    op = case[0]
    ch = z3.BitVec("ch", 16)
    args = {"append": [p, V(z3.Extract(7, 0, ch))], "special": [p, V(ch)]}.get(op, [p])
    unroll = op in ("dot", "prepend", "appendany")
    if unroll:
        # the letter loop: transitions on the letters below the counter exist
        def templates(eng_, ctx):
            g = A.G(p)
            cell = next((v for v in ctx.vars if v[0] == "cell" and v[1][0] is g and v[1][1] == 8), None) if True else None
            out = []
            hs = [v for v in ctx.vars if v[0] in ("phi", "cell")]
            loops = z3.And(s == b.N, t == b.N) if op != "dot" else z3.And(b.F, t == b.N)
            for v in hs:
                h = eng_.getv(ctx.hst, v)
                if h.prov is not None or not isinstance(h.e, z3.BitVecRef) or h.e.size() != 64: continue
                out.append(("letters below %s" % vname(v), lambda ev, v=v: z3.ULE(ev(v).e, bv(256 if op == "dot" else gconst(e.m, "vc_max_char")))))
                for w in hs:
                    x = eng_.getv(ctx.hst, w)
                    if isinstance(x.e, z3.BitVecRef) and x.e.size() == 8:
                        out.append(("connected up to " + vname(v), lambda ev, v=v, w=w: (ev(w).e != 0) == z3.Or(b.T, z3.And(loops, z3.ULT(z3.ZeroExt(48, c), ev(v).e)))))
            return out
        e.templates.append(templates)
    rv, o = run1(e, st, "vc_" + op, args)
    N, T, F, i = A.N(o, p), A.T(o, p), A.F(o, p), A.initial(o, p)
    eps = bv(A.eps, 16)
    if op in ("append", "special", "dot"):
        letter = {"append": c == z3.ZeroExt(8, z3.Extract(7, 0, ch)), "special": c == ch, "dot": z3.ULT(c, bv(256, 16))}[op]
        shape(e, o, "one more state", N == b.N + 1)
        shape(e, o, "the finals go to it on the letter, nothing else changes", T == z3.Or(b.T, z3.And(b.F, letter, t == b.N)))
        shape(e, o, "it is the only final", F == (s == b.N))
        shape(e, o, "same start", i == b.i)
    elif op == "iterate":
        shape(e, o, "two more states", N == b.N + 2)
        new = z3.Or(z3.And(s == b.N, t == b.N + 1), z3.And(s == b.N, t == b.i), z3.And(b.F, t == b.i), z3.And(b.F, t == b.N + 1))
        shape(e, o, "start, again from the finals, and out", T == z3.Or(b.T, z3.And(c == eps, new)))
        shape(e, o, "the last state is the only final", F == (s == b.N + 1))
        shape(e, o, "the first new state is the start", i == b.N)
    else:
        M_ = bv(gconst(e.m, "vc_max_char"), 16)
        loops = z3.And(s == b.N, t == b.N, z3.ULT(c, M_))
        shape(e, o, "one more state", N == b.N + 1)
        if op == "prepend":
            shape(e, o, "the new state loops on every letter and goes to the start", T == z3.Or(b.T, loops, z3.And(c == eps, s == b.N, t == b.i)))
            shape(e, o, "it is the start, the finals stay", z3.And(i == b.N, F == b.F))
        else:
            shape(e, o, "the new state loops on every letter and the finals go to it", T == z3.Or(b.T, loops, z3.And(c == eps, b.F, t == b.N)))
            shape(e, o, "it is the only final, the start stays", z3.And(i == b.i, F == (s == b.N)))
    e.oblige(o, "not taken for deterministic", z3.Not(A.flag(o, p, "determined")), "post")
    cover(e, o)
    return e


def laws(case):
    """the operators by the languages: each operator is the named operation, on a copy or in place, its operand unchanged; alias cases included"""
    e, st = eng()
    A = Languages(e)
    op = case[0]
    self_ = {"and": "&=", "times": None}.get(op)
    A.use(*([self_] if self_ else []), *(["prep", "app"] if 0 else []))
    mem = A.member
    f, Lf = A.new(st, "f", readonly=op in ("times", "plus2", "or2", "and2", "star", "not", "surrounded"))
    g, Lg = A.new(st, "g", readonly=True)
    same = "same" in case
    if same: g, Lg = f, Lf
    out = A.raw(st, "result")
    n = z3.BitVec("n", 64)
    if op == "and":
        al, co = A.C["|="], A.C["Complement"]
        for x in (Lf, Lg): e.fact(mem(A.compl(x)) == z3.Not(mem(x)))
        u = A.alt(A.compl(Lf), A.compl(Lg))
        e.facts += [mem(u) == z3.Or(mem(A.compl(Lf)), mem(A.compl(Lg))), mem(A.compl(u)) == z3.Not(mem(u))]
        u = A.alt(A.compl(Lg), A.compl(Lf))
        e.facts += [mem(u) == z3.Or(mem(A.compl(Lf)), mem(A.compl(Lg))), mem(A.compl(u)) == z3.Not(mem(u))]
        rv, o = run1(e, st, "vc_and", [f, g])
        e.oblige(o, "a word is in the intersection if it is in both", mem(A.L(o, f)) == z3.And(mem(Lf), mem(Lg)), "post", soft=True)
    elif op in ("times", "times_eq"):
        P = z3.Function("power", BV(64), BV(64))
        e.fact(P(bv(0)) == A.empty)

        def templates(eng_, ctx):
            out_ = []
            hs = [v for v in ctx.vars if v[0] in ("phi", "cell")]
            for v in hs:
                for w in hs:
                    x, y = eng_.getv(ctx.hst, v), eng_.getv(ctx.hst, w)
                    if all(q.prov is None and isinstance(q.e, z3.BitVecRef) and q.e.size() == 64 for q in (x, y)):
                        e.fact(P(simp(n - y.e + bv(1))) == A.cat(P(simp(n - y.e)), Lf))
                        e.fact(P(simp(y.e + bv(1))) == A.cat(P(y.e), Lf))
                        out_.append(("%s is the power of what %s leaves" % (vname(v), vname(w)), lambda ev, v=v, w=w: ev(v).e == P(simp(n - ev(w).e))))
                        out_.append(("%s is the power %s" % (vname(v), vname(w)), lambda ev, v=v, w=w: ev(v).e == P(ev(w).e)))
                x = eng_.getv(ctx.hst, v)
                if x.prov is None and isinstance(x.e, z3.BitVecRef) and x.e.size() == 64: out_.append((vname(v) + " <= n", lambda ev, v=v: z3.ULE(ev(v).e, n)))
            return out_
        e.templates.append(templates)
        rv, o = run1(e, st, "vc_" + op, ([out, f] if op == "times" else [f]) + [V(n)])
        e.oblige(o, "n times the automaton", A.L(o, out if op == "times" else f) == P(n), "post", soft=True)
    else:
        want = {"plus2": A.cat(Lf, Lg), "or2": A.alt(Lf, Lg), "and2": A.conj(Lf, Lg), "star": A.star(Lf), "not": A.compl(Lf), "surround": A.app(A.prep(Lf)), "surrounded": A.app(A.prep(Lf))}[op]
        orders = {"surround": A.prep(A.app(Lf)), "surrounded": A.prep(A.app(Lf)), "or2": A.alt(Lg, Lf), "and2": A.conj(Lg, Lf)}
        res = f if op == "surround" else out
        rv, o = run1(e, st, "vc_" + op, [f] if op == "surround" else [out, f] + ([g] if op.endswith("2") else []))
        e.oblige(o, "the operation of the operands", z3.Or(A.L(o, res) == want, A.L(o, res) == orders.get(op, want)), "post", soft=True)
    if not same: e.oblige(o, "the right operand is unchanged", A.L(o, g) == Lg, "frame")
    if f.prov.ro: e.oblige(o, "the left operand is unchanged", A.L(o, f) == Lf, "frame")
    cover(e, o)
    return e


def binary(case):
    """+= and |=: what becomes of the union of the two transition relations; the operand is not written"""
    e, st, A = case_(case)
    op, same = case[0], "same" in case
    p = A.new(st, "this")
    b = Before(A, st, p)
    s, c, t, eps = A.s, A.c, A.t, bv(A.eps, 16)
    if same:
        A.use("Import")
        top, log = [], []
        name = "operator%s(Pire::Fsm const&)" % {"plus": "+=", "or": "|="}[op]

        def again(e, st, a, i):
            log.append((st.g, a[0], a[1], A.N(st, a[1]), A.T(st, a[1]), A.F(st, a[1]), A.initial(st, a[1])))
            return a[0]
        fn = e.find("vc_" + op)
        e.contracts.append(Contract(lambda d: d == "Pire::Fsm::" + name and bool(e.stack) and e.stack[-1].dem == "Pire::Fsm::" + name, again, name))
        rv, o = run1(e, st, "vc_" + op, [p, p])
        ok = len(log) == 1 and log[0][1].prov is p.prov and log[0][2].prov is not p.prov
        shape(e, o, "with itself: the same with a copy", z3.And(log[0][0], log[0][3] == b.N, log[0][4] == b.T, log[0][5] == b.F, log[0][6] == b.i) if ok else z3.BoolVal(False))
        cover(e, o)
        return e
    q = A.operand(st, "rhs")
    e.fact(p.e != q.e)
    name = "operator%s(Pire::Fsm const&)" % {"plus": "+=", "or": "|="}[op]
    e.contracts.append(Contract(lambda d: d == "Pire::Fsm::" + name and bool(e.stack) and e.stack[-1].dem == "Pire::Fsm::" + name, lambda e, st, a, i: (e.oblige(st, "the operand is another automaton", z3.BoolVal(False), "pre"), a[0])[1], name))
    A.use()
    k, ir_ = A.N(st, q), A.initial(st, q)
    s2, t2 = simp(s - b.N), simp(t - b.N)
    A.rfact(s2, c, t2); A.rfact(ir_, c, t2); A.rfact(ir_, eps, t2)
    RF, RT = A.RF, A.RT
    # the finals of the right operand, watched for s
    ff, fv, fm = elements(e, "finals", RF(s2), s2, k)
    finals = Tree(e, st, "finals", ff, fv)
    # its epsilon successors of the initial state, watched for t
    dm = RT(ir_, eps, t2)
    df, dv, dk = elements(e, "alternatives", dm, t2, k)
    alts = Tree(e, st, "alternatives", df, dv)
    # the imported row of its initial state, watched for (c, t)
    rm = z3.And(z3.UGE(t, b.N), RT(ir_, c, t2))
    row_, mark, imark = z3.Function("rowKey", BV(64), BV(64)), z3.BitVec("rowMark", 64), z3.BitVec("innerMark", 64)
    key = z3.ZeroExt(48, c)
    rn_, mn = z3.BitVec("size_row", WIDTH), z3.Function("size_inner", BV(64), BV(WIDTH))
    el = z3.Function("inner", BV(64), BV(64), BV(64))
    zx = lambda x: z3.ZeroExt(64 - WIDTH, x)
    e.fact(z3.Implies(rm, z3.And(z3.ULT(mark, zx(rn_)), row_(mark) == key, z3.ULT(imark, zx(mn(mark))), el(mark, imark) == t)))

    def rvisit(i): e.fact(z3.Implies(z3.And(z3.ULT(i, zx(rn_))), z3.And(z3.Implies(rm, (row_(i) == key) == (i == mark)), z3.ULT(row_(i), bv(1 << 16)))))
    row = Tree(e, st, "row", {32: row_}, rvisit, n=rn_)
    cur = e.new_region(st, "current row", 8)
    st.mem[cur] = Cells({0: (8, V(bv(0)))})
    inner = Tree(e, st, "inner", {}, None, n=mn(bv(0)))
    now = lambda st: get(e, st, cur, 0)

    def iload(e, st, p_, ty):
        i, off = inner.index(p_)
        if off != 32: raise Unmodelled("a node of the row")
        r_ = now(st)
        rvisit(r_)
        e.oblige(st, "an element of the row", z3.ULT(i, zx(mn(r_))), "memory", soft=True)
        here = z3.And(z3.ULT(r_, zx(rn_)), z3.ULT(i, zx(mn(r_))))
        e.fact(z3.Implies(here, z3.And(z3.ULT(el(r_, i), b.N + k), z3.UGE(el(r_, i), b.N))))
        e.fact(z3.Implies(here, z3.And(row_(r_) == key, el(r_, i) == t) == z3.And(rm, r_ == mark, i == imark)))
        return V(el(r_, i))
    inner.load = lambda e, st, p_, ty: iload(e, st, p_, ty)
    rowp = e.new_region(st, "rows", 1 << 20)

    def find(st, p_):
        if which(p_, (q.prov, A.off["final"])) == 0: return finals
        if p_.prov is rowp: return row
        if p_.prov is row.r and row.index(p_)[1] == 40:
            e.store(st, ptr(cur), V(row.index(p_)[0]), ir.I(64))
            x = type("T", (), {})()
            bytes_ = z3.Concat(z3.BitVecVal(0, 64 - 7 - WIDTH), mn(row.index(p_)[0]), z3.BitVecVal(0, 7))
            x.begin, x.end = inner.begin, V(simp(inner.r.base + bytes_), inner.r)
            return x
        if p_.prov is alts_set: return alts
        if which(p_, (q.prov, A.off["outputs"])) == 0: return nothing
        raise Unmodelled("another container")
    nothing = Tree(e, st, "outputs", {}, None, n=z3.BitVecVal(0, WIDTH))
    alts_set = e.new_region(st, "alternatives of rhs", 48)

    def rowat(e, st, a, i):
        if which(a[0], (p.prov, A.off["trans"])) != 0: raise Unmodelled("rows of another automaton")
        e.oblige(st, "the row of the right operand's initial state", a[1].e == b.N + ir_, "post", soft=True)
        return ptr(rowp)

    def dest(e, st, a, i):
        if a[0].prov is not q.prov: raise Unmodelled("Destinations of another automaton")
        e.oblige(st, "the alternatives of the right operand", z3.And(a[1].e == ir_, a[2].e == eps), "post", soft=True)
        return ptr(alts_set)

    def insert(e, st, a, i):
        if which(a[0], (p.prov, A.off["final"])) != 0: raise Unmodelled("another set")
        v = e.load(st, a[1], ir.I(64)).e
        A.setF(st, p, z3.Or(A.F(st, p), v == s))
        return V([V(finals.r.base, finals.r), V(z3.BoolVal(True))])
    Trees(e, find)
    e.contracts += [Contract(lambda d: d.startswith("std::vector<Pire::TMap<unsigned long, Pire::TSet<") and d.endswith("::operator[](unsigned long)"), rowat, "the transition table's operator[]"),
                    Contract(fs("Destinations(unsigned long, unsigned short) const"), dest, "Fsm::Destinations"),
                    Contract(lambda d: d.startswith("std::set<unsigned long") and "::insert(unsigned long" in d, insert, "std::set::insert"),
                    Contract(lambda d: d.startswith("std::map<unsigned long, Pire::TMap<") and d.endswith("::find(unsigned long const&) const"), lambda e, st, a, i: find(st, a[0]).end, "find (no outputs)")]
    Ti = z3.If(z3.ULT(s, b.N), b.T, z3.And(z3.UGE(t, b.N), RT(s2, c, t2)))
    af, ar = A.flag(st, p, "alt"), A.flag(st, q, "alt")
    g = A.G(p)
    put_, del_ = z3.And(s == b.i, c == eps, dm, z3.UGE(t, b.N)), z3.And(s == b.N + ir_, c == eps, dm, z3.UGE(t, b.N))
    eT = lambda ev, T: T(ev) != 0

    def templates(eng_, ctx):
        out = []
        T, F = ghostvar(ctx, eng_, g, 8), ghostvar(ctx, eng_, g, 9)
        for tr_ in (finals, alts, row, inner):
            for nm, f, v in states(ctx, eng_, 64, tr_.r):
                if tr_ is inner:
                    bytes_ = lambda ev: z3.Concat(z3.BitVecVal(0, 64 - 7 - WIDTH), mn(now(ctx.hst)), z3.BitVecVal(0, 7))
                    out.append((nm + " in the inner set", lambda ev, f=f: z3.And((f(ev) - inner.r.base) & bv(127) == 0, z3.ULE(f(ev) - inner.r.base, bytes_(ev)))))
                else: out.append((nm + " in " + tr_.name, lambda ev, f=f, tr_=tr_: tr_.place(f(ev))))
                if tr_ is finals:
                    out.append(("finals before " + nm, lambda ev, f=f: (F(ev) != 0) == z3.Or(b.F, z3.And(RF(s2), finals.seen(f(ev), fm)))))
                    out.append(("only finals before " + nm, lambda ev, f=f: (F(ev) != 0) == z3.Or(z3.And(RF(ir_), b.F), z3.And(RF(s2), finals.seen(f(ev), fm)))))
                if tr_ is alts:
                    out.append(("moved before " + nm, lambda ev, f=f: (T(ev) != 0) == z3.If(alts.seen(f(ev), dk), z3.And(z3.Or(Ti, put_), z3.Not(del_)), Ti)))
                if tr_ is row:
                    out.append(("connected before " + nm, lambda ev, f=f: (T(ev) != 0) == z3.Or(Ti, z3.And(b.F, rm, row.seen(f(ev), mark)))))
                if tr_ is inner:
                    out.append(("connected in the row before " + nm, lambda ev, f=f: (T(ev) != 0) == z3.Or(Ti, z3.And(b.F, rm, z3.Or(z3.ULT(mark, now(ctx.hst)), z3.And(mark == now(ctx.hst), z3.ULT(imark, inner.index(V(f(ev), inner.r))[0])))))))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_" + op, [p, q])
    N, T, F, i = A.N(o, p), A.T(o, p), A.F(o, p), A.initial(o, p)
    if op == "plus":
        shape(e, o, "the states of both", N == b.N + k)
        shape(e, o, "the finals of the left do what the start of the right does", T == z3.Or(Ti, z3.And(b.F, rm)))
        shape(e, o, "final: the finals of the right, and those of the left if the right accepts the empty word", F == z3.Or(z3.And(RF(ir_), b.F), RF(s2)))
        shape(e, o, "the start of the left", i == b.i)
    else:
        n1 = b.N + k
        both, none = z3.And(af, ar), z3.And(z3.Not(af), z3.Not(ar))
        new = z3.If(none, z3.And(s == n1, z3.Or(t == b.i, t == b.N + ir_)), z3.If(ar, z3.And(s == b.N + ir_, t == b.i), z3.And(s == b.i, t == b.N + ir_)))
        shape(e, o, "an empty move to the start of each part", T == z3.If(both, z3.And(z3.Or(Ti, put_), z3.Not(del_)), z3.Or(Ti, z3.And(c == eps, new))))
        shape(e, o, "final: the finals of both", F == z3.Or(b.F, RF(s2)))
        shape(e, o, "the start", i == z3.If(none, n1, z3.If(z3.And(ar, z3.Not(af)), b.N + ir_, b.i)))
        shape(e, o, "the states of both", N == z3.If(none, n1 + 1, n1))
    e.oblige(o, "not taken for deterministic", z3.Not(A.flag(o, p, "determined")), "post")
    cover(e, o)
    return e


class Bare:
    """The containers of an automaton, under the contracts of the standard library: rows, the set of targets of a letter, the finals"""

    def __init__(self, e, st, A, p):
        self.e, self.A, self.p, self.k = e, A, p, 0
        self.rows = e.new_region(st, "rows", None, kind="bytes", init=UF(z3.Function("rows", BV(64), BV(8))), readonly=True)
        self.sets = {}
        isrow = lambda d: d.startswith("std::map<unsigned long, Pire::TSet<unsigned long")
        isset = lambda d: d.startswith("std::set<unsigned long")
        e.contracts += [Contract(lambda d: d.startswith("std::vector<Pire::TMap<unsigned long, Pire::TSet<") and "::operator[](unsigned long)" in d, self.row, "the transition table's operator[]"),
                        Contract(lambda d: isrow(d) and "::operator[](unsigned long" in d, self.at, "map::operator[]"),
                        Contract(lambda d: isrow(d) and "::find(unsigned long const&)" in d, self.findrow, "map::find"),
                        Contract(lambda d: isrow(d) and (d.endswith("::end()") or d.endswith("::end() const")), lambda e, st, a, i: self.endrow(a[0]), "map::end"),
                        Contract(lambda d: isset(d) and "::insert(unsigned long" in d, lambda e, st, a, i: self.change(e, st, a, True), "set::insert"),
                        Contract(lambda d: isset(d) and "::erase(unsigned long const&)" in d, lambda e, st, a, i: self.change(e, st, a, False), "set::erase"),
                        Contract(lambda d: isset(d) and "::find(unsigned long const&)" in d, self.findset, "set::find"),
                        Contract(lambda d: isset(d) and (d.endswith("::end() const") or d.endswith("::end()")), lambda e, st, a, i: self.endset, "set::end"),
                        Contract(fs("Translate(unsigned short) const"), lambda e, st, a, i: V(self.tr(a[1].e)), "Translate: the representative of the letter")]
        self.node = e.new_region(st, "node", 2048)
        self.endset = V(simp(self.node.base + bv(1024)), self.node)
        self.tr = z3.Function("Translate", BV(16), BV(16))

    def row(self, e, st, a, i):
        if which(a[0], (self.p.prov, self.A.off["trans"])) != 0: raise Unmodelled("rows of another automaton")
        self.A.inside(st, self.p, a[1].e)
        return V(simp(self.rows.base + a[1].e * bv(48)), self.rows)

    def rowno(self, p):
        parts = linear(simp(p.e - self.rows.base))
        if p.prov is not self.rows or any(k % 48 for k, x in parts): raise Unmodelled("another map")
        return simp(sum([bv(k // 48) * x if x is not None else bv(k // 48) for k, x in parts], bv(0)))

    def new(self, st, row, key):
        self.k += 1
        r = self.e.new_region(st, "targets%d" % self.k, 4096)
        self.sets[r] = (row, key)
        return r

    def at(self, e, st, a, i): return ptr(self.new(st, self.rowno(a[0]), e.load(st, a[1], ir.I(64)).e))

    def findrow(self, e, st, a, i):
        row, key = self.rowno(a[0]), e.load(st, a[1], ir.I(64)).e
        r = self.new(st, row, key)
        p = z3.FreshConst(z3.BoolSort(), "present")
        e.fact(r.base != self.rows.base + bv(1 << 45))
        e.fact(z3.Implies(z3.And(st.g, row == self.A.s, key == z3.ZeroExt(48, self.A.c), self.A.T(st, self.p)), p))
        self.present = getattr(self, "present", []) + [(row, key, p, r)]
        return V(simp(z3.If(p, r.base, self.rows.base + bv(1 << 45))), r)

    def endrow(self, p):
        self.rowno(p)
        return V(simp(self.rows.base + bv(1 << 45)), self.rows)

    def what(self, st, p):
        o = conc(simp(p.e - p.prov.base)) if p.prov in self.sets else None
        if o in (0, 40): return self.sets[p.prov]
        if p.prov in self.sets:         # the set of a node that find() found
            for row, key, c, r in self.present:
                if r is p.prov: return row, key
        if which(p, (self.p.prov, self.A.off["final"])) == 0: return None
        raise Unmodelled("another set")

    def change(self, e, st, a, add):
        w, v, A = self.what(st, a[0]), e.load(st, a[1], ir.I(64)).e, self.A
        if w is None:
            A.setF(st, self.p, z3.Or(A.F(st, self.p), v == A.s) if add else z3.And(A.F(st, self.p), v != A.s))
        else:
            hit = z3.And(w[0] == A.s, w[1] == z3.ZeroExt(48, A.c), v == A.t)
            A.setT(st, self.p, z3.Or(A.T(st, self.p), hit) if add else z3.And(A.T(st, self.p), z3.Not(hit)))
        return V([V(self.node.base, self.node), V(z3.BoolVal(True))]) if add else V(bv(1))

    def findset(self, e, st, a, i):
        w, v, A = self.what(st, a[0]), e.load(st, a[1], ir.I(64)).e, self.A
        m = z3.FreshConst(z3.BoolSort(), "member")
        hit, val = (v == A.s, A.F(st, self.p)) if w is None else (z3.And(w[0] == A.s, w[1] == z3.ZeroExt(48, A.c), v == A.t), A.T(st, self.p))
        e.fact(z3.Implies(z3.And(st.g, hit), m == val))
        return V(simp(z3.If(m, self.node.base, self.endset.e)), self.node)


def basics(case):
    """Connect, Disconnect, Connected, SetFinal, IsFinal, ConnectFinal: they change and report exactly the transition or final state they name"""
    e, st, A = case_(case)
    op = case[0]
    p = A.new(st, "this")
    b = Before(A, st, p)
    A.use("Connect", "Disconnect", "SetFinal", "IsFinal", "ConnectFinal", "Resize") if op != "connectfinal" else A.use("ConnectFinal", "SetFinal", "IsFinal")
    s, c, t = A.s, A.c, A.t
    x, y, l, v = z3.BitVec("from", 64), z3.BitVec("to", 64), z3.BitVec("letter", 16), z3.Bool("v")
    e.facts += [z3.ULT(x, b.N), z3.ULT(y, b.N)]
    if op == "connectfinal":
        ff, fv, fm = elements(e, "finals", b.F, s, b.N)
        finals = Tree(e, st, "finals", ff, fv)

        def find(st, q):
            if which(q, (p.prov, A.off["final"])) == 0: return finals
            raise Unmodelled("another container")
        Trees(e, find)
        new = z3.And(b.F, t == y, c == l)

        def templates(eng_, ctx):
            T = ghostvar(ctx, eng_, A.G(p), 8)
            out = []
            for nm, f, w in states(ctx, eng_, 64, finals.r):
                out.append((nm + " in the finals", lambda ev, f=f: finals.place(f(ev))))
                out.append(("connected before " + nm, lambda ev, f=f: (T(ev) != 0) == z3.Or(b.T, z3.And(new, finals.seen(f(ev), fm)))))
            return out
        e.templates.append(templates)
        rv, o = run1(e, st, "vc_connectfinal", [p, V(y), V(l)])
        e.oblige(o, "every final goes to the state on the letter, nothing else changes", A.T(o, p) == z3.Or(b.T, new), "post")
        e.oblige(o, "the finals stay", A.F(o, p) == b.F, "frame")
        cover(e, o)
        return e
    B = Bare(e, st, A, p)
    hit = z3.And(s == x, t == y, c == l)
    byte = V(z3.If(v, bv(1, 8), bv(0, 8)))
    args = {"connect": [p, V(x), V(y), V(l)], "disconnect": [p, V(x), V(y), V(l)], "connected": [p, V(x), V(y), V(l)], "setfinal": [p, V(x), V(v)], "isfinal": [p, V(x)]}[op]
    if op == "connected": e.fact(z3.And(s == x, t == y, c == B.tr(l)))
    rv, o = run1(e, st, "vc_" + op, args)
    T, F = A.T(o, p), A.F(o, p)
    res = lambda: rv.e if z3.is_bool(rv.e) else rv.e != 0
    if op == "connect": e.oblige(o, "exactly the transition is added", T == z3.Or(b.T, hit), "post")
    if op == "disconnect": e.oblige(o, "exactly the transition is removed", T == z3.And(b.T, z3.Not(hit)), "post")
    if op == "connected": e.oblige(o, "whether the transition exists, on the letter's representative", res() == b.T, "post")
    if op == "isfinal": e.oblige(o, "whether the state is final", z3.Implies(s == x, res() == b.F), "post")
    e.oblige(o, "the finals", F == (z3.If(s == x, v, b.F) if op == "setfinal" else b.F), "post" if op == "setfinal" else "frame")
    if op not in ("connect", "disconnect"): e.oblige(o, "the transitions stay", T == b.T, "frame")
    e.oblige(o, "size and start stay", z3.And(A.N(o, p) == b.N, A.initial(o, p) == b.i), "frame")
    if op in ("connect", "disconnect"): e.oblige(o, "no longer known to be a plain union", z3.Not(A.flag(o, p, "alt")), "post")
    cover(e, o)
    return e


def heavy(case):
    """Complement, MakeSuffix, MakePrefix upon their parts"""
    e, st, A = case_(case)
    op = case[0]
    p = A.new(st, "this")
    b = Before(A, st, p)
    A.use()
    s, c, t, eps = A.s, A.c, A.t, bv(A.eps, 16)
    e.contracts += C14.err(None)
    if op == "complement":
        ok = z3.Bool("determined_in_time")
        order = []

        def det(e, st, a, i):
            order.append("Determine")
            return V(ok)
        N1, T1, F1, i1 = z3.BitVec("N1", 64), z3.Bool("T1"), z3.Bool("F1"), z3.BitVec("i1", 64)
        fin = z3.Function("final1", BV(64), z3.BoolSort())
        e.facts += [z3.UGE(N1, bv(1)), z3.ULE(N1, bv(1 << 40)), z3.ULT(i1, N1), z3.Implies(T1, z3.And(z3.ULT(s, N1), z3.ULT(t, N1))), z3.Implies(fin(s), z3.ULT(s, N1))]

        def mini(e, st, a, i):
            order.append("Minimize")
            A.setN(st, p, N1); A.setT(st, p, T1); A.setF(st, p, fin(s))
            e.store(st, A.field(p, "initial"), V(i1), ir.I(64))
        e.contracts += [Contract(fs("Determine(unsigned long)"), det, "Fsm::Determine [C08]"), Contract(fs("Minimize()"), mini, "Fsm::Minimize [C09]"),
                        Contract(fs("Unsparse()"), lambda e, st, a, i: order.append("Unsparse"), "Fsm::Unsparse"),
                        Contract(lambda d: d.startswith("Pire::Partition<") or d.startswith("Pire::Fsm::LettersEquality::LettersEquality("), lambda e, st, a, i: a[0], "letter partition [C10]")]
        e.contracts.insert(0, Contract(fs("IsFinal(unsigned long) const"), lambda e, st, a, i: V(fin(a[1].e)), "Fsm::IsFinal"))
        f = e.find("vc_complement")
        loop = z3.And(c == eps, t == N1, z3.Not(fin(s)))
        e.fact(z3.Implies(z3.UGE(s, N1), z3.Not(fin(s))))

        def templates(eng_, ctx):
            T = ghostvar(ctx, eng_, A.G(p), 8)
            out = []
            for nm, f_, w in states(ctx, eng_):
                out.append((nm + " <= states", lambda ev, f_=f_: z3.ULE(f_(ev), N1 + 1)))
                out.append(("connected below " + nm, lambda ev, f_=f_: (T(ev) != 0) == z3.Or(T1, z3.And(loop, z3.ULT(s, f_(ev))))))
            return out
        e.templates.append(templates)
        rv, o, th = call(e, st, "vc_complement", [p])
        e.oblige(start(), "Determine, then Minimize, then letters again", z3.BoolVal(order == ["Determine", "Minimize", "Unsparse"]), "post", soft=True)
        e.oblige(o, "returns only if determined", ok, "post")
        shape(e, o, "one more state", A.N(o, p) == N1 + 1)
        shape(e, o, "every state that is not final goes to it", A.T(o, p) == z3.Or(T1, z3.And(loop, z3.ULE(s, N1))))
        shape(e, o, "it is the only final", A.F(o, p) == (s == N1))
        shape(e, o, "same start", A.initial(o, p) == i1)
    else:
        D, E = z3.Function("dead", BV(64), z3.BoolSort()), z3.Function("noTransitions", BV(64), z3.BoolSort())
        node = e.new_region(st, "node", 64)
        e.contracts += [Contract(fs("DeadStates() const"), lambda e, st, a, i: None, "Fsm::DeadStates [C20]"),
                        Contract(lambda d: d.startswith("std::set<unsigned long") and "::find(unsigned long const&)" in d, lambda e, st, a, i: V(simp(z3.If(D(e.load(st, a[1], ir.I(64)).e), node.base, node.base + bv(32))), node), "set::find"),
                        Contract(lambda d: d.startswith("std::set<unsigned long") and "::end() const" in d, lambda e, st, a, i: V(simp(node.base + bv(32)), node), "set::end"),
                        Contract(lambda d: d.startswith(("std::set<unsigned long", "Pire::TSet<unsigned long")) and "::~" in d, lambda e, st, a, i: None, "~set")]
        T1 = z3.Bool("T1")
        rowp = e.new_region(st, "rows", None, kind="bytes", init=UF(z3.Function("rows", BV(64), BV(8))), readonly=True)

        def rmdead(e, st, a, i):
            e.fact(z3.Implies(T1, b.T))
            A.setT(st, p, T1)

        def row(e, st, a, i):
            if which(a[0], (p.prov, A.off["trans"])) != 0: raise Unmodelled("rows of another automaton")
            A.inside(st, p, a[1].e)
            return V(simp(rowp.base + a[1].e * bv(48)), rowp)

        def empty(e, st, a, i):
            if a[0].prov is not rowp: raise Unmodelled("another row")
            parts = linear(simp(a[0].e - rowp.base))
            if any(k % 48 for k, x in parts): raise Unmodelled("another row")
            return V(E(simp(sum([bv(k // 48) * x if x is not None else bv(k // 48) for k, x in parts], bv(0)))))

        def insert(e, st, a, i):
            if which(a[0], (p.prov, A.off["final"])) != 0: raise Unmodelled("another set")
            A.setF(st, p, z3.Or(A.F(st, p), e.load(st, a[1], ir.I(64)).e == s))
            return V([V(node.base, node), V(z3.BoolVal(True))])
        e.contracts += [Contract(fs("RemoveDeadEnds()"), rmdead, "Fsm::RemoveDeadEnds"), Contract(lambda d: d.startswith("std::vector<Pire::TMap<unsigned long, Pire::TSet<") and "::operator[](unsigned long)" in d, row, "the transition table's operator[]"),
                        Contract(lambda d: d.startswith("std::map<unsigned long, Pire::TSet<") and d.endswith("::empty() const"), empty, "map::empty"),
                        Contract(lambda d: d.startswith("std::set<unsigned long") and "::insert(unsigned long const&)" in d, insert, "set::insert")]
        new = z3.And(s == b.N, c == eps, z3.ULT(t, b.N), z3.Not(D(t)))

        def templates(eng_, ctx):
            T, F = ghostvar(ctx, eng_, A.G(p), 8), ghostvar(ctx, eng_, A.G(p), 9)
            out = []
            for nm, f_, w in states(ctx, eng_):
                out.append((nm + " <= states", lambda ev, f_=f_: z3.ULE(f_(ev), b.N)))
                out.append(("connected below " + nm, lambda ev, f_=f_: (T(ev) != 0) == z3.Or(b.T, z3.And(new, z3.ULT(t, f_(ev))))))
                out.append(("final below " + nm, lambda ev, f_=f_: (F(ev) != 0) == z3.Or(b.F, z3.And(z3.Not(E(s)), z3.ULT(s, f_(ev))))))
            return out
        e.templates.append(templates)
        rv, o = run1(e, st, "vc_" + op, [p])
        if op == "suffix":
            shape(e, o, "a new start that goes to every useful state", z3.And(A.T(o, p) == z3.Or(b.T, new), A.initial(o, p) == b.N, A.N(o, p) == b.N + 1))
            shape(e, o, "the finals stay", A.F(o, p) == b.F)
            e.oblige(o, "not taken for deterministic", z3.Not(A.flag(o, p, "determined")), "post")
        else:
            shape(e, o, "every state that leads somewhere becomes final", A.F(o, p) == z3.Or(b.F, z3.And(z3.ULT(s, b.N), z3.Not(E(s)))))
            shape(e, o, "size and start stay", z3.And(A.initial(o, p) == b.i, A.N(o, p) == b.N))
    cover(e, o)
    return e


def main():
    M()
    items = [Item("Basics", basics, [(x,) for x in ("connect", "disconnect", "connected", "setfinal", "isfinal", "connectfinal")], ["Fsm::Connect", "Fsm::Disconnect", "Fsm::Connected", "Fsm::SetFinal", "Fsm::IsFinal", "Fsm::ConnectFinal"]),
             Item("Steps", step, [(x,) for x in ("append", "special", "dot", "iterate", "prepend", "appendany")], ["Fsm::Append", "Fsm::AppendSpecial", "Fsm::AppendDot", "Fsm::Iterate", "Fsm::PrependAnything", "Fsm::AppendAnything"]),
             Item("Union, concatenation", binary, [("plus",), ("or",), ("plus", "same"), ("or", "same")], ["Fsm::operator+=", "Fsm::operator|="]),
             Item("Complement, prefixes, suffixes", heavy, [("complement",), ("suffix",), ("prefix",)], ["Fsm::Complement", "Fsm::MakeSuffix", "Fsm::MakePrefix"]),
             Item("Operators", laws, [(x,) for x in ("and", "times", "times_eq", "plus2", "or2", "and2", "star", "not", "surround", "surrounded")] + [(x, "same") for x in ("plus2", "or2", "and2")],
                  ["Fsm::operator&=", "Fsm::operator*", "Fsm::operator*=", "Fsm::operator+", "Fsm::operator|", "Fsm::operator&", "Fsm::operator~", "Fsm::Surround", "Fsm::Surrounded"])]
    return run_check("C07", items, Harness("C07.cpp", 20, desc="random automata under random operations against the denoted languages"),
                     assumptions=["std::set/std::map iterate over their elements, each once; insert/erase/find as the standard says", "Determine and Minimize keep the language (C08, C09), DeadStates is exact (C20)",
                                  "that the transition relations proved denote the operations (textbook constructions) is not machine-checked: the harness compares languages", "operands without outputs in +=", "Fsm::Import's renumbering, Reverse, AppendStrings: bounded stand-in"],
                     notes="Each automaton is watched at one arbitrary transition (s, c, t) and state s, so what is proved holds of all. What an operation makes of the transition relation is a soft obligation: another construction of the same language is no violation, the harness then decides.")
