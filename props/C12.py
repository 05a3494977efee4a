from table import *
from framework import Item, Harness, run_check
M = lambda: module("loaded.cpp", (), NI)
MC = lambda: module("count.cpp", (), NI)
INC, RST = lambda a, i: z3.Extract(i, i, a) == bv(1, 1), lambda a, i: z3.Extract(16 + i, 16 + i, a) == bv(1, 1)
umax = lambda a, b: z3.If(z3.UGT(a, b), a, b)
N = 16


class Cnt:
    def __init__(self):
        m = M()
        self.e = e = Engine(m, [])
        self.st = st = start()
        self.sc = Loaded(e, st, m)
        self.o = o = offs(m, "off_cnt_")
        self.q, self.mask = z3.BitVecs("s updated", 64)
        self.cur = [z3.BitVec("cur%d" % i, 32) for i in range(N)]
        self.tot = [z3.BitVec("tot%d" % i, 32) for i in range(N)]
        f = {o["state"]: (8, V(self.q, self.sc.jt)), o["mask"]: (8, V(self.mask))}
        for i in range(N):
            f[o["current"] + 4 * i] = (4, V(self.cur[i])); f[o["total"] + 4 * i] = (4, V(self.tot[i]))
        self.fields = f
        self.s = obj(e, st, "state", gconst(m, "vc_size_cnt_state"), f)

    def inv(self, cur, mask):
        """representation invariant of the updated mask: a counter that is not zero has its reset bit set"""
        return z3.And(*[z3.Or(cur[i] == 0, z3.Extract(16 + i, 16 + i, mask) == 1) for i in range(N)])

    def get(self, o, r=None):
        r = r or self.s
        return (get(self.e, o, r, self.o["state"]), [get(self.e, o, r, self.o["current"] + 4 * i, 32) for i in range(N)],
                [get(self.e, o, r, self.o["total"] + 4 * i, 32) for i in range(N)], get(self.e, o, r, self.o["mask"]))

    def call(self, fn, args):
        f = self.e.find(fn)
        self.e.stack[:] = []
        rv, o, th = self.e.call_function(f, args, self.st, top=True)
        self.e.stack.append(f)
        no_throw(self.e, th, fn)
        return rv, o


def initialize(case):
    c = Cnt()
    e = c.e
    rv, o = c.call(case[0], [ptr(c.sc.r), ptr(c.s)])
    s, cur, tot, mask = c.get(o)
    e.oblige(o, "starts in the initial state", s == c.sc.init, "post")
    e.oblige(o, "all counters are zero", z3.And(*[x == 0 for x in cur + tot]), "post")
    e.oblige(o, "the updated mask agrees with the counters", c.inv(cur, mask), "inv")
    cover(e, o)
    return e


def take(case):
    """for every action word and all counters: regexp i is changed by its own bits only, as the semantics says"""
    c = Cnt()
    e = c.e
    a = z3.BitVec("action", 32)
    e.fact(c.inv(c.cur, c.mask))
    rv, o = c.call(case[0], [ptr(c.sc.r), ptr(c.s), V(a)])
    s, cur, tot, mask = c.get(o)
    e.oblige(o, "the automaton state does not change", s == c.q, "frame")
    for i in range(N):
        x, t = c.cur[i], c.tot[i]
        if case[0] == "vc_cnt_take":      # increment, then reset
            x1 = z3.If(INC(a, i), x + bv(1, 32), x)
            wx, wt = z3.If(RST(a, i), bv(0, 32), x1), z3.If(RST(a, i), umax(t, x1), t)
        else:                             # reset, then increment
            x1, wt = z3.If(RST(a, i), bv(0, 32), x), z3.If(RST(a, i), umax(t, x), t)
            wx = z3.If(INC(a, i), x1 + bv(1, 32), x1)
        e.oblige(o, "current counter of regexp %d follows its own increment and reset" % i, cur[i] == wx, "post")
        e.oblige(o, "best counter of regexp %d records the maximum at a reset" % i, tot[i] == wt, "post")
    e.oblige(o, "the updated mask agrees with the counters", c.inv(cur, mask), "inv")
    cover(e, o)
    cover(e, State(And(o.g, tot[3] != c.tot[3]), {}, {}), "a reset can record a maximum")
    return e


def nxt(case):
    fn = case[0]
    c = Cnt()
    e = c.e
    ch = z3.BitVec("c", 16)
    letter = c.sc.letter(ch)
    e.fact(c.sc.valid(c.q))
    e.fact(z3.ULT(ch, bv(c.sc.maxchar, 16)))
    dst = c.s
    args = [ptr(c.sc.r), ptr(c.s), V(ch)]
    if fn == "vc_cnt_next3":
        dst = obj(e, c.st, "next", gconst(M(), "vc_size_cnt_state"), {})
        c.s.readonly = True
        args.insert(2, ptr(dst))
    if fn == "vc_ngl_next":
        o_ = offs(M(), "off_ngl_")
        dst = obj(e, c.st, "state", gconst(M(), "vc_size_ngl_state"), {o_["state"]: (8, V(c.q, c.sc.jt))})
        args[1] = ptr(dst)
    rv, o = c.call(fn, args)
    shift, action = c.sc.entry(c.q, letter)
    e.oblige(o, "moves along the transition of the character's class", get(e, o, dst, o_["state"] if fn == "vc_ngl_next" else c.o["state"]) == c.q + shift, "post")
    e.oblige(o, "returns the action of that transition", rv.e == action, "post")
    if fn == "vc_ngl_next":
        e.oblige(o, "the counters do not change", z3.BoolVal(sorted(o.mem[dst].d) == [o_["state"]]), "frame")
    else:
        s, cur, tot, mask = c.get(o, dst)
        e.oblige(o, "the counters do not change", z3.And(*[x == y for x, y in zip(cur + tot + [mask], c.cur + c.tot + [c.mask])]), "frame")
    cover(e, o)
    return e


def result(case):
    c = Cnt()
    e = c.e
    c.s.readonly = True
    for i in range(N):
        rv, o = c.call("vc_cnt_result", [ptr(c.s), V(bv(i, 32))])
        e.oblige(o, "Result(%d) is the maximum of the best and the current counter" % i, rv.e == z3.ZeroExt(32, umax(c.cur[i], c.tot[i])), "post")
    rv, o = c.call("vc_cnt_final", [ptr(c.sc.r), ptr(c.s)])
    e.oblige(o, "a counting scanner is never final", z3.Not(rv.e), "post")
    rv, o = c.call("vc_cnt_dead", [ptr(c.sc.r), ptr(c.s)])
    e.oblige(o, "a counting scanner is never dead", z3.Not(rv.e), "post")
    cover(e, o)
    return e


def remap(case):
    """the action words stored in the table: bit 0 increments and bit 16 resets the one regexp of a new scanner"""
    c = Cnt()
    e = c.e
    a = z3.BitVec("output", 32)
    rv, o = c.call(case[0], [ptr(c.sc.r), V(a)])
    b = lambda k: z3.Extract(k, k, a) == bv(1, 1)
    if case[0] == "vc_cnt_remap":     # outputs: 1 = separator failed (dead), 2 = the pattern had matched
        e.fact(z3.ULE(a, bv(3, 32)))
        want = z3.If(a == bv(3, 32), bv(1, 32), z3.If(a == bv(1, 32), bv(1 << 16, 32), bv(0, 32)))
    elif case[0] == "vc_adv_remap": want = z3.If(b(0), bv(1, 32), bv(0, 32)) | z3.If(b(1), bv(1 << 16, 32), bv(0, 32))
    else: want = a
    e.oblige(o, "increment and reset bits", rv.e == want, "post")
    cover(e, o)
    return e


# ---------------------------------------------------------------- the scanner without glue limit


def ngl_take(case):
    mode = case[0]
    m = M()
    e = Engine(m, []); e.opaque_cells = True; e.use_iter = False
    st = start()
    so, oo = offs(m, "off_ngl_"), offs(m, "off_")
    j, a = z3.BitVec("j", 64), z3.BitVec("action", 32)
    cnt, tcnt = z3.BitVecs("regexps table", 64)
    e.facts += [z3.UGE(cnt, bv(1)), z3.ULE(cnt, bv(1 << 30)), z3.ULT(j, cnt), z3.ULE(tcnt, bv(1 << 40))]
    x, t = z3.BitVecs("cur tot", 32)
    P, T = Probe(e, st, "current", cnt, j, x), Probe(e, st, "total", cnt, j, t)
    act = table(e, st, "actions", tcnt)
    f = {so["mode"]: (1, V(bv(1 if mode == "compat" else 0, 8))), so["actions"]: (8, ptr(act) if mode == "list" else V(bv(0))),
         oo["regexpsCount"]: (4, V(z3.Extract(31, 0, cnt)))}
    sc = obj(e, st, "scanner", gconst(m, "vc_size_ngl"), f, readonly=True)
    s = obj(e, st, "state", gconst(m, "vc_size_ngl_state"),
            {so["state"]: (8, V(z3.BitVec("s", 64))), so["current"]: (8, ptr(P.r)), so["total"]: (8, ptr(T.r))}, readonly=True)
    e.contracts.append(Contract("Pire::LoadedScanner::RegexpsCount() const", lambda e, st, a, i: V(cnt), "RegexpsCount"))
    e.facts.append(z3.UGE(t, x))      # invariant of this scanner: the best counter includes the current one
    one = bv(1, 32)
    e.facts += [z3.ULT(x, bv(1 << 31, 32)), z3.ULT(t, bv(1 << 31, 32))]
    if mode == "list":
        # the action list at Actions + a: [n, n numbers to reset, k, k numbers to increment] inside the table
        a0 = act.base + z3.ZeroExt(32, a) * bv(4)
        W = z3.Function("list", BV(64), BV(32))      # the 32-bit word at an address of the list
        w = lambda p: W(simp(p))
        nr = z3.ZeroExt(32, w(simp(a0)))
        # the ends of the two parts of the list, as symbols
        rend, iend = z3.BitVecs("rend iend", 64)
        Align.set(rend, 2); Align.set(iend, 2)
        ni = z3.ZeroExt(32, w(rend))
        e.facts += [rend == simp(a0 + bv(4) + nr * bv(4)), iend == simp(rend + bv(4) + ni * bv(4)), rend & bv(3) == 0, iend & bv(3) == 0, z3.ULE(iend, bv(1 << 48)), z3.ULE(a0 + bv(4), rend), z3.ULE(rend + bv(4), iend),
                    z3.ULE(iend - act.base, tcnt), z3.ULE(nr, bv(1 << 28)), z3.ULE(ni, bv(1 << 28)), z3.ULT(z3.ZeroExt(32, a), bv(1 << 31))]
        C, TT = z3.Function("C", BV(64), BV(32)), z3.Function("T", BV(64), BV(32))
        e.facts += [C(simp(a0 + bv(4))) == x, TT(simp(a0 + bv(4))) == t]
        e.facts += [C(simp(rend + bv(4))) == C(rend), TT(simp(rend + bv(4))) == TT(rend)]
        seen = set()

        def unfold(e, st, p, n, ty):
            q = simp(p.e)
            e.bounds(st, act, p, n, "load")
            if n != 4: raise Unmodelled("access to the action list that is not a word")
            if q.get_id() in seen: return V(w(q))
            seen.add(q.get_id()); keep.append(q)
            nx, here = simp(q + bv(4)), z3.ZeroExt(32, w(q)) == j
            inr, ini = z3.And(z3.UGE(q, a0 + bv(4)), z3.ULT(q, rend)), z3.And(z3.UGE(q, rend + bv(4)), z3.ULT(q, iend))
            e.fact(z3.Implies(inr, z3.And(C(nx) == z3.If(here, bv(0, 32), C(q)), TT(nx) == TT(q))))
            e.fact(z3.Implies(ini, z3.And(C(nx) == z3.If(here, C(q) + one, C(q)), TT(nx) == z3.If(here, umax(TT(q), C(q) + one), TT(q)))))
            e.fact(z3.Implies(z3.Or(inr, ini), z3.ULT(z3.ZeroExt(32, w(q)), cnt)))
            return V(w(q))
        keep = []
        act.on_load = unfold

        def templates(eng, ctx):
            out = []
            for v in ctx.vars:
                if v[0] not in ("phi", "cell"): continue
                h = eng.getv(ctx.hst, v)
                if h.prov is act:
                    for u in ctx.vars:
                        if u[0] == "cell" and u[1][0] is P.cell: out.append(("current[j] = C", lambda ev, u=u, v=v: ev(u).e == C(ev(v).e)))
                        if u[0] == "cell" and u[1][0] is T.cell: out.append(("total[j] = T", lambda ev, u=u, v=v: ev(u).e == TT(ev(v).e)))
                    for nm, k in (("rend", rend), ("iend", iend), ("rbegin", simp(a0 + bv(4))), ("ibegin", simp(rend + bv(4)))):
                        out.append(("ptr <= " + nm, lambda ev, v=v, k=k: z3.ULE(ev(v).e, k)))
                        out.append(("ptr >= " + nm, lambda ev, v=v, k=k: z3.UGE(ev(v).e, k)))
                        for u in ctx.vars:
                            if u is v or u[0] not in ("phi", "cell"): continue
                            hu = eng.getv(ctx.hst, u)
                            if isinstance(hu.e, z3.BitVecRef) and hu.e.size() == 32 and hu.prov is None:
                                out.append(("ptr + 4*%s = %s" % (vname(u), nm), lambda ev, v=v, u=u, k=k: ev(v).e + z3.ZeroExt(32, ev(u).e) * bv(4) == k))
                    out.append(("T constant", lambda ev, v=v: TT(ev(v).e) == t))
            return out
        e.templates.append(templates)
    fn = e.find("vc_ngl_take")
    if mode == "compat":
        # only bits of existing regexps are set, at most 16 of them
        e.facts += [z3.ULE(cnt, bv(16))] + [z3.Implies(z3.ULE(cnt, bv(i)), z3.And(z3.Not(INC(a, i)), z3.Not(RST(a, i)))) for i in range(16)]
    if mode == "single": e.fact(cnt == 1)
    rv, o, th = e.call_function(fn, [ptr(sc), ptr(s), V(a)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "TakeAction")
    cur, tot = get(e, o, P.cell, 0, 32), get(e, o, T.cell, 0, 32)
    if mode == "list":
        e.oblige(o, "no action, no change", z3.Implies(a == 0, z3.And(cur == x, tot == t)), "post")
        e.oblige(o, "current counter follows the resets and increments of the list", z3.Implies(a != 0, cur == C(iend)), "post")
        e.oblige(o, "best counter follows the increments of the list", z3.Implies(a != 0, tot == TT(iend)), "post")
    else:
        inc = lambda i: INC(a, i) if mode == "compat" else z3.Extract(0, 0, a) == bv(1, 1)
        rst = lambda i: RST(a, i) if mode == "compat" else z3.Extract(1, 1, a) == bv(1, 1)
        for i in range(16 if mode == "compat" else 1):
            h = j == bv(i)
            x1 = z3.If(rst(i), bv(0, 32), x)
            wx = z3.If(inc(i), x1 + one, x1)
            e.oblige(o, "regexp %d: current counter" % i, z3.Implies(h, cur == wx), "post")
            e.oblige(o, "regexp %d: best counter" % i, z3.Implies(h, umax(tot, cur) == umax(t, umax(x, wx))), "post")
            if mode == "single": e.oblige(o, "the best counter includes the current one", z3.Implies(h, z3.UGE(tot, cur)), "inv")
    cover(e, o)
    return e


def ngl_lemma(case):
    """the ghost counters of a list action keep 'best >= current' and record every maximum"""
    e = Engine(M(), [])
    C, T, Cn, Tn, j, w = [z3.BitVec(n, 32) for n in ("C", "T", "C1", "T1", "j", "w")]
    one = bv(1, 32)
    for nm, hyp in (("reset", z3.And(Cn == z3.If(w == j, bv(0, 32), C), Tn == T)), ("increment", z3.And(C != bv(0xFFFFFFFF, 32), Cn == z3.If(w == j, C + one, C), Tn == z3.If(w == j, umax(T, C + one), T)))):
        st = State(z3.And(z3.UGE(T, C), hyp), {}, {})
        e.oblige(st, nm + ": best counter includes the current one", z3.UGE(Tn, Cn), "lemma")
        e.oblige(st, nm + ": best counter is the maximum so far", Tn == umax(T, Cn), "lemma")
        cover(e, st)
    return e


def ngl_init(case):
    m = M()
    e = Engine(m, [])
    st = start()
    so, oo = offs(m, "off_ngl_"), offs(m, "off_")
    cnt, init = z3.BitVecs("regexps initial", 64)
    sc = obj(e, st, "scanner", gconst(m, "vc_size_ngl"), {oo["initial"]: (8, V(init))}, readonly=True)
    s = obj(e, st, "state", gconst(m, "vc_size_ngl_state"), {})
    log = []
    e.contracts += [Contract("Pire::LoadedScanner::RegexpsCount() const", lambda e, st, a, i: V(cnt), "RegexpsCount"),
                    Contract(lambda d: d.startswith("std::vector<unsigned int") and "::assign(unsigned long, unsigned int const&)" in d,
                             lambda e, st, a, i: log.append((conc(simp(a[0].e - s.base)), a[1].e, e.load(st, a[2], ir.I(32)).e)), "std::vector::assign(n, x)")]
    every = onpaths(e, 1)
    fn = e.find("vc_ngl_init")
    rv, o, th = e.call_function(fn, [ptr(sc), ptr(s)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "Initialize")
    every(o)
    e.oblige(o, "starts in the initial state", get(e, o, s, so["state"]) == init, "post")
    e.oblige(o, "both vectors are assigned once", z3.BoolVal(sorted(x[0] for x in log) == sorted([so["current"], so["total"]])), "post")
    for k, n, v in log: e.oblige(o, "all counters are zero", z3.And(n == cnt, v == 0), "post")
    cover(e, o)
    return e


def ngl_result(case):
    m = M()
    e = Engine(m, [])
    st = start()
    so = offs(m, "off_ngl_")
    i, x, t, cnt = z3.BitVec("i", 32), z3.BitVec("cur", 32), z3.BitVec("tot", 32), z3.BitVec("regexps", 64)
    j = z3.SignExt(32, i)
    e.facts += [z3.ULT(j, cnt), z3.ULE(cnt, bv(1 << 30))]
    P, T = Probe(e, st, "current", cnt, j, x), Probe(e, st, "total", cnt, j, t)
    s = obj(e, st, "state", gconst(m, "vc_size_ngl_state"), {so["current"]: (8, ptr(P.r)), so["total"]: (8, ptr(T.r))}, readonly=True)
    fn = e.find("vc_ngl_result")
    rv, o, th = e.call_function(fn, [ptr(s), V(i)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "Result")
    e.oblige(o, "Result(i) is the maximum of the best and the current counter", rv.e == z3.ZeroExt(32, umax(x, t)), "post")
    cover(e, o)
    return e


# ---------------------------------------------------------------- gluing

def connect(case):
    """Glue: the action of a joint transition is the left action next to the right one shifted by the number of left regexps"""
    cls = {"cnt": "CountingScanner", "adv": "AdvancedCountingScanner"}[case[0]]
    n1, = case[1:]
    m = MC()
    e = Engine(m, [])
    st = start()
    fr, to, lt = z3.BitVec("from", 64), z3.BitVec("to", 64), z3.BitVec("letter", 16)
    la, ra = z3.BitVecs("left right", 32)
    lhs, rhs, sc = [e.new_region(st, n, 64, readonly=True) for n in ("lhs", "rhs", "result")]
    task = e.new_region(st, "task", 512, readonly=True)
    p, q = z3.BitVecs("p q", 64)
    states = obj(e, st, "states[from]", 16, {0: (8, V(p)), 8: (8, V(q))}, readonly=True)
    jumps = []
    C = "Pire::Impl::ScannerGlueCommon<Pire::%s>::" % cls

    def act(e, st, a, i):
        left = a[1].prov is lhs
        e.oblige(st, "action of the component's own state", a[2].e == (p if left else q), "pre")
        e.oblige(st, "action of the same letter", a[3].e == lt, "pre")
        return V(la if left else ra)

    def idx(e, st, a, i):
        e.oblige(st, "looks up the source state", a[1].e == fr, "pre")
        return ptr(states)
    e.contracts += [Contract(C + "Lhs() const", lambda e, st, a, i: ptr(lhs)), Contract(C + "Rhs() const", lambda e, st, a, i: ptr(rhs)), Contract(C + "Sc()", lambda e, st, a, i: ptr(sc)),
                    Contract(lambda d: d.startswith("Pire::Impl::CountingScannerGlueTask<Pire::%s>::Action(" % cls), act, "Action [item Action]"),
                    Contract(lambda d: d.startswith("std::vector<Pire::ypair<unsigned long, unsigned long>") and "operator[]" in d, idx, "std::vector::operator[]"),
                    Contract("Pire::LoadedScanner::RegexpsCount() const", lambda e, st, a, i: V(bv(n1) if a[0].prov is lhs else z3.BitVec("n2", 64))),
                    Contract("Pire::LoadedScanner::SetJump(unsigned long, unsigned short, unsigned long, unsigned int)", lambda e, st, a, i: jumps.append((st.g, a)), "LoadedScanner::SetJump [C04]")]
    fn = e.find("vc_%s_connect" % case[0])
    rv, o, th = e.call_function(fn, [ptr(task), V(fr), V(to), V(lt)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "Connect")
    e.oblige(o, "exactly one transition is set", z3.BoolVal(len(jumps) == 1 and jumps[0][1][0].prov is sc), "post")
    if len(jumps) == 1:
        a = jumps[0][1]
        e.oblige(o, "the transition from, letter, to", z3.And(a[1].e == fr, a[2].e == lt, a[3].e == to), "post")
        J = a[4].e
        for k in range(16):
            # precondition: the components use the bits of their own regexps only, together at most 16
            for base in (0, 16):
                if k < n1: e.fact(z3.Extract(base + 16 - n1 + k, base + 16 - n1 + k, ra) == 0)
                if k >= n1: e.fact(z3.Extract(base + k, base + k, la) == 0)
        for k in range(16):
            src, kk = (la, k) if k < n1 else (ra, k - n1)
            e.oblige(o, "regexp %d is incremented when its component does" % k, INC(J, k) == INC(src, kk), "post")
            e.oblige(o, "regexp %d is reset when its component does" % k, RST(J, k) == RST(src, kk), "post")
    cover(e, o)
    return e


def action(case):
    """the action of a component's transition, and the joint step, read from the components' own tables"""
    m = MC()
    e = Engine(m, [])
    st = start()
    sc = Loaded(e, st, m)
    idx, p, s = z3.BitVecs("row rowOffset s", 64)
    ch = z3.BitVec("c", 16)
    e.facts += [z3.ULT(ch, bv(sc.maxchar, 16)), z3.ULE(p, bv(1 << 40)), sc.valid(sc.jt.base + p * bv(8)), s == sc.jt.base + p * bv(8)]
    def sidx(e, st, a, i):
        e.oblige(st, "row of the given state", z3.And(a[0].e == sc.r.base, a[1].e == s), "pre"); return V(idx)
    def tidx(e, st, a, i):
        e.oblige(st, "entry of that row and letter", z3.And(a[0].e == sc.r.base, a[1].e == idx, a[2].e == ch), "pre"); return V(p + sc.letter(a[2].e))
    e.contracts += [Contract("Pire::LoadedScanner::StateIdx(unsigned long) const", sidx, "LoadedScanner::StateIdx [C13 Final]"),
                    Contract("Pire::LoadedScanner::TransitionIndex(unsigned long, unsigned short) const", tidx, "LoadedScanner::TransitionIndex")]
    e.fact(z3.ULT(sc.letter(ch), sc.L))
    task = e.new_region(st, "task", 512, readonly=True)
    fn = e.find("vc_%s_action" % case[0])
    rv, o, th = e.call_function(fn, [ptr(task), ptr(sc.r), V(s, sc.jt), V(ch)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "Action")
    e.oblige(o, "the action stored in the component's transition", rv.e == sc.entry(s, sc.letter(ch))[1], "post")
    cover(e, o)
    return e


def gnext(case):
    """a joint state moves by moving its components on the same letter"""
    m = MC()
    e = Engine(m, [])
    st = start()
    cls = {"cnt": "CountingScanner", "adv": "AdvancedCountingScanner", "ngl": "NoGlueLimitCountingScanner"}[case[0]]
    lhs, rhs, task = [e.new_region(st, n, 512, readonly=True) for n in ("lhs", "rhs", "task")]
    p, q, ch = z3.BitVec("p", 64), z3.BitVec("q", 64), z3.BitVec("c", 16)
    N = {n: z3.Function("next_" + n, BV(64), BV(16), BV(64)) for n in ("lhs", "rhs")}
    def nx(e, st, a, i):
        s = e.load(st, a[1], ir.I(64)).e
        e.store(st, a[1], V(N["lhs" if a[0].prov is lhs else "rhs"](s, a[2].e)), ir.I(64))
    C = "Pire::Impl::ScannerGlueCommon<Pire::%s>::" % cls
    e.contracts += [Contract(C + "Lhs() const", lambda e, st, a, i: ptr(lhs)), Contract(C + "Rhs() const", lambda e, st, a, i: ptr(rhs)),
                    Contract(lambda d: "BaseCountingScanner<Pire::%s" % cls in d and "::Next(unsigned long&, unsigned short) const" in d, nx, "BaseCountingScanner::Next on an internal state")]
    fn = e.find("vc_%s_gnext" % case[0])
    args = [ptr(task)]
    out = None
    np = len(fn.params)
    if np == 5: args = None
    src = obj(e, st, "state", 16, {0: (8, V(p)), 8: (8, V(q))})
    a = []
    for k, (ty, nm, at) in enumerate(fn.params):
        if any(x.startswith("sret") for x in at): out = obj(e, st, "result", 16, {}); a.append(ptr(out))
        elif ty.k == "ptr" and any(x.startswith("byval") for x in at): a.append(ptr(src))
        elif ty.k == "ptr": a.append(ptr(task) if ptr(task) not in a and not any(x.prov is task for x in a) else ptr(src))
        elif ty.k == "int" and ty.n == 16: a.append(V(ch))
        elif ty.k == "int" and ty.n == 64: a.append(V(p if not any(x.e.eq(p) for x in a if z3.is_expr(x.e)) else q))
        else: raise Unmodelled("parameter of the joint step")
    rv, o, th = e.call_function(fn, a, st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "Next")
    if out is not None: x, y = get(e, o, out, 0), get(e, o, out, 8)
    else: x, y = rv.e[0].e, rv.e[1].e
    e.oblige(o, "left component moves on the letter", x == N["lhs"](p, ch), "post")
    e.oblige(o, "right component moves on the letter", y == N["rhs"](q, ch), "post")
    cover(e, o)
    return e


def tindex(case):
    m = MC()
    e = Engine(m, [])
    st = start()
    sc = Loaded(e, st, m)
    s, ch = z3.BitVec("row", 64), z3.BitVec("c", 16)
    e.fact(z3.ULT(ch, bv(sc.maxchar, 16)))
    fn = e.find("vc_tr_index")
    rv, o, th = e.call_function(fn, [ptr(sc.r), V(s), V(ch)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "TransitionIndex")
    e.oblige(o, "row times row length plus letter class", rv.e == s * sc.L + sc.letter(ch), "post")
    cover(e, o)
    return e


def main():
    M(); MC()
    items = [Item("Initialize", initialize, [("vc_cnt_init",), ("vc_adv_init",)], ["BaseCountingScanner::Initialize"]),
             Item("TakeAction", take, [("vc_cnt_take",), ("vc_adv_take",)], ["CountingScanner::TakeActionImpl", "AdvancedCountingScanner::TakeActionImpl", "IncrementPerformer::Do", "ResetPerformer::Do", "PerformIncrement", "PerformReset"], weight=4),
             Item("Next", nxt, [("vc_cnt_next",), ("vc_adv_next",), ("vc_cnt_next3",), ("vc_ngl_next",)], ["BaseCountingScanner::Next/NextTranslated/Translate"]),
             Item("Result", result, [()], ["CountingState::Result", "BaseCountingScanner::Final/Dead"]),
             Item("RemapAction", remap, [("vc_cnt_remap",), ("vc_adv_remap",), ("vc_ngl_remap",)], ["RemapAction"]),
             Item("NoGlueLimit Initialize", ngl_init, [()], ["NoGlueLimitCountingScanner::Initialize", "NoGlueLimitCountingState::Initialize"]),
             Item("NoGlueLimit TakeAction", ngl_take, [("list",), ("single",), ("compat",)], ["NoGlueLimitCountingScanner::TakeActionImpl", "AdvancedScannerTakeActionImpl", "NoGlueLimitCountingState::Increment/Reset"], weight=4),
             Item("NoGlueLimit lemma", ngl_lemma, [()], ["induction over the action list"]),
             Item("NoGlueLimit Result", ngl_result, [()], ["NoGlueLimitCountingState::Result"]),
             Item("Glue Connect", connect, [(c, n) for c in ("cnt", "adv") for n in range(1, 16)], ["CountingScannerGlueTask::Connect"]),
             Item("Glue Action", action, [("cnt",), ("adv",)], ["CountingScannerGlueTask::Action"]),
             Item("Glue Next", gnext, [("cnt",), ("adv",), ("ngl",)], ["ScannerGlueCommon::Next"]),
             Item("TransitionIndex", tindex, [()], ["LoadedScanner::TransitionIndex"])]
    return run_check("C12", items, Harness("C12.cpp", 14, desc="random action tables and texts, all counting scanners, glued in any nesting, against a step-by-step reference"),
                     assumptions=["the scanner's table is laid out as Init/SetJump leave it (C04)", "NoGlueLimitCountingScanner: an action list lies inside the action table and names existing regexps (AcceptActions)", "no counter reaches 2^31"],
                     notes="Each regexp's counters are shown to depend on its own bits only, for every action word; the vector counters are proved at an arbitrary index.")
