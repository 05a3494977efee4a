from fsmlib import *
import C11
from framework import Item, Harness, run_check

SCS = {"Scanner": "Pire::Scanner", "NonrelocScannerNoMask": "Pire::NonrelocScannerNoMask", "CountingScanner": "Pire::CountingScanner", "CapturingScanner": "Pire::CapturingScanner"}


def MB(v): return module("build.cpp", ("SC=" + SCS[v],), NI)


def build(case):
    """BuildScanner: every state gets its tag with the final and the dead flag, every (state, class) the transition of the automaton with its action; then FinishBuild"""
    e = Engine(MB(case[0]), [])
    e.cut_hint = lambda f, L: "cut"
    e.use_iter = False; e.opaque_cells = True; e.generic = False
    st = start()
    FF, DF = gconst(e.m, "vc_final_flag"), gconst(e.m, "vc_dead_flag")
    f, r = e.new_region(st, "fsm", 4096, readonly=True), e.new_region(st, "scanner", 4096)
    N, q, c = z3.BitVec("states", 64), z3.BitVec("q", 64), z3.BitVec("c", 16)
    W, B = BV(64), z3.BoolSort()
    Tag, Fin, Dead, Out, Remap = [z3.Function(n, *s) for n, s in (("tag", (W, W)), ("final", (W, B)), ("dead", (W, B)), ("output", (W, W, W)), ("remap", (W, W)))]
    e.facts += [z3.UGE(N, bv(1)), z3.ULE(N, bv(1 << 40)), z3.ULT(q, N)]
    # the letter classes: representatives in order; c is one of them, at mark
    ln_, lmark, key = z3.BitVec("size_letters", WIDTH), z3.BitVec("mark_letters", 64), z3.Function("representative", W, BV(16))
    zx = lambda x: z3.ZeroExt(64 - WIDTH, x)
    e.facts += [z3.ULT(lmark, zx(ln_)), key(lmark) == c]
    letters = Tree(e, st, "letters", {32: key}, lambda i: e.fact(z3.Implies(z3.ULT(i, zx(ln_)), (key(i) == c) == (i == lmark))), n=ln_)
    # the successors of a state: at most one, the automaton is deterministic
    has, to = z3.Function("hasNext", W, BV(16), B), z3.Function("next", W, BV(16), W)
    cur = e.new_region(st, "current destinations", 16)
    st.mem[cur] = Cells({0: (8, V(bv(0))), 8: (2, V(bv(0, 16)))})
    now = lambda st: (get(e, st, cur, 0), get(e, st, cur, 8, 16))
    dset = e.new_region(st, "destinations", 48)
    tos = Tree(e, st, "tos", {}, None, n=z3.BitVec("unused", WIDTH))
    size = lambda s, l: z3.If(has(s, l), bv(STRIDE), bv(0))

    def tload(e, st, p, ty):
        i, off = tos.index(p)
        s, l = now(st)
        e.oblige(st, "an element of the destinations", z3.And(has(s, l), i == 0), "memory", soft=True)
        if off != 32: raise Unmodelled("a node of the destinations")
        return V(to(s, l))
    tos.load = tload

    def find(st, p):
        if p.prov is dset:
            x = type("T", (), {})()
            x.begin, x.end = tos.begin, V(simp(tos.r.base + size(*now(st))), tos.r)
            return x
        raise Unmodelled("another container")
    Trees(e, find)
    # the dead states, if asked for
    known, node = {}, e.new_region(st, "node", 64)

    def mark(st, p, v):
        if p.prov not in known: known[p.prov] = e.new_region(st, "is the set of dead states", 8)
        st.mem[known[p.prov]] = Cells({0: (8, V(v))})

    def findset(e, st, a, i):
        if a[0].prov not in known: raise Unmodelled("another set")
        m = z3.And(get(e, st, known[a[0].prov], 0) == 1, Dead(e.load(st, a[1], ir.I(64)).e))
        return V(simp(z3.If(m, node.base, node.base + bv(32))), node)
    tag, jump, act, fin = [e.new_region(st, n, 8) for n in ("tag of q", "jump of (q, c)", "action of (q, c)", "finished")]
    tag0, jump0, act0 = z3.BitVecs("tag0 jump0 action0", 64)
    for x, v in ((tag, tag0), (jump, jump0), (act, act0), (fin, bv(0))): st.mem[x] = Cells({0: (8, V(v))})
    wide = lambda x: z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x

    def settag(e, st, a, i):
        e.oblige(st, "SetTag of an existing state", z3.ULT(a[1].e, N), "pre")
        e.store(st, ptr(tag), V(simp(z3.If(a[1].e == q, wide(a[2].e), get(e, st, tag, 0)))), ir.I(64))

    def setjump(e, st, a, i):
        hit = z3.And(a[1].e == q, a[2].e == c)
        e.oblige(st, "SetJump of an existing state", z3.ULT(a[1].e, N), "pre")
        e.store(st, ptr(jump), V(simp(z3.If(hit, a[3].e, get(e, st, jump, 0)))), ir.I(64))
        e.store(st, ptr(act), V(simp(z3.If(hit, wide(a[4].e), get(e, st, act, 0)))), ir.I(64))

    def finish(e, st, a, i): e.store(st, ptr(fin), V(bv(1)), ir.I(64))

    def dest(e, st, a, i):
        e.oblige(st, "Destinations of an existing state", z3.ULT(a[1].e, N), "pre")
        e.store(st, ptr(cur), a[1], ir.I(64))
        e.store(st, V(simp(cur.base + bv(8)), cur), a[2], ir.I(16))
        e.fact(z3.Implies(has(a[1].e, a[2].e), z3.ULT(to(a[1].e, a[2].e), N)))
        return ptr(dset)
    own = lambda n: lambda d: ("Scanner" in d.split("(")[0]) and ("::" + n + "(") in d and not d.startswith("void Pire::BuildScanner")
    e.contracts += [Contract(fs("Size() const"), lambda e, st, a, i: V(N), "Fsm::Size"), Contract(fs("Tag(unsigned long) const"), lambda e, st, a, i: V(Tag(a[1].e)), "Fsm::Tag"),
                    Contract(fs("IsFinal(unsigned long) const"), lambda e, st, a, i: V(Fin(a[1].e)), "Fsm::IsFinal [C07]"), Contract(fs("Output(unsigned long, unsigned long) const"), lambda e, st, a, i: V(Out(a[1].e, a[2].e)), "Fsm::Output"),
                    Contract(fs("DeadStates() const"), lambda e, st, a, i: mark(st, a[0], bv(1)), "Fsm::DeadStates"), Contract(fs("Letters() const"), lambda e, st, a, i: ptr(f), "Fsm::Letters"),
                    Contract(fs("Destinations(unsigned long, unsigned short) const"), dest, "Fsm::Destinations [C07]"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and d.endswith(("::Begin() const", "::begin() const")), lambda e, st, a, i: letters.begin, "Partition::Begin"),
                    Contract(lambda d: d.startswith("Pire::Partition<") and d.endswith(("::End() const", "::end() const")), lambda e, st, a, i: letters.end, "Partition::End"),
                    Contract(lambda d: d.startswith("Pire::TSet<unsigned long") and "::TSet()" in d, lambda e, st, a, i: mark(st, a[0], bv(0)), "an empty set"),
                    Contract(lambda d: d.startswith("Pire::TSet<unsigned long") and "::operator=(" in d, lambda e, st, a, i: (mark(st, a[0], get(e, st, known[a[1].prov], 0)), a[0])[1], "set assignment"),
                    Contract(lambda d: d.startswith(("std::set<unsigned long", "Pire::TSet<unsigned long")) and "::~" in d, lambda e, st, a, i: None, "~set"),
                    Contract(lambda d: d.startswith("std::set<unsigned long") and "::find(unsigned long const&)" in d, findset, "set::find"),
                    Contract(lambda d: d.startswith("std::set<unsigned long") and "::end() const" in d, lambda e, st, a, i: V(simp(node.base + bv(32)), node), "set::end"),
                    Contract(own("SetTag"), settag, "SetTag [C04]"), Contract(own("SetJump"), setjump, "SetJump [C04]"), Contract(own("FinishBuild"), finish, "FinishBuild [C04]"),
                    Contract(own("RemapAction"), lambda e, st, a, i: V(REMAP(a[1].e, i)), "RemapAction")]
    # find must see the set contract before the trees'
    e.contracts.insert(0, Contract(lambda d: d.startswith("std::set<unsigned long") and "::end() const" in d, lambda e, st, a, i: V(simp(node.base + bv(32)), node) if a[0].prov in known else find(st, a[0]).end, "set::end"))
    remapper = next((g for g in e.m.funcs.values() if "Scanner" in g.dem and "::RemapAction(" in g.dem), None)

    def REMAP(x, inst=None):
        """RemapAction of the action, in its parameter's and its result's width"""
        pn, rn = (remapper.params[-1][0].n, remapper.ret.n) if remapper else (64, 64)
        x = wide(z3.Extract(pn - 1, 0, x)) if pn < x.size() else wide(x)
        return simp(z3.Extract(rn - 1, 0, Remap(x))) if rn < 64 else simp(Remap(x))
    want_tag = Tag(q) | z3.If(Fin(q), bv(FF), bv(0)) | (z3.If(Dead(q), bv(DF), bv(0)) if DF else bv(0))
    tn = 8 * gconst(e.m, "vc_tag_size")  # the scanner's Tag type
    if tn < 64: want_tag = z3.ZeroExt(64 - tn, z3.Extract(tn - 1, 0, want_tag))
    f_ = next((g for g in e.m.funcs.values() if own("SetJump")(g.dem)), None)
    an = f_.params[-1][0].n if f_ else 64
    remapped = wide(REMAP(Out(q, to(q, c))))
    want_act = remapped if an == 64 else z3.ZeroExt(64 - an, z3.Extract(an - 1, 0, remapped))
    wj, wa = z3.If(has(q, c), to(q, c), jump0), z3.If(has(q, c), want_act, act0)

    def templates(eng_, ctx):
        gv = lambda r: ((lambda ev, v=next(v for v in ctx.vars if v[0] == "cell" and v[1][0] is r): ev(v).e) if any(v[0] == "cell" and v[1][0] is r for v in ctx.vars) else (lambda ev: get(eng_, ctx.hst, r, 0)))
        T, J, A = gv(tag), gv(jump), gv(act)
        out = []
        sv = states(ctx, eng_)
        out.append(("the tag is made", lambda ev: T(ev) == want_tag))
        for nm, x, v in sv:
            if v[0] == "cell" and v[1][0] in (tag, jump, act, fin, cur): continue
            out.append((nm + " <= states", lambda ev, x=x: z3.ULE(x(ev), N)))
            out.append(("tags below " + nm, lambda ev, x=x: T(ev) == z3.If(z3.ULT(q, x(ev)), want_tag, tag0)))
            out.append(("jumps below " + nm, lambda ev, x=x: z3.And(J(ev) == z3.If(z3.ULT(q, x(ev)), wj, jump0), A(ev) == z3.If(z3.ULT(q, x(ev)), wa, act0))))
        # the outer counters, for the inner loops: any 64-bit value of the entry
        outer = [x for x in ctx.hst.env.items() if isinstance(x[1], V) and isinstance(x[1].e, z3.BitVecRef) and x[1].e.size() == 64 and x[1].prov is None and x[1].e.decl().arity() == 0 and not z3.is_bv_value(x[1].e)]
        for nm, x, v in states(ctx, eng_, 64, letters.r):
            out.append((nm + " in letters", lambda ev, x=x: letters.place(x(ev))))
            for on, o in outer:
                done = lambda ev, x=x, o=o: z3.Or(z3.ULT(q, o.e), z3.And(q == o.e, letters.seen(x(ev), lmark)))
                out.append(("jumps of %s before %s" % (on, nm), lambda ev, done=done: z3.And(J(ev) == z3.If(done(ev), wj, jump0), A(ev) == z3.If(done(ev), wa, act0))))
        lptr = [x for x in ctx.hst.env.items() if isinstance(x[1], V) and x[1].prov is letters.r and isinstance(x[1].e, z3.BitVecRef)]
        lptr = [x[1].e for x in lptr] + [v_.e for r_, cc in ctx.hst.mem.items() if isinstance(cc, Cells) for o_, (n_, v_) in cc.d.items() if isinstance(v_, V) and v_.prov is letters.r and isinstance(v_.e, z3.BitVecRef)]
        for nm, x, v in states(ctx, eng_, 64, tos.r):
            out.append((nm + " in the destinations", lambda ev, x=x: z3.And((x(ev) - tos.r.base) & bv(127) == 0, z3.ULE(x(ev) - tos.r.base, size(*now(ctx.hst))))))
            for on, o in outer:
                for k, lp in enumerate(lptr):
                    li = letters.index(V(lp, letters.r))[0]
                    done = lambda ev, x=x, o=o, li=li: z3.Or(z3.ULT(q, o.e), z3.And(q == o.e, z3.Or(z3.ULT(lmark, li), z3.And(lmark == li, x(ev) != tos.r.base))))
                    out.append(("jumps of %s, letter %d before %s" % (on, k, nm), lambda ev, done=done: z3.And(J(ev) == z3.If(done(ev), wj, jump0), A(ev) == z3.If(done(ev), wa, act0))))
        return out
    e.templates.append(templates)
    rv, o = run1(e, st, "vc_build", [ptr(f), ptr(r)])
    e.oblige(o, "the state's tag: the automaton's, the final flag, the dead flag", get(e, o, tag, 0) == want_tag, "post")
    e.oblige(o, "the transition of the automaton", get(e, o, jump, 0) == wj, "post")
    e.oblige(o, "its action", get(e, o, act, 0) == wa, "post")
    e.oblige(o, "FinishBuild", get(e, o, fin, 0) == 1, "post")
    cover(e, o)
    return e


def main():
    M()
    for v in SCS: MB(v)
    items = [Item("BuildScanner", build, [(v,) for v in SCS], ["BuildScanner"]),
             Item("Glued flags", C11.accept, [("reloc", "index")], ["ScannerGlueTask::AcceptStates"], weight=5)]
    return run_check("C20", items, Harness("C20.cpp", 20, desc="dead states of random automata, compiled and glued, against reachability"), 
                     assumptions=["Fsm::DeadStates (the graph search itself) is checked by the bounded stand-in against reachability, not proved", "the automaton is deterministic: at most one successor per state and letter (C08)",
                                  "std::set/std::map iterate over their elements, each once", "SetTag/SetJump/FinishBuild as proved in C04; Fsm's accessors as in C07"],
                     notes="Watched at one arbitrary state q and letter class c. The flags of a glued scanner's joint states are proved from the parts' flags.")
