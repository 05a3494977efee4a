"""Contracts of the run.h functions, stated over the ghost functions of the text (lib.Text), and the items that prove
them function by function. kind: 'run' (RunPred), 'longest' (LongestPrefixPred), 'shortest' (ShortestPrefixPred).

range contract of SafeRunChunk, RunChunk, RunAligned over the positions a..b of the text:
  requires  state = D(a); longest: *pos = LF(a); shortest: *pos = 0 and no final state up to a
  ensures   run:      returns Continue, state = D(b)
            longest:  Continue and state = D(b), *pos = LF(b); or Stop, *pos = LF(end), state and D(end) dead
            shortest: Continue and state = D(b), *pos = 0, no final state up to b; or Stop, *pos = FF(end), and if
                      that is 0 then state and D(end) are dead"""
from lib import *

CONT, STOP = bv(0, 32), bv(1, 32)
PREFIX = {"run": False, "longest": "last", "shortest": "first"}


def any_text(e, st, scs, kind="run", noexit=None, words=False, exact=False):
    """begin and end arbitrary (words: word-aligned); the readable region is the words that the text touches"""
    b, n = z3.BitVec("begin", 64), z3.BitVec("n", 64)
    e.facts += [z3.UGE(b, bv(4096)), z3.ULE(b, bv(1 << 46)), z3.ULE(n, bv(1 << 46))]
    if words:
        Align.set(b, 3); Align.set(n, 3)
        e.facts += [b & bv(7) == 0, n & bv(7) == 0]
    t = Text.__new__(Text)
    lo = b if words or exact else b & bv(~7 & (1 << 64) - 1)
    hi = b + n if words or exact else (b + n + bv(7)) & bv(~7 & (1 << 64) - 1)
    t.setup(e, st, b, simp(b + n), simp(lo), simp(hi - lo), scs, prefix=PREFIX[kind], noexit=noexit)
    return t


class Range:
    def __init__(self, t, scs, kind):
        self.t, self.scs, self.kind = t, scs, kind

    def state(self, e, st, s):
        return [e.load(st, V(simp(s.e + bv(8 * k)), s.prov), ir.I(64)).e for k in range(len(self.scs))]

    def set_state(self, e, st, s, vals):
        for k, v in enumerate(vals): e.store(st, V(simp(s.e + bv(8 * k)), s.prov), V(v), ir.I(64))

    def call(self, e, st, s, pos, a, b, inst, what):
        """effect of a function that runs the positions a..b"""
        t = self.t
        a, b = simp(a), simp(b)
        e.oblige(st, what + ": range within the text", z3.And(z3.ULE(t.begin, a), z3.ULE(a, b), z3.ULE(b, t.end)), "pre")
        for k, v in enumerate(self.state(e, st, s)):
            e.oblige(st, what + ": starts in the state of its position", v == t.D[k](a), "pre")
        if self.kind == "run":
            if t.noexit is not None: t.point(e, a); t.point(e, b)
            self.set_state(e, st, s, [D(b) for D in t.D])
            return V(CONT)
        sc, D = self.scs[0], t.D[0]
        p0 = e.load(st, pos, ir.PTR).e
        t.point(e, a); t.point(e, b)
        if self.kind == "longest":
            e.oblige(st, what + ": position found so far is the last final one", p0 == t.LF(a), "pre")
        else:
            e.oblige(st, what + ": nothing found so far", z3.And(p0 == bv(0), t.FF(a) == 0), "pre")
        cont = e.fresh("continue", 1)
        s1 = e.fresh("state", 64)
        dead = z3.And(sc.Dd(s1), sc.Dd(D(t.end)))
        if self.kind == "longest":
            e.fact(z3.Implies(st.g, z3.If(cont, s1 == D(b), dead)))
            p1 = z3.If(cont, t.LF(b), t.LF(t.end))
        else:
            e.fact(z3.Implies(st.g, z3.If(cont, z3.And(s1 == D(b), t.FF(b) == 0), z3.Implies(t.FF(t.end) == 0, dead))))
            p1 = z3.If(cont, bv(0), t.FF(t.end))
        e.store(st, s, V(s1), ir.I(64))
        e.store(st, pos, V(p1, pos_prov(self)), ir.PTR)
        return V(z3.If(cont, CONT, STOP))

    def check(self, e, out, rv, s, pos, b, what):
        """the postcondition of the same contract"""
        t = self.t
        st = self.state(e, out, s)
        if self.kind == "run":
            e.oblige(out, what + " runs to the end of its range", rv.e == CONT, "post")
            for k, v in enumerate(st): e.oblige(out, what + " leaves the state of stepping byte by byte", v == t.D[k](b), "post")
            return
        sc, D = self.scs[0], t.D[0]
        q = e.load(out, pos, ir.PTR).e
        cont = rv.e == CONT
        dead = z3.And(sc.Dd(st[0]), sc.Dd(D(t.end)))
        e.oblige(out, what + " returns Continue or Stop", z3.Or(cont, rv.e == STOP), "post")
        e.oblige(out, what + " leaves the state of stepping byte by byte when it continues", z3.Implies(cont, st[0] == D(b)), "post")
        if self.kind == "longest":
            e.oblige(out, what + " finds the last final position", q == z3.If(cont, t.LF(b), t.LF(t.end)), "post")
            e.oblige(out, what + " stops only when the state is dead", z3.Or(cont, dead), "post")
        else:
            e.oblige(out, what + " finds the first final position", q == z3.If(cont, bv(0), t.FF(t.end)), "post")
            e.oblige(out, what + " continues only when nothing was found", z3.Implies(cont, t.FF(b) == 0), "post")
            e.oblige(out, what + " stops only in a final or dead state", z3.Or(cont, t.FF(t.end) != 0, dead), "post")

    def enter(self, e, st, a):
        """state and pos cells at the entry of a function that starts at position a"""
        t = self.t
        a = simp(a)
        r = e.new_region(st, "state", 8 * len(self.scs))
        d = {}
        for k in range(len(self.scs)): d[8 * k] = (8, V(t.D[k](a)))
        st.mem[r] = Cells(d)
        if self.kind == "run": return ptr(r), None
        t.point(e, a)
        if self.kind == "shortest": e.fact(t.FF(a) == 0)
        p = cell64(e, st, "pos", t.LF(a) if self.kind == "longest" else bv(0))
        return ptr(r), ptr(p)


def pos_prov(r): return None


SIG = "unsigned long const*, unsigned long, unsigned long"


def pred(kind): return {"run": "RunPred<", "longest": "LongestPrefixPred<", "shortest": "ShortestPrefixPred<"}[kind]


def is_fn(name, kind, sig):
    """demangled name of Impl::<name><..., Pred> with the parameter list we know"""
    def m(d):
        i = d.find("::" + name)
        if i < 0: return False
        j = d.rfind("(")
        depth, j = 0, len(d) - 1
        while j >= 0:          # the last balanced parameter list
            if d[j] == ")": depth += 1
            elif d[j] == "(":
                depth -= 1
                if depth == 0: break
            j -= 1
        head, params = d[:j], d[j:]
        if not (head[i + 2 + len(name):i + 3 + len(name)] in ("<", "") and ("::" + name) in head): return False
        if head[i + 2:].startswith(name + "<"):
            # nothing after the template arguments
            k, dep = i + 2 + len(name), 0
            for k in range(k, len(head)):
                if head[k] == "<": dep += 1
                elif head[k] == ">":
                    dep -= 1
                    if dep == 0: break
            if head[k + 1:].strip() not in ("", "const"): return False
        return pred(kind) in params and sig in params
    return m


def chunk_contracts(rg, which=("SafeRunChunk", "RunChunk", "RunAligned")):
    out = []
    for nm in ("SafeRunChunk", "RunChunk"):
        if nm not in which: continue
        def ap(e, st, a, inst, nm=nm):
            p, pos, size = a[2].e, a[3].e, a[4].e
            if nm == "RunChunk":
                e.oblige(st, "RunChunk reads an aligned word of the text", z3.Or(size == bv(0), z3.And(p & bv(7) == 0, z3.ULE(rg.t.r.base, p), z3.ULE(bv(8), rg.t.r.size), z3.ULE(p, rg.t.r.base + rg.t.r.size - bv(8)))), "pre")
            e.oblige(st, nm + ": at most one word", z3.And(z3.ULE(pos, bv(8)), z3.ULE(size, bv(8)), z3.ULE(pos + size, bv(8))), "pre")
            return rg.call(e, st, a[1], a[5] if len(a) > 5 else None, p + pos, p + pos + size, inst, nm)
        out.append(Contract(is_fn(nm, rg.kind, SIG), ap, nm))
    if "RunAligned" in which:
        def al(e, st, a, inst):
            e.oblige(st, "RunAligned: range of whole words", z3.And(a[2].e & bv(7) == 0, a[3].e & bv(7) == 0), "pre")
            return rg.call(e, st, a[1], a[4] if len(a) > 4 else None, a[2].e, a[3].e, inst, "RunAligned")
        out.append(Contract(is_fn("RunAligned", rg.kind, "unsigned long const*, unsigned long const*"), al, "RunAligned"))
    return out


def scanner_region(e, st, r0="scanner", size=256): return e.new_region(st, r0, size, readonly=True)


def item_fn(mod, scs, kind, fn, sel=lambda d: True, contracts=(), noexit=None, prep=None, opaque=True):
    """Item body: proves the contract of fn ('SafeRunChunk', 'RunChunk', 'RunAligned') for the scanner(s) scs.
    sel: picks the instantiation by demangled name; mod: callable giving the module."""
    def run(case):
        e = Engine(mod(), [c for s in scs for c in s.contracts()] + list(contracts)); e.UNROLL_SYM = 2; e.opaque_cells = opaque
        st = start()
        aligned = fn == "RunAligned"
        t = any_text(e, st, scs, kind, noexit=noexit, words=aligned, exact=fn == "SafeRunChunk")
        rg = Range(t, scs, kind)
        t.rg = rg
        if prep: prep(e, st, t, rg)
        r = getattr(t, "scanner", None) or scanner_region(e, st)
        if aligned:
            f = e.find(lambda d: is_fn("RunAligned", kind, "unsigned long const*, unsigned long const*")(d) and sel(d))
            if f is None: return None
            e.contracts += chunk_contracts(rg, ("RunChunk",))
            t.rg = rg
            s, pos = rg.enter(e, st, t.begin)
            b = t.end
            args = [ptr(r), s, V(t.begin, t.r), V(t.end, t.r)]
        else:
            f = e.find(lambda d: is_fn(fn, kind, SIG)(d) and sel(d))
            if f is None: return None
            p = z3.BitVec("p", 64); Align.set(p, 3)
            e.fact(p & bv(7) == 0)
            if fn == "RunChunk": ps, size = bv(case[0]), bv(8 - case[0])
            else:
                ps, size = z3.BitVecs("pos size", 64)
                e.facts += [z3.ULE(ps, bv(8)), z3.ULE(size, bv(8)), z3.ULE(ps + size, bv(8))]
            a, b = simp(p + ps), simp(p + ps + size)
            e.facts += [z3.ULE(t.begin, a), z3.ULE(a, b), z3.ULE(b, t.end), z3.ULE(bv(4096), p), z3.ULE(p, bv(1 << 47))]
            s, pos = rg.enter(e, st, a)
            args = [ptr(r), s, V(p, t.r), V(ps), V(size)]
        if pos is not None: args.append(pos)
        e.stack.append(f)
        e.stack.pop()
        rv, out, th = e.call_function(f, args, st, top=True)
        e.stack.append(f)
        no_throw(e, th, fn)
        rg.check(e, out, rv, s, pos, b, fn)
        cover(e, out)
        return e
    return run


def item_dorun(mod, scs, kind, sel=lambda d: True, contracts=()):
    """DoRun(scanner, st, begin, end, pred) from the contracts of the three functions it calls."""
    def run(case):
        e = Engine(mod(), [c for s in scs for c in s.contracts()] + list(contracts)); e.opaque_cells = True
        st = start()
        t = any_text(e, st, scs, kind)
        rg = Range(t, scs, kind)
        e.contracts += chunk_contracts(rg)
        r = scanner_region(e, st)
        f = e.find(lambda d: is_fn("DoRun", kind, "char const*, char const*")(d) and sel(d))
        if f is None: return None
        s, pos = rg.enter(e, st, t.begin)
        args = [ptr(r), s, V(t.begin, t.r), V(t.end, t.r)] + ([pos] if pos is not None else [])
        rv, out, th = e.call_function(f, args, st, top=True)
        e.stack.append(f)
        no_throw(e, th, "DoRun")
        vals = rg.state(e, out, s)
        if kind == "run":
            for k, v in enumerate(vals): e.oblige(out, "state after DoRun is the state after stepping byte by byte", v == t.D[k](t.end), "post")
        else:
            sc, D, q = scs[0], t.D[0], e.load(out, pos, ir.PTR).e
            g = t.LF if kind == "longest" else t.FF
            dead = z3.And(sc.Dd(vals[0]), sc.Dd(D(t.end)))
            e.oblige(out, "DoRun finds the %s final position" % ("last" if kind == "longest" else "first"), q == g(t.end), "post")
            e.oblige(out, "state after DoRun is that of the end of the text, or both are dead",
                     z3.Or(vals[0] == D(t.end), dead, *([q != bv(0)] if kind == "shortest" else [])), "post")
        cover(e, out)
        return e
    return run


def dorun_contract(rg):
    def ap(e, st, a, inst):
        t = rg.t
        pos = a[4] if len(a) > 4 else None
        e.oblige(st, "DoRun runs the whole text", z3.And(a[2].e == t.begin, a[3].e == t.end), "pre")
        for k, v in enumerate(rg.state(e, st, a[1])): e.oblige(st, "DoRun starts in the state of the beginning", v == t.D[k](t.begin), "pre")
        if rg.kind == "run":
            rg.set_state(e, st, a[1], [D(t.end) for D in t.D]); return None
        sc, D = rg.scs[0], t.D[0]
        p0 = e.load(st, pos, ir.PTR).e
        if rg.kind == "longest": e.oblige(st, "DoRun: position found so far", p0 == t.LF(t.begin), "pre")
        else: e.oblige(st, "DoRun: nothing found so far", z3.And(p0 == bv(0), t.FF(t.begin) == 0), "pre")
        s1 = e.fresh("state", 64)
        dead = z3.And(sc.Dd(s1), sc.Dd(D(t.end)))
        g = t.LF if rg.kind == "longest" else t.FF
        e.fact(z3.Implies(st.g, z3.Or(s1 == D(t.end), dead, *([g(t.end) != bv(0)] if rg.kind == "shortest" else []))))
        e.store(st, a[1], V(s1), ir.I(64))
        e.store(st, pos, V(g(t.end)), ir.PTR)
    return Contract(is_fn("DoRun", rg.kind, "char const*, char const*"), ap, "DoRun")
