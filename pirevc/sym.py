"""Verification-condition generator: guarded symbolic execution of LLVM IR functions with contracts,
inductive loop cutting (Houdini inference from templates) and complete unrolling of bounded loops."""
import itertools, os, re, sys, time
import z3
import ir

sys.setrecursionlimit(100000)
BV = z3.BitVecSort
BYTES = z3.ArraySort(BV(64), BV(8))
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unmodelled(Exception):
    """The verifier cannot express something: the function is undecided, never a violation."""


class Infeasible(Exception):
    pass


def bv(x, n=64):
    return z3.BitVecVal(x, n)


def simp(e):
    return z3.simplify(e)


def conc(e):
    """Concrete integer value of a bit-vector, or None."""
    if z3.is_bv_value(e): return e.as_long()
    s = simp(e)
    return s.as_long() if z3.is_bv_value(s) else None


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def And(*a):
    out = []
    for x in a:
        if z3.is_true(x): continue
        if z3.is_false(x): return FALSE
        out.append(x)
    if not out: return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        if z3.is_false(x): continue
        if z3.is_true(x): return TRUE
        out.append(x)
    if not out: return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def factor_or(g1, g2):
    """(common, r1, r2, union) with g1 = common & r1, g2 = common & r2 and union = g1 | g2, without repeating common."""
    l1, l2 = flat_and(simp(g1), []), flat_and(simp(g2), [])
    i1, i2 = {x.get_id() for x in l1}, {x.get_id() for x in l2}
    com = [x for x in l1 if x.get_id() in i2]
    r1 = [x for x in l1 if x.get_id() not in i2]
    r2 = [x for x in l2 if x.get_id() not in i1]
    a, b = simp(And(*r1)), simp(And(*r2))
    if not r1 or not r2: u = TRUE
    elif simp(Not(a)).eq(b) or simp(Not(b)).eq(a): u = TRUE
    else: u = Or(a, b)
    return com, a, b, And(*com, *([u] if not z3.is_true(u) else []))


def Not(a):
    if z3.is_true(a): return FALSE
    if z3.is_false(a): return TRUE
    return z3.Not(a)


class Align:
    """Known alignments of atoms (ast id -> (atom, log2)); used to simplify masks of sums."""
    atoms = {}

    @classmethod
    def set(cls, e, lg): cls.atoms[e.get_id()] = (e, lg)

    @classmethod
    def of(cls, e):
        """largest known k with 2^k dividing e"""
        if z3.is_bv_value(e):
            v = e.as_long()
            return 64 if v == 0 else (v & -v).bit_length() - 1
        a = cls.atoms.get(e.get_id())
        if a is not None and a[0].eq(e): return a[1]
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD: return min(cls.of(c) for c in e.children())
        if k == z3.Z3_OP_BMUL: return min(64, sum(cls.of(c) for c in e.children()))
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)): return min(64, cls.of(e.arg(0)) + e.arg(1).as_long())
        if k == z3.Z3_OP_BNEG: return cls.of(e.arg(0))
        if k == z3.Z3_OP_BSUB: return min(cls.of(c) for c in e.children())
        if k == z3.Z3_OP_CONCAT:
            l = e.children()[-1]
            x = cls.of(l)
            if x >= l.size() and e.num_args() == 2: return min(64, l.size() + cls.of(e.arg(0)))
            return min(x, l.size())
        if k == z3.Z3_OP_ZERO_EXT or k == z3.Z3_OP_SIGN_EXT: return cls.of(e.arg(0))
        if k == z3.Z3_OP_ITE: return min(cls.of(e.arg(1)), cls.of(e.arg(2)))
        return 0

    @classmethod
    def mask(cls, e, m):
        """e & m for a constant m, using alignment; None if nothing is known."""
        w = e.size()
        full = (1 << w) - 1
        m &= full
        e = simp(e)
        if e.decl().kind() == z3.Z3_OP_BADD:
            cs = [c for c in e.children() if z3.is_bv_value(c)]
            rest = [c for c in e.children() if not z3.is_bv_value(c)]
            c = sum(x.as_long() for x in cs) & full
        else: c, rest = 0, [e]
        if any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in rest) and len(rest) == 1 and c == 0:
            x = rest[0]
            a, b = cls.mask(x.arg(1), m), cls.mask(x.arg(2), m)
            if a is not None and b is not None: return z3.If(x.arg(0), a, b)
            return None
        k = min([cls.of(x) for x in rest] + [64])
        if k == 0: return None
        low = (1 << k) - 1 if k < 64 else full
        if m & ~low & full == 0:          # mask selects only low bits
            return bv(c & m, w)
        if (m | low) & full == full:      # all high bits kept
            hi = c & ~low & full
            r = bv(hi + (c & low & m), w)
            for x in rest: r = r + x
            return r
        return None


class V:
    """A value: z3 expression (Bool for i1, BitVec otherwise), or a list of V for aggregates;
    prov is the region a pointer (or an integer computed from one) belongs to."""
    __slots__ = ("e", "prov")

    def __init__(self, e, prov=None):
        self.e, self.prov = e, prov

    def __repr__(self):
        return "V(%s%s)" % (self.e, "" if self.prov is None else "@" + str(self.prov))


_pure = {}
_IMPURE = None


def pure_bv(e):
    """Only bit-vector and Boolean operations over constants (no arrays, no uninterpreted functions)."""
    r = _pure.get(e.get_id())
    if r is not None: return r[1]
    work = [e]
    while work:
        x = work[-1]
        k = x.get_id()
        if k in _pure: work.pop(); continue
        if not z3.is_app(x) or not (z3.is_bool(x) or z3.is_bv(x)):
            _pure[k] = (x, False); work.pop(); continue
        n = x.num_args()
        if n == 0: _pure[k] = (x, True); work.pop(); continue
        dk = x.decl().kind()
        if dk in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
            _pure[k] = (x, False); work.pop(); continue
        ch = x.children()
        todo, ok = [], True
        for c in ch:
            r = _pure.get(c.get_id())
            if r is None: todo.append(c)
            elif not r[1]: ok = False; break
        if not ok: _pure[k] = (x, False); work.pop(); continue
        if todo: work.extend(todo); continue
        _pure[k] = (x, True); work.pop()
    return _pure[e.get_id()][1]


def flat_and(e, out):
    if z3.is_and(e):
        for c in e.children(): flat_and(c, out)
    elif z3.is_not(e) and z3.is_or(e.arg(0)):
        for c in e.arg(0).children(): flat_and(simp(z3.Not(c)), out)
    else: out.append(e)
    return out


_weak = {}


def weaken_pure(e, pos=True):
    """A pure bit-vector formula implied by e (dropping what is not pure)."""
    if pure_bv(e): return e
    k = e.get_id()
    r = _weak.get(k)
    if r is not None: return r[1]
    if z3.is_and(e): w = And(*[weaken_pure(c) for c in e.children()])
    elif z3.is_or(e): w = Or(*[weaken_pure(c) for c in e.children()])
    else: w = TRUE
    _weak[k] = (e, w)
    return w


class Region:
    """A memory object. kind 'cells': fixed size, accessed at constant offsets (lowered to bytes otherwise);
    'bytes': array of bytes indexed by absolute address."""
    count = itertools.count()

    def __init__(self, name, base=None, size=None, kind="cells", readonly=False, ro_from=None):
        self.id = next(Region.count)
        self.name = name
        self.base = base if base is not None else z3.BitVec("base!%s!%d" % (name, self.id), 64)
        self.size = size if not isinstance(size, int) else bv(size)
        self.kind = kind
        self.readonly = readonly
        self.on_load = None      # hook(engine, state, addr, nbytes)
        self.freed = False
        self.obj = None          # opaque payload for models of library objects
        self.fields = {}         # const offset -> Region, for pointer loads whose provenance is declared

    def __repr__(self):
        return "<%s>" % self.name


class Cells:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}


class UF:
    """Read-only contents given by an uninterpreted function of the address."""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Raw:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


def weak(g):
    w = [x for x in (weaken_pure(y) for y in flat_and(simp(g), [])) if not z3.is_true(x)]
    return And(*w)


_consts = {}


def consts_of(e):
    """ids of the uninterpreted constants in e (memoised per node)"""
    work = [e]
    while work:
        x = work[-1]
        k = x.get_id()
        if k in _consts: work.pop(); continue
        if z3.is_quantifier(x): ch = [x.body()]
        else: ch = x.children()
        if not ch:
            _consts[k] = (x, frozenset((k,)) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset())
            work.pop(); continue
        todo = [c for c in ch if c.get_id() not in _consts]
        if todo: work.extend(todo); continue
        out = _consts[ch[0].get_id()][1]
        for c in ch[1:]:
            o = _consts[c.get_id()][1]
            if not o <= out: out = out | o
        _consts[k] = (x, out)
        work.pop()
    return _consts[e.get_id()][1]


class State:
    __slots__ = ("g", "mem", "env", "ghost")

    def __init__(self, g, mem, env, ghost=None):
        self.g, self.mem, self.env = g, mem, env
        self.ghost = ghost if ghost is not None else {}

    def copy(self, g=None):
        return State(self.g if g is None else g, dict(self.mem), dict(self.env), dict(self.ghost))


class Obl:
    def __init__(self, name, kind, claim, nfacts, fn, where, soft=False):
        self.name, self.kind, self.claim, self.nfacts, self.fn, self.where = name, kind, claim, nfacts, fn, where
        self.soft = soft     # failing means undecided (it rests on an inferred invariant)
        self.status = None
        self.model = None
        self.t = 0.0
        self.backend = None


class Contract:
    """match(dem) -> bool; apply(engine, state, args, inst) -> V | None (may modify state in place)."""

    def __init__(self, match, apply, name=None, trusted=False):
        self.match = match if callable(match) else (lambda d, s=match: d == s)
        self.apply, self.name, self.trusted = apply, name, trusted
        self.used = 0


def linear(x):
    """x as a sum of (constant, atom) pairs; atom None for the constant term"""
    n = x.size()
    if conc(x) is not None: return [(conc(x) % (1 << n), None)]
    if x.decl().kind() == z3.Z3_OP_BADD:
        return [t for c in x.children() for t in linear(c)]
    if x.decl().kind() == z3.Z3_OP_BMUL and x.num_args() == 2 and conc(x.arg(0)) is not None:
        return [(conc(x.arg(0)) * c % (1 << n), a) for c, a in linear(x.arg(1))]
    return [(1, x)]


class Engine:
    UNROLL = 12

    def __init__(self, mod, contracts=(), timeout_ms=20000, log=None):
        self.m = mod
        self.contracts = list(contracts)
        self.facts = []
        self.obls = []
        self.opaque_cells = False
        self.use_iter = True     # write induction variables in terms of the iteration number
        self.timeout = timeout_ms
        self.fresh_i = itertools.count()
        self.templates = []            # callables(engine, LoopCtx) -> [(name, fn(ev))]
        self.regions = []              # for resolving addresses without provenance
        self.globals = {}
        self.stack = []
        self.log = log
        self.inlined = set()
        self.assumed = set()           # trusted contracts used
        self.loops = []                # report: (function, header, 'unrolled n' | 'invariant', invariants)
        self.collect = True            # False while inferring
        self.solver_time = 0.0
        self.nqueries = 0
        self.cut_hint = None
        self.fault = set()
        self.writes = None
        self.loop_results = {}
        self.nhavoc = 0
        self.timeouts = set()       # candidate invariants given up for lack of time: what fails after that is undecided
        self.deadline = None
        self.merge_prov_fail = 0
        self.decl_types = {}
        self.on_store = None
        self.canon = {}
        self.decided, self.loop_facts = {}, []
        self.no_null_base = True
        self.products = {}
        self.generic = True      # generic candidate invariants too
        self.alts = {}           # pointers into one of two regions: ast id -> (ast, guard, then, else)

    # ------------------------------------------------------------ utilities
    def fresh(self, name, w=64):
        nm = "%s!%d" % (name, next(self.fresh_i))
        return z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)

    def fact(self, f):
        f = simp(f)
        if not z3.is_true(f):
            self.facts.append(f)

    def out(self, *a):
        if self.log: print(*a, file=self.log, flush=True)

    def check(self, assumptions, timeout=None):
        """sat / unsat / unknown of facts + assumptions."""
        if self.deadline and time.time() > self.deadline:
            raise Unmodelled("verification time budget exhausted")
        t = time.time()
        if all(pure_bv(a) for a in assumptions):
            # pure bit-vector query: hypotheses about memory and ghost functions are dropped (sound)
            s = z3.Solver(); s.push()
            s.set("timeout", min(timeout or self.timeout, 3000))
            pf = [f for f in self.facts if pure_bv(f)]
            for f in pf: s.add(f)
            for f in assumptions: s.add(f)
            r = s.check()
            if r != z3.unknown:
                self.last_model = s.model() if r == z3.sat else None
                self.solver_time += time.time() - t
                self.nqueries += 1
                return r
            s = z3.SolverFor("QF_BV")
            s.set("timeout", timeout or self.timeout)
            for f in pf: s.add(f)
        else:
            s = z3.Solver()
            s.set("timeout", timeout or self.timeout)
            for f in self.facts: s.add(f)
        for f in assumptions: s.add(f)
        r = s.check()
        self.last_model = s.model() if r == z3.sat else None
        dt = time.time() - t
        self.solver_time += dt
        self.nqueries += 1
        if dt > 0.3: self.out("   slow check %.2f %s" % (dt, r), [a.sexpr()[:300] for a in assumptions])
        return r

    def feasible(self, g, timeout=3000):
        g = simp(g)
        if z3.is_false(g): return False
        if z3.is_true(g): return True
        if not pure_bv(g):
            w = [x for x in (weaken_pure(y) for y in flat_and(g, [])) if not z3.is_true(x)]
            if w and self.check(w, timeout) == z3.unsat: return False
            if not self.deep_feasible: return True
        return self.check([g], timeout) != z3.unsat

    def entails(self, g, c, timeout=None):
        c = simp(c)
        if z3.is_true(c): return True
        if pure_bv(c) and not pure_bv(g):
            w = [x for x in (weaken_pure(y) for y in flat_and(simp(g), [])) if not z3.is_true(x)]
            return self.check(w + [Not(c)], timeout) == z3.unsat
        return self.check([g, Not(c)], timeout) == z3.unsat

    def oblige(self, st, name, claim, kind="assert", where=None, soft=False):
        """Adds the obligation: under the path condition, claim holds. Afterwards it may be assumed."""
        claim = simp(claim)
        if not self.collect: return
        fn = self.stack[-1].dem if self.stack else "lemma"
        o = Obl(name, kind, Or(Not(st.g), claim), len(self.facts), fn, where, soft or self.nhavoc > 0 or bool(self.timeouts))
        if z3.is_true(simp(o.claim)):
            o.status, o.backend = "proved", "simplifier"
        self.obls.append(o)

    def assume(self, st, f):
        st.g = And(st.g, simp(f))

    # ------------------------------------------------------------ memory
    def new_region(self, st, name, size=None, kind="cells", base=None, init=None, align=8, readonly=False):
        r = Region(name, base=base, size=size, kind=kind, readonly=readonly)
        if base is None:
            n = r.size if r.size is not None else bv(1 << 32)
            self.facts.append(z3.And(z3.UGE(r.base, bv(4096)), z3.ULE(r.base, bv((1 << 47))),
                                     (r.base & bv(align - 1)) == 0))
            Align.set(r.base, align.bit_length() - 1)
        if kind == "cells": st.mem[r] = init if init is not None else Cells()
        else: st.mem[r] = init if init is not None else Raw(z3.Const("mem!%s!%d" % (name, r.id), BYTES))
        self.regions.append(r)
        return r

    def lower(self, st, r):
        """cells -> bytes representation."""
        c = st.mem[r]
        if isinstance(c, Raw): return c
        a = z3.Const("mem!%s!%d!%d" % (r.name, r.id, next(self.fresh_i)), BYTES)
        for off, (n, v) in sorted(c.d.items()):
            e = self.as_bv(v, n * 8)
            for i in range(n):
                a = z3.Store(a, r.base + bv(off + i), z3.Extract(8 * i + 7, 8 * i, e))
        st.mem[r] = Raw(a)
        return st.mem[r]

    def as_bv(self, v, w):
        e = v.e
        if isinstance(e, list): raise Unmodelled("aggregate in memory lowering")
        if z3.is_bool(e): e = z3.If(e, bv(1, 1), bv(0, 1))
        n = e.size()
        if n < w: e = z3.ZeroExt(w - n, e)
        return e

    def resolve(self, st, p, n):
        """Region of an address: its provenance, or the only region the solver can prove it lies in."""
        if p.prov is not None: return p.prov
        e = simp(p.e)
        c = conc(e)
        if c is not None and c < 4096:
            return None
        # syntactic: base + something
        for r in reversed(self.regions):
            if conc(simp(e - r.base)) is not None and r in st.mem: return r
        for r in reversed(self.regions):
            if r.size is None or r not in st.mem: continue
            off = e - r.base
            if self.entails(st.g, z3.And(z3.ULE(off, r.size - bv(n)), z3.UGE(r.size, bv(n))), 3000): return r
        return None

    def bounds(self, st, r, p, n, what):
        if r.size is None: return
        off = simp(p.e - r.base)
        c, s = conc(off), conc(r.size)
        if c is not None and s is not None:
            ok = c + n <= s
            if ok: return
            self.oblige(st, "%s within %s" % (what, r.name), FALSE, "memory")
            return
        nn = n if not isinstance(n, int) else bv(n)
        self.oblige(st, "%s within %s" % (what, r.name),
                    z3.And(z3.ULE(nn, r.size), z3.ULE(off, r.size - nn)), "memory")

    def bits_to_val(self, e, ty):
        if ty.k == "int" and ty.n == 1:
            return V(z3.Extract(0, 0, e) == bv(1, 1))
        if ty.k == "int" and e.size() != ty.n:
            return V(z3.Extract(ty.n - 1, 0, e))
        return V(e)

    def load(self, st, p, ty):
        ty = self.m.resolve(ty) if ty.k == "named" else ty
        if ty.k in ("struct", "arr"):
            vals = []
            for i in range(len(ty.el) if ty.k == "struct" else ty.n):
                if ty.k == "struct": off, ety = self.m.field_off(ty, i)
                else: off, ety = i * self.m.size(ty.el), ty.el
                vals.append(self.load(st, V(simp(p.e + bv(off)), p.prov), ety))
            return V(vals)
        n = self.m.size(ty)
        alt = self.alts.get(p.e.get_id())
        if alt is not None:
            _, g, x, y = alt
            # same memory, the two cases of the address
            return self.merge_val(g, self.load(State(And(st.g, g), st.mem, st.env, st.ghost), x, ty), self.load(State(And(st.g, Not(g)), st.mem, st.env, st.ghost), y, ty))
        r = self.resolve(st, p, n)
        if r is None:
            self.oblige(st, "load from a valid address", FALSE, "memory")
            return self.havoc_val("bad", ty)
        if r.on_load is not None:
            h = r.on_load(self, st, p, n, ty)
            if h is not None: return h
        if getattr(r, "lv", None) is not None:
            return r.lv.load(self, st, p, ty)
        self.bounds(st, r, p, n, "load")
        if r not in st.mem:
            raise Unmodelled("load from dead region %s" % r.name)
        c = st.mem[r]
        off = conc(p.e - r.base)
        if isinstance(c, Cells):
            if off is None:
                c = self.lower(st, r)
            else:
                got = c.d.get(off)
                if got is not None and got[0] == n:
                    v = got[1]
                    return self.retype(v, ty)
                # compose
                cover = [(o, k, v) for o, (k, v) in c.d.items() if o < off + n and off < o + k]
                if not cover:
                    v = self.havoc_val("%s+%d" % (r.name, off), ty)
                    if ty.k == "ptr" and off in r.fields: v.prov = r.fields[off]
                    d = dict(c.d); d[off] = (n, v); st.mem[r] = Cells(d)
                    return v
                if len(cover) == 1 and cover[0][0] <= off and off + n <= cover[0][0] + cover[0][1]:
                    o, k, v = cover[0]
                    e = self.as_bv(v, k * 8)
                    lo = (off - o) * 8
                    return self.bits_to_val(simp(z3.Extract(lo + n * 8 - 1, lo, e)), ty)
                parts = []
                for b in range(off, off + n):
                    hit = [(o, k, v) for o, k, v in cover if o <= b < o + k]
                    if hit:
                        o, k, v = hit[0]
                        parts.append(z3.Extract((b - o) * 8 + 7, (b - o) * 8, self.as_bv(v, k * 8)))
                    else:
                        nv = self.fresh("%s+%d" % (r.name, b), 8)
                        d = dict(st.mem[r].d); d[b] = (1, V(nv)); st.mem[r] = Cells(d)
                        parts.append(nv)
                e = z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0]
                return self.bits_to_val(simp(e), ty)
        if isinstance(c, UF):
            parts = [c.f(simp(p.e + bv(i))) for i in range(n)]
            return self.bits_to_val(z3.Concat(*reversed(parts)) if n > 1 else parts[0], ty)
        a = c.a
        e = self.read_bytes(a, p.e, n)
        v = self.bits_to_val(e, ty)
        return v

    def read_bytes(self, a, addr, n):
        addr = simp(addr)
        parts = [z3.Select(a, simp(addr + bv(i))) for i in range(n)]
        return z3.Concat(*reversed(parts)) if n > 1 else parts[0]

    def retype(self, v, ty):
        if isinstance(v.e, list): return v
        if ty.k == "int" and ty.n == 1 and not z3.is_bool(v.e):
            return V(z3.Extract(0, 0, v.e) == bv(1, 1))
        if not (ty.k == "int" and ty.n == 1) and z3.is_bool(v.e):
            return V(z3.If(v.e, bv(1, self.m.bits(ty)), bv(0, self.m.bits(ty))), v.prov)
        if ty.k == "int" and v.e.size() > ty.n:
            return V(z3.Extract(ty.n - 1, 0, v.e), v.prov)
        return v

    def store(self, st, p, v, ty):
        ty = self.m.resolve(ty) if ty.k == "named" else ty
        if ty.k in ("struct", "arr") or isinstance(v.e, list):
            for i in range(len(ty.el) if ty.k == "struct" else ty.n):
                if ty.k == "struct": off, ety = self.m.field_off(ty, i)
                else: off, ety = i * self.m.size(ty.el), ty.el
                self.store(st, V(simp(p.e + bv(off)), p.prov), v.e[i], ety)
            return
        n = self.m.size(ty)
        r = self.resolve(st, p, n)
        if r is None:
            self.oblige(st, "store to a valid address", FALSE, "memory")
            return
        if getattr(r, "lv", None) is not None:
            return r.lv.store(self, st, p, v, ty)
        if r.readonly:
            self.oblige(st, "no store to read-only %s" % r.name, FALSE, "frame")
            return
        self.bounds(st, r, p, n, "store")
        if r not in st.mem: raise Unmodelled("store to dead region")
        self.raw_store(st, r, p, n, v)

    def raw_store(self, st, r, p, n, v):
        c = st.mem[r]
        off = conc(p.e - r.base)
        if self.writes is not None: self.writes.add((r, off if isinstance(c, Cells) else None, n))
        if isinstance(c, Cells):
            if off is None:
                c = self.lower(st, r)
            else:
                d = dict(c.d)
                for o in list(d):
                    k = d[o][0]
                    if o < off + n and off < o + k and not (o == off and k == n):
                        # split the overlapped cell into bytes
                        e = self.as_bv(d[o][1], k * 8)
                        del d[o]
                        for b in range(k):
                            if not (off <= o + b < off + n):
                                d[o + b] = (1, V(simp(z3.Extract(8 * b + 7, 8 * b, e))))
                d[off] = (n, v)
                st.mem[r] = Cells(d)
                return
        a = c.a
        e = self.as_bv(v, n * 8)
        for i in range(n):
            a = z3.Store(a, simp(p.e + bv(i)), simp(z3.Extract(8 * i + 7, 8 * i, e)))
        st.mem[r] = Raw(a)

    def havoc_val(self, name, ty):
        ty = self.m.resolve(ty) if ty.k == "named" else ty
        if ty.k in ("struct",): return V([self.havoc_val(name, e) for e in ty.el])
        if ty.k == "arr": return V([self.havoc_val(name, ty.el) for _ in range(ty.n)])
        if ty.k == "int" and ty.n == 1: return V(self.fresh(name, 1))
        return V(self.fresh(name, self.m.bits(ty)))

    def zero_val(self, ty):
        ty = self.m.resolve(ty) if ty.k == "named" else ty
        if ty.k == "struct": return V([self.zero_val(e) for e in ty.el])
        if ty.k == "arr": return V([self.zero_val(ty.el) for _ in range(ty.n)])
        if ty.k == "int" and ty.n == 1: return V(FALSE)
        return V(bv(0, self.m.bits(ty)))

    # memcpy / memset
    def memcpy(self, st, dst, src, n, what="memcpy"):
        k = conc(n.e)
        if k == 0: return
        rd = self.resolve(st, dst, 1 if k is None else k)
        rs = self.resolve(st, src, 1 if k is None else k)
        if rd is None or rs is None:
            self.oblige(st, what + " arguments valid", Or(n.e == 0) if k is None else FALSE, "memory")
            return
        if rd.readonly: self.oblige(st, "no store to read-only %s" % rd.name, FALSE, "frame")
        for r, p in ((rd, dst), (rs, src)):
            if r.size is not None:
                off = simp(p.e - r.base)
                self.oblige(st, "%s within %s" % (what, r.name),
                            z3.Or(n.e == 0, z3.And(z3.ULE(n.e, r.size), z3.ULE(off, r.size - n.e))), "memory")
        if k is not None and k <= 256 and (getattr(rd, "lv", None) is not None or getattr(rs, "lv", None) is not None):
            q, parts = 0, []
            while q < k:
                w = 8 if k - q >= 8 else 4 if k - q >= 4 else 1
                parts.append((q, w)); q += w
            got = [self.load(st, V(simp(src.e + bv(q)), src.prov), ir.I(8 * w)) for q, w in parts]
            for (q, w), x in zip(parts, got): self.store(st, V(simp(dst.e + bv(q)), dst.prov), x, ir.I(8 * w))
            return
        cd, cs = st.mem[rd], st.mem[rs]
        od, os_ = conc(dst.e - rd.base), conc(src.e - rs.base)
        if k is not None and isinstance(cd, Cells) and isinstance(cs, Cells) and od is not None and os_ is not None and k <= 4096:
            for o, (w, v) in sorted(cs.d.items()):
                if o >= os_ and o + w <= os_ + k:
                    self.raw_store(st, rd, V(simp(rd.base + bv(od + o - os_)), rd), w, v)
                elif o < os_ + k and os_ < o + w:
                    e = self.as_bv(v, w * 8)
                    for b in range(w):
                        if os_ <= o + b < os_ + k:
                            self.raw_store(st, rd, V(simp(rd.base + bv(od + o + b - os_)), rd), 1,
                                           V(simp(z3.Extract(8 * b + 7, 8 * b, e))))
            # source bytes never written yet: havoc destination lazily by materialising them
            have = set()
            for o, (w, v) in cs.d.items():
                have.update(range(o, o + w))
            b = os_
            while b < os_ + k:
                if b in have: b += 1; continue
                w = 1
                if b % 8 == 0 and all((b + j) not in have for j in range(8)) and b + 8 <= os_ + k: w = 8
                nv = V(self.fresh("%s+%d" % (rs.name, b), w * 8), rs.fields.get(b) if w == 8 else None)
                d = dict(st.mem[rs].d); d[b] = (w, nv); st.mem[rs] = Cells(d)
                self.raw_store(st, rd, V(simp(rd.base + bv(od + b - os_)), rd), w, nv)
                b += w
            return
        if k is not None and k <= 64:
            if isinstance(cs, UF): e = [cs.f(simp(src.e + bv(i))) for i in range(k)]
            else:
                a = self.lower(st, rs).a
                e = [z3.Select(a, simp(src.e + bv(i))) for i in range(k)]
            for i in range(k): self.raw_store(st, rd, V(simp(dst.e + bv(i)), rd), 1, V(e[i]))
            return
        sa = cs.f if isinstance(cs, UF) else (lambda a, sa=self.lower(st, rs).a: z3.Select(sa, a))
        da = self.lower(st, rd).a
        if self.writes is not None: self.writes.add((rd, None, 0))
        x = z3.BitVec("x!cpy", 64)
        st.mem[rd] = Raw(z3.Lambda([x], z3.If(z3.ULT(x - dst.e, n.e), sa(x - dst.e + src.e), z3.Select(da, x))))

    def memset(self, st, dst, val, n):
        k = conc(n.e)
        if k == 0: return
        r = self.resolve(st, dst, 1 if k is None else k)
        if r is None:
            self.oblige(st, "memset argument valid", n.e == 0, "memory"); return
        if r.readonly: self.oblige(st, "no store to read-only %s" % r.name, FALSE, "frame")
        if r.size is not None:
            off = simp(dst.e - r.base)
            self.oblige(st, "memset within %s" % r.name,
                        z3.Or(n.e == 0, z3.And(z3.ULE(n.e, r.size), z3.ULE(off, r.size - n.e))), "memory")
        off = conc(dst.e - r.base)
        if k is not None and isinstance(st.mem[r], Cells) and off is not None and k <= 4096:
            b = 0
            while b < k:
                w = 8 if (off + b) % 8 == 0 and b + 8 <= k else (4 if (off + b) % 4 == 0 and b + 4 <= k else 1)
                e = z3.Concat(*([val.e] * w)) if w > 1 else val.e
                self.raw_store(st, r, V(simp(r.base + bv(off + b)), r), w, V(simp(e)))
                b += w
            return
        da = self.lower(st, r).a
        if self.writes is not None: self.writes.add((r, None, 0))
        x = z3.BitVec("x!set", 64)
        st.mem[r] = Raw(z3.Lambda([x], z3.If(z3.ULT(x - dst.e, n.e), val.e, z3.Select(da, x))))

    # ------------------------------------------------------------ operands
    def glob(self, st, name):
        if name in self.globals: 
            r = self.globals[name]
            if r not in st.mem:
                st.mem[r] = r.init
            return V(r.base, r)
        if name in self.m.funcs:
            r = Region("fn:" + name, kind="cells", size=1, readonly=True); r.fnname = name
            r.init = Cells()
            self.globals[name] = r; st.mem[r] = r.init
            self.facts.append(z3.And(z3.UGE(r.base, bv(4096)), z3.ULE(r.base, bv(1 << 47))))
            return V(r.base, r)
        g = self.m.globals.get(name)
        if g is None: raise Unmodelled("global " + name)
        ty, init, const = g
        size = self.m.size(ty) if ty is not None else None
        r = Region("global:" + name, size=size, readonly=const)
        self.facts.append(z3.And(z3.UGE(r.base, bv(4096)), z3.ULE(r.base, bv(1 << 47)), (r.base & bv(7)) == 0))
        self.globals[name] = r
        self.regions.append(r)
        c = Cells()
        if const and init is not None:
            st.mem[r] = c
            r.readonly = False
            sv, self.on_store, w, self.writes = self.on_store, None, self.writes, None
            try:
                self.store_const(st, r, 0, ty, init)
            except Unmodelled:
                st.mem[r] = Cells()
            self.on_store, self.writes = sv, w
            r.readonly = True
            r.init = st.mem[r]
        else:
            r.init = c; st.mem[r] = c
        return V(r.base, r)

    def store_const(self, st, r, off, ty, op):
        ty = self.m.resolve(ty) if ty.k == "named" else ty
        if op[0] == "str":
            for i, b in enumerate(op[1]):
                self.raw_store(st, r, V(simp(r.base + bv(off + i)), r), 1, V(bv(b, 8)))
            return
        if op[0] == "agg":
            for i, (ety, o) in enumerate(op[1]):
                if ty.k == "struct": eo = self.m.field_off(ty, i)[0]
                else: eo = i * self.m.size(ty.el)
                self.store_const(st, r, off + eo, ety, o)
            return
        if op[0] == "undef": return
        v = self.operand(st, ty, op)
        self.store(st, V(simp(r.base + bv(off)), r), v, ty)

    def operand(self, st, ty, op):
        k = op[0]
        if k == "l":
            try: return st.env[op[1]]
            except KeyError: raise Unmodelled("undefined value %s" % op[1])
        if k == "c":
            if ty.k == "int" and ty.n == 1: return V(TRUE if op[1] else FALSE)
            return V(bv(op[1], self.m.bits(ty)))
        if k == "null": return V(bv(0))
        if k == "g": return self.glob(st, op[1])
        if k == "undef": return self.havoc_val("undef", ty)
        if k == "zero": return self.zero_val(ty)
        if k == "agg":
            vals = [self.operand(st, t, o) for t, o in op[1]]
            if ty.k == "vec":
                return V(z3.Concat(*[self.as_bv(v, self.m.bits(ty.el)) for v in reversed(vals)]))
            return V(vals)
        if k == "splat":
            v = self.operand(st, op[1], op[2])
            return V(z3.Concat(*[self.as_bv(v, self.m.bits(ty.el))] * ty.n))
        if k == "str":
            return V([V(bv(b, 8)) for b in op[1]])
        if k == "ce":
            if op[1] == "gep": return self.gep(st, op[2], op[3])
            if op[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.operand(st, op[2], op[3])
            if op[1] in ("trunc", "zext", "sext"):
                return self.cast(op[1], op[2], op[4], self.operand(st, op[2], op[3]))
            if op[1] in ("sub", "add"):
                a = self.operand(st, *op[2][0]); b = self.operand(st, *op[2][1])
                return V(simp(a.e - b.e if op[1] == "sub" else a.e + b.e), a.prov)
        if k == "f": return V(self.fresh("float", self.m.bits(ty)))
        raise Unmodelled("operand %r" % (op,))

    def gep(self, st, bty, ops):
        base = self.operand(st, *ops[0])
        e = base.e
        ity, io = ops[1]
        idx = self.operand(st, ity, io)
        off = self.sx(idx.e, 64) * bv(self.m.size(bty))
        e = e + off
        ty = bty
        for ity, io in ops[2:]:
            ty = self.m.resolve(ty)
            if ty.k == "struct":
                o, ty = self.m.field_off(ty, io[1])
                e = e + bv(o)
            else:
                idx = self.operand(st, ity, io)
                ty = ty.el
                e = e + self.sx(idx.e, 64) * bv(self.m.size(ty))
        p = V(simp(e), base.prov)
        r = base.prov
        if r is not None and getattr(r, "lv", None) is not None:
            return r.lv.gep(self, st, p)
        return p

    def sx(self, e, n):
        w = e.size()
        return e if w == n else (z3.SignExt(n - w, e) if w < n else z3.Extract(n - 1, 0, e))

    def cast(self, op, fty, tty, v):
        if op in ("ptrtoint", "inttoptr", "bitcast"):
            if op == "ptrtoint" and tty.n != 64: return V(simp(z3.Extract(tty.n - 1, 0, v.e)))
            if op == "inttoptr" and v.e.size() != 64: return V(z3.ZeroExt(64 - v.e.size(), v.e), v.prov)
            return v
        if fty.k == "vec":
            n = fty.n; fw = fty.el.n; tw = tty.el.n
            parts = []
            for i in range(n):
                x = z3.Extract(fw * i + fw - 1, fw * i, v.e)
                parts.append(z3.SignExt(tw - fw, x) if op == "sext" else z3.ZeroExt(tw - fw, x) if op == "zext" else z3.Extract(tw - 1, 0, x))
            return V(z3.Concat(*reversed(parts)))
        if fty.k == "float" or tty.k == "float": return V(self.fresh("float", self.m.bits(tty)))
        if op == "trunc":
            if tty.n == 1: return V(simp(z3.Extract(0, 0, v.e) == bv(1, 1)))
            return V(simp(z3.Extract(tty.n - 1, 0, v.e)), v.prov if tty.n == 64 else None)
        if fty.n == 1:
            if op == "zext": return V(z3.If(v.e, bv(1, tty.n), bv(0, tty.n)))
            return V(z3.If(v.e, bv(-1, tty.n), bv(0, tty.n)))
        if op == "zext": return V(simp(z3.ZeroExt(tty.n - fty.n, v.e)))
        return V(simp(z3.SignExt(tty.n - fty.n, v.e)))

    def binop(self, st, op, ty, a, b, inst):
        if ty.k == "float": return V(self.fresh("float", self.m.bits(ty)))
        x, y = a.e, b.e
        if ty.k == "int" and ty.n == 1:
            if op == "xor": return V(simp(z3.Xor(x, y)))
            if op == "and": return V(And(x, y))
            if op == "or": return V(Or(x, y))
            raise Unmodelled("i1 " + op)
        if ty.k == "vec" and op not in ("and", "or", "xor"):
            n, w = ty.n, self.m.bits(ty.el)
            f = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}.get(op)
            if not f: raise Unmodelled("vector " + op)
            return V(z3.Concat(*reversed([f(z3.Extract(w * i + w - 1, w * i, x), z3.Extract(w * i + w - 1, w * i, y)) for i in range(n)])))
        prov = None
        if op == "add":
            e = x + y
            prov = a.prov if b.prov is None else (b.prov if a.prov is None else None)
        elif op == "sub":
            e = x - y
            prov = a.prov if b.prov is None else None
        elif op == "and":
            e = None
            if z3.is_bv_value(y): e = Align.mask(x, y.as_long())
            elif z3.is_bv_value(x): e = Align.mask(y, x.as_long())
            if e is None: e = x & y
            prov = a.prov if b.prov is None else None
        elif op == "or": e = x | y; prov = a.prov if b.prov is None else None
        elif op == "xor": e = x ^ y
        elif op == "mul":
            e = x * y
            if self.abstract_mul and (conc(x) is None and conc(y) is None or conc(x) in self.named_factors or conc(y) in self.named_factors): e = self.mul(x, y)
        elif op in ("udiv", "urem", "sdiv", "srem"):
            if conc(y) is None or conc(y) == 0:
                self.oblige(st, "division by zero", y != 0, "arith")
            e, n = None, conc(y)
            if n and n & (n - 1) == 0 and n < 1 << (ty.n - 1):      # by a power of two: shifts, for the solver's sake
                k = bv(n.bit_length() - 1, ty.n)
                if op == "sdiv": e = x >> k if "exact" in inst.a[2] else simp(x + z3.LShR(x >> bv(ty.n - 1, ty.n), bv(ty.n, ty.n) - k)) >> k if n > 1 else x
                elif op == "udiv": e = z3.LShR(x, k)
                elif op == "urem": e = x & bv(n - 1, ty.n)
            if e is None: e = {"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda p, q: p / q, "srem": z3.SRem}[op](x, y)
        elif op in ("shl", "lshr", "ashr"):
            if conc(y) is None:
                self.oblige(st, "shift amount below width", z3.ULT(y, bv(ty.n, ty.n)), "arith")
            e = {"shl": lambda p, q: p << q, "lshr": z3.LShR, "ashr": lambda p, q: p >> q}[op](x, y)
        else: raise Unmodelled(op)
        if "nsw" in inst.a[2] and self.check_overflow and op in ("add", "sub", "mul"):
            ok = {"add": lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                  "sub": lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                  "mul": lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[op]()
            self.oblige(st, "signed arithmetic does not overflow", ok, "arith")
        return V(simp(e), prov)

    # products of two unknowns as an uninterpreted function (every proof then holds of the real product; a failed
    # obligation is tried again with the products interpreted, see driver.check_one)
    abstract_mul = False
    named_factors = ()

    def mul(self, x, y):
        x, y = simp(x), simp(y)
        if conc(x) in self.named_factors: x, y = y, x
        if conc(y) in self.named_factors and conc(x) is None:
            # product by a constant that is named, too
            out, k = bv(0, x.size()), conc(y)
            for c, p in linear(x):
                if p is None: out = out + bv(c * k % (1 << x.size()), x.size()); continue
                t = z3.Function("times%d_%d" % (k, x.size()), x.sort(), x.sort())(p)
                self.products[t.get_id()] = (t, t == p * y)
                out = out + bv(c, x.size()) * t
            return simp(out)
        if conc(x) is not None or conc(y) is not None: return simp(x * y)
        lx, ly = linear(x), linear(y)
        if (len(lx) > 1 or len(ly) > 1 or lx[0][0] != 1 or ly[0][0] != 1) and len(lx) <= 3 and len(ly) <= 3:
            # distribute over sums, so that products are named over atoms only
            n, out = x.size(), bv(0, x.size())
            for c, p in lx:
                for d, q in ly:
                    k = bv(c * d % (1 << n), n)
                    out = out + k * (bv(1, n) if p is None and q is None else p if q is None else q if p is None else self.mul(p, q))
            return simp(out)
        if x.sexpr() > y.sexpr(): x, y = y, x
        f = z3.Function("product%d" % x.size(), x.sort(), x.sort(), x.sort())
        t = f(x, y)
        self.products[t.get_id()] = (t, t == x * y)
        return t

    check_overflow = False
    deep_feasible = False
    UNROLL_SYM = 9

    def icmp(self, pred, x, y):
        if z3.is_bool(x):
            x = z3.If(x, bv(1, 1), bv(0, 1)); y = z3.If(y, bv(1, 1), bv(0, 1))
        f = {"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
             "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y,
             "slt": lambda: x < y, "sle": lambda: x <= y}[pred]
        return simp(f())

    # ------------------------------------------------------------ merging
    def merge_val(self, g, a, b):
        """a under guard g, else b."""
        if a is b: return a
        if isinstance(a.e, list):
            return V([self.merge_val(g, x, y) for x, y in zip(a.e, b.e)])
        if a.e is b.e or (not isinstance(a.e, list) and a.e.eq(b.e)):
            return a if a.prov is b.prov else V(a.e, a.prov if b.prov is None else (b.prov if a.prov is None else None))
        prov = a.prov
        if a.prov is not b.prov:
            za, zb = conc(a.e), conc(b.e)
            if a.prov is None and za == 0: prov = b.prov
            elif b.prov is None and zb == 0: prov = a.prov
            else: prov = None
        ae, be = a.e, b.e
        if z3.is_bool(ae) != z3.is_bool(be):
            ae, be = self.as_bv(a, 8), self.as_bv(b, 8)
        elif not z3.is_bool(ae) and ae.size() != be.size():
            w = max(ae.size(), be.size()); ae, be = self.as_bv(a, w), self.as_bv(b, w)
        r = V(self.canonical(simp(z3.If(g, ae, be))), prov)
        def known(x): return x.prov is not None or not z3.is_bool(x.e) and x.e.get_id() in self.alts
        if known(a) and known(b) and (prov is None or prov.kind == "cells" and conc(a.e - prov.base) is not None and conc(b.e - prov.base) is not None):
            self.alts[r.e.get_id()] = (r.e, g, a, b)
        return r

    def define(self, lhs, rhs):
        """lhs = rhs is a fact; from now on the engine writes rhs for lhs."""
        lhs = simp(lhs)
        self.canon[lhs.get_id()] = (lhs, rhs)

    def canonical(self, e):
        r = self.canon.get(e.get_id())
        return r[1] if r is not None else e

    def merge_content(self, g, a, b, r):
        if a is b: return a
        if isinstance(a, Cells) and isinstance(b, Cells):
            d = {}
            keys = set(a.d) | set(b.d)
            for k in sorted(keys):
                x, y = a.d.get(k), b.d.get(k)
                if x is not None and y is not None and x[0] == y[0]:
                    d[k] = (x[0], self.merge_val(g, x[1], y[1]))
                elif x is None or y is None:
                    z = x or y
                    # untouched on one side: unknown there unless overlapped
                    other = b if x is not None else a
                    if any(o < k + z[0] and k < o + n for o, (n, _) in other.d.items()):
                        return self.merge_content(g, self.lower_c(a, r), self.lower_c(b, r), r)
                    f = V(self.fresh("%s+%d" % (r.name, k), z[0] * 8), z[1].prov)
                    if isinstance(z[1].e, list): raise Unmodelled("aggregate cell")
                    if z3.is_bool(z[1].e): f = V(self.fresh(r.name, 1))
                    d[k] = (z[0], self.merge_val(g, z[1] if x is not None else f, f if x is not None else z[1]))
                else:
                    return self.merge_content(g, self.lower_c(a, r), self.lower_c(b, r), r)
            return Cells(d)
        if isinstance(a, Cells): a = self.lower_c(a, r)
        if isinstance(b, Cells): b = self.lower_c(b, r)
        if isinstance(a, Raw) and isinstance(b, Raw):
            if a.a.eq(b.a): return a
            return Raw(z3.If(g, a.a, b.a))
        if hasattr(a, "merge"): return a.merge(self, g, b)
        raise Unmodelled("merge of contents")

    def lower_c(self, c, r):
        if isinstance(c, Raw): return c
        t = State(TRUE, {r: c}, {})
        return self.lower(t, r)

    def merge_states(self, states, conds=None):
        """states with mutually exclusive guards -> one state; conds receives the conditions that tell them apart."""
        states = [s for s in states if not z3.is_false(s.g)]
        if not states: return None
        cur = states[-1]
        if len(states) == 1: return cur
        cur = cur.copy()
        if conds is not None: conds[:] = [None] * len(states)
        for n in range(len(states) - 2, -1, -1):
            s = states[n]
            com, c, other, union = factor_or(s.g, cur.g)
            # inside the union, c says that this state (and not the others) is the one that was reached
            if z3.is_true(c): c = simp(Not(other))
            if conds is not None: conds[n] = c
            mem = {}
            for r in s.mem:
                if r in cur.mem:
                    mem[r] = self.merge_content(c, s.mem[r], cur.mem[r], r)
                else: mem[r] = s.mem[r]
            for r in cur.mem:
                if r not in mem: mem[r] = cur.mem[r]
            env = {}
            for k in cur.env:
                if k in s.env:
                    env[k] = s.env[k] if s.env[k] is cur.env[k] else (self.merge_val(c, s.env[k], cur.env[k]) if k == "$ret" else cur.env[k])
                else: env[k] = cur.env[k]
            for k in s.env:
                if k not in env: env[k] = s.env[k]
            gh = {}
            for k in set(s.ghost) | set(cur.ghost):
                x, y = s.ghost.get(k), cur.ghost.get(k)
                if x is None: gh[k] = y
                elif y is None: gh[k] = x
                elif x is y: gh[k] = x
                elif isinstance(x, V): gh[k] = self.merge_val(c, x, y)
                elif hasattr(x, "merge"): gh[k] = x.merge(self, c, y)
                else: gh[k] = simp(z3.If(c, x, y))
            cur = State(union, mem, env, gh)
        return cur

    # ------------------------------------------------------------ functions
    def find(self, dem):
        """Function by exact demangled name or by predicate; None if it does not exist."""
        for f in self.m.funcs.values():
            if f.dem == dem or (callable(dem) and dem(f.dem)):
                return f
        return None

    def call_function(self, f, args, st, inst=None, top=False):
        """Executes f; returns (ret V or None, normal state or None, [throw states])."""
        dem = f.dem
        if not top:
            for c in self.contracts:
                if c.match(dem):
                    c.used += 1
                    if c.trusted: self.assumed.add(c.name or dem)
                    self.throws = []
                    self.cur_fn = f
                    r = c.apply(self, st, args, inst)
                    th, self.throws = self.throws, []
                    if z3.is_false(st.g): return r, None, th
                    return r, st, th
        if f.decl:
            raise Unmodelled("no contract for external function " + dem)
        if any(x is f for x in self.stack):
            raise Unmodelled("recursive function without contract: " + dem)
        ir.parse_body(f)
        if not top: self.inlined.add(dem)
        self.stack.append(f)
        outer_env = st.env
        st = State(st.g, dict(st.mem), {}, dict(st.ghost))
        for (ty, nm, at), a in zip(f.params, args):
            st.env[nm] = a
            for x in at:
                if x.startswith("byval"):
                    # callee gets its own copy
                    bty = ir.parse_type(ir.Toks(ir.tokenize(x[6:-1])))
                    n = self.m.size(bty)
                    r = self.new_region(st, "byval" + nm, n)
                    self.memcpy(st, V(r.base, r), a, V(bv(n)))
                    st.env[nm] = V(r.base, r)
        rets, throws = [], []
        try:
            self.exec_region(f, None, {f.order[0]: [(None, st)]}, rets, throws)
        finally:
            self.stack.pop()
        out = self.merge_states(rets)
        for t in throws: t.env = outer_env
        if out is None: return None, None, throws
        rv = out.env.get("$ret")
        out = State(out.g, out.mem, outer_env, out.ghost)
        return rv, out, throws

    def exec_region(self, f, loop, incoming, rets, throws):
        """Executes the blocks of a loop body (loop given; header's incoming state supplied) or of the whole
        function. Returns (back states, {exit block: [(pred, state)]})."""
        loops, rpo, dom = ir.loops_of(f)
        back, exits = [], {}
        inc = dict(incoming)
        inside = (lambda b: True) if loop is None else (lambda b: b in loop.blocks)

        def route(pred, succ, s):
            if z3.is_false(s.g): return
            if loop is not None and succ == loop.header:
                back.append((pred, s)); return
            if not inside(succ):
                exits.setdefault(succ, []).append((pred, s)); return
            inc.setdefault(succ, []).append((pred, s))
        for b in rpo:
            if not inside(b) or b not in inc: continue
            L = loops.get(b)
            if L is not None and L is not loop:
                # b heads an inner loop: handle it as a whole
                ex = self.exec_loop(f, L, inc.pop(b), rets, throws)
                for succ, lst in ex.items():
                    for pred, s in lst: route(pred, succ, s)
                continue
            # skip blocks that belong to inner loops (handled above)
            preds = inc.pop(b)
            st = self.enter_block(f, b, preds)
            if st is None: continue
            self.exec_block(f, f.blocks[b], st, route, rets, throws)
        return back, exits

    def enter_block(self, f, b, preds):
        """Merge incoming edge states, evaluating phis on each edge."""
        blk = f.blocks[b]
        phis = [i for i in blk.insts if i.op == "phi"]
        sts = []
        vals = []
        for pred, s in preds:
            if z3.is_false(s.g): continue
            row = []
            if pred is None:
                row = None
            else:
                for ph in phis:
                    op = [o for o, pb in ph.a[0] if pb == pred]
                    row.append(self.operand(s, ph.ty, op[0]))
            sts.append(s); vals.append(row)
        if not sts: return None
        conds = []
        m = self.merge_states([s for s in sts], conds)
        m = m.copy()
        if phis and vals[0] is not None:
            for k, ph in enumerate(phis):
                v = vals[-1][k]
                for c, row in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                    v = self.merge_val(c, row[k], v)
                m.env[ph.res] = v
        return m

    # ------------------------------------------------------------ loops
    def exec_loop(self, f, L, preds, rets, throws):
        key = (f.name, L.header)
        mode = self.loop_results.get(key)
        if self.cut_hint is not None:
            h = self.cut_hint(f, L)
            if h: mode = h
        if mode != "cut":
            try:
                r = self.unroll(f, L, preds, rets, throws)
                if r is not None: return r
            except Unmodelled:
                if mode == "unroll": raise
            self.loop_results[key] = "cut"
        return self.cut(f, L, preds, rets, throws)

    def unroll(self, f, L, preds, rets, throws):
        save = (len(self.obls), len(rets), len(throws), len(self.facts), len(self.loops))
        exits = {}
        cur = preds
        nsym, g0 = 0, None
        lim = self.UNROLL
        it = -1
        while True:
            it += 1
            st = self.enter_block(f, L.header, cur)
            if st is None: break
            if g0 is None: g0 = st.g
            elif not g0.eq(st.g):
                if not self.feasible(st.g): break
                g0 = st.g
                # a loop with a concrete counter is worth unrolling however its path conditions look
                now = {i.res: conc(st.env[i.res].e) for i in f.blocks[L.header].insts if i.op == "phi" and isinstance(st.env[i.res].e, z3.BitVecRef)}
                if not any(v is not None and last.get(k) is not None and last[k] != v for k, v in now.items()): nsym += 1
            last = {i.res: conc(st.env[i.res].e) for i in f.blocks[L.header].insts if i.op == "phi" and isinstance(st.env[i.res].e, z3.BitVecRef)}
            if it >= lim or nsym >= self.UNROLL_SYM:
                del self.obls[save[0]:]; del rets[save[1]:]; del throws[save[2]:]; del self.loops[save[4]:]
                return None
            # header already entered: run with a pseudo-incoming edge
            back, ex = self.exec_region(f, L, {L.header: [(None, st)]}, rets, throws)
            for k, v in ex.items(): exits.setdefault(k, []).extend(v)
            cur = back
            if not back: break
        if self.collect:
            self.loops.append((f.dem, L.header, "unrolled completely (%d iterations)" % it, []))
            o = Obl("loop %s of %s: unwinding assertion" % (L.header, short(f.dem)), "unwind", TRUE, 0, f.dem, None)
            o.status, o.backend = "proved", "z3 (infeasibility of a further iteration)"
            self.obls.append(o)
        return exits

    def havoc_header(self, f, L, entry, W, ind=None):
        st = entry.copy()
        blk = f.blocks[L.header]
        vars_ = []
        ind = ind or {}
        kof = None
        if ind:
            k = self.fresh("iter")
            self.loop_iter = k
            cs = {c for c in ind.values() if c}
            g = 0
            for c in cs: g = g | c
            if len(cs) == 1 and (g & (g - 1)) == 0:
                Align.set(k, g.bit_length() - 1)
                if g > 1: self.facts.append(k & bv(g - 1) == 0)
                kof = g

            def mul(c, w):
                kk = k if w == 64 else z3.Extract(w - 1, 0, k)
                return kk if c == kof else bv(c, w) * kk
        for i in blk.insts:
            if i.op != "phi": break
            v0 = entry.env[i.res]
            if isinstance(v0.e, list): nv = self.havoc_val(i.res, i.ty)
            elif i.res in ind:
                c = ind[i.res]; w = v0.e.size()
                nv = V(v0.e if c == 0 else simp(v0.e + mul(c, w)), v0.prov)
            else:
                nv = V(self.fresh(i.res[1:], 1) if z3.is_bool(v0.e) else self.fresh(i.res[1:], v0.e.size()), v0.prov)
            st.env[i.res] = nv
            vars_.append(("phi", i.res, i.ty))
        for (r, off, n) in sorted(W, key=lambda w: (w[0].id, -1 if w[1] is None else w[1])):
            if r not in st.mem: continue
            c = st.mem[r]
            if hasattr(c, "havoc"):
                st.mem[r] = c.havoc(self, r); continue
            if isinstance(c, Cells) and off is not None:
                old = c.d.get(off)
                if old is None or old[0] != n:
                    # materialise
                    ov = self.load(entry, V(simp(r.base + bv(off)), r), ir.I(n * 8))
                    c = entry.mem[r]
                    d = dict(c.d)
                    for o in list(d):
                        if o < off + n and off < o + d[o][0]: del d[o]
                    d[off] = (n, ov); entry.mem[r] = Cells(d)
                    dd = dict(st.mem[r].d)
                    for o in list(dd):
                        if o < off + n and off < o + dd[o][0]: del dd[o]
                    st.mem[r] = Cells(dd)
                    old = (n, ov)
                v0 = old[1]
                if (r.id, off) in ind:
                    c2 = ind[(r.id, off)]; w = v0.e.size()
                    nv = V(v0.e if c2 == 0 else simp(v0.e + mul(c2, w)), v0.prov)
                else: nv = V(self.fresh("%s+%d" % (r.name, off), 1) if z3.is_bool(v0.e) else self.fresh("%s+%d" % (r.name, off), v0.e.size()), v0.prov)
                d = dict(st.mem[r].d); d[off] = (n, nv); st.mem[r] = Cells(d)
                vars_.append(("cell", (r, off, n), None))
            else:
                self.lower(entry, r)
                st.mem[r] = Raw(z3.Const("mem!%s!%d!h%d" % (r.name, r.id, next(self.fresh_i)), BYTES))
                vars_.append(("raw", r, None))
        for k in self.loop_ghosts(f, L, entry):
            v0 = entry.ghost[k]
            if isinstance(v0, V): st.ghost[k] = V(self.fresh("ghost_" + k, v0.e.size()), v0.prov)
            elif hasattr(v0, "havoc"): st.ghost[k] = v0.havoc(self, k)
            else: st.ghost[k] = z3.FreshConst(v0.sort(), "ghost_" + k)
            vars_.append(("ghost", k, None))
        for h in self.havoc_hooks: h(self, st, vars_)
        return st, vars_
    havoc_hooks = ()
    on_alloca = None

    def loop_ghosts(self, f, L, entry):
        return sorted(self.ghost_writes.get((f.name, L.header), ()))
    ghost_writes = {}

    def getv(self, st, var):
        k = var[0]
        if k == "phi": return st.env[var[1]]
        if k == "cell":
            r, off, n = var[1]
            got = st.mem[r].d.get(off) if isinstance(st.mem[r], Cells) else None
            if got is None or got[0] != n: return self.load(st, V(simp(r.base + bv(off)), r), ir.I(n * 8))
            return got[1]
        if k == "raw":
            c = st.mem[var[1]]
            if isinstance(c, Cells): c = self.lower(st, var[1])
            return V(c.a)
        if k == "ghost":
            x = st.ghost[var[1]]
            return x if isinstance(x, V) else V(x)
        raise KeyError(k)

    def cut(self, f, L, preds, rets, throws):
        entry = self.enter_block(f, L.header, preds)
        if entry is None: return {}
        key = (f.name, L.header)
        saved_collect, saved_writes = self.collect, self.writes
        # ---- 1. which memory does the loop modify
        W = set()
        self.collect = False
        try:
            while True:
                nob, nf = len(self.obls), len(self.facts)
                self.writes = set()
                hst, vars_ = self.havoc_header(f, L, entry, W)
                g0 = {k: id(v) for k, v in hst.ghost.items()}
                r2, t2 = [], []
                back, exits = self.exec_region(f, L, {L.header: [(None, hst)]}, r2, t2)
                newW = set()
                for (r, off, n) in self.writes:
                    if r in entry.mem: newW.add((r, off, n))
                gw = set(self.ghost_writes.get(key, ()))
                for p, s in back:
                    for k, v in s.ghost.items():
                        if k in entry.ghost and g0.get(k) != id(v): gw.add(k)
                W2 = self.norm_writes(W | newW, entry)
                if W2 == W and gw == set(self.ghost_writes.get(key, ())): break
                W = W2
                self.ghost_writes = dict(self.ghost_writes); self.ghost_writes[key] = gw
        finally:
            self.collect, self.writes = saved_collect, saved_writes
        if self.writes is not None: self.writes |= W
        # induction variables: the body adds a constant to them on every path
        ind = {}
        bst = None
        if True:
            self.collect = False
            try:
                bst = self.back_state(f, L, back)
            finally: self.collect = saved_collect
        if bst is not None and self.use_iter:
            for v in vars_:
                if v[0] not in ("phi", "cell"): continue
                h, b2 = self.getv(hst, v), self.getv(bst, v)
                if isinstance(h.e, z3.BitVecRef) and isinstance(b2.e, z3.BitVecRef) and h.e.size() <= 64 and h.e.size() == b2.e.size() and h.prov is b2.prov:
                    c = conc(b2.e - h.e)
                    if c is not None: ind[v[1] if v[0] == "phi" else (v[1][0].id, v[1][1])] = c
        # ---- 2. candidate invariants
        self.loop_iter = None
        hst, vars_ = self.havoc_header(f, L, entry, W, ind)
        loop_iter = self.loop_iter
        back_preds = [p for p in f.blocks[L.header].preds if p in L.blocks]
        # provenance of phis must be stable
        ctx = LoopCtx(self, f, L, entry, hst, vars_)
        cands = []
        seen = set()
        for T in self.templates + ([generic_templates] if self.generic else []):
            for nm, fn in T(self, ctx):
                try:
                    e0 = fn(lambda v: self.getv(entry, v))
                    h0 = fn(lambda v: self.getv(hst, v))
                except KeyError:
                    continue
                if e0 is None or h0 is None: continue
                k = h0.sexpr()
                if k in seen: continue
                seen.add(k)
                cands.append((nm, fn, simp(e0), h0))
        # entry filter
        n0 = len(cands)
        cands = self.filter_candidates([entry.g], cands, 2)
        # ---- 3. Houdini
        saved_loops = len(self.loops)
        self.collect = False
        rounds = 0
        try:
            while True:
                rounds += 1
                h = self.substitute_invariants(hst.copy(), vars_, cands)
                h.g = And(entry.g, *[c[3] for c in cands])
                self.nhavoc += 1
                r2, t2 = [], []
                try:
                    back, exits = self.exec_region(f, L, {L.header: [(None, h)]}, r2, t2)
                finally:
                    self.nhavoc -= 1
                bst = self.back_state(f, L, back)
                if bst is None: break
                prov_bad = []
                for i in f.blocks[L.header].insts:
                    if i.op != "phi": break
                    a, b2 = hst.env[i.res], bst.env[i.res]
                    if a.prov is not None and b2.prov is not a.prov:
                        prov_bad.append(i.res)
                if prov_bad:
                    for n in prov_bad: hst.env[n] = V(hst.env[n].e, None)
                    continue
                new = []
                for c in cands:
                    e1 = c[1](lambda v: self.getv(bst, v))
                    new.append((c[0], c[1], simp(e1), c[3]))
                kept = self.filter_candidates([bst.g], new, 2)
                ids = {id(c[1]) for c in kept}
                k2 = [c for c in cands if id(c[1]) in ids]
                if len(k2) == len(cands): break
                cands = k2
        finally:
            self.collect = saved_collect
            del self.loops[saved_loops:]
        # ---- 4. final pass with obligations
        h = self.substitute_invariants(hst.copy(), vars_, cands)
        h.g = And(entry.g, *[c[3] for c in cands])
        if loop_iter is not None:
            # The iteration number matters only where the loop is reached, and there the invariants hold of it;
            # elsewhere it may be taken to be 0. So invariants on it that are true of 0 are standing facts.
            fresh = set()
            for v in vars_:
                if v[0] in ("phi", "cell"):
                    x = self.getv(hst, v)
                    if isinstance(x.e, z3.BitVecRef) and z3.is_const(x.e): fresh.add(x.e.get_id())
            fresh.discard(loop_iter.get_id())
            for c in cands:
                ids = consts_of(c[3]) if pure_bv(c[3]) else ()
                if loop_iter.get_id() in ids and not (ids & fresh) and self.check([Not(z3.substitute(c[3], (loop_iter, bv(0))))], 1000) == z3.unsat:
                    self.facts.append(c[3]); self.loop_facts.append(c[3])
        self.nhavoc += 1
        try:
            back, exits = self.exec_region(f, L, {L.header: [(None, h)]}, rets, throws)
        finally:
            self.nhavoc -= 1
        if self.collect:
            o = Obl("loop %s of %s: %d invariants hold on entry and are preserved" % (L.header, short(f.dem), len(cands)),
                    "invariant", TRUE, 0, f.dem, None)
            o.status, o.backend = "proved", "z3 (Houdini, %d candidates, %d rounds)" % (n0, rounds)
            self.obls.append(o)
            bst = self.back_state(f, L, back)
            term = self.termination(f, L, h, bst, vars_, ctx) if bst is not None else "no back edge"
            self.loops.append((f.dem, L.header, "invariant", [c[0] for c in cands], term))
            self.out("loop", short(f.dem), L.header, "rounds", rounds, "term", term, [c[0] for c in cands])
        return exits

    def substitute_invariants(self, h, vars_, cands):
        """An invariant 'variable = term' is used by writing the term for the variable."""
        vals = {}
        for v in vars_:
            if v[0] in ("phi", "cell"):
                x = self.getv(h, v)
                if isinstance(x.e, z3.BitVecRef) and z3.is_const(x.e) and x.e.decl().kind() == z3.Z3_OP_UNINTERPRETED: vals[x.e.get_id()] = (v, x)
        done = set()
        for c in cands:
            e = c[3]
            if not z3.is_eq(e): continue
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if a.get_id() in vals and a.get_id() not in done and not (consts_of(b) & set(vals)):
                    v, x = vals[a.get_id()]
                    done.add(a.get_id())
                    if v[0] == "phi": h.env[v[1]] = V(simp(b), x.prov)
                    else:
                        r, off, n = v[1]
                        d = dict(h.mem[r].d); d[off] = (n, V(simp(b), x.prov)); h.mem[r] = Cells(d)
                    break
        return h

    def back_state(self, f, L, back):
        back = [(p, s) for p, s in back if not z3.is_false(s.g)]
        if not back: return None
        return self.enter_block(f, L.header, back)

    def norm_writes(self, W, entry):
        whole = {r for (r, off, n) in W if off is None}
        # overlapping cells of different widths: treat the region as raw bytes
        byr = {}
        for (r, off, n) in W:
            if r in whole: continue
            byr.setdefault(r, []).append((off, n))
        for r, l in byr.items():
            for (o, n) in l:
                for (o2, n2) in l:
                    if (o, n) != (o2, n2) and o < o2 + n2 and o2 < o + n: whole.add(r)
        out = {(r, None, 0) for r in whole}
        for r, l in byr.items():
            if r not in whole: out |= {(r, o, n) for o, n in l}
        return out

    def filter_candidates(self, assumptions, cands, idx):
        """Keeps the candidates entailed by facts+assumptions (batch refutation by models)."""
        if not cands: return cands
        pure = [c for c in cands if pure_bv(c[idx]) and not z3.is_true(c[idx])]
        if pure and len(pure) < len(cands) or not all(pure_bv(a) for a in assumptions):
            # bit-vector candidates that follow from the bit-vector part of the hypotheses alone
            w = [weak(a) for a in assumptions]
            t0 = set(self.timeouts)
            ok = {id(c[1]) for c in self.filter1([x for x in self.facts if pure_bv(x)], w, pure, idx, z3.Solver())} if pure else set()
            self.timeouts = t0
            rest = [c for c in cands if id(c[1]) not in ok]
            ok |= {id(c[1]) for c in self.filter1(self.facts, assumptions, rest, idx, z3.Solver())}
            return [c for c in cands if id(c[1]) in ok]
        return self.filter1(self.facts, assumptions, cands, idx, z3.Solver())

    def filter1(self, facts, assumptions, cands, idx, s):
        if not cands: return cands
        s.set("timeout", 8000)
        for fct in facts: s.add(fct)
        for a in assumptions: s.add(a)
        alive = [c for c in cands if not z3.is_true(c[idx])]
        good = [c for c in cands if z3.is_true(c[idx])]
        t0 = time.time()
        while alive:
            if self.deadline and time.time() > self.deadline:
                raise Unmodelled("verification time budget exhausted")
            s.push()
            s.add(z3.Or(*[Not(c[idx]) for c in alive]))
            tq = time.time()
            r = s.check()
            self.nqueries += 1
            if time.time() - tq > 0.3: self.out("   slow filter %.2f %s %d" % (time.time() - tq, r, len(alive)), [c[0] for c in alive][:8])
            if r == z3.unsat:
                s.pop(); good += alive; break
            if r == z3.sat:
                mdl = s.model()
                rest = [c for c in alive if not z3.is_false(mdl.eval(c[idx], model_completion=True))]
                s.pop()
                if len(rest) == len(alive):
                    # model did not evaluate to false: test individually
                    rest = self.filter_individually(s, alive, idx)
                    good += rest
                    alive = []
                else: alive = rest
                continue
            s.pop()
            good += self.filter_individually(s, alive, idx)
            alive = []
        self.solver_time += time.time() - t0
        ids = {id(c[1]) for c in good}
        return [c for c in cands if id(c[1]) in ids]

    def filter_individually(self, s, cands, idx):
        out = []
        for c in cands:
            s.push(); s.set("timeout", 6000)
            s.add(Not(c[idx]))
            r = s.check()
            if r == z3.unknown and len(cands) <= 6:
                fresh = z3.Solver(); fresh.set("timeout", 20000)        # once more, without incremental mode
                fresh.add(*s.assertions())
                r = fresh.check()
            self.nqueries += 1
            s.pop()
            if r == z3.unsat: out.append(c); s.add(c[idx])      # helps with the others
            elif r == z3.unknown: self.timeouts.add(id(c[1]))
        return out

    def termination(self, f, L, h, bst, vars_, ctx):
        vs = [v for v in vars_ if v[0] in ("phi", "cell") and isinstance(self.getv(h, v).e, z3.BitVecRef)
              and self.getv(h, v).e.size() >= 32]
        meas = []
        for v in vs:
            a, b = self.getv(h, v), self.getv(bst, v)
            step = conc(b.e - a.e)      # a variable that moves by a constant is the likely measure
            pr = 0 if step not in (None, 0) else 2
            if step == 0: continue
            if a.prov is None: meas.append((pr + (step is not None and step < (1 << 63)), "%s" % (v[1],), lambda ev, v=v: ev(v).e))
            for nm, c in ctx.consts:
                if c.e.size() != a.e.size() or c.prov is not a.prov: continue
                if nm.startswith("init("): k = 1
                else: k = 0
                if step is None or step < (1 << 63): meas.append((pr + k, "%s-%s" % (nm, v[1]), lambda ev, v=v, c=c: c.e - ev(v).e))
                if step is None or step >= (1 << 63): meas.append((pr + k, "%s-%s" % (v[1], nm), lambda ev, v=v, c=c: ev(v).e - c.e))
            for w in vs:
                if w is not v and a.e.size() == self.getv(h, w).e.size() and self.getv(h, w).prov is a.prov:
                    meas.append((pr + 1, "%s-%s" % (v[1], w[1]), lambda ev, v=v, w=w: ev(v).e - ev(w).e))
        if not meas: return None
        t = []
        for pr, nm, fn in sorted(meas, key=lambda m: m[0]):
            a = fn(lambda v: self.getv(h, v)); b = fn(lambda v: self.getv(bst, v))
            t.append((nm, z3.ULT(b, a)))
        # first without the facts about ghosts (they rarely matter), then with them
        for nm, c in t[:40]:
            if pure_bv(c) and self.entails(weak(bst.g), c, 2000): return nm
        t0 = time.time()
        for nm, c in t[:12]:
            if self.entails(bst.g, c, 2000): return nm
            if time.time() - t0 > 8: return None
        return None

    # ------------------------------------------------------------ instructions
    def exec_block(self, f, blk, st, route, rets, throws):
        for inst in blk.insts:
            op = inst.op
            if op == "phi": continue
            if op == "br":
                c, tg = inst.a
                if c is None:
                    route(blk.name, tg[0], st)
                else:
                    cv = simp(self.operand(st, ir.I(1), c).e)
                    if tg[0] == tg[1]:
                        route(blk.name, tg[0], st); return
                    if not z3.is_false(cv):
                        route(blk.name, tg[0], self.refine(st.copy(And(st.g, cv)), cv))
                    nc = simp(Not(cv))
                    if not z3.is_false(nc):
                        route(blk.name, tg[1], self.refine(st.copy(And(st.g, nc)), nc))
                return
            if op == "switch":
                c, d, cases = inst.a
                v = self.operand(st, inst.ty, c).e
                rest = []
                bytgt = {}
                for val, tgt in cases:
                    e = simp(v == bv(val, v.size()))
                    rest.append(Not(e))
                    bytgt.setdefault(tgt, []).append(e)
                dflt = simp(And(*rest))
                bytgt.setdefault(d, []).append(dflt)
                for tgt, es in bytgt.items():
                    g = simp(Or(*es))
                    if not z3.is_false(g): route(blk.name, tgt, st.copy(And(st.g, g)))
                return
            if op == "ret":
                if inst.a[0] is not None:
                    st.env["$ret"] = self.operand(st, inst.ty, inst.a[0])
                rets.append(st)
                return
            if op == "unreachable":
                return
            if op == "resume":
                throws.append(st); return
            if op in ("call", "invoke"):
                rv, nst, th = self.exec_call(f, inst, st)
                if op == "invoke":
                    for t in th:
                        t.env = dict(st.env)
                        route(blk.name, inst.a[2][1], t)
                    if nst is None: return
                    st = nst
                    if inst.res is not None and rv is not None: st.env[inst.res] = rv
                    route(blk.name, inst.a[2][0], st)
                    return
                for t in th:
                    throws.append(t)
                if nst is None: return
                st = nst
                if inst.res is not None and rv is not None: st.env[inst.res] = rv
                continue
            self.exec_simple(f, inst, st, op)

    def refine(self, st, cond):
        """Simplifies the values of a state by what its path condition says of the conditions inside them."""
        if z3.is_true(cond): return st
        pos, neg, subs = set(), set(), []
        for l in flat_and(simp(st.g), []):
            if z3.is_not(l): neg.add(l.arg(0).get_id())
            else:
                pos.add(l.get_id())
                if z3.is_eq(l):
                    for a, b in ((l.arg(0), l.arg(1)), (l.arg(1), l.arg(0))):
                        if z3.is_const(a) and a.decl().name().startswith("iter!") and a.get_id() not in consts_of(b):
                            subs.append((a, b)); break
        memo = {}

        def ev3(c):
            k = c.get_id()
            if k in memo: return memo[k][1]
            r = None
            if k in pos or z3.is_true(c): r = True
            elif k in neg or z3.is_false(c): r = False
            elif z3.is_not(c):
                r = ev3(c.arg(0)); r = None if r is None else not r
            elif z3.is_and(c) or z3.is_or(c):
                dom = z3.is_or(c)
                vs = [ev3(x) for x in c.children()]
                if any(v is dom for v in vs): r = dom
                elif all(v is (not dom) for v in vs): r = not dom
            memo[k] = (c, r)
            return r

        sid = {a.get_id() for a, b in subs}

        pm = {}

        def prune(e):
            if not z3.is_app_of(e, z3.Z3_OP_ITE): return e
            k = e.get_id()
            if k in pm: return pm[k][1]
            v = ev3(e.arg(0))
            x, y = e.arg(1), e.arg(2)
            if v is not None: r = prune(x if v else y)
            else:
                a, b = prune(x), prune(y)
                r = e if a.eq(x) and b.eq(y) else self.canonical(simp(z3.If(e.arg(0), a, b)))
            pm[k] = (e, r)      # keeps e alive: ids of dead terms are reused
            return r

        def val(v):
            if isinstance(v.e, list) or not (z3.is_bv(v.e) or z3.is_bool(v.e)): return v
            e = v.e
            if z3.is_app_of(e, z3.Z3_OP_ITE): e = prune(e)
            if sid and sid & consts_of(e): e = self.canonical(simp(z3.substitute(e, *subs)))
            return v if e is v.e else V(e, v.prov)
        for k, v in list(st.env.items()):
            w = val(v) if isinstance(v, V) else v
            if w is not v: st.env[k] = w
        for r, c in list(st.mem.items()):
            if not isinstance(c, Cells): continue
            d = None
            for o, (n, v) in c.d.items():
                w = val(v)
                if w is not v:
                    if d is None: d = dict(c.d)
                    d[o] = (n, w)
            if d is not None: st.mem[r] = Cells(d)
        return st

    def exec_simple(self, f, inst, st, op):
        env = st.env
        if op == "load":
            env[inst.res] = self.load(st, self.operand(st, ir.PTR, inst.a[0]), inst.ty)
        elif op == "store":
            v = self.operand(st, inst.ty, inst.a[0]); p = self.operand(st, ir.PTR, inst.a[1])
            self.store(st, p, v, inst.ty)
        elif op == "gep":
            env[inst.res] = self.gep(st, inst.a[0], inst.a[1])
        elif op in ir.BIN:
            a = self.operand(st, inst.ty, inst.a[0]); b = self.operand(st, inst.ty, inst.a[1])
            env[inst.res] = self.binop(st, op, inst.ty, a, b, inst)
        elif op in ir.CAST:
            env[inst.res] = self.cast(op, inst.a[0], inst.ty, self.operand(st, inst.a[0], inst.a[1]))
        elif op == "icmp":
            pred, ty, a, b = inst.a
            x, y = self.operand(st, ty, a), self.operand(st, ty, b)
            if ty.k == "vec":
                n, w = ty.n, self.m.bits(ty.el)
                parts = [z3.If(self.icmp(pred, z3.Extract(w * i + w - 1, w * i, x.e), z3.Extract(w * i + w - 1, w * i, y.e)), bv(1, 1), bv(0, 1)) for i in range(n)]
                env[inst.res] = V(z3.Concat(*reversed(parts)))
            else:
                env[inst.res] = V(self.ptr_icmp(st, pred, x, y) if ty.k == "ptr" else self.icmp(pred, x.e, y.e))
        elif op == "select":
            c, a, b = inst.a
            cv = self.operand(st, ir.I(1), c).e
            x, y = self.operand(st, inst.ty, a), self.operand(st, inst.ty, b)
            if z3.is_true(cv): env[inst.res] = x
            elif z3.is_false(cv): env[inst.res] = y
            else: env[inst.res] = self.merge_val(cv, x, y)
        elif op == "alloca":
            ty, cnt = inst.a
            n = self.m.size(ty)
            if cnt is not None:
                k = conc(self.operand(st, ir.I(32), cnt).e) if cnt[0] != "c" else cnt[1]
                if k is None: raise Unmodelled("variable-size alloca")
                n *= k
            v = self.on_alloca(n) if self.on_alloca else None
            if v is None:
                r = self.new_region(st, short(f.dem)[:24] + ":" + inst.res, n, align=16)
                v = V(r.base, r)
            env[inst.res] = v
        elif op == "extractvalue":
            ty, a, idx = inst.a
            v = self.operand(st, ty, a)
            if v.e is None: raise Unmodelled("opaque aggregate")
            for i in idx: v = v.e[i]
            env[inst.res] = v
        elif op == "insertvalue":
            a, ety, e, idx = inst.a
            v = self.operand(st, inst.ty, a); x = self.operand(st, ety, e)

            def ins(v, idx):
                l = list(v.e); l[idx[0]] = x if len(idx) == 1 else ins(l[idx[0]], idx[1:])
                return V(l)
            env[inst.res] = ins(v, idx)
        elif op == "landingpad":
            env[inst.res] = V([V(self.fresh("exn")), V(self.fresh("sel", 32))])
        elif op == "freeze":
            env[inst.res] = self.operand(st, inst.ty, inst.a[0])
        elif op == "extractelement":
            ty, a, i = inst.a
            w = self.m.bits(ty.el)
            k = i[1] if i[0] == "c" else None
            if k is None: raise Unmodelled("extractelement")
            e = z3.Extract(w * k + w - 1, w * k, self.operand(st, ty, a).e)
            env[inst.res] = V(e == 1) if w == 1 else V(simp(e))
        elif op == "insertelement":
            a, e, i = inst.a
            ty = inst.ty
            w = self.m.bits(ty.el); k = i[1]
            va = self.operand(st, ty, a).e
            ve = self.as_bv(self.operand(st, ty.el, e), w)
            parts = [ve if j == k else z3.Extract(w * j + w - 1, w * j, va) for j in range(ty.n)]
            env[inst.res] = V(simp(z3.Concat(*reversed(parts)))) if ty.n > 1 else V(ve)
        elif op == "shufflevector":
            ty, a, b, mty, mk = inst.a
            w = self.m.bits(ty.el)
            va, vb = self.operand(st, ty, a).e, self.operand(st, ty, b).e
            idx = [0] * mty.n if mk[0] == "zero" else [o[1] if o[0] == "c" else 0 for _, o in mk[1]] if mk[0] == "agg" else None
            if idx is None: raise Unmodelled("shufflevector")
            parts = []
            for k in idx:
                src = va if k < ty.n else vb
                k %= ty.n
                parts.append(z3.Extract(w * k + w - 1, w * k, src))
            env[inst.res] = V(simp(z3.Concat(*reversed(parts))) if len(parts) > 1 else parts[0])
        elif op in ("fcmp",):
            env[inst.res] = V(self.fresh("fcmp", 1))
        elif op == "fneg":
            env[inst.res] = V(self.fresh("fneg", self.m.bits(inst.ty)))
        else:
            raise Unmodelled("instruction " + inst.text[:80])

    def ptr_icmp(self, st, pred, x, y):
        # addresses of distinct live objects differ; comparison with null of a valid object is false
        if pred in ("eq", "ne") and x.prov is not None and y.prov is not None and x.prov is not y.prov:
            if getattr(x.prov, "distinct", False) or getattr(y.prov, "distinct", False):
                return FALSE if pred == "eq" else TRUE
        r = self.icmp(pred, x.e, y.e)
        return self.decide(r) if x.prov is not None or y.prov is not None else r

    def decide(self, c):
        """Folds a condition on addresses that the standing facts decide."""
        if z3.is_true(c) or z3.is_false(c) or not pure_bv(c): return c
        k = (c.get_id(), len(self.loop_facts))
        if k in self.decided: return self.decided[k][1]
        r = c
        if self.check([Not(c)], 300) == z3.unsat: r = TRUE
        elif self.check([c], 300) == z3.unsat: r = FALSE
        self.decided[k] = (c, r)
        return r

    def exec_call(self, f, inst, st):
        cal, args, nd = inst.a
        if cal[0] == "l":
            fp = self.operand(st, ir.PTR, cal)
            nm = getattr(fp.prov, "fnname", None)
            if nm is None: raise Unmodelled("indirect call " + inst.text[:60])
        else: nm = cal[1]
        if nm.startswith("@llvm."):
            return self.intrinsic(nm, inst, args, st)
        fn = self.m.funcs.get(nm) or self.m.funcs.get(self.m.aliases.get(nm))
        if fn is None: raise Unmodelled("call to " + nm)
        vals = [self.operand(st, ty, o) if ty.k != "metadata" else None for ty, o, at in args]
        if fn.decl or fn.dem.split("(")[0] in BUILTINS:
            h = BUILTINS.get(fn.dem.split("(")[0]) or BUILTINS.get(nm[1:])
            if h is not None and not any(c.match(fn.dem) for c in self.contracts):
                return h(self, st, vals, inst)
        cal_ats = [at for ty, o, at in args]
        return self.call_function(fn, vals, st, inst)

    def intrinsic(self, nm, inst, args, st):
        A = lambda i: self.operand(st, args[i][0], args[i][1])
        if nm.startswith(("@llvm.lifetime", "@llvm.dbg", "@llvm.invariant", "@llvm.experimental.noalias", "@llvm.prefetch", "@llvm.stacksave", "@llvm.stackrestore", "@llvm.assume")):
            return V(self.fresh("x")), st, []
        if nm.startswith("@llvm.expect"): return A(0), st, []
        if nm.startswith(("@llvm.memcpy", "@llvm.memmove")):
            n = A(2)
            self.memcpy(st, A(0), A(1), V(n.e if n.e.size() == 64 else z3.ZeroExt(32, n.e))); return None, st, []
        if nm.startswith("@llvm.memset"):
            n = A(2)
            self.memset(st, A(0), A(1), V(n.e if n.e.size() == 64 else z3.ZeroExt(32, n.e))); return None, st, []
        if nm.startswith("@llvm.trap"):
            self.oblige(st, "trap is unreachable", FALSE, "assert"); return None, None, []
        if nm.startswith("@llvm.umul.with.overflow"):
            a, b = A(0).e, A(1).e
            return V([V(simp(a * b)), V(simp(Not(z3.BVMulNoOverflow(a, b, False))))]), st, []
        if nm.startswith("@llvm.uadd.with.overflow"):
            a, b = A(0).e, A(1).e
            return V([V(simp(a + b)), V(simp(z3.ULT(a + b, a)))]), st, []
        if nm.startswith(("@llvm.umin", "@llvm.umax", "@llvm.smin", "@llvm.smax")):
            a, b = A(0).e, A(1).e
            c = {"umin": lambda: z3.ULT(a, b), "umax": lambda: z3.UGT(a, b), "smin": lambda: a < b, "smax": lambda: a > b}[nm[6:10]]()
            return V(simp(z3.If(c, a, b))), st, []
        if nm.startswith("@llvm.x86.sse2.pmovmskb.128"):
            v = A(0).e
            bits = [z3.Extract(8 * i + 7, 8 * i + 7, v) for i in range(16)]
            return V(z3.ZeroExt(16, z3.Concat(*reversed(bits)))), st, []
        if nm.startswith("@llvm.eh.typeid.for"): return V(self.fresh("typeid", 32)), st, []
        if nm.startswith("@llvm.bswap"):
            v = A(0).e; n = v.size() // 8
            return V(simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]))), st, []
        if nm.startswith(("@llvm.ctlz", "@llvm.cttz")):
            v = A(0).e; w = v.size()
            r = bv(w, w)
            rng = range(w) if nm.startswith("@llvm.ctlz") else reversed(range(w))
            for i in rng:
                r = z3.If(z3.Extract(i, i, v) == 1, bv(w - 1 - i if nm.startswith("@llvm.ctlz") else i, w), r)
            return V(r), st, []
        if nm.startswith("@llvm.ctpop"):
            v = A(0).e; w = v.size()
            s = bv(0, w)
            for i in range(w): s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
            return V(s), st, []
        raise Unmodelled("intrinsic " + nm)


def short(dem):
    """Readable function name without parameter list and template noise."""
    s = dem or "?"
    i = s.find("(") if not s.startswith("(") else -1
    if i > 0 and "operator()" not in s: s = s[:i]
    return s[:90]


class LoopCtx:
    def __init__(self, eng, f, L, entry, hst, vars_):
        self.eng, self.f, self.L, self.entry, self.hst, self.vars = eng, f, L, entry, hst, vars_
        self.consts = []
        seen = set()
        names = {v[1] for v in vars_ if v[0] == "phi"}
        used = set()
        for b in L.blocks:
            for i in f.blocks[b].insts:
                for m in re.findall(r'%(?:"[^"]*"|[-a-zA-Z$._0-9]+)', i.text): used.add(m)
        cand = [(k, v) for k, v in entry.env.items() if k not in names and k in used]
        cand += [(k, v) for k, v in entry.env.items() if k not in names and k not in used]
        for v in vars_:
            if v[0] in ("phi", "cell"):
                x = eng.getv(entry, v)
                cand.append(("init(%s)" % (v[1],), x))
        extra = getattr(eng, "anchors", {})
        cand = [(k, v) for k, v in extra.items()] + cand
        for k, v in cand:
            if isinstance(v, V) and isinstance(v.e, z3.BitVecRef) and v.e.size() >= 32:
                s = v.e.sexpr()
                if s in seen: continue
                seen.add(s)
                self.consts.append((k, v))


def vname(v): return v[1] if isinstance(v[1], str) else "%s+%d" % (v[1][0].name, v[1][1]) if isinstance(v[1], tuple) else str(v[1])


def generic_templates(eng, ctx):
    out = []
    nullable = set()
    H = lambda v: eng.getv(ctx.hst, v)
    E = lambda v: eng.getv(ctx.entry, v)
    sc = [v for v in ctx.vars if v[0] in ("phi", "cell") and not isinstance(H(v).e, list)]
    # memory cells that hold scanner states: values without an order
    opaque = lambda v: eng.opaque_cells and v[0] == "cell" and H(v).prov is None
    for v in sc:
        h, e = H(v), E(v)
        nm = vname(v)
        out.append(("%s unchanged" % nm, lambda ev, v=v, e=e: ev(v).e == e.e))
        if not isinstance(h.e, z3.BitVecRef): continue
        w = h.e.size()
        if opaque(v): continue
        # a pointer that may be null: an order between it and other pointers says nothing
        if w == 64 and z3.is_app_of(e.e, z3.Z3_OP_ITE): nullable.add(v[1]); continue
        if w >= 32:
            for d in (2, 4, 8, 16) if w == 64 and Align.of(simp(h.e - e.e)) == 0 else ():
                out.append(("%s-init divisible by %d" % (nm, d), lambda ev, v=v, e=e, d=d, w=w: ((ev(v).e - e.e) & bv(d - 1, w)) == 0))
            for cn, c in ctx.consts[:24]:
                if c.e.size() != w: continue
                if h.prov is not c.prov: continue
                out.append(("%s<=%s" % (nm, cn), lambda ev, v=v, c=c: z3.ULE(ev(v).e, c.e)))
                out.append(("%s>=%s" % (nm, cn), lambda ev, v=v, c=c: z3.UGE(ev(v).e, c.e)))
                for d in (8, 16) if v[0] == "phi" and h.prov is not None else ():
                    out.append(("%s=%s mod %d" % (nm, cn, d), lambda ev, v=v, c=c, d=d, w=w: ((ev(v).e - c.e) & bv(d - 1, w)) == 0))
    for v, u in itertools.combinations([v for v in sc if v[1] not in nullable and not opaque(v)], 2):
        h, g = H(v), H(u)
        if isinstance(h.e, z3.BitVecRef) and isinstance(g.e, z3.BitVecRef) and h.e.size() == g.e.size() and h.e.size() >= 32:
            if h.prov is not g.prov and h.prov is not None and g.prov is not None: continue
            ev0, eu0 = E(v), E(u)
            out.append(("%s-%s constant" % (v[1], u[1]), lambda ev, v=v, u=u, a=ev0, b=eu0: ev(v).e - ev(u).e == a.e - b.e))
            out.append(("%s+%s constant" % (v[1], u[1]), lambda ev, v=v, u=u, a=ev0, b=eu0: ev(v).e + ev(u).e == a.e + b.e))
            out.append(("%s<=%s" % (v[1], u[1]), lambda ev, v=v, u=u: z3.ULE(ev(v).e, ev(u).e)))
            out.append(("%s>=%s" % (v[1], u[1]), lambda ev, v=v, u=u: z3.UGE(ev(v).e, ev(u).e)))
    return out


# ---------------------------------------------------------------- built-in (assumed) library contracts
def _new(eng, st, args, inst):
    n = args[0].e
    r = eng.new_region(st, "heap", n, kind="cells" if conc(n) is not None and conc(n) <= 4096 else "bytes", align=16)
    r.distinct = True
    return V(r.base, r), st, []


def _noop(eng, st, args, inst):
    return None, st, []


def _throw(eng, st, args, inst):
    return None, None, [st]


def _fresh_ptr(eng, st, args, inst):
    r = eng.new_region(st, "exn", 512)
    return V(r.base, r), st, []


def _assert_fail(eng, st, args, inst):
    eng.oblige(st, "assertion in the source", FALSE, "assert")
    return None, None, []


def _terminate(eng, st, args, inst):
    eng.oblige(st, "std::terminate is unreachable", FALSE, "assert")
    return None, None, []


BUILTINS = {
    "operator new": _new, "operator new[]": _new, "operator delete": _noop, "operator delete[]": _noop,
    "__cxa_throw": _throw, "__cxa_rethrow": _throw, "__cxa_allocate_exception": _fresh_ptr,
    "__cxa_free_exception": _noop, "__cxa_begin_catch": _fresh_ptr, "__cxa_end_catch": _noop,
    "__assert_fail": _assert_fail, "std::terminate": _terminate, "__clang_call_terminate": _terminate,
}
