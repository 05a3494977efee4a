"""Table-driven scanners: arbitrary objects of the real classes, laid out by the real compiler."""
from lib import *

NI = ("-Xclang", "-disable-llvm-passes", "-fno-access-control")
U64 = ir.I(64)


def gconst(mod, name):
    return mod.globals["@" + name][1][1]


def offs(mod, prefix):
    n = "@vc_" + prefix
    return {k[len(n):]: v[1][1] for k, v in mod.globals.items() if k.startswith(n)}


def obj(e, st, name, size, fields, readonly=False):
    """an object of `size` bytes with the given fields {offset: (width, V)}; the rest is arbitrary"""
    r = e.new_region(st, name, size, readonly=readonly)
    st.mem[r] = Cells(dict(fields))
    return r


def at(r, off): return V(simp(r.base + (bv(off) if isinstance(off, int) else off)), r)


def get(e, st, r, off, w=64): return e.load(st, at(r, off), ir.I(w)).e


def table(e, st, name, size, w=64, base=None, readonly=True, align=8):
    """a region of bytes whose contents are an arbitrary function of the address"""
    if not readonly:
        arr = z3.Array(name + "_bytes", BV(64), BV(8))
        r = e.new_region(st, name, kind="bytes", size=size, base=base, align=align)
        st.mem[r] = Raw(arr)
        r.f = lambda a: z3.Select(arr, a)
        return r
    f = z3.Function(name + "_byte", BV(64), BV(8))
    r = e.new_region(st, name, kind="bytes", size=size, init=UF(f), readonly=readonly, base=base, align=align)
    r.f = f
    return r


def word(r, addr, n):
    p = [r.f(simp(addr + bv(i))) for i in range(n)]
    return simp(z3.Concat(*reversed(p))) if n > 1 else p[0]


class Loaded:
    """An arbitrary LoadedScanner (or derived) object: any letter table into the classes, any transitions, any tags.
    valid(s): s is the address of a row of the table, i.e. the row's entries lie inside the table."""

    def __init__(self, e, st, m, size=None, extra=None):
        self.e, self.m = e, m
        o = self.o = offs(m, "off_")
        self.maxchar = gconst(m, "vc_max_char")
        self.states, self.letters, self.regexps = z3.BitVecs("statesCount lettersCount regexpsCount", 32)
        S, L = z3.ZeroExt(32, self.states), z3.ZeroExt(32, self.letters)
        self.L = L
        self.tsize, self.init = z3.BitVecs("tableSize initial", 64)
        e.facts += [z3.UGE(L, bv(1)), z3.ULE(L, bv(1 << 10)), z3.ULE(self.tsize, bv(1 << 44))]
        self.lt = table(e, st, "letters", self.maxchar)
        self.jt = table(e, st, "jumps", self.tsize)
        self.tt = table(e, st, "tags", S)
        self.lt.on_load = self.on_letter
        f = {o["letters"]: (8, ptr(self.lt)), o["jumps"]: (8, ptr(self.jt)), o["tags"]: (8, ptr(self.tt)),
             o["statesCount"]: (4, V(self.states)), o["lettersCount"]: (4, V(self.letters)), o["regexpsCount"]: (4, V(self.regexps)),
             o["initial"]: (8, V(self.init, self.jt))}
        f.update(extra or {})
        self.r = obj(e, st, "scanner", size or gconst(m, "vc_size_loaded"), f, readonly=True)

    def on_letter(self, e, st, p, n, ty):
        # table invariant: every entry of the letter table is the number of a letter class (Init, C04)
        e.fact(z3.ULT(z3.ZeroExt(56, self.lt.f(simp(p.e))), self.L))

    def letter(self, c): return z3.ZeroExt(56, self.lt.f(simp(self.lt.base + z3.ZeroExt(64 - c.size(), c))))

    def valid(self, s):
        d = s - self.jt.base
        return z3.And(z3.ULE(self.L * bv(8), self.tsize), z3.ULE(d, self.tsize - self.L * bv(8)))

    def entry(self, s, letter):
        """(shift as signed 64 bit, action) of the row s"""
        w = word(self.jt, simp(s + letter * bv(8)), 8)
        return z3.SignExt(32, z3.Extract(31, 0, w)), z3.Extract(63, 32, w)


# ---------------------------------------------------------------- std::vector

def vecf(off, data, begin, end, cap=None):
    """the fields of a std::vector at offset off whose elements are [begin, end) of the region data (libstdc++: three pointers)"""
    return {off: (8, V(begin, data)), off + 8: (8, V(end, data)), off + 16: (8, V(end if cap is None else cap, data))}


def which(p, *regions_offs):
    """which of the objects (region, offset) the pointer p is the address of; None if none"""
    for k, (r, o) in enumerate(regions_offs):
        if p.prov is r and conc(simp(p.e - r.base)) == o: return k
    return None


class Probe:
    """A vector of counters, observed at one arbitrary index j (so what is proved holds of every index).
    Loads elsewhere give arbitrary values, stores elsewhere are checked for bounds and dropped."""

    def __init__(self, e, st, name, count, j, value, n=4):
        self.e, self.count, self.j, self.n = e, count, j, n
        self.r = e.new_region(st, name, None)
        self.cell = e.new_region(st, name + "[j]", n)
        st.mem[self.cell] = Cells({0: (n, V(value))})
        self.r.lv = self

    def index(self, st, p, what):
        off = simp(p.e - self.r.base)
        self.e.oblige(st, "%s of %s within the vector" % (what, self.r.name), z3.And(off & bv(self.n - 1) == 0, z3.ULT(z3.LShR(off, {4: 2, 8: 3}[self.n]), self.count)), "memory")
        return off == self.j * bv(self.n)

    def gep(self, e, st, p): return p

    def load(self, e, st, p, ty):
        hit = self.index(st, p, "load")
        v = e.load(st, ptr(self.cell), ir.I(8 * self.n)).e
        return V(z3.If(hit, v, e.fresh("other", 8 * self.n)))

    def store(self, e, st, p, v, ty):
        hit = self.index(st, p, "store")
        old = e.load(st, ptr(self.cell), ir.I(8 * self.n)).e
        e.store(st, ptr(self.cell), V(simp(z3.If(hit, v.e, old))), ir.I(8 * self.n))


class Watch(Probe):
    """An array observed at several arbitrary places js (indices, or with bytes=True offsets)."""

    def __init__(self, e, st, name, count, js, n=8, base=None, bytes=False):
        self.e, self.count, self.n = e, count, n
        self.js = js if bytes else [simp(j * bv(n)) for j in js]
        self.r = e.new_region(st, name, None, base=base)
        self.cells = []
        for k, j in enumerate(js):
            c = e.new_region(st, "%s[j%d]" % (name, k), n)
            st.mem[c] = Cells({0: (n, V(z3.BitVec("old_%s_%d" % (name, k), 8 * n)))})
            self.cells.append(c)
        self.r.lv = self

    def value(self, st, k): return get(self.e, st, self.cells[k], 0, 8 * self.n)

    def index(self, st, p, what):
        off = simp(p.e - self.r.base)
        c = z3.ULT(off, self.count * bv(self.n))         # count * n does not overflow: counts are below 2^32
        self.e.oblige(st, "%s of %s within its bounds" % (what, self.r.name), z3.And(off & bv(self.n - 1) == 0, c) if self.n > 1 else c, "memory")
        return off

    def load(self, e, st, p, ty):
        off = self.index(st, p, "load")
        v = e.fresh("other", 8 * self.n)
        for k, j in enumerate(self.js): v = z3.If(off == j, self.value(st, k), v)
        return V(simp(v))

    def store(self, e, st, p, v, ty):
        off = self.index(st, p, "store")
        for k, j in enumerate(self.js):
            e.store(st, ptr(self.cells[k]), V(simp(z3.If(off == j, v.e, self.value(st, k)))), ir.I(8 * self.n))
