from multi import *
from framework import Item, Harness, run_check
from C14 import err
VAR = {"Scanner": (), "ScannerNoMask": ("SC=Pire::ScannerNoMask",)}
U = lambda x: simp((x + bv(7)) & bv(~7 & (1 << 64) - 1))
KINDS = {"sc": dict(fields=("states", "letters", "regexps", "initial", "ftsize", "rsig", "ssig"), ptrs=("ltab", "final", "findex", "trans"), rows="trans", fn="vc_"),
         "sm": dict(fields=("states", "initial"), ptrs=("trans",), rows="trans", fn="vm_"),
         "lo": dict(fields=("statesCount", "lettersCount", "regexpsCount", "initial"), ptrs=("letters", "jumps", "tags"), rows="jumps", fn="vl_"),
         "sl": dict(fields=("states", "letters", "start"), ptrs=("ltab", "finals", "jumpPos", "jumps", "actions"), rows=None, fn="vw_")}
W4 = {"sc": ("states", "letters", "regexps", "ftsize"), "lo": ("statesCount", "lettersCount", "regexpsCount"), "sm": (), "sl": ()}


def ML(kind="sc", variant="Scanner"): return module("saveload.cpp", VAR[variant] if kind == "sc" else (), NI)


def eng(kind="sc", variant="Scanner"):
    e = Engine(ML(kind, variant), err(None))
    e.abstract_mul = True
    st = start()
    return e, st


def call(e, st, fn, args):
    """(result, normal state, the states in which it throws)"""
    f = e.find(fn)
    e.stack[:] = []
    rv, o, th = e.call_function(f, args, st, top=True)
    e.stack.append(f)
    if len(th) > 1:
        for t in th: t.env = {}
        th = [e.merge_states(th)]
    return rv, o, th


def covers(e, th):
    if th: cover(e, State(Or(*[x.g for x in th]), th[0].mem, {}, {}), "the errors are reachable")


def header_ok(e, w, type_, size, older=True):
    """is the header of six 32-bit words w acceptable for the type and size of the fields"""
    g = lambda n: bv(gconst(e.m, "vc_type_" + n), 32)
    return z3.And(w[0] == bv(0x45524950, 32), z3.Or(w[1] == bv(7, 32), w[1] == bv(6, 32)), w[2] == bv(8, 32), w[3] == bv(16, 32),
                  z3.Or(type_ == g("none"), w[4] == type_, z3.And(type_ == g("lo"), w[4] == g("ngl"))), z3.Or(size == 0, z3.ZeroExt(32, w[5]) == size))


def headers(case):
    """Validate() accepts the headers that the constructor makes and, for one older version and one derived type, no others"""
    e, st = eng()
    t, n, t2, n2 = z3.BitVec("type", 32), z3.BitVec("size", 64), z3.BitVec("type2", 32), z3.BitVec("size2", 64)
    h = e.new_region(st, "header", 24, align=4)
    st.mem[h] = Cells({4 * k: (4, V(z3.BitVec("word%d" % k, 32))) for k in range(6)})
    w = [z3.BitVec("word%d" % k, 32) for k in range(6)]
    ok = header_ok(e, w, t, n)
    rv, o, th = call(e, st, "vc_validate", [ptr(h), V(t), V(n)])
    e.oblige(o, "returns only for an acceptable header", ok, "post")
    for x in th: e.oblige(x, "throws only for another one", z3.Not(ok), "post")
    for k in range(6): e.oblige(o, "the header does not change", get(e, o, h, 4 * k, 32) == w[k], "frame")
    cover(e, o)
    covers(e, th)
    h2 = e.new_region(st, "header2", 24, align=4)
    rv, o, th = call(e, st, "vc_header", [ptr(h2), V(t2), V(n2)])
    no_throw(e, th, "Header()")
    v = [get(e, o, h2, 4 * k, 32) for k in range(6)]
    e.oblige(o, "a new header is acceptable for its own type and size", z3.Implies(z3.ULT(n2, bv(1 << 32)), header_ok(e, v, t2, n2)), "post")
    return e


def spot(e, st, aligned=True):
    """a mapped range [p, p + n) and the variables that hold it"""
    p, n = z3.BitVecs("p n", 64)
    e.facts += [z3.UGE(p, bv(4096)), z3.ULE(p, bv(1 << 46)), z3.ULE(n, bv(1 << 46))]
    if aligned: e.fact(p & bv(7) == 0)
    r = table(e, st, "mapped", n, base=p, align=1)
    pv, nv = e.new_region(st, "pointer", 8), e.new_region(st, "left", 8)
    st.mem[pv] = Cells({0: (8, V(p, r))}); st.mem[nv] = Cells({0: (8, V(n))})
    return p, n, r, pv, nv


def advance(case):
    """AdvancePtr, AlignPtr, CheckAlign, MapPtr: never past the end; throw exactly when the range is too short"""
    fn, w = case
    e, st = eng()
    p, n, r, pv, nv = spot(e, st, aligned=False)
    c = z3.BitVec("count", 64)
    P, N = ptr(pv), ptr(nv)
    if fn == "vc_checkalign":
        rv, o, th = call(e, st, fn, [V(p, r)])
        e.oblige(o, "returns only when aligned", p & bv(7) == 0, "post")
        for x in th: e.oblige(x, "throws only when not aligned", p & bv(7) != 0, "post")
        cover(e, o)
        covers(e, th)
        return e
    if fn == "vc_advance": args, ok, take = [P, N, V(c)], z3.ULE(c, n), c
    elif fn == "vc_align": args, take = [P, N], U(p) - p; ok = z3.ULE(take, n)
    else:
        f = e.new_region(st, "field", 8)
        args = [ptr(f), V(c), P, N]
        fits = z3.ULE(c, z3.LShR(n, {8: 3, 1: 0}[w]))                 # count * size <= n, without overflow
        take = U(p + c * bv(w)) - p
        ok = z3.And(fits, z3.ULE(take, n))
    rv, o, th = call(e, st, fn, args)
    e.oblige(o, "returns only when the range is long enough", ok, "post")
    for x in th: e.oblige(x, "throws only when it is too short", z3.Not(ok), "post")
    e.oblige(o, "the pointer moves past what was taken", get(e, o, pv, 0) == p + take, "post")
    e.oblige(o, "the rest still ends where it did", get(e, o, pv, 0) + get(e, o, nv, 0) == p + n, "post")
    e.oblige(o, "within the range", z3.And(z3.UGE(get(e, o, pv, 0), p), z3.ULE(get(e, o, pv, 0), p + n)), "post")
    if fn in ("vc_advance", "vc_align"): e.oblige(o, "returns the pointer", rv.e == get(e, o, pv, 0), "post")
    else: e.oblige(o, "the field is where the pointer was", get(e, o, f, 0) == p, "post")
    cover(e, o)
    covers(e, th)
    return e


# ---------------------------------------------------------------- objects and the stored form

class Obj:
    """An object of one of the scanner classes with arbitrary fields"""

    def __init__(self, e, st, kind, name, readonly=False):
        self.e, self.kind, self.name = e, kind, name
        m = e.m
        self.o = {k: v for k, v in offs(m, kind + "_").items()}
        self.K = KINDS[kind]
        self.M = gconst(m, "vc_M_" + kind)
        f = {}
        for n in self.K["fields"]:
            w = self.width(n)
            f[self.o[n]] = (w // 8, V(z3.BitVec("%s_%s" % (name, n), w)))
        for n in self.K["ptrs"]: f[self.o[n]] = (8, V(z3.BitVec("%s_%s" % (name, n), 64)))
        if "buffer" in self.o: f[self.o["buffer"]] = (8, V(bv(0)))
        self.r = obj(e, st, name, gconst(m, "vc_size_" + kind), f, readonly=readonly)

    def width(self, n): return 32 if n in W4[self.kind] else 64

    def all(self): return self.K["fields"] + self.K["ptrs"] + (("buffer",) if "buffer" in self.o else ())

    def snap(self, st): return {n: get(self.e, st, self.r, self.o[n], self.width(n)) for n in self.all()}

    def frame(self, st, was, what):
        now = self.snap(st)
        for n in was: self.e.oblige(st, "%s: %s" % (what, n), now[n] == was[n], "post")

    def stored(self, r, n):
        """the field n in the stored form that starts at the beginning of r"""
        return word(r, simp(r.base + bv(24 + self.o[n] - self.o["m"])), self.width(n) // 8)


def sane(e, x, kind, get_):
    """what the numbers of a stored scanner satisfy: representable sizes"""
    S = lambda n: z3.ZeroExt(32, get_(n))
    if kind == "sc":
        e.facts += [z3.ULE(S("letters"), bv(1 << 10)), z3.ULE(S("states"), bv(1 << 31)), z3.ULE(get_("ftsize"), bv(1 << 31, 32))]
    elif kind == "lo": e.facts += [z3.ULE(S("lettersCount"), bv(256)), z3.ULE(S("statesCount"), bv(1 << 31))]
    else: e.facts += [z3.ULE(get_("states"), bv(1 << 30))] + ([z3.ULE(get_("letters"), bv(1 << 10))] if kind == "sl" else [])


class Shape:
    """The size and the places of the tables for the given numbers: contracts of BufSize() and Markup() [C04 Layout]"""

    def __init__(self, e, st, t, fields):
        self.st, self.t, self.fields = st, t, {f: v for f, v in fields.items() if f in ("states", "letters", "ftsize", "statesCount", "lettersCount")}
        self.size = z3.BitVec("buffer_size", 64)
        self.at = {n: z3.BitVec("at_" + n, 64) for n in t.K["ptrs"]}
        e.facts += [self.size & bv(7) == 0, z3.ULE(self.size, bv(1 << 44))] + [z3.ULE(v, self.size) for v in self.at.values()]
        e.fact(self.at[t.K["ptrs"][0]] == 0)
        e.contracts += [Contract(lambda d: d.endswith("::BufSize() const"), self.bufsize, "BufSize [C04 Layout]"),
                        Contract(lambda d: d.endswith("::Markup(void*)"), self.markup, "Markup [C04 Layout]")]

    def check(self, e, st, r):
        for f, v in self.fields.items(): e.oblige(st, "BufSize and Markup of an object with the stored numbers: " + f, get(e, st, r, self.t.o[f], self.t.width(f)) == v, "pre")

    def bufsize(self, e, st, a, inst): self.check(e, st, a[0].prov); return V(self.size)

    def markup(self, e, st, a, inst):
        self.check(e, st, a[0].prov)
        for n, v in self.at.items(): e.store(st, at(a[0].prov, self.t.o[n]), V(simp(a[1].e + v), a[1].prov), ir.PTR)


UP = z3.Function("rounded_up", BV(64), BV(45))


def up(e, x):
    """U(x), named, with what is needed of it"""
    x = simp(x)
    if conc(x) is not None: return U(x)
    t = z3.Concat(bv(0, 16), UP(x), bv(0, 3))
    e.facts += [z3.ULE(x, t), z3.ULT(t - x, bv(8))]       # x <= 2^47 is checked or assumed where it is used
    return t


def flat(x): return [y for c in x.children() for y in flat(c)] if z3.is_and(x) else [x]


def mapptr(t, p0, n0):
    """MapPtr(field, count, p, size) at an aligned pointer [item Pointers]"""
    sizes = {"bool const": 1, "unsigned char": 1, "char": 1, "unsigned int": 4, "unsigned int const": 4, "unsigned long": 8, "unsigned long const": 8, "Pire::LoadedScanner::Transition": 8, "Pire::Header const": 24}

    def apply(e, st, a, inst):
        ty = e.cur_fn.dem.split("MapPtr<", 1)[1].split(">(", 1)[0]
        w = t.M if ty.endswith("::Locals") else sizes.get(ty)
        if w is None: raise Unmodelled("MapPtr of " + ty)
        p, n = e.load(st, a[2], ir.PTR), e.load(st, a[3], ir.I(64)).e
        e.oblige(st, "MapPtr at a whole word", p.e & bv(7) == 0, "pre")
        c = a[1].e
        take = up(e, c * bv(w))
        e.oblige(st, "a count whose bytes do not overflow", z3.ULE(c, bv(1 << 44)), "pre")
        ok = z3.ULE(take, n)
        bad = st.copy(z3.And(st.g, z3.Not(ok)))
        e.throws.append(bad)
        st.g = simp(z3.And(st.g, ok))
        e.store(st, a[0], p, ir.PTR)
        e.store(st, a[2], V(simp(p.e + take), p.prov), ir.PTR)
        left = simp(p0 + n0 - (p.e + take))
        e.oblige(st, "what is left ends at the end of the range", simp(n - take) == left, "pre")
        e.store(st, a[3], V(left), ir.I(64))
        return None
    return Contract(lambda d: "Impl::MapPtr<" in d, apply, "MapPtr [item Pointers]")


class LoadedShape:
    """the stored form of a LoadedScanner: every table at the next whole word, and in the older version the actions before the tags"""

    def __init__(self, e, st, t, r, g, variant):
        S, L = z3.ZeroExt(32, g("statesCount")), z3.ZeroExt(32, g("lettersCount"))
        n = z3.ZeroExt(32, e.mul(g("statesCount"), g("lettersCount")))
        # representable range: the product fits 32 bits (the code multiplies there)
        e.facts += [z3.ULE(n, bv(1 << 31)), n == e.mul(S, L)]
        older = z3.BoolVal(variant == "6") if variant in ("6", "7") else word(r, simp(r.base + bv(4)), 4) == bv(6, 32)
        a = U(bv(gconst(e.m, "vc_max_char")))
        c = simp(a + up(e, n * bv(8)) + z3.If(older, up(e, n * bv(4)), bv(0)))
        self.st, self.at, self.size = st, {"letters": bv(0), "jumps": a, "tags": c}, simp(c + up(e, S * bv(gconst(e.m, "vc_size_tag"))))


def mmap(case):
    """Mmap(): throws exactly when the data is misaligned, short or foreign, leaving the target alone; otherwise the scanner stored there"""
    kind, variant = case
    e, st = eng(kind, variant)
    p, n, r, pv, nv = spot(e, st, aligned=False)
    t = Obj(e, st, kind, "target")
    g = lambda f: t.stored(r, f)
    sane(e, t, kind, g)
    M = bv(t.M)
    type_ = bv(gconst(e.m, "vc_type_" + kind), 32)
    sh = Shape(e, st, t, {f: g(f) for f in KINDS[kind]["fields"]}) if kind != "lo" else LoadedShape(e, st, t, r, g, variant)
    st = sh.st
    null = Obj(e, st, kind, "null", readonly=True)
    e.contracts.append(Contract(lambda d: d.split("(")[0].endswith("::Null"), lambda e, st, a, i: ptr(null.r), "Null() is one fixed scanner"))
    was, nul = t.snap(st), null.snap(st)
    if kind == "sc": e.facts += [x == bv(gconst(e.m, "vc_" + s)) for y in (nul, was) for x, s in ((y["rsig"], "sig"), (y["ssig"], "ssig"))]     # class invariant
    e.contracts.append(mapptr(t, p, n))
    version = word(r, simp(p + bv(4)), 4)
    if variant in ("6", "7"): 
        e.fact(version == bv(int(variant), 32))
        raw = r.f
        r.f = st.mem[r].f = lambda a: {i: bv(int(variant) if i == 0 else 0, 8) for i in range(4)}.get(k - 4, raw(a)) if (k := conc(simp(a - p))) is not None else raw(a)
    elif variant == "other": e.facts += [version != bv(6, 32), version != bv(7, 32)]
    head = bv(24) + M + bv(8 if kind != "lo" else 0)
    flag = word(r, simp(p + bv(24) + M), 1)
    if kind != "lo": e.fact(z3.ULE(flag, bv(1, 8)))                       # a stored bool
    empty = flag != 0 if kind != "lo" else FALSE
    hdr = header_ok(e, [word(r, simp(p + bv(4 * k)), 4) for k in range(6)], type_, M)
    ok = z3.And(p & bv(7) == 0, z3.ULE(bv(24), n), hdr, z3.ULE(bv(24) + M, n))
    if kind == "sc": ok = z3.And(ok, g("rsig") == bv(gconst(e.m, "vc_sig")), g("ssig") == bv(gconst(e.m, "vc_ssig")))
    ok = z3.And(ok, z3.ULE(head, n))
    total = simp(head + z3.If(empty, bv(0), sh.size))
    ok = z3.And(*(flat(ok) + [z3.ULE(total, n)]))
    rv, o, th = call(e, st, KINDS[kind]["fn"] + "mmap", [ptr(t.r), V(p, r), V(n)])
    for c in [] if o is None or variant in ("6", "other") else (ok.children() if kind == "lo" else [ok]): e.oblige(o, "returns only for complete data of its own kind at an aligned address", c, "post")
    for x in th:
        if variant != "6": e.oblige(x, "throws only for other data", z3.Not(ok), "post")      # for the older version of the format only what is mapped is decided
        t.frame(x, was, "the target of a failed Mmap does not change")
    if o is None or variant == "other":                                 # no such data is accepted
        e.oblige(o or st, "data of another version is not accepted", FALSE if o is not None else z3.BoolVal(True), "post"); covers(e, th)
        return e
    e.oblige(o, "returns the end of what is stored", rv.e == p + total, "post")
    now = t.snap(o)
    data = p + head
    for f in t.all():
        if f == "buffer": e.oblige(o, "owns no buffer", now[f] == 0, "post"); continue
        rows = KINDS[kind]["rows"]
        if f == "initial": e.oblige(o, "the initial state is at the stored distance from the rows", now[f] - now[rows] == z3.If(empty, nul[f] - nul[rows], g(f)), "post")
        elif f in ("rsig", "ssig"): e.oblige(o, "its own signature", now[f] == bv(gconst(e.m, "vc_" + f.replace("rsig", "sig"))), "post")
        else: e.oblige(o, "what is stored there, or the empty scanner: " + f, now[f] == z3.If(empty, nul[f], sh.at[f] + data if f in sh.at else g(f)), "post")
    cover(e, o)
    covers(e, th)
    return e


# ---------------------------------------------------------------- streams

class Streams:
    """A stream is a sequence of bytes and a position in it. Input: whatever bytes, ending anywhere. Output: what is written at one arbitrary position."""

    def __init__(self, e, st, length=None):
        self.e = e
        self.len = z3.BitVec("stream_length", 64)
        self.base = z3.BitVec("stream_base", 64)
        e.facts += [z3.UGE(self.base, bv(4096)), z3.ULE(self.base, bv(1 << 46)), z3.ULE(self.len, bv(1 << 46))]
        self.data = table(e, st, "stream", None, base=self.base, align=1)
        self.pos, self.got = e.new_region(st, "position", 8), e.new_region(st, "gcount", 8)
        st.mem[self.pos] = Cells({0: (8, V(bv(0)))}); st.mem[self.got] = Cells({0: (8, V(bv(0)))})
        self.k = z3.BitVec("k", 64)                                        # the watched position of the output
        self.out = e.new_region(st, "written", 1)
        st.mem[self.out] = Cells({0: (1, V(z3.BitVec("never_written", 8)))})
        self.obj = e.new_region(st, "stream object", 512)
        self.reads = []                                                    # (path, where to, from where, how much)
        e.contracts += [Contract(lambda d: d.startswith("std::istream::read("), self.read, "std::istream::read", trusted=True),
                        Contract(lambda d: d.startswith("std::istream::gcount("), lambda e, st, a, i: V(get(e, st, self.got, 0)), "std::istream::gcount", trusted=True),
                        Contract(lambda d: d.startswith("std::ostream::write("), self.write, "std::ostream::write", trusted=True)]

    def at(self, st): return get(self.e, st, self.pos, 0)

    def byte(self, i, n=1): return word(self.data, simp(self.base + (bv(i) if isinstance(i, int) else i)), n)

    def read(self, e, st, a, inst):
        dst, n, p = a[1], simp(a[2].e), self.at(st)
        ok = z3.ULE(n, self.len - p)
        self.reads.append((st.g, dst.e, p, n))
        if conc(n) is not None and conc(n) <= 64:
            k = conc(n)
            r = e.resolve(st, dst, k)
            q = 0
            while q < k:
                w = next(w for w in (8, 4, 2, 1) if k - q >= w)
                e.store(st, V(simp(dst.e + bv(q)), dst.prov), V(self.byte(simp(p + bv(q)), w)), ir.I(8 * w))
                q += w
        else: e.memcpy(st, dst, V(simp(self.base + p), self.data), V(n))
        # after a short read the rest of the buffer is arbitrary: the bytes behind the end of `data` are
        e.store(st, ptr(self.got), V(simp(z3.If(ok, n, self.len - p))), ir.I(64))
        e.store(st, ptr(self.pos), V(simp(z3.If(ok, p + n, self.len))), ir.I(64))
        return a[0]

    def write(self, e, st, a, inst):
        src, n, p = a[1], simp(a[2].e), self.at(st)
        hit = z3.ULT(self.k - p, n)
        r = src.prov
        if r is None: raise Unmodelled("write from nowhere")
        if r.size is not None: e.oblige(st, "what is written lies in " + r.name, z3.Or(n == 0, z3.And(z3.ULE(n, r.size), z3.ULE(simp(src.e - r.base), r.size - n))), "memory")
        c = st.mem.get(r)
        addr = simp(src.e + (self.k - p))
        if isinstance(c, Cells) and conc(n) is not None:
            v = e.fresh("unwritten", 8)
            for q in range(conc(n)): v = z3.If(self.k - p == q, e.load(st, V(simp(src.e + bv(q)), r), ir.I(8)).e, v)
        else: v = word(r, addr, 1) if isinstance(c, UF) else e.read_bytes(e.lower(st, r).a, addr, 1)
        e.store(st, ptr(self.out), V(simp(z3.If(hit, v, get(e, st, self.out, 0, 8)))), ir.I(8))
        e.store(st, ptr(self.pos), V(simp(p + n)), ir.I(64))
        return a[0]


def alignup(e, whole):
    """AlignUp(n, 8) [item AlignUp]; the sizes in `whole` are whole words (C04 Layout)"""
    def apply(e, st, a, inst):
        x, b = simp(a[0].e), conc(a[1].e)
        if b != 8: return V(simp((x + a[1].e - bv(1)) & ~(a[1].e - bv(1))))
        if any(z3.eq(x, w) for w in whole): return V(x)
        e.oblige(st, "a size that does not overflow", z3.ULE(x, bv(1 << 47)), "pre")
        return V(up(e, x))
    for w in whole: e.fact(w & bv(7) == 0)
    return Contract(lambda d: "Impl::AlignUp<unsigned long>(" in d, apply, "AlignUp [item AlignUp]")


def rounding(case):
    e, st = eng()
    n = z3.BitVec("n", 64)
    e.fact(z3.ULE(n, bv(1 << 47)))
    rv, o, th = call(e, st, "vc_alignup", [V(n)])
    no_throw(e, th, "AlignUp")
    e.oblige(o, "the next whole word", z3.And(rv.e & bv(7) == 0, z3.ULE(n, rv.e), z3.ULT(rv.e - n, bv(8))), "post")
    e.oblige(o, "a whole word stays", z3.Implies(n & bv(7) == 0, rv.e == n), "post")
    cover(e, o)
    return e


def arrays(case):
    """AlignedSaveArray writes the bytes of the array and zeros up to a whole word; AlignedLoadArray reads the same amount and fills the array"""
    fn, w = case
    e, st = eng()
    s = Streams(e, st)
    c, j = z3.BitVecs("count j", 64)
    e.fact(z3.ULE(c, bv(1 << 40)))
    size = simp(c * bv(w))
    p0 = z3.BitVec("position", 64)
    e.facts += [z3.ULE(p0, s.len)]
    st.mem[s.pos] = Cells({0: (8, V(p0))})
    if "save" in fn:
        a = table(e, st, "array", size)
        rv, o, th = call(e, st, fn, [ptr(s.obj), ptr(a), V(c)])
        no_throw(e, th, fn)
        e.oblige(o, "a whole number of words is written", s.at(o) == p0 + U(size), "post")
        d = s.k - p0
        e.oblige(o, "the bytes of the array, then zeros", get(e, o, s.out, 0, 8) == z3.If(z3.ULT(d, size), word(a, simp(a.base + d), 1), z3.If(z3.ULT(d, U(size)), bv(0, 8), z3.BitVec("never_written", 8))), "post")
    else:
        a = e.new_region(st, "array", kind="bytes", size=size)
        rv, o, th = call(e, st, fn, [ptr(s.obj), ptr(a), V(c)])
        ok = z3.ULE(U(size), s.len - p0)
        e.oblige(o, "returns only when the stream was long enough", ok, "post")
        for x in th: e.oblige(x, "throws only when it was not", z3.Not(ok), "post")
        e.oblige(o, "the array and the filling were consumed", s.at(o) == p0 + U(size), "post")
        e.oblige(o, "the array is what the stream has", z3.Implies(z3.ULT(j, size), e.read_bytes(e.lower(o, a).a, simp(a.base + j), 1) == s.byte(simp(p0 + j))), "post")
        covers(e, th)
    cover(e, o)
    return e


def le(x, n): return [simp(z3.Extract(8 * i + 7, 8 * i, x)) for i in range(n)]


def listed(bytes_):
    def f(d):
        v = bytes_[-1]
        for i, x in enumerate(bytes_[:-1]): v = z3.If(d == i, x, v)
        return v
    return bv(len(bytes_)), f


def save(case):
    """Save(): the header, the numbers with the initial state as a distance, whether it is empty, and the tables; every byte of it"""
    kind, variant = case
    e, st = eng(kind, variant)
    x = Obj(e, st, kind, "stored")
    F = {f: z3.BitVec("stored_%s" % f, x.width(f)) for f in x.K["fields"]}
    sane(e, x, kind, lambda f: F[f])
    empty = z3.Bool("is_empty")
    e.contracts.append(Contract(lambda d: d.endswith("::Empty() const"), lambda e, st, a, i: V(empty), "Empty()"))
    zero = lambda d: bv(0, 8)
    if kind == "lo":
        S, L = z3.ZeroExt(32, F["statesCount"]), z3.ZeroExt(32, F["lettersCount"])
        n = z3.ZeroExt(32, e.mul(F["statesCount"], F["lettersCount"]))
        e.facts += [z3.ULE(n, bv(1 << 31)), n == e.mul(S, L)]
        sizes = {"letters": bv(gconst(e.m, "vc_max_char")), "jumps": simp(n * bv(8)), "tags": simp(S * bv(gconst(e.m, "vc_size_tag")))}
        T = {f: table(e, st, f, z) for f, z in sizes.items()}
        at_ = {f: T[f].base for f in T}
        tables = [q for f, z in sizes.items() for q in ((z, lambda d, f=f: word(T[f], simp(T[f].base + d), 1)), (simp(up(e, z) - z), zero))]
    else:
        sh = Shape(e, st, x, F)
        st = sh.st
        t = table(e, st, "tables", sh.size)
        at_ = {f: simp(t.base + o) for f, o in sh.at.items()}
        T = {f: t for f in at_}
        tables = [(z3.If(empty, bv(0), sh.size), lambda d: word(t, simp(t.base + d), 1))]
    for f in x.K["ptrs"]: st.mem[x.r].d[x.o[f]] = (8, V(at_[f], T[f]))
    x.r.readonly = True
    s = Streams(e, st)
    e.contracts.append(alignup(e, [sh.size] if kind != "lo" else []))
    type_ = bv(gconst(e.m, "vc_type_" + kind), 32)
    if kind == "lo":
        type_ = z3.BitVec("type", 32)
        e.fact(z3.Or(type_ == bv(gconst(e.m, "vc_type_lo"), 32), type_ == bv(gconst(e.m, "vc_type_ngl"), 32)))
    args = [ptr(x.r), ptr(s.obj)] + ([V(type_)] if kind == "lo" else [])
    rv, o, th = call(e, st, KINDS[kind]["fn"] + "save", args)
    no_throw(e, th, "Save()")
    hdr = [q for v in (bv(0x45524950, 32), bv(7, 32), bv(8, 32), bv(16, 32), type_, bv(x.M, 32)) for q in le(v, 4)]
    m = [None] * x.M
    for f in x.K["fields"]:
        v = F[f] if f != "initial" else simp(F[f] - at_[KINDS[kind]["rows"]])
        for i, q in enumerate(le(v, x.width(f) // 8)): m[x.o[f] - x.o["m"] + i] = q
    anyb = {i for i, q in enumerate(m) if q is None}                       # padding between the numbers
    parts = [listed(hdr), listed([q if q is not None else bv(0, 8) for q in m])]
    if kind != "lo": parts += [listed([z3.If(empty, bv(1, 8), bv(0, 8))] + [bv(0, 8)] * 7)]
    parts += tables
    total = simp(sum((n for n, f in parts[1:]), parts[0][0]))
    e.oblige(o, "the whole form is written", s.at(o) == total, "post")
    # the watched byte lies in one part, or behind the end
    starts = [bv(0)]
    for n, f in parts: starts.append(simp(starts[-1] + n))
    ranges = list(zip(starts, starts[1:]))                                 # behind the last part nothing is written: the position is at its end
    for q, (a, b) in enumerate(ranges):
        want = parts[q][1](simp(s.k - a))
        d = z3.BitVec("d", 64)                                             # k = a + d
        g_, cell, want = [simp(z3.substitute(x, (s.k, simp(a + d)))) for x in (o.g, get(e, o, s.out, 0, 8), want)]
        inside = z3.ULT(d, simp(b - a))
        o2 = State(g_, o.mem, {}, {})
        e.oblige(o2, "every byte of part %d" % q, z3.Implies(z3.And(inside, *[a + d != 24 + i for i in anyb]), cell == want), "post")
    cover(e, o)
    return e


def load(case):
    """Load(): throws exactly when the stream is short or foreign, leaving the target alone; otherwise the scanner stored there, and nothing behind it is consumed"""
    kind, variant = case
    e, st = eng(kind, variant)
    s = Streams(e, st)
    t = Obj(e, st, kind, "target")
    g = lambda f: s.byte(24 + t.o[f] - t.o["m"], t.width(f) // 8)
    sane(e, t, kind, g)
    M = bv(t.M)
    version = s.byte(4, 4)
    if kind == "lo": e.fact(version == bv(7, 32))
    if kind == "lo":
        S, L = z3.ZeroExt(32, g("statesCount")), z3.ZeroExt(32, g("lettersCount"))
        n = z3.ZeroExt(32, e.mul(g("statesCount"), g("lettersCount")))
        e.facts += [z3.ULE(n, bv(1 << 31)), n == e.mul(S, L)]
        sizes = {"letters": bv(gconst(e.m, "vc_max_char")), "jumps": simp(n * bv(8)), "tags": simp(S * bv(gconst(e.m, "vc_size_tag")))}
        sh = Shape(e, st, t, {f: g(f) for f in KINDS[kind]["fields"]})
        e.facts += [sh.at["letters"] == 0, z3.ULE(sizes["letters"], sh.at["jumps"]), z3.ULE(sh.at["jumps"] + sizes["jumps"], sh.at["tags"]), z3.ULE(sh.at["tags"] + sizes["tags"], sh.size)]
        body = simp(sum((up(e, z) for z in list(sizes.values())[1:]), U(sizes["letters"])))
        empty, head = FALSE, bv(24) + M
    else:
        sh = Shape(e, st, t, {f: g(f) for f in KINDS[kind]["fields"]})
        st = sh.st
        body, head = sh.size, bv(32) + M
        flag = s.byte(24 + t.M)
        e.fact(z3.ULE(flag, bv(1, 8)))
        empty = flag != 0
    null = Obj(e, st, kind, "null", readonly=True)
    e.contracts.append(Contract(lambda d: d.split("(")[0].endswith("::Null"), lambda e, st, a, i: ptr(null.r), "Null() is one fixed scanner"))
    was, nul = t.snap(st), null.snap(st)
    sig = [x == bv(gconst(e.m, "vc_" + q)) for y in (nul, was) for x, q in ((y["rsig"], "sig"), (y["ssig"], "ssig"))] if kind == "sc" else []
    e.facts += sig
    e.contracts.append(alignup(e, [sh.size] if kind != "lo" else []))
    ok = z3.And(header_ok(e, [s.byte(4 * k, 4) for k in range(6)], bv(gconst(e.m, "vc_type_" + kind), 32), M))
    if kind == "sc": ok = z3.And(ok, g("rsig") == bv(gconst(e.m, "vc_sig")), g("ssig") == bv(gconst(e.m, "vc_ssig")))
    total = simp(head + z3.If(empty, bv(0), body))
    ok = z3.And(ok, z3.ULE(total, s.len))
    args = [ptr(t.r), ptr(s.obj)] + ([V(bv(0))] if kind == "lo" else [])
    rv, o, th = call(e, st, KINDS[kind]["fn"] + "load", args)
    e.oblige(o, "returns only for complete data of its own kind", ok, "post")
    for x in th:
        e.oblige(x, "throws only for other data", z3.Not(ok), "post")
        t.frame(x, was, "the target of a failed Load does not change")
    e.oblige(o, "what is stored is consumed, no more", s.at(o) == total, "post")
    now = t.snap(o)
    buf = e.load(o, at(t.r, t.o["buffer"]), ir.PTR)
    rows = KINDS[kind]["rows"]
    for f in t.all():
        if f == "buffer": e.oblige(o, "has a buffer unless it is empty", (now[f] == 0) == empty, "post"); continue
        if f == "initial": e.oblige(o, "the initial state is at the stored distance from the rows", now[f] - now[rows] == z3.If(empty, nul[f] - nul[rows], g(f)), "post")
        elif f in ("rsig", "ssig"): e.oblige(o, "its own signature", now[f] == bv(gconst(e.m, "vc_" + f.replace("rsig", "sig"))), "post")
        elif f in t.K["ptrs"]:
            e.oblige(o, "the table is in the buffer: " + f, now[f] == z3.If(empty, nul[f], buf.e + sh.at[f]), "post")
        else: e.oblige(o, "what is stored there, or the empty scanner: " + f, now[f] == z3.If(empty, nul[f], g(f)), "post")
    j = z3.BitVec("j", 64)
    r = buf.prov or next((x for x in o.mem if x.name.startswith("heap") and x.kind == "bytes"), None)
    if kind != "lo": e.oblige(o, "every byte of the tables", z3.Implies(z3.And(z3.Not(empty), z3.ULT(j, sh.size)), e.read_bytes(e.lower(o, r).a, simp(buf.e + j), 1) == s.byte(simp(head + j))), "post")
    else:
        off = head
        for f, z in sizes.items():
            e.oblige(o, "read into its place: the " + f, z3.Or(*[z3.And(g_, to == buf.e + sh.at[f], p_ == off, n_ == z) for g_, to, p_, n_ in s.reads]), "post")
            off = simp(off + up(e, z))
    cover(e, o); covers(e, th)
    return e


def main():
    for v in VAR: ML("sc", v)
    ML("sm")
    items = [Item("Header", headers, [()], ["Header::Validate", "Header::Header"]),
             Item("Pointers", advance, [("vc_advance", 0), ("vc_align", 0), ("vc_checkalign", 0), ("vc_mapptr8", 8), ("vc_mapptr1", 1)], ["AdvancePtr", "AlignPtr", "CheckAlign", "MapPtr"]),
             Item("Mmap", mmap, [("sc", "Scanner"), ("sc", "ScannerNoMask"), ("sm", ""), ("lo", "7"), ("lo", "6"), ("lo", "other")], ["Scanner::Mmap", "SimpleScanner::Mmap", "LoadedScanner::Mmap"])]
    items.append(Item("Arrays", arrays, [("vc_aligned%s%d" % (f, w), w) for f in ("save", "load") for w in (1, 8)], ["AlignedSaveArray", "AlignedLoadArray", "AlignSave", "AlignLoad", "SavePodArray", "LoadPodArray"]))
    items.append(Item("AlignUp", rounding, [()], ["AlignUp"]))
    items.append(Item("Save", save, [("sc", "Scanner"), ("sc", "ScannerNoMask"), ("sm", ""), ("lo", "")], ["Scanner::Save", "SimpleScanner::Save", "LoadedScanner::Save"]))
    items.append(Item("Load", load, [("sc", "Scanner"), ("sc", "ScannerNoMask"), ("sm", ""), ("lo", "")], ["Scanner::Load", "SimpleScanner::Load", "LoadedScanner::Load", "ValidateHeader", "LoadPodType"]))
    return run_check("C06", items, Harness("C06.cpp", 14, desc="sequences of stored scanners of all kinds loaded, loaded from memory and mapped; every truncation, every header field, foreign data, misaligned addresses"),
                     assumptions=["sizes in the representable range (the data was stored by Save)"],
                     notes="")
