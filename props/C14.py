from lib import *
from framework import Item, Harness, run_check
NI = ("-Xclang", "-disable-llvm-passes", "-fno-access-control")
MU = lambda: module("utf8.cpp", (), NI)
ME = lambda: module("encoding.cpp", (), NI)
BROKEN = 0xFFFFFFFF
OK = 0


def length_of(b):
    """number of bytes of a sequence that starts with b, 0 if b cannot start one (structure of UTF-8)"""
    return z3.If(z3.ULT(b, bv(0x80, 8)), bv(1), z3.If(z3.And(z3.UGE(b, bv(0xC0, 8)), z3.ULT(b, bv(0xE0, 8))), bv(2),
           z3.If(z3.And(z3.UGE(b, bv(0xE0, 8)), z3.ULT(b, bv(0xF0, 8))), bv(3), z3.If(z3.And(z3.UGE(b, bv(0xF0, 8)), z3.ULT(b, bv(0xF8, 8))), bv(4), bv(0)))))


def bits(b, hi): return z3.ZeroExt(32 - hi, z3.Extract(hi - 1, 0, b))


def decoded(b):
    """code point of the sequence b[0..3] by its length"""
    t = lambda i: bits(b[i], 6)
    return {1: z3.ZeroExt(24, b[0]), 2: bits(b[0], 5) << 6 | t(1), 3: bits(b[0], 4) << 12 | t(1) << 6 | t(2), 4: bits(b[0], 3) << 18 | t(1) << 12 | t(2) << 6 | t(3)}


def cont(x): return z3.And(z3.UGE(x, bv(0x80, 8)), z3.ULT(x, bv(0xC0, 8)))


def encoded(r):
    """the bytes of the encoding of r, by length"""
    lo = lambda sh, n: z3.Extract(7, 0, z3.LShR(r, bv(sh, 32)) & bv((1 << n) - 1, 32))
    c = lambda sh: bv(0x80, 8) | lo(sh, 6)
    return {1: [lo(0, 7)], 2: [bv(0xC0, 8) | lo(6, 5), c(0)], 3: [bv(0xE0, 8) | lo(12, 4), c(6), c(0)], 4: [bv(0xF0, 8) | lo(18, 3), c(12), c(6), c(0)]}


def ucs_len(r):
    return z3.If(z3.ULT(r, bv(0x80, 32)), bv(1), z3.If(z3.ULT(r, bv(0x800, 32)), bv(2), z3.If(z3.ULT(r, bv(0x10000, 32)), bv(3), bv(4))))


def read(case):
    """utf8_read_rune on an arbitrary range: reads only [s,end); ok exactly on a structurally complete sequence, which it decodes"""
    e = Engine(MU(), [])
    st = start()
    s, n = z3.BitVecs("s n", 64)
    e.facts += [z3.UGE(s, bv(4096)), z3.ULE(s, bv(1 << 46)), z3.ULE(n, bv(1 << 46))]
    f = z3.Function("text", BV(64), BV(8))
    r = e.new_region(st, "text", kind="bytes", base=s, size=n, init=UF(f), readonly=True)
    out, ln = e.new_region(st, "rune", 4), cell64(e, st, "len", bv(0))
    fn = e.find("vc_read")
    rv, o, th = e.call_function(fn, [ptr(out), ptr(ln), V(s, r), V(simp(s + n), r)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "utf8_read_rune")
    b = [f(simp(s + bv(i))) for i in range(4)]
    L = length_of(b[0])
    good = z3.And(z3.UGE(n, bv(1)), L != 0, z3.UGE(n, L), *[z3.Implies(z3.UGT(L, bv(i)), cont(b[i])) for i in (1, 2, 3)])
    e.oblige(o, "accepts exactly a lead byte followed by its continuation bytes within the range", (rv.e == bv(OK, 32)) == good, "post")
    got, gl = e.load(o, ptr(out), ir.I(32)).e, e.load(o, ptr(ln), ir.I(64)).e
    e.oblige(o, "consumes exactly the bytes of the sequence", z3.Implies(good, gl == L), "post")
    for k, v in decoded(b).items(): e.oblige(o, "decodes a %d-byte sequence" % k, z3.Implies(z3.And(good, L == bv(k)), got == v), "post")
    e.oblige(o, "a rejected sequence gives no character", z3.Implies(z3.Not(good), z3.And(got == bv(BROKEN, 32), gl == 0)), "post")
    cover(e, o)
    cover(e, State(And(o.g, rv.e == bv(OK, 32), L == bv(4)), {}, {}), "a 4-byte sequence is accepted")
    return e


def put(case):
    """utf8_put_rune: writes the encoding, at most up to end"""
    e = Engine(MU(), [])
    st = start()
    n = case[0]
    rune = z3.BitVec("rune", 32)
    e.fact(z3.ULE(rune, bv(0x10FFFF, 32)))
    r = e.new_region(st, "buf", n)
    ln = cell64(e, st, "len", bv(0))
    fn = e.find("vc_put")
    rv, o, th = e.call_function(fn, [V(rune), ptr(ln), ptr(r), V(simp(r.base + bv(n)), r)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "utf8_put_rune")
    L = ucs_len(rune)
    fits = z3.ULE(L, bv(n))
    e.oblige(o, "succeeds exactly when the encoding fits", (rv.e == bv(OK, 32)) == fits, "post")
    gl = e.load(o, ptr(ln), ir.I(64)).e
    e.oblige(o, "reports the number of bytes written", gl == z3.If(fits, L, bv(0)), "post")
    for k, bs in encoded(rune).items():
        if k > n: continue
        for i, x in enumerate(bs):
            e.oblige(o, "byte %d of a %d-byte encoding" % (i, k), z3.Implies(L == bv(k), e.load(o, V(simp(r.base + bv(i)), r), ir.I(8)).e == x), "post")
    cover(e, o)
    return e


def roundtrip(case):
    """decode(encode(rune)) = rune for every code point, consuming exactly the bytes written"""
    e = Engine(MU(), [])
    st = start()
    rune = z3.BitVec("rune", 32)
    e.fact(z3.ULE(rune, bv(0x10FFFF, 32)))
    r = e.new_region(st, "buf", 4)
    a, b, back = cell64(e, st, "len", bv(0)), cell64(e, st, "len2", bv(0)), e.new_region(st, "back", 4)
    fn = e.find("vc_round")
    rv, o, th = e.call_function(fn, [V(rune), ptr(a), ptr(r), V(simp(r.base + bv(4)), r), ptr(back), ptr(b)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "round trip")
    e.oblige(o, "every code point is encoded and decoded", rv.e == bv(OK, 32), "post")
    e.oblige(o, "decoding gives the code point back", e.load(o, ptr(back), ir.I(32)).e == rune, "post")
    e.oblige(o, "decoding consumes the bytes of the encoding", e.load(o, ptr(a), ir.I(64)).e == e.load(o, ptr(b), ir.I(64)).e, "post")
    cover(e, o)
    return e


def lens(case):
    e = Engine(MU(), [])
    st = start()
    if case[0] == "vc_len":
        c = z3.BitVec("c", 8); args, want = [V(c)], length_of(c)
    else:
        c = z3.BitVec("c", 32); e.fact(z3.ULE(c, bv(0x10FFFF, 32))); args, want = [V(c)], ucs_len(c)
    fn = e.find(case[0])
    rv, o, th = e.call_function(fn, args, st, top=True)
    e.stack.append(fn)
    no_throw(e, th, case[0])
    e.oblige(o, case[0][3:] + " is the length of the sequence", rv.e == want, "post")
    cover(e, o)
    return e


def err(e):
    return [Contract("Pire::Error::Error(char const*)", lambda e, st, a, i: None, "Error constructor"), Contract("Pire::Error::~Error()", lambda e, st, a, i: None)]


def from_local(case):
    e = Engine(ME(), err(None))
    st = start()
    s, n = z3.BitVecs("s n", 64)
    e.facts += [z3.UGE(s, bv(4096)), z3.ULE(s, bv(1 << 46)), z3.ULE(n, bv(1 << 46))]
    f = z3.Function("text", BV(64), BV(8))
    r = e.new_region(st, "text", kind="bytes", base=s, size=n, init=UF(f), readonly=True)
    bg = e.new_region(st, "begin", 8)
    st.mem[bg] = Cells({0: (8, V(s, r))})
    self_ = e.new_region(st, "encoding", 8, readonly=True)
    status, rune, ln = z3.BitVec("status", 32), z3.BitVec("rune", 32), z3.BitVec("len", 64)

    def rd(e, st, a, inst):
        e.oblige(st, "reads from the current position to the end", z3.And(a[2].e == s, a[3].e == s + n), "pre")
        e.fact(z3.Implies(status == 0, z3.And(z3.UGE(ln, bv(1)), z3.ULE(ln, n))))
        e.store(st, a[0], V(rune), ir.I(32)); e.store(st, a[1], V(ln), ir.I(64))
        return V(status)
    e.contracts.append(Contract(lambda d: d.startswith("Pire::utf8_read_rune("), rd, "utf8_read_rune [item utf8_read_rune]"))
    fn = e.find(case[0])
    rv, o, th = e.call_function(fn, [ptr(self_), ptr(bg), V(simp(s + n), r)], st, top=True)
    e.stack.append(fn)
    pos = e.load(o, ptr(bg), ir.PTR).e
    if case[0] == "vc_u_from":
        e.oblige(o, "returns only when the sequence was decoded", status == 0, "post")
        e.oblige(o, "returns the decoded character", rv.e == rune, "post")
        e.oblige(o, "advances by the bytes of the sequence", pos == s + ln, "post")
        for t in th: e.oblige(t, "throws only when the sequence is broken", status != 0, "post")
    else:
        b = f(s)
        e.oblige(o, "returns only on a byte below 0x80 within the range", z3.And(n != 0, z3.ULT(b, bv(0x80, 8))), "post")
        e.oblige(o, "returns that byte", rv.e == z3.ZeroExt(24, b), "post")
        e.oblige(o, "advances by one byte", pos == s + bv(1), "post")
        for t in th: e.oblige(t, "throws only on the end or a byte from 0x80", z3.Or(n == 0, z3.UGE(b, bv(0x80, 8))), "post")
    cover(e, o)
    for t in th: cover(e, t, "the error is reachable")
    return e


SZ = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"


def to_local(case):
    e = Engine(ME(), [])
    st = start()
    rune = z3.BitVec("rune", 32)
    e.fact(z3.ULE(rune, bv(0x10FFFF, 32)))
    self_ = e.new_region(st, "encoding", 8, readonly=True)
    out = e.new_region(st, "out", 32)
    # std::string: pointer to its characters and size are ghost fields kept in the object's first two words
    def ctor_n(e, st, a, inst):
        n = a[1].e
        r = e.new_region(st, "chars", n, kind="bytes")
        e.store(st, a[0], V(r.base, r), ir.PTR); e.store(st, V(simp(a[0].e + bv(8)), a[0].prov), V(n), ir.I(64))
        filled.append((st.g, n, a[2].e))
    def ctor_0(e, st, a, inst):
        r = e.new_region(st, "chars", 0)
        e.store(st, a[0], V(r.base, r), ir.PTR); e.store(st, V(simp(a[0].e + bv(8)), a[0].prov), V(bv(0)), ir.I(64))
    def ctor_move(e, st, a, inst):
        for k in (0, 8): e.store(st, V(simp(a[0].e + bv(k)), a[0].prov), e.load(st, V(simp(a[1].e + bv(k)), a[1].prov), ir.PTR if not k else ir.I(64)), ir.PTR if not k else ir.I(64))
    filled = []
    put = []
    def putr(e, st, a, inst):
        # precondition of the call: the room is exactly the length of the encoding
        e.oblige(st, "the room is the length of the encoding", a[3].e - a[2].e == ucs_len(rune), "pre")
        e.oblige(st, "encodes the given character", a[0].e == rune, "pre")
        put.append((st.g, a[2].e))
        e.store(st, a[1], V(ucs_len(rune)), ir.I(64))
        return V(bv(OK, 32))
    e.contracts += [Contract(SZ + "::basic_string(unsigned long, char, std::allocator<char> const&)", ctor_n, "std::string(n, c)"),
                    Contract(SZ + "::basic_string()", ctor_0, "std::string()"), Contract(SZ + "::basic_string(" + SZ + "&&)", ctor_move, "std::string move"),
                    Contract(SZ + "::~basic_string()", lambda e, st, a, i: None, "~std::string"),
                    Contract(SZ + "::begin()", lambda e, st, a, i: e.load(st, a[0], ir.PTR), "std::string::begin"),
                    Contract(SZ + "::size() const", lambda e, st, a, i: e.load(st, V(simp(a[0].e + bv(8)), a[0].prov), ir.I(64)), "std::string::size"),
                    Contract(lambda d: d.startswith("Pire::utf8_put_rune("), putr, "utf8_put_rune [item utf8_put_rune]"),
                    Contract(lambda d: d.startswith("Pire::utf8_rune_len_by_ucs("), lambda e, st, a, i: V(ucs_len(a[0].e)), "utf8_rune_len_by_ucs [item lengths]")]
    fn = e.find(case[0])
    rv, o, th = e.call_function(fn, [ptr(self_), V(rune), ptr(out)], st, top=True)
    e.stack.append(fn)
    no_throw(e, th, "ToLocal")
    sz = e.load(o, V(simp(out.base + bv(8)), out), ir.I(64)).e
    data = e.load(o, ptr(out), ir.PTR).e
    if case[0] == "vc_u_to":
        e.oblige(o, "the result has the length of the encoding", sz == ucs_len(rune), "post")
        e.oblige(o, "the result holds the encoding", z3.And(*[z3.Implies(g, data == p) for g, p in put]) if put else FALSE, "post")
    else:
        lo = z3.ULT(rune, bv(0x80, 32))
        e.oblige(o, "one byte for ASCII, none otherwise", sz == z3.If(lo, bv(1), bv(0)), "post")
        for g, n, c in filled: e.oblige(State(And(o.g, g), {}, {}), "the byte is the character", c == z3.Extract(7, 0, rune), "post")
    cover(e, o)
    return e


def dot(case):
    """AppendDot: the transitions added are exactly those of the byte ranges of an encoded character"""
    e = Engine(ME(), [])
    st = start()
    e.UNROLL = 400
    fsm = e.new_region(st, "fsm", 256)
    n0 = z3.BitVec("n0", 64)
    e.fact(z3.ULE(n0, bv(1 << 40)))
    self_ = e.new_region(st, "encoding", 8, readonly=True)
    size, log = [n0], []
    def resize(e, st, a, inst):
        old = size[0]; size[0] = simp(a[1].e); return V(old)
    P = "Pire::Fsm::"
    e.contracts += [Contract(P + "Size() const", lambda e, st, a, i: V(size[0]), "Fsm::Size"), Contract(P + "Resize(unsigned long)", resize, "Fsm::Resize: returns the old size"),
                    Contract(P + "ConnectFinal(unsigned long, unsigned short)", lambda e, st, a, i: log.append(("edge", None, simp(a[1].e), conc(simp(a[2].e)))), "Fsm::ConnectFinal"),
                    Contract(P + "Connect(unsigned long, unsigned long, unsigned short)", lambda e, st, a, i: log.append(("edge", simp(a[1].e), simp(a[2].e), conc(simp(a[3].e)))), "Fsm::Connect"),
                    Contract(P + "ClearFinal()", lambda e, st, a, i: log.append(("clear",)), "Fsm::ClearFinal"), Contract(P + "SetFinal(unsigned long, bool)", lambda e, st, a, i: log.append(("fin", simp(a[1].e), a[2].e)), "Fsm::SetFinal"),
                    Contract(P + "SetIsDetermined(bool)", lambda e, st, a, i: log.append(("det", a[1].e)), "Fsm::SetIsDetermined"),
                    Contract(P + "AppendDot()", lambda e, st, a, i: log.append(("dot",)), "Fsm::AppendDot [C07]")]
    every = onpaths(e, 8)
    fn = e.find(case[0])
    rv, o, th = e.call_function(fn, [ptr(self_), ptr(fsm)], st, top=True)
    every(o)
    e.stack.append(fn)
    no_throw(e, th, "AppendDot")
    if case[0] == "vc_l_dot":
        e.oblige(o, "one byte", z3.BoolVal(log == [("dot",)]), "post")
        return e
    kinds = [x[0] for x in log]
    edges = [x[1:] for x in log if x[0] == "edge"]
    k = kinds.index("clear") if "clear" in kinds else len(kinds)
    e.oblige(o, "transitions are added before the final states are cleared, then one state is made final", z3.BoolVal("edge" not in kinds[k:] and kinds[k + 1:].count("fin") == 1 and kinds.count("clear") == 1), "post")
    for x in log:
        if x[0] == "fin": e.oblige(o, "final state after the character", z3.And(x[1] == n0 + bv(3), x[2] if z3.is_bool(x[2]) else x[2] == 1), "post")
    e.oblige(o, "marked as not determined", z3.BoolVal("det" in kinds and all(z3.is_false(simp(x[1])) for x in log if x[0] == "det")), "post")
    want = {}
    for c in range(0, 0x80): want["F", 3, c] = 1
    for c in range(0xC0, 0xE0): want["F", 2, c] = 1
    for c in range(0xE0, 0xF0): want["F", 1, c] = 1
    for c in range(0xF0, 0xF8): want["F", 0, c] = 1
    for i in range(3):
        for c in range(0x80, 0xC0): want[i, i + 1, c] = 1
    got = {}
    for a, b, c in edges:
        rel = lambda x: next((i for i in range(4) if z3.is_true(simp(x == n0 + bv(i)))), None)
        got["F" if a is None else rel(a), rel(b), c] = 1
    for ky in sorted(set(want) ^ set(got), key=str)[:20]:
        e.oblige(o, "transition %s is %s" % (ky, "missing" if ky in want else "not part of a character"), FALSE, "post")
    e.oblige(o, "the transitions are exactly those of one encoded character", z3.BoolVal(want == got), "post")
    cover(e, o)
    return e


def main():
    items = [Item("utf8_read_rune", read, [()], ["Pire::utf8_read_rune", "Pire::utf8_leadbyte_mask", "Pire::utf8_rune_len"]),
             Item("utf8_put_rune", put, [(n,) for n in range(6)], ["Pire::utf8_put_rune"]),
             Item("round trip", roundtrip, [()], ["utf8_put_rune", "utf8_read_rune"]),
             Item("lengths", lens, [("vc_len",), ("vc_len_ucs",)], ["Pire::utf8_rune_len", "Pire::utf8_rune_len_by_ucs"]),
             Item("FromLocal", from_local, [("vc_u_from",), ("vc_l_from",)], ["Utf8::FromLocal", "Latin1::FromLocal"]),
             Item("ToLocal", to_local, [("vc_u_to",), ("vc_l_to",)], ["Utf8::ToLocal", "Latin1::ToLocal"]),
             Item("AppendDot", dot, [("vc_u_dot",), ("vc_l_dot",)], ["Utf8::AppendDot", "Latin1::AppendDot"])]
    MU(); ME()
    return run_check("C14", items, Harness("C14.cpp", 12, desc="all code points round trip through both encodings, all 1-4 byte sequences over boundary bytes in page-guarded buffers, the UTF-8 dot against a reference decoder"),
                     assumptions=["std::string(n, c), begin(), size(), move as in the standard", "contracts of Fsm::Resize/Connect/ConnectFinal/SetFinal/ClearFinal (C07) in the AppendDot item"],
                     notes="Well-formed means: a lead byte followed by exactly its continuation bytes (overlong forms count as well-formed, in the decoder and in the dot alike).")
