"""The table scanner of multi.h (all four variants) as an arbitrary object laid out by the real compiler."""
from table import *

VARIANTS = {"reloc": (), "reloc-nomask": ("SC=Pire::ScannerNoMask", "OT=Pire::NonrelocScannerNoMask", "HF=Pire::HalfFinalScannerNoMask", "RELOC=1"),
            "nonreloc": ("SC=Pire::NonrelocScanner", "OT=Pire::Scanner", "HF=Pire::NonrelocHalfFinalScanner"),
            "nonreloc-nomask": ("SC=Pire::NonrelocScannerNoMask", "OT=Pire::ScannerNoMask", "HF=Pire::NonrelocHalfFinalScannerNoMask")}
BIG = 1 << 31


def MM(variant): return module("multi.cpp", VARIANTS[variant], NI)


class Multi:
    """Any Scanner: any number of states and letter classes, any tables. Regions: letter table, final table, final index, rows.
    R is the row length in transitions (an arbitrary number that RowSize() returns, see item RowSize)."""

    def __init__(self, e, st, m, name="scanner", readonly=True, buffer=True, suffix=""):
        self.e, self.m = e, m
        o = self.o = offs(m, "off_")
        g = lambda n: gconst(m, "vc_" + n)
        self.maxchar, self.H, self.w = g("max_char"), g("header"), g("size_trans")
        x = lambda n, b=64: z3.BitVec(n + suffix, b)
        self.states, self.letters, self.regexps = x("statesCount", 32), x("lettersCount", 32), x("regexpsCount", 32)
        self.S, self.L = z3.ZeroExt(32, self.states), z3.ZeroExt(32, self.letters)
        self.ftsize, self.init = x("finalTableSize", 32), x("initial")
        e.facts += [z3.UGE(self.S, bv(1)), z3.UGE(self.L, bv(1)), z3.ULE(self.L, bv(self.maxchar)), z3.ULE(self.ftsize, bv(1 << 31, 32)), z3.ULE(self.S, bv(1 << 31))]
        # row length: AlignUp(L + header, words)  [item RowSize]
        k = 16 // self.w
        self.k = k
        self.R = simp((self.L + bv(self.H + k - 1)) & bv(~(k - 1) & (1 << 64) - 1))
        self.rows = self.row(self.S)                                    # S * R
        e.fact(z3.ULE(self.rows, bv(1 << 33)))
        self.tsize = simp(self.rows * bv(self.w))
        self.lt = table(e, st, name + "_letters", bv(self.maxchar * 2), readonly=readonly)
        self.ft = table(e, st, name + "_final", z3.ZeroExt(32, self.ftsize) * bv(8), readonly=readonly)
        self.fi = table(e, st, name + "_finalIndex", self.S * bv(8), readonly=readonly)
        self.tr = table(e, st, name + "_rows", self.tsize, readonly=readonly)
        if self.w == 4: e.fact(z3.ULE(self.tsize, bv(BIG)))             # relative shifts fit 32 bits (representable range)
        self.lt.on_load = self.on_letter
        self.buf = e.new_region(st, name + "_buffer", 1) if buffer else None
        f = {o["states"]: (4, V(self.states)), o["letters"]: (4, V(self.letters)), o["regexps"]: (4, V(self.regexps)), o["initial"]: (8, V(self.init, self.tr)),
             o["ftsize"]: (4, V(self.ftsize)), o["ltab"]: (8, ptr(self.lt)), o["final"]: (8, ptr(self.ft)), o["findex"]: (8, ptr(self.fi)), o["trans"]: (8, ptr(self.tr)),
             o["buffer"]: (8, ptr(self.buf) if buffer else V(bv(0))),
             o["rsig"]: (8, V(bv(1 if self.w == 4 else 2))), o["ssig"]: (8, V(x("shortcuttingSignature")))}
        self.r = obj(e, st, name, g("size_sc"), f, readonly=readonly)

    def on_letter(self, e, st, p, n, ty):
        # table invariant: an entry of the letter table is header + class
        w = z3.ZeroExt(48, word(self.lt, simp(p.e), 2))
        e.fact(z3.And(z3.ULE(bv(self.H), w), z3.ULT(w, bv(self.H) + self.L)))

    def letter(self, c): return z3.ZeroExt(48, word(self.lt, simp(self.lt.base + z3.ZeroExt(64 - c.size(), c) * bv(2)), 2))

    def row(self, i): return self.e.mul(i, self.R)

    def state(self, i): return simp(self.tr.base + self.row(i) * bv(self.w))

    def is_state(self, i):
        """facts about the row of state i < S [lemma rows]"""
        self.e.fact(z3.Implies(z3.ULT(i, self.S), z3.And(z3.ULE(self.row(i), self.rows - self.R), z3.ULE(self.R, self.rows))))

    def differ(self, i, k):
        """rows of different states do not overlap [lemma rows]"""
        self.e.fact(z3.Implies(z3.ULT(i, k), z3.ULE(self.row(i) + self.R, self.row(k))))
        self.e.fact(z3.Implies(z3.ULT(k, i), z3.ULE(self.row(k) + self.R, self.row(i))))

    def divides(self, i):
        """the number of a row from its offset [lemma rows]"""
        self.e.fact(z3.UDiv(self.row(i) * bv(self.w), self.R * bv(self.w)) == i)

    def entry(self, st, s, letter):
        """the state that the transition of row s under the letter (header included) leads to, as st has it"""
        w = self.read(st, self.tr, simp(s + letter * bv(self.w)), self.w)
        return simp(s + z3.SignExt(32, w)) if self.w == 4 else w

    def read(self, st, r, a, n):
        c = st.mem.get(r)
        return self.e.read_bytes(c.a, a, n) if c is not None and hasattr(c, "a") else word(r, a, n)

    def flags(self, st, s): return self.read(st, self.tr, simp(s + bv(self.o["flags"])), 8)


def row_lemmas(m):
    """the facts about rows, over the integers"""
    e = Engine(m, [])
    e.facts = []
    st = start()
    i, k, S, R, w = z3.Ints("i k S R w")
    pre = z3.And(0 <= i, i < S, R >= 1, w >= 1)
    e.oblige(st, "a row lies in the table", z3.Implies(pre, z3.And(i * R + R <= S * R, R <= S * R)), "lemma")
    e.oblige(st, "rows of different states are disjoint", z3.Implies(z3.And(0 <= i, i < k, R >= 1), i * R + R <= k * R), "lemma")
    l, l2 = z3.Ints("l l2")
    e.oblige(st, "entries of different states or letters are different", z3.Implies(z3.And(0 <= i, 0 <= k, R >= 1, 0 <= l, l < R, 0 <= l2, l2 < R, z3.Or(i != k, l != l2)), i * R + l != k * R + l2), "lemma")
    e.oblige(st, "offset / row length = number", z3.Implies(z3.And(i >= 0, R >= 1), (i * R) / R == i), "lemma")
    e.oblige(st, "the same in bytes", z3.Implies(z3.And(i >= 0, R >= 1), (i * R * 8) / (R * 8) == i), "lemma")
    e.oblige(st, "offset past the flag / row length = number", z3.Implies(z3.And(i >= 0, R >= 2), (i * R * 8 + 8) / (R * 8) == i), "lemma")
    e.oblige(st, "the same in bytes (relocatable)", z3.Implies(z3.And(i >= 0, R >= 1), (i * R * 4) / (R * 4) == i), "lemma")
    return e


# ---------------------------------------------------------------- the simple scanner and the loaded base

def MS(): return module("simple.cpp", (), NI)


class Simple:
    """Any SimpleScanner: any number of states, any rows of MaxChar + 1 words (the flag first)."""

    def __init__(self, e, st, m, name="simple", readonly=True, buffer=True, suffix=""):
        self.e, self.m = e, m
        o = self.o = offs(m, "sm_")
        self.maxchar, self.ROW = gconst(m, "vc_max_char"), gconst(m, "vc_row")
        self.S, self.init = z3.BitVec("statesCount" + suffix, 64), z3.BitVec("initial" + suffix, 64)
        e.facts += [z3.UGE(self.S, bv(1)), z3.ULE(self.S, bv(1 << 30))]
        e.abstract_mul, e.named_factors = True, {self.ROW}
        self.rows = self.row(self.S)
        self.tsize = simp(self.rows * bv(8))
        e.fact(z3.ULE(self.rows, bv(self.ROW << 30)))
        self.tr = table(e, st, name + "_rows", self.tsize, readonly=readonly)
        self.buf = e.new_region(st, name + "_buffer", 1) if buffer else None
        f = {o["states"]: (8, V(self.S)), o["initial"]: (8, V(self.init, self.tr)), o["trans"]: (8, ptr(self.tr)), o["buffer"]: (8, ptr(self.buf) if buffer else V(bv(0)))}
        self.r = obj(e, st, name, gconst(m, "vc_size_sm"), f, readonly=readonly)

    def row(self, i): return self.e.mul(i, bv(self.ROW))

    def is_state(self, i):
        """facts about the row of state i < S [lemma rows]"""
        self.e.fact(z3.Implies(z3.ULT(i, self.S), z3.ULE(self.row(i), self.rows - bv(self.ROW))))
        self.e.fact(z3.UGE(self.rows, bv(self.ROW)))

    def differ(self, i, k):
        self.e.fact(z3.Implies(z3.ULT(i, k), z3.ULE(self.row(i) + bv(self.ROW), self.row(k))))
        self.e.fact(z3.Implies(z3.ULT(k, i), z3.ULE(self.row(k) + bv(self.ROW), self.row(i))))

    def divides(self, i): self.e.fact(z3.UDiv(simp(self.row(i) * bv(8) + bv(8)), bv(self.ROW * 8)) == i)

    def state(self, i): return simp(self.tr.base + self.row(i) * bv(8) + bv(8))

    def read(self, st, a, n=8):
        c = st.mem.get(self.tr)
        return self.e.read_bytes(c.a, a, n) if c is not None and hasattr(c, "a") else word(self.tr, a, n)

    def entry(self, st, s, c): return simp(s + self.read(st, simp(s + z3.ZeroExt(64 - c.size(), c) * bv(8))))

    def flag(self, st, s): return self.read(st, simp(s - bv(8)))


class LoadedW(Loaded):
    """A LoadedScanner whose rows are numbered: the row of state i is at jumps + i * letters * 8."""

    def __init__(self, e, st, m, name="loaded", readonly=True, buffer=True, suffix=""):
        self.e, self.m = e, m
        o = self.o = offs(m, "off_")
        self.maxchar = gconst(m, "vc_max_char")
        x = lambda n, b: z3.BitVec(n + suffix, b)
        self.states, self.letters, self.regexps, self.init = x("statesCount", 32), x("lettersCount", 32), x("regexpsCount", 32), x("initial", 64)
        self.S, self.L = z3.ZeroExt(32, self.states), z3.ZeroExt(32, self.letters)
        e.facts += [z3.UGE(self.L, bv(1)), z3.ULE(self.L, bv(256)), z3.UGE(self.S, bv(1)), z3.ULE(self.S, bv(1 << 31))]
        self.rows = e.mul(self.S, self.L)
        self.tsize = simp(self.rows * bv(8))
        e.fact(z3.ULE(self.rows, bv(1 << 28)))                       # representable range: shifts fit 32 bits
        self.lt = table(e, st, name + "_letters", bv(self.maxchar), readonly=readonly)
        self.jt = self.tr = table(e, st, name + "_jumps", self.tsize, readonly=readonly)
        self.tt = table(e, st, name + "_tags", self.S, readonly=readonly)
        self.lt.on_load = self.on_letter
        self.buf = e.new_region(st, name + "_buffer", 1) if buffer else None
        f = {o["letters"]: (8, ptr(self.lt)), o["jumps"]: (8, ptr(self.jt)), o["tags"]: (8, ptr(self.tt)), o["buffer"]: (8, ptr(self.buf) if buffer else V(bv(0))),
             o["statesCount"]: (4, V(self.states)), o["lettersCount"]: (4, V(self.letters)), o["regexpsCount"]: (4, V(self.regexps)), o["initial"]: (8, V(self.init, self.jt))}
        self.r = obj(e, st, name, gconst(m, "vc_size_loaded"), f, readonly=readonly)

    def row(self, i): return self.e.mul(i, self.L)

    def state(self, i): return simp(self.jt.base + self.row(i) * bv(8))

    def is_state(self, i): self.e.fact(z3.Implies(z3.ULT(i, self.S), z3.And(z3.ULE(self.row(i), self.rows - self.L), z3.ULE(self.L, self.rows))))

    def differ(self, i, k):
        self.e.fact(z3.Implies(z3.ULT(i, k), z3.ULE(self.row(i) + self.L, self.row(k))))
        self.e.fact(z3.Implies(z3.ULT(k, i), z3.ULE(self.row(k) + self.L, self.row(i))))

    def read(self, st, r, a, n):
        c = st.mem.get(r)
        return self.e.read_bytes(c.a, a, n) if c is not None and hasattr(c, "a") else word(r, a, n)

    def cell(self, st, s, l):
        """(state the entry leads to, action)"""
        w = self.read(st, self.jt, simp(s + l * bv(8)), 8)
        return simp(s + z3.SignExt(32, z3.Extract(31, 0, w))), z3.Extract(63, 32, w)
