from table import *
from framework import Item, Harness, run_check
M = lambda: module("loaded.cpp", (), NI)
NPOS = bv((1 << 64) - 1)
BEGIN, END = bv(1, 32), bv(2, 32)        # CapturingScanner::BeginCapture, EndCapture (the tags of capturing automata)


class Cap:
    def __init__(self, name="state"):
        m = M()
        self.e = e = Engine(m, [])
        self.st = st = start()
        self.sc = Loaded(e, st, m)
        self.o = offs(m, "off_cap_")
        self.v = [z3.BitVec(n, 64) for n in ("s", "begin", "end", "counter")]
        self.s = self.state(st, name, self.v)

    def state(self, st, name, v, readonly=False):
        o, jt = self.o, self.sc.jt
        f = {o["state"]: (8, V(v[0], jt)), o["begin"]: (8, V(v[1])), o["end"]: (8, V(v[2])), o["counter"]: (8, V(v[3]))} if v else {}
        return obj(self.e, st, name, gconst(M(), "vc_size_cap_state"), f, readonly)

    def get(self, st, r=None): return [get(self.e, st, r or self.s, self.o[k]) for k in ("state", "begin", "end", "counter")]

    def call(self, fn, args):
        f = self.e.find(fn)
        self.e.stack[:] = []
        rv, o, th = self.e.call_function(f, args, self.st, top=True)
        self.e.stack.append(f)
        no_throw(self.e, th, fn)
        return rv, o


def captured(v): return z3.And(v[1] != NPOS, v[2] != NPOS)


def inv(v):
    """positions never exceed the number of characters consumed"""
    return z3.And(z3.Or(v[1] == NPOS, z3.ULT(v[1], v[3])), z3.Or(v[2] == NPOS, z3.ULT(v[2], v[3])), z3.ULE(v[3], bv(1 << 62)))


def same(e, o, v, w, names): 
    for i, n in enumerate(("automaton state", "begin position", "end position", "character counter")):
        if n in names: e.oblige(o, n + " unchanged", v[i] == w[i], "frame")


def initialize(case):
    c = Cap()
    e = c.e
    rv, o = c.call("vc_cap_init", [ptr(c.sc.r), ptr(c.s)])
    s, b, n, k = c.get(o)
    e.oblige(o, "starts in the initial state", s == c.sc.init, "post")
    e.oblige(o, "nothing is captured", z3.And(b == NPOS, n == NPOS), "post")
    e.oblige(o, "no character is consumed", k == 0, "post")
    cover(e, o)
    return e


def take(case):
    """for every action word (any combination of bits), state and counter"""
    c = Cap()
    e = c.e
    a = z3.BitVec("action", 32)
    e.fact(inv(c.v)); e.fact(z3.UGE(c.v[3], bv(1)))    # an action belongs to a character
    rv, o = c.call("vc_cap_take", [ptr(c.sc.r), ptr(c.s), V(a)])
    w = c.get(o)
    same(e, o, c.v, w, ("automaton state", "character counter"))
    cap, b, n = captured(c.v), (a & BEGIN) != 0, (a & END) != 0
    pos = c.v[3] - bv(1)
    e.oblige(o, "a begin action records the position unless the capture is finished", w[1] == z3.If(z3.And(b, z3.Not(cap)), pos, c.v[1]), "post")
    e.oblige(o, "an end action records the position unless the capture is finished", w[2] == z3.If(z3.And(n, z3.Not(b), z3.Not(cap)), pos, c.v[2]), "post")
    e.oblige(o, "a finished capture does not change", z3.Implies(cap, z3.And(w[1] == c.v[1], w[2] == c.v[2])), "post")
    e.oblige(o, "no position exceeds the number of characters consumed", inv(w), "inv")
    cover(e, o)
    cover(e, State(And(o.g, captured(w), z3.Not(cap)), {}, {}), "a capture can finish")
    return e


def nxt(case):
    fn = case[0]
    c = Cap()
    e = c.e
    ch = z3.BitVec("c", 8 if fn == "vc_cap_nextt" else 16)
    letter = z3.ZeroExt(56, ch) if fn == "vc_cap_nextt" else c.sc.letter(ch)
    e.fact(inv(c.v)); e.fact(c.sc.valid(c.v[0]))
    if fn == "vc_cap_nextt": e.fact(z3.ULT(letter, c.sc.L))
    else: e.fact(z3.ULT(ch, bv(c.sc.maxchar, 16)))
    args = [ptr(c.sc.r), ptr(c.s), V(ch)]
    dst = c.s
    if fn == "vc_cap_next3":
        dst = c.state(c.st, "next", None)
        c.s.readonly = True
        args.insert(2, ptr(dst))
    rv, o = c.call(fn, args)
    w = c.get(o, dst)
    shift, action = c.sc.entry(c.v[0], letter)
    e.oblige(o, "moves along the transition of the character's class", w[0] == c.v[0] + shift, "post")
    e.oblige(o, "returns the action of that transition", rv.e == action, "post")
    e.oblige(o, "counts the character", w[3] == c.v[3] + bv(1), "post")
    same(e, o, c.v, w, ("begin position", "end position"))
    e.oblige(o, "no position exceeds the number of characters consumed", z3.Or(w[3] == bv((1 << 62) + 1), inv(w)), "inv")
    cover(e, o)
    return e


def observe(case):
    c = Cap()
    e = c.e
    c.s.readonly = True
    e.fact(inv(c.v))
    for fn, want, nm in (("vc_cap_captured", captured(c.v), "Captured() holds exactly when both positions are recorded"),
                         ("vc_cap_begin", c.v[1], "Begin() is the recorded begin position"), ("vc_cap_end", c.v[2], "End() is the recorded end position")):
        rv, o = c.call(fn, [ptr(c.s)])
        e.oblige(o, nm, (rv.e if z3.is_bool(want) == z3.is_bool(rv.e) else rv.e != 0) == want, "post")
    rv, o = c.call("vc_cap_dead", [ptr(c.sc.r), ptr(c.s)])
    e.oblige(o, "Dead() is never claimed", z3.Not(rv.e), "post")
    ch = z3.BitVec("c", 16)
    e.fact(z3.ULT(ch, bv(c.sc.maxchar, 16)))
    rv, o = c.call("vc_cap_translate", [ptr(c.sc.r), V(ch)])
    e.oblige(o, "Translate() gives the letter class", z3.ZeroExt(48, rv.e) == c.sc.letter(ch), "post")
    cover(e, o)
    return e


def final(case):
    """Final/CanStop/StateIndex read the tag of the state whose row the scanner is in, for every number of states and letters"""
    c = Cap()
    e = c.e
    c.s.readonly = True
    sc = c.sc
    idx, p = z3.BitVecs("row rowOffset", 64)
    # rowOffset = row * lettersCount; the lemma is the division fact about it
    e.facts += [z3.ULT(idx, z3.ZeroExt(32, sc.states)), z3.ULE(p, bv(1 << 42)), z3.UDiv(p, sc.L) == idx, c.v[0] == sc.jt.base + p * bv(8)]
    rv, o = c.call(case[0], [ptr(sc.r), ptr(c.s)])
    if case[0] == "vc_cap_index": e.oblige(o, "the number of the row", rv.e == idx, "post")
    else: e.oblige(o, "the final flag of the row's tag", (rv.e if z3.is_bool(rv.e) else rv.e != 0) == ((sc.tt.f(simp(sc.tt.base + idx)) & bv(1, 8)) != 0), "post")
    cover(e, o)
    return e


def division(case):
    """row * letters / letters = row over the integers"""
    e = Engine(M(), [])
    i, l = z3.Ints("i l")
    e.oblige(State(z3.And(i >= 0, l >= 1), {}, {}), "a row's offset divided by the row length is the row's number", (i * l) / l == i, "lemma")
    return e


def main():
    M()
    items = [Item("Initialize", initialize, [()], ["CapturingScanner::Initialize"]),
             Item("TakeAction", take, [()], ["CapturingScanner::TakeAction", "CapturingScanner::State::Captured"]),
             Item("Next", nxt, [("vc_cap_nextt",), ("vc_cap_next",), ("vc_cap_next3",)], ["CapturingScanner::NextTranslated", "CapturingScanner::Next", "CapturingScanner::Translate", "LoadedScanner::SignExtend"]),
             Item("observers", observe, [()], ["CapturingScanner::State::Captured/Begin/End", "CapturingScanner::Dead", "CapturingScanner::Translate"]),
             Item("Final", final, [("vc_cap_final",), ("vc_cap_canstop",), ("vc_cap_index",)], ["CapturingScanner::Final/CanStop/StateIndex", "LoadedScanner::StateIdx"]),
             Item("division lemma", division, [()], ["row arithmetic"])]
    return run_check("C13", items, Harness("C13.cpp", 12, desc="random capturing tables and texts (marks included) against a step-by-step reference"),
                     assumptions=["the scanner's table is laid out as Init/SetJump leave it (C04): every letter-table entry is a letter class, every state is the address of a row", "fewer than 2^62 characters are consumed"],
                     notes="History argument: Initialize establishes the invariant, Next and TakeAction preserve it; the counter grows by one in Next only.")
