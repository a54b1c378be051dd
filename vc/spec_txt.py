"""Texts as sequences of segments, and the contracts of the functions that produce them.

A Text is a list of segments (length, unit(k)).  It is the specification of everything a printer
delivers to its destination.  Numeric texts are described through two functions of the unsigned
value x (all integers mathematical):

    ND_B(x)      the number of digits of x in base B
    DIG_B(x, j)  the digit of weight B^j

count_digits<B> is proved to return ND_B (against its definition 1 + sum_k [x >= B^k]) and the
digit writers are proved to write the digits; printers are checked against these contracts."""
import re
import z3
from dom import is_c
from exec import Ptr, Unsupported, simp
from spec_dst import Stream, i64

UW = {"h": 8, "t": 16, "j": 32, "m": 64, "y": 64}
CU = {"c": 1, "Du": 1, "w": 4, "Ds": 2, "Di": 4}
MAXD = {2: {8: 8, 16: 16, 32: 32, 64: 64}, 8: {8: 3, 16: 6, 32: 11, 64: 22},
        10: {8: 3, 16: 5, 32: 10, 64: 20}, 16: {8: 2, 16: 4, 32: 8, 64: 16}}


class Text:
    def __init__(self, segs):
        self.segs = segs

    @property
    def length(self):
        return z3.simplify(z3.Sum([i64(n) for n, _ in self.segs])) if self.segs else z3.IntVal(0)

    def value(self, k):
        """unit at index k (k < length)"""
        r, off = None, z3.IntVal(0)
        parts = []
        for n, fn in self.segs:
            parts.append((z3.simplify(off), fn))
            off = off + i64(n)
        for o, fn in parts:
            v = fn(z3.simplify(k - o))
            r = v if r is None else z3.If(k >= o, v, r)
        return r


def ND(B):
    return z3.Function("ND%d" % B, z3.IntSort(), z3.IntSort())


def DIG(B):
    return z3.Function("DIG%d" % B, z3.IntSort(), z3.IntSort(), z3.IntSort())


def nd_facts(ex, B, x, w):
    n = ND(B)(x)
    ex.solver.add(n >= 1, n <= MAXD[B][w])
    ex.dom.setb(n, 1, MAXD[B][w])
    return n


def digit_char(B, d, lc):
    if B <= 10:
        return 48 + d
    lower = lc == 0x2020
    return z3.If(d < 10, 48 + d, z3.If(lower, z3.IntVal(87), z3.IntVal(55)) + d)


def digits_seg(ex, B, x, w, lc):
    """(length, unit) of the text of x"""
    n = nd_facts(ex, B, x, w)
    D = DIG(B)

    def unit(k):
        d = D(x, z3.simplify(n - 1 - k))
        ex.solver.add(d >= 0, d < B)
        return ex.dom.setb(digit_char(B, d, lc), 48, 127)
    return n, unit


def const_seg(n, c):
    return n, (lambda k: i64(c))


def anchor(ex, n):
    """the name of a count of the specification that n provably equals (keeps later proofs small)"""
    n = z3.simplify(i64(n))
    if z3.is_int_value(n):
        return n
    for t in getattr(ex, "anchors", ()):
        if t.eq(n):
            return n
    ex.solver.set("timeout", 3000)
    try:
        for t in getattr(ex, "anchors", ()):
            if ex.chk(n != t) == z3.unsat:
                return t
    finally:
        ex.solver.set("timeout", ex.timeout_ms)
    return n


def name(ex, nm, t, lo, hi):
    """a variable defined as t"""
    t = z3.simplify(i64(t))
    if z3.is_int_value(t):
        return t
    v = z3.Int(nm)
    ex.solver.add(v == t)
    ex.dom.setb(v, lo, hi)
    if not hasattr(ex, "anchors"):
        ex.anchors = []
    ex.anchors.append(v)
    return v


def append(stream, ex, st, n, fn, where="pre(write)"):
    """effect of a call that delivers n units fn(0..n) (its own contract is proved separately)"""
    c = st.mem[stream.cell.id]
    p, e, g = stream.fields(ex, st, where)
    P = stream.pos(st, p.i)
    N = i64(n)
    ex.oblige(st, N >= 0, where, "count")
    ex.oblige(st, z3.And(i64(st.ghost["wlo"]) <= i64(p.i), i64(p.i) <= i64(st.ghost["whi"])), where,
              "buffer_ptr inside the current buffer")
    ex.oblige(st, g == st.ghost["good"], where, "good() changes only by the destination itself")
    rel = z3.simplify(stream.k0 - P)
    v = stream.unit(ex, fn(rel))
    st.ghost["kv"] = z3.simplify(z3.If(z3.And(rel >= 0, rel < N), v, st.ghost["kv"]))
    P2 = z3.simplify(P + N)
    ex.oblige(st, z3.Implies(g, P2 <= stream.length), where, "not more than the specified output is delivered")
    ex.oblige(st, z3.Implies(z3.And(g, stream.k0 < P2, stream.k0 < stream.length), st.ghost["kv"] == stream.value(stream.k0)),
              where, "every delivered unit is the specified one")
    ex.flush(st)
    lo, q, hi = ex.fresh("win", 64), ex.fresh("ptr", 64), ex.fresh("winend", 64)
    ex.solver.add(lo >= i64(st.ghost["wlo"]), lo <= q, q <= hi, hi <= 1 << 61)
    for t in (lo, q, hi):
        ex.dom.setb(t, -(1 << 61), 1 << 61)
    g2 = z3.Bool("good!%d" % next(ex.nfresh))
    ex.solver.add(z3.Implies(g2, g))
    pos2 = ex.fresh("pos", 64)
    ex.solver.add(z3.Implies(g2, pos2 == P2), pos2 >= 0)
    ex.dom.setb(pos2, 0, 1 << 62)
    st.ghost.update(wlo=lo, whi=hi, sh=z3.simplify(q - pos2), good=g2)
    c = dict(c)
    c[8], c[16], c[24] = (8, Ptr(stream.o, q)), (8, Ptr(stream.o, hi)), (1, g2)
    st.mem[stream.cell.id] = c


class Fill:
    """charset.encoded_char_size / encode_fill (proved by C04 for the UTF charsets): the fill character is
    ESZ units FU(0..ESZ); ASCII characters are one unit of the same value"""

    def __init__(self, ex, fill, unit):
        self.fill, self.unit = fill, unit
        self.max = {1: 4, 2: 2, 4: 1}[unit]
        self.F = z3.Function("FILLU", z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.E = z3.Function("ESZ", z3.IntSort(), z3.IntSort())
        self.ex = ex
        self.size(fill)

    def size(self, ch):
        """as an ite over constants"""
        e = self.E(ch)
        self.ex.solver.add(e >= 1, e <= self.max, z3.Implies(z3.And(ch >= 0, ch < 0x80), z3.And(e == 1, self.F(ch, 0) == ch)))
        if self.max == 1:
            return 1
        r = z3.IntVal(self.max)
        for k in range(self.max - 1, 0, -1):
            r = z3.If(e == k, z3.IntVal(k), r)
        return self.ex.dom.setb(r, 1, self.max)

    def times(self, n, ch=None):
        """n * size"""
        ch = self.fill if ch is None else ch
        e = self.E(ch)
        n = i64(n)
        r = n * self.max
        for k in range(self.max - 1, 0, -1):
            r = z3.If(e == k, n * k, r)
        return z3.simplify(r)

    def seg(self, n, ch=None):
        ch = self.fill if ch is None else ch
        e = self.E(ch)

        def unit(k):
            r = k % self.max if self.max > 1 else z3.IntVal(0)
            for j in range(self.max - 1, 0, -1):
                r = z3.If(e == j, k % j if j > 1 else z3.IntVal(0), r)
            v = self.F(ch, r)
            self.ex.solver.add(v >= 0, v < 1 << (8 * self.unit))
            return self.ex.dom.setb(v, 0, (1 << (8 * self.unit)) - 1)
        return self.times(n, ch), unit


def install(ex, stream, fill=None):
    """contracts of the functions used by the printers"""
    D = ex.dom

    def c_count(ex, st, ins, a, name):
        m = re.search(r"count_digitsILi(\d+)E(.)E", name)
        if not m or m.group(2) not in UW:
            raise Unsupported("count_digits " + name)
        B, w = int(m.group(1)), UW[m.group(2)]
        return nd_facts(ex, B, D.U(ex.mat(a[0]), w)[0], w)

    def c_back(ex, st, ins, a, name):
        m = re.search(r"intdigits_backwards_writerILi(\d+)EE25write_txtdigits_backwardsI(.)(c|w|Du|Ds|Di)E", name)
        if not m or m.group(2) not in UW:
            raise Unsupported("digit writer " + name)
        B, w, u = int(m.group(1)), UW[m.group(2)], CU[m.group(3)]
        x = D.U(ex.mat(a[0]), w)[0]
        lc = D.U(a[2], 16)[0]
        n, unit = digits_seg(ex, B, x, w, lc)
        p = a[1]
        ok = isinstance(p, Ptr) and p.o.kind == "buf" and p.o.unit == u and p.b == 0
        ex.oblige(st, ok, "pre(write_txtdigits_backwards)", "output pointer")
        q = ex.padd(p.i, D.setb(-n, -64, -1))
        ex.oblige(st, ex.bnd_range(st, p.o, q, n), "pre(write_txtdigits_backwards)", "space for all digits before the pointer")
        ex.buf_write_range(st, p.o, q, n, unit)
        return Ptr(p.o, q)

    def c_bin(ex, st, ins, a, name):
        m = re.search(r"intdigits_writerILi2EE5writeI(c|w|Du|Ds|Di)(.)E", name)
        if not m or m.group(2) not in UW:
            raise Unsupported("binary writer " + name)
        w = UW[m.group(2)]
        x = D.U(ex.mat(a[1]), w)[0]
        n, unit = digits_seg(ex, 2, x, w, None)
        ex.oblige(st, isinstance(a[0], Ptr) and a[0].o is stream.cell, "pre(intdigits_writer<2>::write)", "destination")
        ex.oblige(st, D.lift(D.cmp("eq", 32, a[2], n), 1), "pre(intdigits_writer<2>::write)", "digcount is the number of digits")
        append(stream, ex, st, n, unit, "pre(intdigits_writer<2>::write)")

    def c_wfill(ex, st, ins, a, name):
        ex.oblige(st, isinstance(a[0], Ptr) and a[0].o is stream.cell, "pre(write_fill)", "destination")
        ch = D.U(a[2], 8 * stream.u)[0]
        n = D.S(ex.mat(a[1]), 64)[0]
        append(stream, ex, st, anchor(ex, z3.If(n > 0, n, 0)), lambda k: ch, "pre(write_fill)")

    def c_efill(ex, st, ins, a, name):
        ex.oblige(st, isinstance(a[0], Ptr) and a[0].o is stream.cell, "pre(encode_fill)", "destination")
        n = D.S(ex.mat(a[1]), 64)[0]
        ch = D.U(a[2], 32)[0]
        fill.size(ch)
        L, unit = fill.seg(anchor(ex, z3.If(n > 0, n, 0)), ch)
        append(stream, ex, st, L, unit, "pre(encode_fill)")

    def c_esize(ex, st, ins, a, name):
        return fill.size(D.U(a[-1], 32)[0])

    def named(fn):
        def h(ex, st, ins, a):
            return fn(ex, st, ins, a, ins.a[0][1] if ins.a[0][0] != "reg" else st.frames[-1].env[ins.a[0][1]].o.name)
        return h
    ex.contracts["re:count_digitsI"] = named(c_count)
    ex.contracts["re:intdigits_backwards_writerI.*25write_txtdigits_backwardsI"] = named(c_back)
    ex.contracts["re:intdigits_writerILi2EE5writeI"] = named(c_bin)
    ex.contracts["re:6detail10write_fillI"] = named(c_wfill)
    if fill is not None:
        ex.contracts["re:11encode_fill"] = named(c_efill)
        ex.contracts["re:17encoded_char_size"] = named(c_esize)


NOINLINE = [r"6detail12count_digitsI", r"intdigits_backwards_writerI.*25write_txtdigits_backwardsI", r"intdigits_writerILi2EE5writeI",
            r"6detail10write_fillI", r"11encode_fillE", r"17encoded_char_sizeE"]
