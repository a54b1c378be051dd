"""Integer domains.

A machine integer of width w is either a Python int (concrete, in [0,2^w)), a Python bool (i1),
or a z3 term.  BVDom uses bit-vectors (exact machine arithmetic).  IntDom uses mathematical
integers in [0,2^w) with explicit wrap-around (exact as well: `mod 2^w` is emitted whenever the
range analysis cannot show the operation does not wrap).
"""
import z3
from llir import Unsupported


def mask(w):
    return (1 << w) - 1


def to_signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def is_c(v):
    return isinstance(v, int)          # includes bool


def simp(b):
    """simplify a Bool to python bool when decided"""
    if isinstance(b, bool):
        return b
    s = z3.simplify(b)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def conc(op, w, a, b):
    m = mask(w)
    if op == "add":
        return (a + b) & m
    if op == "sub":
        return (a - b) & m
    if op == "mul":
        return (a * b) & m
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return (a << b) & m if b < w else None
    if op == "lshr":
        return a >> b if b < w else None
    if op == "ashr":
        return (to_signed(a, w) >> b) & m if b < w else None
    if op == "udiv":
        return a // b if b else None
    if op == "urem":
        return a % b if b else None
    sa, sb = to_signed(a, w), to_signed(b, w)
    if op == "sdiv":
        if sb == 0:
            return None
        q = abs(sa) // abs(sb)
        return (q if (sa < 0) == (sb < 0) else -q) & m
    if op == "srem":
        if sb == 0:
            return None
        r = abs(sa) % abs(sb)
        return (-r if sa < 0 else r) & m
    raise Unsupported(op)


def conc_cmp(p, w, a, b):
    if p == "eq":
        return a == b
    if p == "ne":
        return a != b
    if p[0] == "s":
        a, b = to_signed(a, w), to_signed(b, w)
    q = p[1:]
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q]


class BVDom:
    name = "bv"

    def fresh(self, nm, w):
        return z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)

    def range_assume(self, v, w):
        return None

    def lift(self, v, w):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            if w == 1:
                return z3.BoolVal(bool(v))
            return z3.BitVecVal(v, w)
        return v

    def binop(self, op, w, a, b):
        if is_c(a) and is_c(b):
            r = conc(op, w, int(a), int(b))
            if r is None:
                raise Unsupported("undefined " + op)
            return bool(r) if w == 1 else r
        # cheap identities
        if is_c(b):
            ib = int(b)
            if ib == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if ib == 0 and op in ("and", "mul"):
                return False if w == 1 else 0
            if ib == mask(w) and op == "and":
                return a
            if ib == 1 and op in ("mul", "udiv", "sdiv"):
                return a
        elif is_c(a):
            ia = int(a)
            if ia == 0 and op in ("add", "or", "xor"):
                return b
            if ia == 0 and op in ("and", "mul", "shl", "lshr", "ashr", "udiv", "urem"):
                return False if w == 1 else 0
        A, B = self.lift(a, w), self.lift(b, w)
        if w == 1:
            if op == "and" or op == "mul":
                return simp(z3.And(A, B))
            if op == "or":
                return simp(z3.Or(A, B))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(A, B))
            raise Unsupported("i1 " + op)
        r = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B,
             "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B),
             "ashr": lambda: A >> B, "udiv": lambda: z3.UDiv(A, B), "urem": lambda: z3.URem(A, B),
             "sdiv": lambda: A / B, "srem": lambda: z3.SRem(A, B)}[op]()
        return self.norm(r)

    def norm(self, r):
        s = z3.simplify(r)
        if z3.is_bv_value(s):
            return s.as_long()
        return s

    def cmp(self, p, w, a, b):
        if is_c(a) and is_c(b):
            return conc_cmp(p, w, int(a), int(b))
        A, B = self.lift(a, w), self.lift(b, w)
        if p == "eq":
            return simp(A == B)
        if p == "ne":
            return simp(A != B)
        if w == 1:
            # unsigned compare on i1
            A = z3.If(A, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            B = z3.If(B, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        r = {"ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "ugt": lambda: z3.UGT(A, B),
             "uge": lambda: z3.UGE(A, B), "slt": lambda: A < B, "sle": lambda: A <= B,
             "sgt": lambda: A > B, "sge": lambda: A >= B}[p]()
        return simp(r)

    def ite(self, c, w, a, b):
        if isinstance(c, bool):
            return a if c else b
        if is_c(a) and is_c(b) and int(a) == int(b):
            return a
        if w == 1:
            return simp(z3.If(c, self.lift(a, 1), self.lift(b, 1)))
        return self.norm(z3.If(c, self.lift(a, w), self.lift(b, w)))

    def cast(self, op, v, w1, w2):
        if is_c(v):
            v = int(v)
            if op == "zext":
                return v
            if op == "sext":
                return to_signed(v, w1) & mask(w2)
            if op == "trunc":
                r = v & mask(w2)
                return bool(r) if w2 == 1 else r
        if w1 == 1:
            if op == "zext":
                return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
            if op == "sext":
                return z3.If(v, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
        if op == "zext":
            return self.norm(z3.ZeroExt(w2 - w1, v))
        if op == "sext":
            return self.norm(z3.SignExt(w2 - w1, v))
        if op == "trunc":
            if w2 == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return self.norm(z3.Extract(w2 - 1, 0, v))
        raise Unsupported(op)

    def no_overflow(self, op, w, a, b, signed):
        """condition under which op does not overflow"""
        if is_c(a) and is_c(b):
            a, b = int(a), int(b)
            if signed:
                a, b = to_signed(a, w), to_signed(b, w)
            r = {"add": a + b, "sub": a - b, "mul": a * b, "shl": a << b if 0 <= b < 4 * w else 0}[op]
            return (-(1 << (w - 1)) <= r < (1 << (w - 1))) if signed else (0 <= r <= mask(w))
        A, B = self.lift(a, w), self.lift(b, w)
        if op == "add":
            if signed:
                return z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
            return z3.BVAddNoOverflow(A, B, False)
        if op == "sub":
            if signed:
                return z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
            return z3.UGE(A, B)
        if op == "mul":
            e = z3.SignExt if signed else z3.ZeroExt
            p = e(w, A) * e(w, B)
            q = e(w, A * B)
            return p == q
        if op == "shl":
            r = A << B
            return ((r >> B) == A) if signed else (z3.LShR(r, B) == A)
        raise Unsupported(op)

    def concat_bytes(self, bs):
        """little-endian bytes -> int"""
        if all(is_c(b) for b in bs):
            r = 0
            for i, b in enumerate(bs):
                r |= int(b) << (8 * i)
            return r
        if len(bs) == 1:
            return bs[0]
        return self.norm(z3.Concat(*[self.lift(b, 8) for b in reversed(bs)]))

    def byte(self, v, w, i):
        if is_c(v):
            return (int(v) >> (8 * i)) & 255
        if w == 8:
            return v
        return self.norm(z3.Extract(8 * i + 7, 8 * i, v))

    def val_of_model(self, model, v, w):
        if is_c(v):
            return int(v)
        r = model.eval(v, model_completion=True)
        if w == 1:
            return 1 if z3.is_true(r) else 0
        return r.as_long()


class IntDom:
    """mathematical integers; each term is in [0, 2^w)"""
    name = "int"

    def __init__(self):
        self.bounds = {}      # term id -> (lo,hi)
        self.keep = []

    def setb(self, t, lo, hi):
        if is_c(t):
            return t
        self.bounds[t.get_id()] = (lo, hi)
        self.keep.append(t)
        return t

    def bnd(self, v, w):
        if is_c(v):
            return (int(v), int(v))
        return self.bounds.get(v.get_id(), (0, mask(w)))

    def fresh(self, nm, w):
        if w == 1:
            return z3.Bool(nm)
        t = z3.Int(nm)
        self.setb(t, 0, mask(w))
        return t

    def range_assume(self, v, w):
        if w == 1 or is_c(v):
            return None
        return z3.And(v >= 0, v <= mask(w))

    def lift(self, v, w):
        if isinstance(v, bool) or (isinstance(v, int) and w == 1):
            return z3.BoolVal(bool(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        return v

    def mk(self, t, lo, hi, w):
        """t is a mathematical term with known bounds lo..hi; wrap to w bits"""
        m = 1 << w
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long() % m
        if lo >= 0 and hi < m:
            return self.setb(t, lo, hi)
        if lo >= -m and hi < 0:
            return self.setb(t + m, lo + m, hi + m)
        if lo >= -m and hi < m:
            return self.setb(z3.If(t < 0, t + m, t), 0, m - 1)
        if lo >= 0 and hi < 2 * m:
            return self.setb(z3.If(t >= m, t - m, t), 0, m - 1)
        return self.setb(t % m, 0, m - 1)

    def sg(self, v, w):
        if is_c(v):
            return to_signed(int(v), w)
        lo, hi = self.bnd(v, w)
        if hi < (1 << (w - 1)):
            return v
        return z3.If(v >= (1 << (w - 1)), v - (1 << w), v)

    def sbnd(self, v, w):
        lo, hi = self.bnd(v, w)
        h = 1 << (w - 1)
        if hi < h:
            return lo, hi
        if lo >= h:
            return lo - 2 * h, hi - 2 * h
        return -h, h - 1

    def binop(self, op, w, a, b):
        if is_c(a) and is_c(b):
            r = conc(op, w, int(a), int(b))
            if r is None:
                raise Unsupported("undefined " + op)
            return bool(r) if w == 1 else r
        if w == 1:
            A, B = self.lift(a, 1), self.lift(b, 1)
            if op in ("and", "mul"):
                return simp(z3.And(A, B))
            if op == "or":
                return simp(z3.Or(A, B))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(A, B))
            raise Unsupported("i1 " + op)
        (la, ha), (lb, hb) = self.bnd(a, w), self.bnd(b, w)
        A, B = self.lift(a, w), self.lift(b, w)
        if op == "add":
            if is_c(b) and int(b) >> (w - 1):      # adding a negative constant
                k = (1 << w) - int(b)
                return self.mk(A - k, la - k, ha - k, w)
            return self.mk(A + B, la + lb, ha + hb, w)
        if op == "sub":
            return self.mk(A - B, la - hb, ha - lb, w)
        if op == "mul":
            if is_c(b) and int(b) == mask(w):
                return self.mk(-A, -ha, -la, w)
            if is_c(a) and int(a) == mask(w):
                return self.mk(-B, -hb, -lb, w)
            if not (is_c(a) or is_c(b)):
                raise Unsupported("nonlinear mul")
            return self.mk(A * B, la * lb, ha * hb, w)
        if op == "udiv" and is_c(b) and int(b):
            return self.mk(A / B, la // int(b), ha // int(b), w)
        if op == "urem" and is_c(b) and int(b):
            if ha < int(b):
                return a
            return self.mk(A % B, 0, int(b) - 1, w)
        if op == "lshr" and is_c(b):
            k = 1 << int(b)
            return self.mk(A / k, la // k, ha // k, w)
        if op == "shl" and is_c(b):
            k = 1 << int(b)
            return self.mk(A * k, la * k, ha * k, w)
        if op == "ashr" and is_c(b):
            sl, sh = self.sbnd(a, w)
            k = 1 << int(b)
            return self.mk(self.sg(a, w) / k, sl // k, sh // k, w)
        if op in ("sdiv", "srem") and is_c(b) and 0 < int(b) < (1 << (w - 1)):
            sl, sh = self.sbnd(a, w)
            k = int(b)
            s = self.sg(a, w)
            if sl >= 0:
                if op == "sdiv":
                    return self.mk(s / k, sl // k, sh // k, w)
                return self.mk(s % k, 0, k - 1, w)
            q = z3.If(s >= 0, s / k, -((-s) / k))
            if op == "sdiv":
                return self.mk(q, -((-sl) // k), max(sh, 0) // k, w)
            return self.mk(s - k * q, -(k - 1), k - 1, w)
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if is_c(y):
                    y = int(y)
                    X = self.lift(x, w)
                    lo, hi = self.bnd(x, w)
                    if y == 0:
                        return 0
                    if y & (y + 1) == 0:            # low mask
                        if hi <= y:
                            return x
                        return self.mk(X % (y + 1), 0, y, w)
                    inv = (~y) & mask(w)
                    if inv & (inv + 1) == 0:        # high mask
                        return self.mk(X - X % (inv + 1), 0, hi, w)
                    if y & (y - 1) == 0:            # single bit
                        return self.mk(((X / y) % 2) * y, 0, y, w)
                    # contiguous run
                    s = (y & -y)
                    r = y // s
                    if r & (r + 1) == 0:
                        return self.mk(((X / s) % (r + 1)) * s, 0, y, w)
        if op == "or" or op == "xor":
            for x, y in ((a, b), (b, a)):
                if is_c(y):
                    y = int(y)
                    lo, hi = self.bnd(x, w)
                    X = self.lift(x, w)
                    low = (y & -y) if y else 0
                    if y == 0:
                        return x
                    if hi < low:                      # disjoint
                        return self.mk(X + y, lo + y, hi + y, w)
                    if op == "xor" and y == mask(w):
                        return self.mk(mask(w) - X, mask(w) - hi, mask(w) - lo, w)
                    if op == "or" and y & (y - 1) == 0:
                        return self.mk(z3.If((X / y) % 2 == 1, X, X + y), y, mask(w), w)
        raise Unsupported("int-mode %s" % op)

    def norm(self, r):
        return r

    def cmp(self, p, w, a, b):
        if is_c(a) and is_c(b):
            return conc_cmp(p, w, int(a), int(b))
        if w == 1:
            A, B = self.lift(a, 1), self.lift(b, 1)
            if p == "eq":
                return simp(A == B)
            if p == "ne":
                return simp(A != B)
            raise Unsupported("i1 cmp")
        if p[0] == "s":
            (la, ha), (lb, hb) = self.sbnd(a, w), self.sbnd(b, w)
            A, B = self.sg(a, w), self.sg(b, w)
        else:
            (la, ha), (lb, hb) = self.bnd(a, w), self.bnd(b, w)
            A, B = self.lift(a, w), self.lift(b, w)
        q = p if p in ("eq", "ne") else p[1:]
        if q == "lt":
            if ha < lb:
                return True
            if la >= hb:
                return False
        elif q == "le":
            if ha <= lb:
                return True
            if la > hb:
                return False
        elif q == "gt":
            if la > hb:
                return True
            if ha <= lb:
                return False
        elif q == "ge":
            if la >= hb:
                return True
            if ha < lb:
                return False
        elif ha < lb or hb < la:
            return q == "ne"
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "lt": lambda: A < B, "le": lambda: A <= B,
             "gt": lambda: A > B, "ge": lambda: A >= B}[q]()
        return simp(r)

    def ite(self, c, w, a, b):
        if isinstance(c, bool):
            return a if c else b
        if is_c(a) and is_c(b) and int(a) == int(b):
            return a
        if w == 1:
            return simp(z3.If(c, self.lift(a, 1), self.lift(b, 1)))
        (la, ha), (lb, hb) = self.bnd(a, w), self.bnd(b, w)
        return self.setb(z3.If(c, self.lift(a, w), self.lift(b, w)), min(la, lb), max(ha, hb))

    def cast(self, op, v, w1, w2):
        if is_c(v):
            return BVDom.cast(self, op, v, w1, w2)
        if w1 == 1:
            one = 1 if op == "zext" else mask(w2)
            return self.setb(z3.If(v, z3.IntVal(one), z3.IntVal(0)), 0, one)
        lo, hi = self.bnd(v, w1)
        if op == "zext":
            return v
        if op == "sext":
            sl, sh = self.sbnd(v, w1)
            return self.mk(self.sg(v, w1), sl, sh, w2)
        if op == "trunc":
            if w2 == 1:
                return simp(v % 2 == 1)
            return self.mk(v, lo, hi, w2)
        raise Unsupported(op)

    def no_overflow(self, op, w, a, b, signed):
        if is_c(a) and is_c(b):
            return BVDom.no_overflow(self, op, w, a, b, signed)
        if signed:
            A, B = self.sg(a, w), self.sg(b, w)
            (la, ha), (lb, hb) = self.sbnd(a, w), self.sbnd(b, w)
            L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            A, B = self.lift(a, w), self.lift(b, w)
            (la, ha), (lb, hb) = self.bnd(a, w), self.bnd(b, w)
            L, H = 0, mask(w)
        if op == "add":
            t, lo, hi = A + B, la + lb, ha + hb
        elif op == "sub":
            t, lo, hi = A - B, la - hb, ha - lb
        elif op == "mul":
            c = [la * lb, la * hb, ha * lb, ha * hb]
            if not (is_c(a) or is_c(b)):
                if min(c) >= L and max(c) <= H:
                    return True
                raise Unsupported("nonlinear")
            t, lo, hi = A * B, min(c), max(c)
        elif op == "shl" and is_c(b):
            k = 1 << int(b)
            t, lo, hi = A * k, la * k, ha * k
        else:
            raise Unsupported("no_overflow " + op)
        if lo >= L and hi <= H:
            return True
        return simp(z3.And(t >= L, t <= H))

    def concat_bytes(self, bs):
        if all(is_c(b) for b in bs):
            return BVDom.concat_bytes(self, bs)
        if len(bs) == 1:
            return bs[0]
        t = 0
        hi = 0
        for i, b in enumerate(bs):
            t = t + self.lift(b, 8) * (1 << (8 * i))
            hi += self.bnd(b, 8)[1] << (8 * i)
        return self.setb(t, 0, hi)

    def byte(self, v, w, i):
        if is_c(v):
            return (int(v) >> (8 * i)) & 255
        if w == 8:
            return v
        return self.mk((v / (1 << (8 * i))) % 256, 0, 255, 8)

    def val_of_model(self, model, v, w):
        if is_c(v):
            return int(v)
        r = model.eval(v, model_completion=True)
        if w == 1:
            return 1 if z3.is_true(r) else 0
        return r.as_long()


class HybDom:
    """Hybrid: i64 values (sizes, offsets) are mathematical integers in the *signed* range
    [-2^63, 2^63) with explicit wrap-around where the operation may wrap; all narrower values are
    bit-vectors.  Exact; the only conversions are int2bv / bv2int at 64<->narrow casts."""
    name = "hyb"
    LO, HI = -(1 << 63), (1 << 63) - 1

    def __init__(self):
        self.b = BVDom()
        self.bounds = {}
        self.keep = []
        self.split = {}       # 64-bit values put together from two 32-bit fields: id -> (high, low)

    def setb(self, t, lo, hi):
        if not is_c(t):
            self.bounds[t.get_id()] = (lo, hi)
            self.keep.append(t)
        return t

    def sb(self, v):
        if is_c(v):
            s = to_signed(int(v) & mask(64), 64)
            return s, s
        return self.bounds.get(v.get_id(), (self.LO, self.HI))

    def fresh(self, nm, w):
        if w == 64:
            return z3.Int(nm)
        return self.b.fresh(nm, w)

    def range_assume(self, v, w):
        if w != 64 or is_c(v):
            return None
        lo, hi = self.sb(v)
        return z3.And(v >= lo, v <= hi)

    def lift(self, v, w):
        if w == 64:
            if is_c(v):
                return z3.IntVal(to_signed(int(v) & mask(64), 64))
            return v
        return self.b.lift(v, w)

    def mk(self, t, lo, hi):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long() & mask(64)
        M = 1 << 64
        if lo >= self.LO and hi <= self.HI:
            return self.setb(t, lo, hi)
        if lo >= 2 * self.LO and hi <= 2 * self.HI + 1:
            r = t
            if hi > self.HI:
                r = z3.If(t > self.HI, t - M, r)
            if lo < self.LO:
                r = z3.If(t < self.LO, t + M, r)
            return self.setb(r, self.LO, self.HI)
        r = (t + (1 << 63)) % M - (1 << 63)
        return self.setb(r, self.LO, self.HI)

    def nowrap(self, op, a, b):
        """operation known (obliged) not to wrap"""
        A, B = self.lift(a, 64), self.lift(b, 64)
        (la, ha), (lb, hb) = self.sb(a), self.sb(b)
        if op == "add":
            t, lo, hi = A + B, la + lb, ha + hb
        elif op == "sub":
            t, lo, hi = A - B, la - hb, ha - lb
        else:
            c = [la * lb, la * hb, ha * lb, ha * hb]
            t, lo, hi = A * B, min(c), max(c)
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long() & mask(64)
        return self.setb(t, max(lo, self.LO), min(hi, self.HI))

    def parts(self, v):
        if is_c(v):
            return (int(v) & mask(64)) >> 32, int(v) & mask(32)
        return self.split.get(v.get_id())

    def join(self, hi, lo):
        if is_c(hi) and is_c(lo):
            return int(hi) << 32 | int(lo)
        t = self.frombv(z3.Concat(self.b.lift(hi, 32), self.b.lift(lo, 32)), 64, True)
        self.split[t.get_id()] = (hi, lo)
        self.keep.append(t)
        return t

    def fields(self, op, a, b):
        """operations that put 64-bit words together from 32-bit fields or take them apart"""
        p = self.parts(a)
        if p is None:
            return None
        if op in ("shl", "lshr"):
            if is_c(b) and int(b) == 32 and not is_c(a):
                return self.join(p[1], 0) if op == "shl" else self.join(0, p[0])
            return None
        q = self.parts(b)
        if q is None or is_c(a) and is_c(b):
            return None
        r = [self.b.binop(op, 32, x, y) for x, y in zip(p, q)]
        return self.join(*r)

    def binop(self, op, w, a, b, nsw=False):
        if w != 64:
            return self.b.binop(op, w, a, b)
        if op in ("and", "or", "shl", "lshr") and self.split:
            r = self.fields(op, a, b)
            if r is not None:
                return r
        if is_c(a) and is_c(b):
            r = conc(op, w, int(a) & mask(64), int(b) & mask(64))
            if r is None:
                raise Unsupported("undefined " + op)
            return r
        (la, ha), (lb, hb) = self.sb(a), self.sb(b)
        A, B = self.lift(a, 64), self.lift(b, 64)
        if op in ("add", "sub") and nsw:
            return self.nowrap(op, a, b)
        if op == "add":
            return self.mk(A + B, la + lb, ha + hb)
        if op == "sub":
            return self.mk(A - B, la - hb, ha - lb)
        if op == "mul":
            if not (is_c(a) or is_c(b)):
                raise Unsupported("nonlinear mul")
            c = [la * lb, la * hb, ha * lb, ha * hb]
            if nsw:
                return self.nowrap("mul", a, b)
            return self.mk(A * B, min(c), max(c))
        if is_c(b):
            k = int(b)
            if op in ("udiv", "urem", "lshr") and la < 0:
                if op == "lshr" and k == 0:
                    return a
                A2 = z3.If(A < 0, A + (1 << 64), A)
                la2, ha2 = 0, (1 << 64) - 1
            else:
                A2, la2, ha2 = A, la, ha
            if op == "lshr":
                op, k = "udiv", 1 << k
            if op == "udiv" and k > 0:
                return self.mk(A2 / k, la2 // k, ha2 // k)
            if op == "urem" and k > 0:
                return self.mk(A2 % k, 0, k - 1)
            if op == "shl":
                return self.mk(A * (1 << k), la << k, ha << k)
            if op == "ashr":
                return self.mk(A / (1 << k), la >> k, ha >> k)
            if op in ("sdiv", "srem") and 0 < k < (1 << 63):
                if la >= 0:
                    q, lo, hi = A / k, la // k, ha // k
                else:
                    q, lo, hi = z3.If(A >= 0, A / k, -((-A) / k)), -((-la) // k) - 1, max(ha, 0) // k
                if op == "sdiv":
                    return self.mk(q, lo, hi)
                return self.mk(A - k * q, -(k - 1) if la < 0 else 0, k - 1)
            if op == "and":
                if k & (k + 1) == 0:
                    return self.mk(A % (k + 1), 0, k)
                inv = (~k) & mask(64)
                if inv & (inv + 1) == 0:
                    return self.mk(A - A % (inv + 1), la - inv, ha)
            if op == "or" and k == 0 or op == "xor" and k == 0:
                return a
            if op == "xor" and k == mask(64):
                return self.mk(-A - 1, -ha - 1, -la - 1)
        elif is_c(a) and op in ("and", "or", "xor"):
            return self.binop(op, w, b, a)
        # fall back to bit-vectors
        if op in ("and", "or", "xor"):
            r = self.b.binop(op, 64, z3.Int2BV(A, 64), z3.Int2BV(B, 64))
            return self.frombv(r, 64, True)
        raise Unsupported("hyb %s" % op)

    def frombv(self, r, w, signed):
        if is_c(r):
            return r
        return self.setb(z3.BV2Int(r, signed), -(1 << (w - 1)) if signed else 0,
                         (1 << (w - 1)) - 1 if signed else mask(w))

    def norm(self, r):
        if z3.is_bv(r):
            return self.b.norm(r)
        return r

    def cmp(self, p, w, a, b):
        if w != 64:
            return self.b.cmp(p, w, a, b)
        if is_c(a) and is_c(b):
            return conc_cmp(p, 64, int(a) & mask(64), int(b) & mask(64))
        (la, ha), (lb, hb) = self.sb(a), self.sb(b)
        A, B = self.lift(a, 64), self.lift(b, 64)
        if p[0] == "u":
            if la < 0 <= ha:
                A, ha, la = z3.If(A < 0, A + (1 << 64), A), (1 << 64) - 1, 0
            elif ha < 0:
                A, la, ha = A + (1 << 64), la + (1 << 64), ha + (1 << 64)
            if lb < 0 <= hb:
                B, hb, lb = z3.If(B < 0, B + (1 << 64), B), (1 << 64) - 1, 0
            elif hb < 0:
                B, lb, hb = B + (1 << 64), lb + (1 << 64), hb + (1 << 64)
        q = p if p in ("eq", "ne") else p[1:]
        if q in ("eq", "ne"):
            if ha < lb or hb < la:
                return q == "ne"
            return simp(A == B) if q == "eq" else simp(A != B)
        if q == "lt":
            if ha < lb:
                return True
            if la >= hb:
                return False
            return simp(A < B)
        if q == "le":
            if ha <= lb:
                return True
            if la > hb:
                return False
            return simp(A <= B)
        if q == "gt":
            return self._flip(la, ha, lb, hb, A, B, True)
        return self._flip(la, ha, lb, hb, A, B, False)

    def _flip(self, la, ha, lb, hb, A, B, strict):
        if strict:
            if la > hb:
                return True
            if ha <= lb:
                return False
            return simp(A > B)
        if la >= hb:
            return True
        if ha < lb:
            return False
        return simp(A >= B)

    def inrange(self, i, size):
        """0 <= i < size, as signed integers"""
        A, S = self.lift(i, 64), self.lift(size, 64)
        return simp(z3.And(A >= 0, A < S))

    def ite(self, c, w, a, b):
        if w != 64:
            return self.b.ite(c, w, a, b)
        if isinstance(c, bool):
            return a if c else b
        if is_c(a) and is_c(b) and int(a) == int(b):
            return a
        (la, ha), (lb, hb) = self.sb(a), self.sb(b)
        return self.setb(z3.If(c, self.lift(a, 64), self.lift(b, 64)), min(la, lb), max(ha, hb))

    def cast(self, op, v, w1, w2):
        if w1 != 64 and w2 != 64:
            return self.b.cast(op, v, w1, w2)
        if is_c(v):
            return self.b.cast(op, int(v) & mask(w1), w1, w2)
        if w2 == 64:
            if w1 == 1:
                k = 1 if op == "zext" else -1
                return self.setb(z3.If(v, z3.IntVal(k), z3.IntVal(0)), min(k, 0), max(k, 0))
            # bv -> int
            if w1 == 32 and op == "zext":
                t = self.frombv(v, w1, False)
                self.split[t.get_id()] = (0, v)
                self.keep.append(t)
                return t
            return self.frombv(v, w1, op == "sext")
        if op == "trunc":
            p = self.split.get(v.get_id())
            if p is not None and w2 <= 32:
                return p[1] if w2 == 32 else self.b.cast("trunc", p[1], 32, w2)
            if w2 == 1:
                return simp(v % 2 == 1)
            return self.b.norm(z3.Int2BV(v, w2))
        raise Unsupported(op)

    def no_overflow(self, op, w, a, b, signed):
        if w != 64:
            return self.b.no_overflow(op, w, a, b, signed)
        if is_c(a) and is_c(b):
            return self.b.no_overflow(op, w, int(a) & mask(64), int(b) & mask(64), signed)
        (la, ha), (lb, hb) = self.sb(a), self.sb(b)
        A, B = self.lift(a, 64), self.lift(b, 64)
        if not signed:
            raise Unsupported("unsigned overflow check i64")
        L, H = self.LO, self.HI
        if op == "add":
            t, lo, hi = A + B, la + lb, ha + hb
        elif op == "sub":
            t, lo, hi = A - B, la - hb, ha - lb
        elif op == "mul":
            if not (is_c(a) or is_c(b)):
                raise Unsupported("nonlinear")
            c = [la * lb, la * hb, ha * lb, ha * hb]
            t, lo, hi = A * B, min(c), max(c)
        elif op == "shl" and is_c(b):
            t, lo, hi = A * (1 << int(b)), la << int(b), ha << int(b)
        else:
            raise Unsupported("no_overflow " + op)
        if lo >= L and hi <= H:
            return True
        return simp(z3.And(t >= L, t <= H))

    def concat_bytes(self, bs):
        if len(bs) == 8 and not all(is_c(b) for b in bs):
            return self.frombv(self.b.concat_bytes(bs), 64, True)
        return self.b.concat_bytes(bs)

    def byte(self, v, w, i):
        if w == 64 and not is_c(v):
            return self.b.norm(z3.Extract(8 * i + 7, 8 * i, z3.Int2BV(v, 64)))
        return self.b.byte(v, w, i)

    def val_of_model(self, model, v, w):
        if is_c(v):
            return int(v)
        r = model.eval(v, model_completion=True)
        if w == 1:
            return 1 if z3.is_true(r) else 0
        return r.as_long()


class LinDom:
    """All integers (any width) are mathematical integers.  A term denotes a machine value modulo
    2^w; its known bounds lie in the signed range [-2^(w-1), 2^(w-1)) or in the unsigned range
    [0, 2^w), and operations convert between the two views where needed.  Exact: wrap-around is
    emitted whenever the range analysis cannot exclude it."""
    name = "lin"

    nonlin = False                        # products of two variables allowed

    def __init__(self):
        self.bounds = {}
        self.keep = []
        self.b = BVDom()
        self.divs = {}        # (id, k) -> (quotient, its bounds, remainder): values given as k*q + r
        self.hook = None      # spec-provided meaning of further operations
        self.mulfn = None     # uninterpreted function that stands for the product of two variables (modulo 2^w, as a signed value)
        self.split = {}       # 64-bit values made of two 32-bit fields: id -> (high, low)

    def parts(self, v):
        """(high, low) 32-bit fields (unsigned views) of a 64-bit value put together from fields, or None"""
        if is_c(v):
            return (int(v) & mask(64)) >> 32, int(v) & mask(32)
        p = self.split.get(v.get_id())
        if p is not None:
            return p
        lo, hi = self.sb(v, 64)
        if lo >= 0 and hi <= mask(32):
            return 0, v
        lv = self.leaves(v)
        if lv:
            r = []
            for f in (lambda k: (k & mask(64)) >> 32, lambda k: k & mask(32)):
                t = f(lv[-1][1])
                for c, k in lv[:-1][::-1]:
                    if not is_c(t) or t != f(k):
                        t = self.setb(z3.If(c, z3.IntVal(f(k)), z3.IntVal(t) if is_c(t) else t), 0, mask(32))
                r.append(t)
            self.split[v.get_id()] = (r[0], r[1])
            self.keep.append(v)
            return r[0], r[1]
        return None

    def join(self, hi, lo):
        if is_c(hi) and is_c(lo):
            return int(hi) << 32 | int(lo)
        H, hl, hh = (z3.IntVal(int(hi)), int(hi), int(hi)) if is_c(hi) else (hi,) + self.sb(hi, 64)
        L, ll, lh = (z3.IntVal(int(lo)), int(lo), int(lo)) if is_c(lo) else (lo,) + self.sb(lo, 64)
        if is_c(hi) and hi == 0:
            return lo
        t = self.setb(H * (1 << 32) + L, (hl << 32) + ll, (hh << 32) + lh)
        self.split[t.get_id()] = (hi, lo)
        return t

    def divmod(self, A, la, ha, k):
        """floor division of the term A by the constant k: (q, lo, hi, r, lo, hi)"""
        if 0 <= la and ha < k:
            return z3.IntVal(0), 0, 0, A, la, ha
        d = self.divs.get((A.get_id(), k))
        if d is not None:
            return d
        if z3.is_app_of(A, z3.Z3_OP_ADD) and A.num_args() == 2 and z3.is_int_value(A.arg(0)):
            c = A.arg(0).as_long()
            d = self.divs.get((A.arg(1).get_id(), k))
            if d is not None and c % k == 0:
                return (z3.simplify(d[0] + c // k), d[1] + c // k, d[2] + c // k) + d[3:]
        return A / k, la // k, ha // k, A % k, 0, k - 1

    def setdiv(self, A, k, q, ql, qh, r):
        """declare A == k*q + r (the constraint is added by the caller)"""
        self.divs[(A.get_id(), k)] = (q, ql, qh, r, 0, k - 1)
        self.setb(q, ql, qh)
        self.setb(r, 0, k - 1)
        self.keep.append(A)

    @staticmethod
    def rng(w):
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def setb(self, t, lo, hi):
        if not is_c(t):
            self.bounds[t.get_id()] = (lo, hi)
            self.keep.append(t)
        return t

    def sb(self, v, w=64):
        if is_c(v):
            s = to_signed(int(v) & mask(w), w)
            return s, s
        return self.bounds.get(v.get_id(), self.rng(w))

    def fresh(self, nm, w):
        return z3.Bool(nm) if w == 1 else z3.Int(nm)

    def fresh_like(self, nm, w, v):
        """unsigned view if the value it stands for needs it"""
        t = self.fresh(nm, w)
        if w > 1 and not is_c(v) and z3.is_expr(v) and self.sb(v, w)[1] > self.rng(w)[1]:
            self.setb(t, 0, mask(w))
        return t

    def like(self, h, v, w):
        """v in the same view as h"""
        if w == 1 or is_c(v) and is_c(h):
            return v
        return self.U(v, w)[0] if self.sb(h, w)[1] > self.rng(w)[1] else self.S(v, w)[0]

    def range_assume(self, v, w):
        if w == 1 or is_c(v):
            return None
        lo, hi = self.sb(v, w)
        return z3.And(v >= lo, v <= hi)

    def lift(self, v, w):
        if w == 1:
            return self.b.lift(v, 1)
        if is_c(v):
            return z3.IntVal(to_signed(int(v) & mask(w), w))
        return v

    def S(self, v, w):
        """-> (term, lo, hi), signed view"""
        if is_c(v):
            s = to_signed(int(v) & mask(w), w)
            return z3.IntVal(s), s, s
        lo, hi = self.sb(v, w)
        L, H = self.rng(w)
        if hi <= H:
            return v, lo, hi
        if lo > H:
            return self.setb(v - (1 << w), lo - (1 << w), hi - (1 << w)), lo - (1 << w), hi - (1 << w)
        return self.setb(z3.If(v > H, v - (1 << w), v), L, H), L, H

    def U(self, v, w):
        if is_c(v):
            s = int(v) & mask(w)
            return z3.IntVal(s), s, s
        lo, hi = self.sb(v, w)
        if lo >= 0:
            return v, lo, hi
        if hi < 0:
            return self.setb(v + (1 << w), lo + (1 << w), hi + (1 << w)), lo + (1 << w), hi + (1 << w)
        return self.setb(z3.If(v < 0, v + (1 << w), v), 0, mask(w)), 0, mask(w)

    def mk(self, t, lo, hi, w):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long() & mask(w)
        L, H = self.rng(w)
        M = 1 << w
        if lo >= L and hi <= H or lo >= 0 and hi < M:
            return self.setb(t, lo, hi)
        c = lo // M
        if lo - c * M >= 0 and hi - c * M < M:
            return self.setb(z3.simplify(t - c * M), lo - c * M, hi - c * M)
        c = (lo - L) // M
        if lo - c * M >= L and hi - c * M <= H:
            return self.setb(z3.simplify(t - c * M), lo - c * M, hi - c * M)
        if lo >= 0:
            if hi < 2 * M:
                return self.setb(z3.If(t >= M, t - M, t), 0, M - 1)
            return self.setb(t % M, 0, M - 1)
        if lo >= 2 * L and hi <= 2 * H + 1:
            r = t
            if hi > H:
                r = z3.If(t > H, t - M, r)
            if lo < L:
                r = z3.If(t < L, t + M, r)
            return self.setb(r, L, H)
        return self.setb((t - L) % M + L, L, H)

    def nowrap(self, op, a, b, w=64):
        A, la, ha = self.S(a, w)
        B, lb, hb = self.S(b, w)
        L, H = self.rng(w)
        if op == "add":
            t, lo, hi = A + B, la + lb, ha + hb
        elif op == "sub":
            t, lo, hi = A - B, la - hb, ha - lb
        else:
            c = [la * lb, la * hb, ha * lb, ha * hb]
            t, lo, hi = A * B, min(c), max(c)
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long() & mask(w)
        return self.setb(t, max(lo, L), min(hi, H))

    @staticmethod
    def leaves(t, depth=4):
        """[(cond, int)] if the term is a small tree of ites over constants"""
        if is_c(t):
            return [(z3.BoolVal(True), int(t))]
        if z3.is_int_value(t):
            return [(z3.BoolVal(True), t.as_long())]
        if depth and z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            a, b = LinDom.leaves(t.arg(1), depth - 1), LinDom.leaves(t.arg(2), depth - 1)
            if a is None or b is None or len(a) + len(b) > 8:
                return None
            return [(z3.And(c, x), v) for x, v in a] + [(z3.And(z3.Not(c), x), v) for x, v in b]
        return None

    def binop(self, op, w, a, b, nsw=False):
        if w == 1:
            return self.b.binop(op, 1, a, b)
        if is_c(a) and is_c(b):
            r = conc(op, w, int(a) & mask(w), int(b) & mask(w))
            if r is None:
                raise Unsupported("undefined " + op)
            return r
        la, lb = self.leaves(a), self.leaves(b)
        if la and lb and len(la) * len(lb) <= 8:
            r = None
            for ca, x in la:
                for cb, y in lb:
                    z = conc(op, w, x & mask(w), y & mask(w))
                    if z is None:
                        break
                    z = to_signed(z, w)
                    r = z3.IntVal(z) if r is None else z3.If(z3.And(ca, cb), z3.IntVal(z), r)
                else:
                    continue
                break
            else:
                r = z3.simplify(r)
                ks = [k for _, k in self.leaves(r, 8) or []]
                if z3.is_int_value(r):
                    return r.as_long() & mask(w)
                if ks:
                    return self.setb(r, min(ks), max(ks))
        if w == 64 and op in ("and", "or", "shl", "lshr"):
            r = self.fields(op, a, b)
            if r is not None:
                return r
        if op in ("add", "sub", "mul"):
            if nsw and (op != "mul" or is_c(a) or is_c(b)):
                return self.nowrap(op, a, b, w)
            if op == "mul" and self.mulfn is not None and not is_c(a) and not is_c(b) and not self.leaves(a) and not self.leaves(b):
                return self.setb(self.mulfn(self.S(a, w)[0], self.S(b, w)[0]), *self.rng(w))
            (la, ha), (lb, hb) = self.sb(a, w), self.sb(b, w)
            A, B = self.lift(a, w), self.lift(b, w)
            if op == "add":
                return self.mk(A + B, la + lb, ha + hb, w)
            if op == "sub":
                return self.mk(A - B, la - hb, ha - lb, w)
            if not (is_c(a) or is_c(b)):
                for x, y in ((a, b), (b, a)):
                    lv = self.leaves(x)
                    if lv:
                        r = 0
                        for c, k in lv:
                            r = self.ite(simp(c), w, self.binop(op, w, k & mask(w), y), r)
                        return r
                if not self.nonlin:
                    raise Unsupported("nonlinear mul")
            c = [la * lb, la * hb, ha * lb, ha * hb]
            return self.mk(A * B, min(c), max(c), w)
        if is_c(b):
            k = int(b) & mask(w)
            if k == 0 and op in ("or", "xor", "shl", "lshr", "ashr"):
                return a
            if op in ("udiv", "urem", "lshr"):
                A, la, ha = self.U(a, w)
                if op == "lshr":
                    op, k = "udiv", 1 << k
                if op == "udiv" and k:
                    return self.mk(*self.divmod(A, la, ha, k)[:3], w)
                if k:
                    if ha < k:
                        return a
                    return self.mk(*self.divmod(A, la, ha, k)[3:], w)
            if op == "shl":
                la, ha = self.sb(a, w)
                return self.mk(self.lift(a, w) * (1 << k), la << k, ha << k, w)
            if op == "ashr":
                A, la, ha = self.S(a, w)
                return self.mk(*self.divmod(A, la, ha, 1 << k)[:3], w)
            if op in ("sdiv", "srem") and 0 < k < (1 << (w - 1)):
                A, la, ha = self.S(a, w)
                if la >= 0:
                    q, lo, hi = A / k, la // k, ha // k
                else:
                    q, lo, hi = z3.If(A >= 0, A / k, -((-A) / k)), -((-la) // k) - 1, max(ha, 0) // k
                if op == "sdiv":
                    return self.mk(q, lo, hi, w)
                return self.mk(A - k * q, -(k - 1) if la < 0 else 0, k - 1, w)
        elif is_c(a) and op in ("and", "or", "xor"):
            return self.binop(op, w, b, a)
        for x, y in ((a, b), (b, a)):
            lv = self.leaves(x) if not is_c(x) else None
            if lv and (is_c(y) or self.leaves(y)) and op in ("and", "or", "xor"):
                r = 0
                for c, k in lv:
                    r = self.ite(simp(c), w, self.binop(op, w, k & mask(w), y), r)
                return r
        if is_c(b) and op in ("and", "or", "xor"):
            k = int(b) & mask(w)
            la, ha = self.sb(a, w)
            A = self.lift(a, w)
            if op == "and":
                if k == 0:
                    return 0
                if k == mask(w):
                    return a
                if k & (k + 1) == 0:
                    if la >= 0 and ha <= k:
                        return a
                    return self.mk(*self.divmod(A, la, ha, k + 1)[3:], w)
                inv = (~k) & mask(w)
                if inv & (inv + 1) == 0:
                    A, la, ha = self.U(a, w)
                    return self.mk(A - A % (inv + 1), max(0, la - inv), ha, w)
                s = k & -k
                r = k // s
                if r & (r + 1) == 0:
                    return self.mk(((A / s) % (r + 1)) * s, 0, k, w)
            else:
                low = k & -k
                if la >= 0 and ha < low:
                    return self.mk(A + k, la + k, ha + k, w)
                if op == "xor" and k == mask(w):
                    return self.mk(-A - 1, -ha - 1, -la - 1, w)
                if op == "or" and k & (k - 1) == 0:
                    A, la, ha = self.U(a, w)
                    return self.mk(z3.If((A / k) % 2 == 1, A, A + k), k, mask(w), w)
        if op in ("shl", "lshr", "ashr"):
            lv = self.leaves(b)
            if lv:
                r = 0
                for c, k in lv:
                    r = self.ite(simp(c), w, self.binop(op, w, a, k), r)
                return r
        if op in ("or", "xor"):
            A, la, ha = self.U(a, w)
            B, lb, hb = self.U(b, w)
            for X, Y, hy in ((A, B, hb), (B, A, ha)):
                if hy < self.pow2factor(X):
                    return self.mk(A + B, la + lb, ha + hb, w)
        if self.hook is not None:
            r = self.hook(op, w, a, b)
            if r is not None:
                return r
        raise Unsupported("lin %s w=%d %s | %s" % (op, w, str(a)[:150], str(b)[:150]))

    @staticmethod
    def pow2factor(t):
        """a power of two that divides the linear term t"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            v = t.as_long()
            return v & -v if v else 1 << 64
        if z3.is_add(t):
            return min(LinDom.pow2factor(c) for c in t.children())
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)):
            v = t.arg(0).as_long()
            return v & -v if v else 1 << 64
        return 1

    def fields(self, op, a, b):
        """operations that put 64-bit words together from 32-bit fields or take them apart"""
        if op == "shl":
            if is_c(b) and int(b) == 32 and not is_c(a):
                p = self.parts(a)
                if p is not None:
                    return self.join(p[1], 0)
            return None
        if op == "lshr":
            if is_c(b) and int(b) == 32 and not is_c(a):
                p = self.parts(a)
                return p[0] if p else None
            return None
        p, q = self.parts(a), self.parts(b)
        if p is None or q is None or is_c(p[0]) and p[0] == 0 and is_c(q[0]) and q[0] == 0:
            return None
        r = []
        for x, y in zip(p, q):
            if is_c(x):
                x, y = y, x
            if is_c(y) and not is_c(x) and int(y) in (0, mask(32)):
                r.append((x if op == "or" else 0) if y == 0 else (mask(32) if op == "or" else x))
            else:
                try:
                    t = self.binop(op, 32, x, y)
                except Unsupported:
                    return None
                r.append(t if is_c(t) else self.U(t, 32)[0])
        return self.join(r[0], r[1])

    def norm(self, r):
        return r

    def cmp(self, p, w, a, b):
        if w == 1:
            return self.b.cmp(p, 1, a, b)
        if is_c(a) and is_c(b):
            return conc_cmp(p, w, int(a) & mask(w), int(b) & mask(w))
        if p in ("eq", "ne"):
            V = self.S
            if not is_c(a) and self.sb(a, w)[1] > self.rng(w)[1] or not is_c(b) and self.sb(b, w)[1] > self.rng(w)[1]:
                V = self.U
            q = p
        else:
            V = self.S if p[0] == "s" else self.U
            q = p[1:]
        A, la, ha = V(a, w)
        B, lb, hb = V(b, w)
        if q in ("eq", "ne"):
            if ha < lb or hb < la:
                return q == "ne"
            return simp(A == B) if q == "eq" else simp(A != B)
        if q == "lt":
            return True if ha < lb else False if la >= hb else simp(A < B)
        if q == "le":
            return True if ha <= lb else False if la > hb else simp(A <= B)
        if q == "gt":
            return True if la > hb else False if ha <= lb else simp(A > B)
        return True if la >= hb else False if ha < lb else simp(A >= B)

    def inrange(self, i, size):
        A, S = self.lift(i, 64), self.lift(size, 64)
        return simp(z3.And(A >= 0, A < S))

    def ite(self, c, w, a, b):
        if isinstance(c, bool):
            return a if c else b
        if w == 1:
            return self.b.ite(c, 1, a, b)
        if is_c(a) and is_c(b) and int(a) == int(b):
            return a
        if w == 64 and self.split:
            if not is_c(a) and a.get_id() in self.split or not is_c(b) and b.get_id() in self.split:
                p, q = self.parts(a), self.parts(b)
                if p and q:
                    return self.join(self.ite(c, 32, p[0], q[0]), self.ite(c, 32, p[1], q[1]))
        (la, ha), (lb, hb) = self.sb(a, w), self.sb(b, w)
        lo, hi = min(la, lb), max(ha, hb)
        A, B = self.lift(a, w), self.lift(b, w)
        if hi > self.rng(w)[1] and lo < 0:
            A, la, ha = self.U(a, w)
            B, lb, hb = self.U(b, w)
            lo, hi = min(la, lb), max(ha, hb)
        return self.setb(z3.If(c, A, B), lo, hi)

    def cast(self, op, v, w1, w2):
        if is_c(v):
            return self.b.cast(op, int(v) & mask(w1), w1, w2)
        if w1 == 1:
            k = 1 if op == "zext" else -1
            return self.setb(z3.If(v, z3.IntVal(k), z3.IntVal(0)), min(k, 0), max(k, 0))
        if op == "zext":
            return self.U(v, w1)[0]
        if op == "sext":
            return self.S(v, w1)[0]
        if op == "trunc":
            if w2 == 1:
                return simp(v % 2 == 1)
            if w1 == 64 and w2 <= 32 and (v.get_id() in self.split or self.leaves(v) and self.parts(v)):
                v, w1 = self.parts(v)[1], 32
                if w2 == 32 or is_c(v):
                    return int(v) & mask(w2) if is_c(v) else v
            lo, hi = self.sb(v, w1)
            L, H = self.rng(w2)
            if lo >= L and hi <= H or lo >= 0 and hi <= mask(w2):
                return v
            M = 1 << w2
            for c in (lo // M, (lo - L) // M):
                if lo - c * M >= 0 and hi - c * M < M or lo - c * M >= L and hi - c * M <= H:
                    return self.setb(z3.simplify(v - c * M), lo - c * M, hi - c * M)
            d = self.divmod(v, lo, hi, M)
            return self.setb(z3.simplify(d[3]), d[4], d[5])
        raise Unsupported(op)

    def no_overflow(self, op, w, a, b, signed):
        if is_c(a) and is_c(b):
            return self.b.no_overflow(op, w, int(a) & mask(w), int(b) & mask(w), signed)
        V = self.S if signed else self.U
        A, la, ha = V(a, w)
        B, lb, hb = V(b, w)
        L, H = self.rng(w) if signed else (0, mask(w))
        if op == "add":
            t, lo, hi = A + B, la + lb, ha + hb
        elif op == "sub":
            t, lo, hi = A - B, la - hb, ha - lb
        elif op == "mul":
            c = [la * lb, la * hb, ha * lb, ha * hb]
            if not (is_c(a) or is_c(b)) and not (min(c) >= L and max(c) <= H):
                for x, y in ((a, b), (b, a)):
                    lv = self.leaves(x)
                    if lv:
                        return simp(z3.And([z3.Implies(cc, self.lift(self.no_overflow(op, w, k & mask(w), y, signed), 1)) for cc, k in lv]))
                if self.mulfn is not None and signed:
                    t = self.mulfn(A, B)
                    return simp(z3.And(t >= L, t <= H))
                if not self.nonlin:
                    raise Unsupported("nonlinear")
            t, lo, hi = A * B, min(c), max(c)
        elif op == "shl" and is_c(b):
            t, lo, hi = A * (1 << int(b)), la << int(b), ha << int(b)
        else:
            raise Unsupported("no_overflow " + op)
        if lo >= L and hi <= H:
            return True
        return simp(z3.And(t >= L, t <= H))

    def concat_bytes(self, bs):
        if all(is_c(b) for b in bs):
            return self.b.concat_bytes(bs)
        if len(bs) == 1:
            return bs[0]
        t, lo, hi = 0, 0, 0
        for i, b in enumerate(bs):
            x, l, h = self.U(b, 8)
            t = t + x * (1 << (8 * i))
            lo += l << (8 * i)
            hi += h << (8 * i)
        return self.setb(t, lo, hi)

    def byte(self, v, w, i):
        if is_c(v):
            return (int(v) >> (8 * i)) & 255
        if w == 8:
            return v
        return self.mk((v / (1 << (8 * i))) % 256, 0, 255, 8)

    def val_of_model(self, model, v, w):
        if is_c(v):
            return int(v)
        r = model.eval(v, model_completion=True)
        if w == 1:
            return 1 if z3.is_true(r) else 0
        return r.as_long()
