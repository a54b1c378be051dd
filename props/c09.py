"""C09: fixed-point widths (strf::width_t).  Every operation is loop free and decided bit-precisely, for all
values of its operands, against its mathematical definition on value/65536."""
import z3
from driver import Task, Unit
from dom import is_c
from exec import simp
from spec_fn import FnSpec

HEAD = '''#include <strf/to_string.hpp>
using namespace strf;
static inline width_t W(int v) { return width_t::from_underlying(v); }
'''
N = 96                                   # wide enough for every intermediate value
MIN, MAX = -(1 << 31), (1 << 31) - 1
INTS = {"a": ("signed char", 8, True), "s": ("short", 16, True), "i": ("int", 32, True), "l": ("long long", 64, True),
        "h": ("unsigned char", 8, False), "t": ("unsigned short", 16, False), "j": ("unsigned", 32, False), "m": ("unsigned long long", 64, False)}


def K(c):
    return z3.BitVecVal(c, N)


def iclamp(x):
    return z3.If(x > MAX, MAX, z3.If(x < MIN, MIN, x))


def itdiv(p, k):
    return z3.If(p >= 0, p / k, -((-p) / k))


def clamp(x):
    return z3.If(x > K(MAX), K(MAX), z3.If(x < K(MIN), K(MIN), x))


def sgn(r):
    return z3.If(r > 0, K(1), z3.If(r < 0, K(-1), K(0)))


def tdiv(p, k):                           # division rounding toward zero, by a power of two
    s = k.bit_length() - 1
    return z3.If(p >= 0, p >> s, -((-p) >> s))


class Op:
    lin = False

    def __init__(self, name, expr, ins, post, ret="int", pre=None, sig=None):
        self.name, self.expr, self.ins, self.post, self.ret, self.pre, self.sig = name, expr, ins, post, ret, pre, sig


def lspec(op):
    """products: over the integers, where the code's product and the specification's are the same term"""
    def args(ex, st, sp):
        D, out, sp.v = ex.dom, [], []
        D.nonlin = True
        for i, (t, w, s) in enumerate(op.ins):
            v = sp.var(ex, "xyz"[i], w)
            if s:
                D.setb(v, -(1 << w - 1), (1 << w - 1) - 1)
                ex.solver.add(v >= -(1 << w - 1), v < 1 << w - 1)
            else:
                D.setb(v, 0, (1 << w) - 1)
                ex.solver.add(v >= 0, v < 1 << w)
            out.append(v)
            sp.v.append(v)
        return out

    def post(ex, st, r, sp):
        ex.oblige(st, simp(ex.dom.S(r, 32)[0] == op.post(*sp.v)), "post(%s)" % op.name, "result as specified")
    return FnSpec(args, post)


def spec(op):
    def args(ex, st, sp):
        out = []
        sp.v = []
        for i, (t, w, s) in enumerate(op.ins):
            v = sp.var(ex, "xyz"[i], w)
            out.append(v)
            sp.v.append(z3.SignExt(N - w, v) if s else z3.ZeroExt(N - w, v))
        if op.pre is not None:
            ex.solver.add(op.pre(*sp.v))
        return out

    def post(ex, st, r, sp):
        if isinstance(r, bool):
            r = z3.BoolVal(r)
        if not z3.is_expr(r) and is_c(r):
            w = {"int": 32, "long long": 64, "short": 16, "bool": 1, "unsigned": 32, "unsigned short": 16}[op.ret]
            r = z3.BitVecVal(int(r), w)
        if z3.is_expr(r) and r.sort() == K(0).sort():
            pass
        elif z3.is_bool(r):
            r = z3.If(r, K(1), K(0))
        else:
            s = op.sig if op.sig is not None else op.ret != "bool"
            n = r.size()
            r = (z3.SignExt if s else z3.ZeroExt)(N - n, r) if n < N else r
        for i, g in enumerate(op.post(r, *sp.v)):
            ex.oblige(st, simp(g), "post(%s)" % op.name, "result as specified (%d)" % i)
    return FnSpec(args, post)


V = ("int", 32, True)


def ops():
    o = []
    one = K(65536)

    def add(name, expr, ins, post, **kw):
        o.append(Op(name, expr, ins, lambda r, *a, post=post: [r == post(*a)], **kw))

    def wop(name, expr, ins, post, **kw):   # width_t result
        add(name, "(%s).underlying_value()" % expr, ins, post, **kw)

    def lop(name, expr, ins, post):
        q = Op(name, "(%s).underlying_value()" % expr, ins, post)
        q.lin = True
        o.append(q)

    def rel(name, expr, ins, post, **kw):   # only the sign of the result matters
        o.append(Op(name, expr, ins, lambda r, *a, post=post: [sgn(r) == sgn(post(*a))], ret="long long", **kw))
    t1 = lambda c: z3.If(c, K(1), K(0))
    # conversions from integers saturate
    for k, I in INTS.items():
        wop("width_t(%s)" % I[0], "width_t(x)", [I], lambda x: clamp(x * one))
        if k in "ijlm":
            wop("width_t::sat_cast(%s)" % I[0], "width_t::sat_cast(x)", [I], lambda x: clamp(x * one))
        wop("sat_add(width_t, %s)" % I[0], "sat_add(W(x), y)", [V, I], lambda x, y: clamp(x + y * one)) if k in "sil" else None
        wop("sat_add(%s, width_t)" % I[0], "sat_add(y, W(x))", [V, I], lambda x, y: clamp(x + y * one)) if k in "sil" else None
        wop("sat_sub(width_t, %s)" % I[0], "sat_sub(W(x), y)", [V, I], lambda x, y: clamp(x - y * one)) if k in "sil" else None
        if k in "sijlm":
            lop("sat_mul(width_t, %s)" % I[0], "sat_mul(W(x), y)", [V, I], lambda x, y: iclamp(x * y))
            lop("sat_mul(%s, width_t)" % I[0], "sat_mul(y, W(x))", [V, I], lambda x, y: iclamp(x * y))
        if k in "stijlm":
            rel("compare(width_t, %s)" % I[0], "compare(W(x), y)", [V, I], lambda x, y: x - y * one)
            rel("compare(%s, width_t)" % I[0], "compare(y, W(x))", [V, I], lambda x, y: y * one - x)
    S = INTS["s"]
    for op_, f in (("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<", lambda a, b: a < b), (">", lambda a, b: a > b),
                   ("<=", lambda a, b: a <= b), (">=", lambda a, b: a >= b)):
        add("width_t %s width_t" % op_, "W(x) %s W(y)" % op_, [V, V], lambda x, y, f=f: t1(f(x, y)), ret="bool")
        add("width_t %s short" % op_, "W(x) %s y" % op_, [V, S], lambda x, y, f=f: t1(f(x, y * one)), ret="bool")
        add("short %s width_t" % op_, "y %s W(x)" % op_, [V, S], lambda x, y, f=f: t1(f(y * one, x)), ret="bool")
    for n, f in (("zero", lambda x: x == 0), ("not_zero", lambda x: x != 0), ("gt_zero", lambda x: x > 0), ("ge_zero", lambda x: x >= 0),
                 ("lt_zero", lambda x: x < 0), ("le_zero", lambda x: x <= 0)):
        add("width_t::%s" % n, "W(x).%s()" % n, [V], lambda x, f=f: t1(f(x)), ret="bool")
    fits = lambda e: z3.And(e >= K(MIN), e <= K(MAX))
    for op_, f in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b)):
        wop("width_t %s width_t" % op_, "W(x) %s W(y)" % op_, [V, V], f, pre=lambda x, y, f=f: fits(f(x, y)))
        wop("width_t %s short" % op_, "W(x) %s y" % op_, [V, S], lambda x, y, f=f: f(x, y * one), pre=lambda x, y, f=f: fits(f(x, y * one)))
        wop("short %s width_t" % op_, "y %s W(x)" % op_, [V, S], lambda x, y, f=f: f(y * one, x), pre=lambda x, y, f=f: fits(f(y * one, x)))
    wop("-width_t", "-W(x)", [V], lambda x: -x, pre=lambda x: x != K(MIN))
    wop("+width_t", "+W(x)", [V], lambda x: x)
    wop("sat_add(width_t, width_t)", "sat_add(W(x), W(y))", [V, V], lambda x, y: clamp(x + y))
    wop("sat_sub(width_t, width_t)", "sat_sub(W(x), W(y))", [V, V], lambda x, y: clamp(x - y))

    def wmul(x, y):
        return iclamp(itdiv(x * y, 65536))
    lop("sat_mul(width_t, width_t)", "sat_mul(W(x), W(y))", [V, V], wmul)
    lop("width_t * width_t", "W(x) * W(y)", [V, V], wmul)
    lop("width_t * short", "W(x) * y", [V, S], lambda x, y: iclamp(x * y))
    lop("short * width_t", "y * W(x)", [V, S], lambda x, y: iclamp(x * y))
    sh = lambda y: z3.Extract(31, 0, y) << 16
    sw = lambda y: z3.SignExt(N - 32, sh(y))

    def wdiv(name, expr, ins, num, den):
        def post(r, x, y):
            a, b = z3.Extract(63, 0, num(x, y)), z3.Extract(63, 0, den(x, y))
            q = z3.SignExt(N - 64, (a * z3.BitVecVal(65536, 64)) / b)
            return [z3.Implies(fits(q), r == q)]
        o.append(Op(name, "(%s).underlying_value()" % expr, ins, post, pre=lambda x, y: den(x, y) != 0))
    wdiv("width_t / width_t", "W(x) / W(y)", [V, V], lambda x, y: x, lambda x, y: y)
    wdiv("width_t / short", "W(x) / y", [V, S], lambda x, y: x, lambda x, y: sw(y))
    wdiv("short / width_t", "y / W(x)", [V, S], lambda x, y: sw(y), lambda x, y: x)
    add("width_t::floor", "W(x).floor()", [V], lambda x: x >> 16, ret="short")
    add("width_t::ceil", "W(x).ceil()", [V], lambda x: -((-x) >> 16))
    add("width_t::round", "W(x).round()", [V], lambda x: z3.If(x >= 0, (x + 0x7FFF) >> 16, (x + 0x8000) >> 16))
    nn = lambda x: z3.If(x < 0, K(0), x)
    add("width_t::non_negative_floor", "W(x).non_negative_floor()", [V], lambda x: nn(x) >> 16, ret="unsigned short", sig=False)
    add("width_t::non_negative_ceil", "W(x).non_negative_ceil()", [V], lambda x: (nn(x) + 0xFFFF) >> 16, ret="unsigned", sig=False)
    add("width_t::max", "width_t::max().underlying_value()", [V], lambda x: K(MAX))
    add("width_t::min", "width_t::min().underlying_value()", [V], lambda x: K(MIN))
    # accumulated widths (premeasurements): the sum of the added widths, at most the limit z
    nneg = lambda *a: z3.And(*[x >= 0 for x in a])
    mn = lambda a, b: z3.If(a <= b, a, b)
    acc = "[&]{ width_accumulator<true> a(W(z)); a.add_width(W(x)); a.add_width(W(y)); return a; }()"
    ck = "[&]{ width_accumulator<true> a(W(z)); a.checked_add_width(W(x)); a.checked_add_width(W(y)); return a; }()"
    t1 = lambda c: z3.If(c, K(1), K(0))
    V3 = [V, V, V]
    for nm, e in (("add_width", acc), ("checked_add_width", ck)):
        wop(nm + "; accumulated_width", e + ".accumulated_width()", V3, lambda x, y, z: mn(x + y, z), pre=nneg)
        wop(nm + "; remaining_width", e + ".remaining_width()", V3, lambda x, y, z: z - mn(x + y, z), pre=nneg)
        add(nm + "; has_remaining_width", e + ".has_remaining_width()", V3, lambda x, y, z: t1(x + y < z), pre=nneg, ret="bool")
    one_ = "[&]{ width_accumulator<true> a(W(z)); a.add_width(W(x)); return a; }()"
    add("add_width; remaining_width_greater_than", one_ + ".remaining_width_greater_than(W(y))", V3, lambda x, y, z: t1(x + y < z), pre=nneg, ret="bool")
    wop("saturate_width; remaining_width", "[&]{ width_accumulator<true> a(W(z)); a.add_width(W(x)); a.saturate_width(); return a; }().remaining_width()", V3,
        lambda x, y, z: K(0), pre=nneg)
    wop("default limit", "[&]{ width_accumulator<true> a; a.add_width(W(x)); a.add_width(W(y)); return a; }().accumulated_width()", [V, V],
        lambda x, y: clamp(x + y), pre=nneg)
    for k in "ijlm":
        I = INTS[k]
        add("add_size(%s)" % I[0], "[&]{ size_accumulator<true> a; a.add_size(x); a.add_size(y); return a; }().accumulated_ssize()", [I, I], lambda x, y: x + y,
            pre=lambda x, y: z3.And(x >= 0, y >= 0, x < K(1 << 61), y < K(1 << 61)), ret="long long")
    return o


def units(tier):
    fns, tasks = "", []
    for i, op in enumerate(ops()):
        fn = "f_w%d" % i
        fns += 'extern "C" %s %s(%s){ return %s; }\n' % (op.ret, fn, ", ".join("%s %s" % (t[0], "xyz"[k]) for k, t in enumerate(op.ins)), op.expr)
        tasks.append(Task(op.name, fn, (lambda op=op: lspec(op) if op.lin else spec(op)), dom="lin" if op.lin else "bv", native=("width.cpp", [op.name])))
    return [Unit("w", HEAD + fns, [t.fn for t in tasks], tasks)]


def replay_args(task, m):
    return ["--replay"] + [str(m.get(k, 0)) for k in "xyz"]


TRUST = []
ASSUME = ["sums, differences and quotients are specified when they are representable (the saturating forms always); the divisor is not zero",
          "the value of a product or quotient that is not a multiple of 1/65536 is rounded toward zero"]
LEVEL = "proof"
