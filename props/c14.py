"""C14: punctuated integers: digit groupings, separators, and the printers that use them"""
import re
import z3
from exec import Ptr, PDiff, Obj, Fork, simp
from llir import INT
from dom import is_c
from driver import Task, Unit
from spec_fn import FnSpec
from spec_dst import Stream, i64
import spec_txt as T
from props.c10 import Digits, _tab, CH, PrintSpec, INTS, AL, cases

HEAD = '''#include <strf/to_string.hpp>
#include <string.h>
using namespace strf;
static inline digits_grouping G(unsigned g){ digits_grouping r; memcpy((void*)&r, &g, 4); return r; }
static inline unsigned W(digits_grouping g){ unsigned r; memcpy(&r, &g, 4); return r; }
'''
# representation of a grouping: groups g0 (least significant) .. g(k-1), 5 bits each, under a marker:
# 2 = the last group is repeated, 3 = no more separators.  k <= 6; no group is 0; k = 0 only with marker 3
REPS = [(0, 3)] + [(k, m) for k in range(1, 7) for m in (2, 3)]
REP = {2: "last group repeated", 3: "not repeated"}
bv = lambda c, w=32: z3.BitVecVal(c, w)


def word(g, m, k=None):
    """representation of the groups g (5-bit terms, least significant first)"""
    r = 30 - 5 * len(g)
    return simp(z3.Concat(*(([z3.BitVecVal(0, r)] if r else []) + [z3.BitVecVal(m, 2)] + list(reversed(g)))))


def groups(sp, ex, k, m):
    """symbolic groups; the boundaries (numbers of digits to the right of a separator) of the first k separators"""
    sp.g = [z3.BitVec("g%d" % i, 5) for i in range(k)]
    for i, g in enumerate(sp.g):
        ex.solver.add(g != 0)
        sp.vars["g%d" % i] = g
    sp.vars["k"], sp.vars["m"] = bv(k), bv(m)
    sp.G = [z3.ZeroExt(27, g) for g in sp.g]
    sp.B, s = [], bv(0)
    for g in sp.G:
        s = s + g
        sp.B.append(s)
    sp.k, sp.m = k, m
    return word(sp.g, m)


def lift(v, w=32):
    return v if z3.is_expr(v) and not z3.is_bool(v) else z3.If(v, bv(1, w), bv(0, w)) if z3.is_expr(v) else bv(int(v), w)


def lgroups(sp, ex, k, m, last=None):
    """the same over the integers: the representation is w0 = g0 + 32 * w1, w1 = g1 + 32 * w2, ..., wk = m.
    last: the value of the repeated group"""
    D = ex.dom
    sp.k, sp.m = k, m
    sp.G, w = [], [None] * k + [m]
    bnd = [None] * k + [(m, m)]
    for i in range(k):
        g = z3.Int("g%d" % i)
        sp.vars["g%d" % i] = g
        if i == k - 1 and last is not None:
            ex.solver.add(g == last)
            g = z3.IntVal(last)
        else:
            ex.solver.add(g >= 1, g <= 31)
            D.setb(g, 1, 31)
        sp.G.append(g)
    sp.vars["k"], sp.vars["m"] = z3.IntVal(k), z3.IntVal(m)
    for i in range(k - 1, -1, -1):
        v = z3.Int("w%d" % i)
        bnd[i] = (1 + 32 * bnd[i + 1][0], 31 + 32 * bnd[i + 1][1])
        ex.solver.add(v == sp.G[i] + 32 * w[i + 1])
        D.setb(v, *bnd[i])
        D.setdiv(v, 32, w[i + 1] if i + 1 < k else z3.IntVal(m), bnd[i + 1][0], bnd[i + 1][1], sp.G[i])
        w[i] = v
    sp.B, s = [], z3.IntVal(0)
    for g in sp.G:
        s = z3.simplify(s + g)
        sp.B.append(s)
    return w[0]


def sepcount(k, m, last):
    def args(ex, st, sp):
        w = lgroups(sp, ex, k, m, last)
        return [w, sp.var(ex, "n", 32)]

    def post(ex, st, r, sp):
        n = sp.vars["n"]
        r = ex.dom.S(ex.mat(r), 32)[0]
        ob = lambda c, t: ex.oblige(st, c, "post(separators_count)", t)
        for j in range(k + 1):
            here = z3.And(n <= sp.B[j] if j < k else z3.BoolVal(True), n > sp.B[j - 1] if j else z3.BoolVal(True))
            if j == k and m == 2:
                ob(z3.Implies(here, z3.And(r >= k, last * (r - k) < n - sp.B[-1], n - sp.B[-1] <= last * (r - k + 1))), "the last group repeated")
            else:
                ob(z3.Implies(here, r == j), "%d separators" % j)
    return FnSpec(args, post, unroll=8)


def anysep(k, m):
    def args(ex, st, sp):
        return [groups(sp, ex, k, m), sp.var(ex, "n", 32)]

    def post(ex, st, r, sp):
        n = sp.vars["n"]
        ex.oblige(st, simp((lift(r, 8) != 0) == (sp.B[0] < n if k else z3.BoolVal(False))), "post(any_separator)", "at least one separator")
    return FnSpec(args, post)


def distribute(k, m, last):
    """low groups (from the left), how often the first of them occurs, the leftmost group"""
    def args(ex, st, sp):
        w = lgroups(sp, ex, k, m, last)
        n = sp.var(ex, "n", 32)
        ex.solver.add(n >= 1)
        ex.dom.setb(n, 1, (1 << 31) - 1)
        sp.out = ex.new_cell(st, "out", 12)
        return [w, n, Ptr(sp.out)]

    def post(ex, st, r, sp):
        n = sp.vars["n"]
        ob = lambda c, t: ex.oblige(st, c, "post(distribute)", t)
        c = st.mem[sp.out.id]
        low, mid, hi = [ex.dom.S(ex.mat(c[o][1]), 32)[0] for o in (0, 4, 8)]
        rev = [z3.IntVal(0)]                 # rev[j]: g(0) .. g(j-1), the last in the lowest bits
        for g in sp.G:
            rev.append(z3.simplify(rev[-1] * 32 + g))
        for j in range(k + 1):
            B = sp.B[j - 1] if j else 0
            here = z3.And(n <= sp.B[j] if j < k else z3.BoolVal(True), n > B)
            if j == k and m == 2:
                ob(z3.Implies(here, low == rev[k]), "the listed groups")
                ob(z3.Implies(here, z3.And(mid >= 1, hi >= 1, hi <= last, last * (mid - 1) + hi == n - B)),
                   "the last one is repeated")
            else:
                ob(z3.Implies(here, z3.And(low == rev[j], mid == 0, hi == n - B)), "%d separators" % j)
    return FnSpec(args, post, unroll=8)


def itspec(op, k, m):
    """digits_grouping_iterator, k groups left"""
    def args(ex, st, sp):
        w = groups(sp, ex, k, m)
        if op != "ended" and k == 0:
            ex.solver.add(False)
        return [w]

    def post(ex, st, r, sp):
        ob = lambda c: ex.oblige(st, simp(c), "post(digits_grouping_iterator::%s)" % op, "as documented")
        if op in ("current", "advance"):
            return ob(lift(r) == (sp.G[0] if op == "current" else word(sp.g[1:], m)))
        want = {"is_last": k == 1, "shall_repeat_current": k == 1 and m == 2, "is_final": k == 1 and m == 3, "ended": k == 0}[op]
        ob((lift(r, 8) != 0) == z3.BoolVal(want))
    return FnSpec(args, post)


def listed(n, last):
    """digits_grouping(g0, g1, ..., [-1])"""
    def args(ex, st, sp):
        a = []
        groups(sp, ex, n, 2)
        return list(sp.G)

    def post(ex, st, r, sp):
        ex.oblige(st, simp(lift(r) == word(sp.g, 3 if last else 2)), "post(digits_grouping)", "the listed groups, the last repeated unless -1 is listed")
    return FnSpec(args, post)


def merged(g, j):
    """the highest j+1 of the groups g are equal, not j+2"""
    k = len(g)
    e = [g[k - 1] == g[i] for i in range(k - 1 - j, k - 1)]
    if k - 2 - j >= 0:
        e.append(g[k - 1] != g[k - 2 - j])
    return z3.And(e) if e else z3.BoolVal(True)


def creator(n, fin):
    """n times push_high, then finish() or finish_no_more_sep()"""
    def args(ex, st, sp):
        return [sp.var(ex, "g%d" % i, 32) for i in range(n)]

    def post(ex, st, r, sp):
        ob = lambda c, t: ex.oblige(st, simp(c), "post(digits_grouping_creator::%s)" % fin, t)
        r = lift(r)
        v = [sp.vars["g%d" % i] for i in range(n)]
        ok = z3.And([z3.And(x >= 1, x <= 31) for x in v] + [n <= 6])
        if n > 6:
            return ob(r == 3, "no groups: too many were listed")
        ob(z3.Implies(z3.Not(ok), r == 3), "no groups if one is out of range")
        if n == 0:
            return ob(r == 3, "no groups")
        g = [z3.Extract(4, 0, x) for x in v]
        if fin != "finish":
            return ob(z3.Implies(ok, r == word(g, 3)), "the pushed groups")
        for j in range(n):
            ob(z3.Implies(z3.And(ok, merged(g, j)), r == word(g[:n - j], 2)), "the pushed groups, the highest is repeated")
    return FnSpec(args, post, unroll=8)


def fromstr():
    """digits_grouping(const char*): bytes up to one that is 0 (the last group is repeated) or not less than 0x80"""
    def args(ex, st, sp):
        L = sp.var(ex, "len", 64)
        ex.solver.add(L >= 0, L <= 1 << 48)
        ex.dom.setb(L, 0, 1 << 48)
        sp.L = L
        b = sp.b = ex.new_buf(st, "str", 1, z3.simplify(L + 1), ro=True)
        rd = sp.rd = lambda i: ex.dom.lift(ex.buf_read(st, b, i), 8)
        sp.stop = lambda c: z3.Or(c == 0, z3.UGE(c, 0x80))
        ex.solver.add(sp.stop(rd(L)))
        sp.ch = [rd(z3.IntVal(i)) for i in range(7)]
        for i in range(7):
            ex.solver.add(z3.Implies(i < L, z3.Not(sp.stop(sp.ch[i]))))
        return [Ptr(b, 0)]

    def word30(i, ch):
        w = bv(0)
        for c in ch[:i]:
            w = (w << 5) | z3.ZeroExt(24, c)
        return w

    def cands(ex, st, fr, hdr, vs, entry, hv, sp):
        ptrs = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is sp.b]
        ints = [(k, 8 * k[3]) for k in hv if k[0] == "cell" and not isinstance(hv[k], Ptr)]
        for q in ptrs:
            i = lambda v, q=q: I(v[q].i)
            yield ("0<=i<=len", lambda v, i=i: z3.And(i(v) >= 0, i(v) <= sp.L))
            for f, fw in ints:
                F = lambda v, f=f, fw=fw: simp(z3.Extract(0, 0, lift(v[f], fw)) == 1)
                if fw == 32:
                    for j in range(7):
                        yield ("i=%d: the groups" % j, lambda v, j=j, i=i, f=f: z3.Implies(z3.And(i(v) == j, inr(sp.ch, j)), lift(v[f]) == word30(j, sp.ch)))
                        yield ("i>%d: not zero" % j, lambda v, j=j, i=i, f=f: z3.Implies(z3.And(i(v) > 0, inr(sp.ch, 1)), lift(v[f]) != 0))
                    continue
                yield ("i>6: failed", lambda v, i=i, F=F: z3.Implies(i(v) > 6, F(v)))
                for j in range(7):
                    yield ("i=%d: failed iff" % j, lambda v, j=j, i=i, F=F: z3.Implies(i(v) == j, F(v) == z3.Not(inr(sp.ch, j))))

    def inr(ch, j):
        return z3.And([z3.And(z3.UGE(c, 1), z3.ULE(c, 31)) for c in ch[:j]])

    def I(x):
        return z3.IntVal(x) if is_c(x) else x

    def head(ex, st, fr, hv, sp):
        for k, v in hv.items():
            if isinstance(v, Ptr) and v.o is sp.b:
                i = I(v.i)
                c = sp.rd(i)
                ex.solver.add(z3.Implies(z3.And(i >= 0, i < sp.L), z3.Not(sp.stop(c))))
                for j in range(7):
                    ex.solver.add(z3.Implies(i == j, c == sp.ch[j]))
        return []

    def post(ex, st, r, sp):
        ob = lambda c, t: ex.oblige(st, simp(c), "post(digits_grouping)", t)
        r = lift(r)
        ob(z3.Implies(sp.L == 0, r == 3), "no groups")
        ob(z3.Implies(sp.L > 6, r == 3), "no groups: too many")
        for n in range(1, 7):
            ok = inr(sp.ch, n)
            g = [z3.Extract(4, 0, c) for c in sp.ch[:n]]
            ob(z3.Implies(z3.And(sp.L == n, z3.Not(ok)), r == 3), "no groups: out of range")
            nul = sp.rd(sp.L) == 0
            ob(z3.Implies(z3.And(sp.L == n, ok, z3.Not(nul)), r == word(g, 3)), "the groups, not repeated")
            for j in range(n):
                ob(z3.Implies(z3.And(sp.L == n, ok, nul, merged(g, j)), r == word(g[:n - j], 2)), "the groups, the last repeated")
    return FnSpec(args, post, cands=cands, head=head, unroll=lambda ex, st, f, h: 8 if f != "f_str" else None)


def grp_units():
    src, ts = HEAD, []

    def fn(name, text):
        nonlocal src
        src += 'extern "C" ' + text.replace("@", name) + "\n"
        return name
    nat = lambda *a: ("punct.cpp|-DKIND=G", list(a))
    a, b, c = [fn("f_" + n, t) for n, t in (
        ("seps", "int @(unsigned g, int n){ return G(g).separators_count(n); }"), ("any", "bool @(unsigned g, int n){ return G(g).any_separator(n); }"),
        ("dist", "void @(unsigned g, int n, int* out){ auto d = G(g).distribute(n); memcpy(out, &d.low_groups, 4); out[1] = d.middle_groups_count; out[2] = d.highest_group; }"))]
    its = {op: fn("f_it_" + op, "%s @(unsigned g){ auto it = G(g).get_iterator(); %s }" % (
        {"current": "int", "advance": "unsigned"}.get(op, "bool"), "it.advance(); unsigned r; memcpy(&r, &it, 4); return r;" if op == "advance" else "return it.%s();" % op))
        for op in ("current", "advance", "is_last", "shall_repeat_current", "is_final", "ended")}
    for k, m in REPS:
        nm = "%d groups, %s" % (k, "repeat" if m == 2 else "no repeat")
        ts.append(Task("any_separator [%s]" % nm, b, lambda k=k, m=m: anysep(k, m), "bv", native=nat("any")))
        for last in range(1, 32) if m == 2 else (None,):
            n2 = nm + (" %d" % last if last else "")
            ts.append(Task("separators_count [%s]" % n2, a, lambda k=k, m=m, last=last: sepcount(k, m, last), "lin", native=nat("seps")))
            ts.append(Task("distribute [%s]" % n2, c, lambda k=k, m=m, last=last: distribute(k, m, last), "lin", native=nat("dist")))
        for op, f in its.items():
            if k or op == "ended":
                ts.append(Task("digits_grouping_iterator::%s [%s]" % (op, nm), f, lambda op=op, k=k, m=m: itspec(op, k, m), "bv", native=nat("it", op)))
    for n in range(0, 8):
        ps = ", ".join("int g%d" % i for i in range(n))
        xs = ", ".join("g%d" % i for i in range(n))
        if 1 <= n <= 6:
            for last in (0, 1):
                f = fn("f_list%d_%d" % (n, last), "unsigned @(%s){ return W(digits_grouping(%s%s)); }" % (ps, xs, ", -1" if last else ""))
                ts.append(Task("digits_grouping(%d groups%s)" % (n, ", -1" if last else ""), f, lambda n=n, last=last: listed(n, last), "bv", native=nat("list%d" % last)))
        for fin in ("finish", "finish_no_more_sep"):
            for ty in ("int", "unsigned"):
                f = fn("f_cr%d_%s_%s" % (n, fin, ty), "unsigned @(%s){ digits_grouping_creator c; %s return W(c.%s()); }" % (
                    ps, " ".join("c.push_high((%s)g%d);" % (ty, i) for i in range(n)), fin))
                ts.append(Task("digits_grouping_creator, %d x push_high(%s), %s" % (n, ty, fin), f, lambda n=n, fin=fin: creator(n, fin), "bv", native=nat("cr", fin, ty)))
    f = fn("f_str", "unsigned @(const char* s){ return W(digits_grouping(s)); }")
    ts.append(Task("digits_grouping(const char*)", f, fromstr, "hyb", native=nat("str")))
    return [Unit("grp", src, sorted({t.fn for t in ts}), ts, noinline=[r"23digits_grouping_creator.*finish"])]



# ------------------------------------------------------------------ grouped digits
BIG = 1 << 40


class Grouped:
    """The digits of x (n of them) with separators, for an arbitrary grouping of K groups, K in 1..6.

    GR(s)   size of the s-th group from the right        B(s)  the digits up to and including group s
    W(s)    representation of the grouping without its first s groups
    Sn      the number of separators: B(Sn-1) < n <= B(Sn)
    A digit of weight d in group s is followed by d digits and s separators."""

    def __init__(self, ex, B_, w, x, lc, sepsize, sepunit, m, minseps=1):
        F = lambda nm, n: z3.Function(nm, *([z3.IntSort()] * n))
        self.ex, self.base = ex, B_
        self.dg = Digits(ex, B_, w, x)
        self.n, self.x, self.lc = self.dg.n, x, lc
        self.ss, self.sepunit = sepsize, sepunit
        self.memo = {}
        self.GR, self.B, self.W, self.GT, self.DD = F("GR", 2), F("BOUND", 2), F("GW", 2), F("GT", 2), F("DD", 2)
        self.LW, self.PS = F("LW", 2), F("PS", 2)
        self.u0 = None
        self.K, self.m, self.Sn = z3.Int("K"), z3.IntVal(m), z3.Int("Sn")
        ex.solver.add(self.K >= 1, self.K <= 6, self.Sn >= minseps, self.Sn < self.n)
        ex.dom.setb(self.K, 1, 6)
        ex.dom.setb(self.Sn, minseps, 63)
        self.L = z3.simplify(self.n + sepsize * self.Sn)
        ex.solver.add(self.B(-1) == 0, self.DD(0) == 0)
        for s in (z3.IntVal(0), self.K - 1, self.Sn - 1, self.Sn):
            self.at(s)

    def at(self, s):
        """facts about group s"""
        s = z3.simplify(s if z3.is_expr(s) else z3.IntVal(s))
        self.once(("at", s), self._at)

    def once(self, key, f):
        """assert an axiom, which is built only once"""
        i = tuple(k.get_id() if z3.is_expr(k) else k for k in key)
        if i not in self.memo:
            self.memo[i] = (key, f(*key[1:]))
        self.ex.solver.add(self.memo[i][1])

    def _at(self, s):
        GR, B, W, K, m = self.GR, self.B, self.W, self.K, self.m
        return (z3.simplify(z3.Implies(s >= 0, z3.And(
            GR(s) >= 1, GR(s) <= 31,
            z3.Implies(s < K, z3.And(W(s) == GR(s) + 32 * z3.If(s + 1 == K, m, W(s + 1)), W(s) >= 65, W(s) < 1 << 32,
                                     z3.Implies(s + 1 < K, W(s + 1) >= 65))),
            z3.If(z3.Or(s < K, m == 2), B(s) == B(s - 1) + GR(s), B(s) == BIG),
            z3.Implies(z3.And(s >= K, m == 2), GR(s) == GR(K - 1)),
            z3.Implies(m == 3, self.Sn <= K),
            B(s - 1) >= s, (B(s) < self.n) == (s < self.Sn)))))

    def char(self, d):
        return T.digit_char(self.base, self.dg.D(self.x, d), self.lc)

    def low(self, s):
        """LW(s): the first s groups as digits_distribution has them"""
        s = z3.simplify(s)
        LW = self.LW
        self.at(s - 1)
        self.ex.solver.add(LW(0) == 0, z3.Implies(z3.And(s >= 1, s <= self.K), z3.And(
            LW(s) == 32 * LW(s - 1) + self.GR(s - 1), LW(s - 1) >= 0, LW(s - 1) < 1 << 25)))

    def watch(self, u):
        """the unit at distance u from the end is looked at"""
        self.u0 = u
        self.ex.solver.add(z3.Implies(z3.And(u >= 0, u < self.L), self.GT(u) >= 0))

    def seen(self, s):
        """facts about the watched unit if it belongs to group s or to the separator before it (separator s), and
        about the places between"""
        s = z3.simplify(s)
        for t in (s - 1, s):
            self.at(t)
        B, ss, u = self.B, self.ss, self.u0
        d = z3.simplify(u - ss * s)
        self.dg.at(d)
        i = z3.simplify(u - B(s - 1) - ss * (s - 1))
        sep = self.sepunit(0)
        for k in range(1, ss):
            sep = z3.If(i == ss - 1 - k, self.sepunit(k), sep)
        if self.base == 2:
            self.pow_at(d)
        self.ex.solver.add(z3.Implies(z3.And(s >= 0, s <= self.Sn, B(s - 1) <= d, d < B(s), d < self.n), self.GT(u) == self.char(d)),
                           z3.Implies(z3.And(s >= 1, s <= self.Sn, i >= 0, i < ss), self.GT(u) == sep))

    def place(self, d, s):
        """after d digits and s separators (of one unit)"""
        d, s = z3.simplify(d), z3.simplify(s)
        e = z3.simplify(d + s)
        self.ex.solver.add(z3.Implies(z3.And(s >= 0, self.B(s - 1) <= d, d <= self.B(s), e <= self.L), z3.And(
            self.DD(e) == d, z3.Implies(e < self.L, self.GT(e) == z3.If(d < self.B(s), self.char(d), self.sepunit(0))))))

    def around(self, e, nd=4, ns=3):
        """instances for the units from position e on: DD(e) digits are among the last e units"""
        ex = self.ex
        d, s = ex.fresh("digits", 64), ex.fresh("seps", 64)
        ex.solver.add(d == self.DD(e), s == e - d, z3.Implies(z3.And(e >= 0, e <= self.L), z3.And(d >= 0, s >= 0, self.B(s - 1) <= d, d <= self.B(s))))
        for i in range(-1, ns + 1):
            self.at(s + i)
        for i in range(nd + 1):
            self.dg.at(d + i)
        for i in range(nd + 1):
            for j in range(ns):
                self.place(d + i, s + j)


def backwards(B_, cu, m):
    """write_txtdigits_backwards_little_sep"""
    def args(ex, st, sp):
        D = ex.dom
        x = sp.x = sp.var(ex, "x", 64)
        D.setb(x, 0, (1 << 64) - 1)
        ex.solver.add(x >= 0, x < 1 << 64)
        sp.lc = sp.var(ex, "lc", 16)
        sep = sp.var(ex, "sep", 8 * cu)
        sv = D.U(sep, 8 * cu)[0]
        g = sp.gr = Grouped(ex, B_, 64, x, D.U(sp.lc, 16)[0], 1, lambda i: sv, m)
        L, sp.end = z3.Int("size"), z3.Int("it")
        ex.solver.add(sp.end >= g.L, sp.end <= L, L <= 1 << 60)
        for t in (sp.end, L):
            D.setb(t, 0, 1 << 60)
        sp.b = ex.new_buf(st, "text", cu, L)
        sp.k0 = z3.Int("k0")
        ex.solver.add(sp.k0 >= 0, sp.k0 < L)
        D.setb(sp.k0, 0, 1 << 60)
        sp.old = ex.buf_read(st, sp.b, sp.k0)
        g.place(z3.IntVal(0), z3.IntVal(0))
        g.dg.at(0)
        g.dg.at(1)
        w = z3.Int("grouping")
        ex.solver.add(w == g.W(0))
        D.setb(w, 65, (1 << 32) - 1)
        return [Ptr(sp.b, sp.end), x, w, sep, sp.lc]

    def post(ex, st, r, sp):
        g = sp.gr
        ob = lambda c, m: ex.oblige(st, c, "post(write_txtdigits_backwards_little_sep)", m)
        v = ex.dom.U(ex.buf_read(st, sp.b, sp.k0), 8 * cu)[0]
        inside = z3.And(sp.k0 >= sp.end - g.L, sp.k0 < sp.end)
        ob(z3.Implies(inside, v == g.GT(sp.end - 1 - sp.k0)), "the digits, separated into groups")
        ob(z3.Implies(z3.Not(inside), v == ex.dom.U(sp.old, 8 * cu)[0]), "nothing else is written")

    def head(ex, st, fr, hv, sp):
        for k, v in hv.items():
            if isinstance(v, Ptr) and v.o is sp.b:
                e = z3.simplify(sp.end - i64(v.i))
                sp.gr.around(e)
        return []

    def cands(ex, st, fr, hdr, vs, entry, hv, sp):
        ptrs = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is sp.b]
        ints = [(k, t.w) for k, v, t in vs if k[0] == "phi" and t is not None and t.k == "int" and t.w >= 8]
        buf = ("buf", sp.b.id)
        g = sp.gr
        rd = lambda vals: ex.dom.U(read(ex, vals[buf], sp), 8 * cu)[0]
        for q in ptrs:
            e = lambda v, q=q: z3.simplify(sp.end - i64(v[q].i))
            s = lambda v, e=e: e(v) - g.DD(e(v))
            yield ("%s<=it" % (q,), lambda v, e=e: e(v) >= 0)
            yield ("%s>it-n" % (q,), lambda v, e=e: g.DD(e(v)) < g.n)
            yield ("%s>=it-n" % (q,), lambda v, e=e: g.DD(e(v)) <= g.n)
            yield ("%s>it-L" % (q,), lambda v, e=e: e(v) < g.L)
            yield ("%s>=it-L" % (q,), lambda v, e=e: e(v) <= g.L)
            yield ("%s: inside a group" % (q,), lambda v, e=e, s=s: g.DD(e(v)) < g.B(s(v)))
            yield ("%s: at least two digits left" % (q,), lambda v, e=e, s=s: g.DD(e(v)) + 1 < g.n)
            yield ("%s: no more separators" % (q,), lambda v, e=e, s=s: z3.And(s(v) == g.K, g.m == 3))
            for x, w_ in ints:
                X = lambda v, x=x, w_=w_: ex.dom.U(ex.mat(v[x]), w_)[0]
                if w_ == 64:
                    yield ("%s==Q(digits)" % (x,), lambda v, e=e, X=X: X(v) == g.dg.Q(g.DD(e(v))))
                if w_ == 32:
                    yield ("%s: digits before the separator" % (x,), lambda v, e=e, X=X, s=s: z3.And(X(v) == g.B(s(v)) - g.DD(e(v)), X(v) >= 1, X(v) <= 31))
                    for y in ("K", "K-1"):
                        yield ("%s: grouping" % (x,), lambda v, e=e, X=X, s=s: z3.If(s(v) < g.K, X(v) == g.W(s(v)), z3.And(g.m == 2, X(v) == g.W(g.K - 1))))
            if buf in hv:
                yield ("written[%s,it)" % (q,), lambda v, e=e, q=q: z3.Implies(z3.And(sp.k0 >= i64(v[q].i), sp.k0 < sp.end), rd(v) == g.GT(sp.end - 1 - sp.k0)))
                yield ("rest unchanged", lambda v, q=q: z3.Implies(z3.Or(sp.k0 < i64(v[q].i), sp.k0 >= sp.end), rd(v) == ex.dom.U(sp.old, 8 * cu)[0]))

    def read(ex, bm, sp):
        class S:
            pass
        s = S()
        s.mem = {sp.b.id: bm}
        return ex.buf_read(s, sp.b, sp.k0)
    return _tab(FnSpec(args, post, cands=cands, head=head))


def wr_units():
    src, ts = HEAD, []
    for B_ in (10, 16, 8):
        for c in "csiw":
            f = "f_lsep%d%s" % (B_, c)
            src += '''extern "C" void %s(%s* it, unsigned long long x, unsigned g, %s sep, unsigned short lc){
  detail::intdigits_backwards_writer<%d>::write_txtdigits_backwards_little_sep(it, x, G(g).get_iterator(), sep, (lettercase)lc); }\n''' % (f, CH[c][0], CH[c][0], B_)
            for m in (2, 3):
                ts.append(Task("write_txtdigits_backwards_little_sep<%d>(%s*) [%s]" % (B_, CH[c][0], REP[m]), f, lambda B_=B_, c=c, m=m: backwards(B_, CH[c][1], m), "lin",
                               native=("punct.cpp|-DKIND=W|-DBASE=%d" % B_, ["lsep", c])))
    return [Unit("gw", src, sorted({t.fn for t in ts}), ts)]


def c_distribute(g):
    """contract of digits_grouping::distribute, fork on whether all listed groups are used"""
    def h(ex, st, ins, a):
        D = ex.dom
        w = a[0]
        if isinstance(w, Ptr):
            w = ex.load(st, w, INT(32))
        ex.oblige(st, D.U(ex.mat(w), 32)[0] == g.W(0), "pre(distribute)", "the grouping")
        ex.oblige(st, D.S(ex.mat(a[1]), 32)[0] == g.n, "pre(distribute)", "digcount is the number of digits")
        hi = ex.fresh("highest", 32)
        ex.solver.add(hi == g.n - g.B(g.Sn - 1), hi >= 1, hi <= 64)
        D.setb(hi, 1, 64)
        low = ex.fresh("low", 32)
        ex.solver.add(low == g.LW(z3.If(g.Sn < g.K, g.Sn, g.K)), low >= 0, low < 1 << 30)
        D.setb(low, 0, (1 << 30) - 1)
        g.low(z3.If(g.Sn < g.K, g.Sn, g.K))

        def ret(mid):
            return [D.join(mid, low), hi]
        if str(g.m) == "3":
            return ret(0)
        mid = ex.fresh("middle", 32)
        D.setb(mid, 1, 64)
        ex.solver.add(z3.Implies(g.Sn >= g.K, mid == g.Sn - g.K + 1))
        if g.few is not None:
            return ret(0 if g.few is True else mid)
        raise Fork([(g.Sn < g.K, lambda: ret(0)), (g.Sn >= g.K, lambda: ret(mid))])
    return h


class Writer(FnSpec):
    """write_little_sep and write_big_sep: the text of Grouped is delivered to the destination"""
    reuse_cands = 4
    try_measure = staticmethod(lambda k, dirn, sg: k[0] == "phi" and dirn == "down" and sg == "u")
    skip_cands = re.compile(r"-entry==|\+\d+\*%|\)\+%|==len")

    def __init__(self, B_, cu, m, ss, few=None):
        FnSpec.__init__(self, None, None)
        self.B_, self.u, self.m, self.ss = B_, cu, m, ss
        self.sterms, self.by_loop, self.few, self.end_ptrs = [], {}, few, set()

    def setup(self, ex, st, fname):
        D = ex.dom
        x = self.x = self.var(ex, "x", 64)
        D.setb(x, 0, (1 << 64) - 1)
        ex.solver.add(x >= 0, x < 1 << 64)
        lc = self.var(ex, "lc", 16)
        u = self.u
        sep = self.var(ex, "sep", 8 * u if self.ss is None else 32)
        ss = 1 if self.ss is None else self.ss
        if self.ss is None:
            sv = D.U(sep, 8 * u)[0]
            unit = lambda i: sv
        else:
            F = z3.Function("SEPUNIT", z3.IntSort(), z3.IntSort())
            for i in range(ss):
                ex.solver.add(F(i) >= 0, F(i) < 1 << (8 * u))
            unit = lambda i: D.setb(F(i), 0, (1 << (8 * u)) - 1)
        g = self.gr = Grouped(ex, self.B_, 64, x, D.U(lc, 16)[0], ss, unit, self.m)
        if self.few is not None:
            ex.solver.add((g.Sn < g.K) if self.few is True else z3.And(g.Sn >= g.K, {1: g.K == 1, 2: g.K >= 2, 0: True}[int(self.few)]))
        g.few = self.few
        if self.B_ == 2:
            ex.solver.add(x > 1)
            binary(ex, g)
        for j in (0, 1):
            g.dg.at(j)
        g.low(z3.IntVal(0))
        g.low(g.K)
        total = self.total = g.L
        self.base = [g.Sn, z3.simplify(g.K - 1)]
        self.s = Stream(u, 64, total, lambda k: g.GT(z3.simplify(total - 1 - k)), factors=(1,))
        d = self.s.setup(ex, st)
        self.k0 = self.s.k0
        g.watch(z3.simplify(total - 1 - self.k0))
        for t in (g.Sn, z3.IntVal(0)):
            g.seen(t)
        w = z3.Int("grouping")
        ex.solver.add(w == g.W(0))
        D.setb(w, 65, (1 << 32) - 1)
        self.install(ex)
        a = [d]
        if self.ss is not None:
            a.append(Ptr(Obj("encode_char_fn", "func", 1, 1, True)))
        a += [x, w, sep, ss if self.ss is not None else None, g.n, g.Sn if self.ss is None else None, lc]
        ex.start(st, fname, [t for t in a if t is not None])

    def install(self, ex):
        g, D, u = self.gr, ex.dom, self.u
        ex.contracts["re:15digits_grouping10distributeE"] = c_distribute(g)

        def c_back(ex, st, ins, a):
            w = "pre(write_txtdigits_backwards_little_sep)"
            p = a[0]
            ok = isinstance(p, Ptr) and p.o.kind == "buf" and p.o.unit == u and p.b == 0
            ex.oblige(st, ok, w, "output pointer")
            ob = lambda c, t: ex.oblige(st, c, w, t)
            ob(D.U(ex.mat(a[1]), 64)[0] == self.x, "the value")
            ob(D.U(ex.mat(a[2]), 32)[0] == g.W(0), "the grouping")
            ob(D.U(ex.mat(a[3]), 8 * u)[0] == g.sepunit(0), "the separator")
            ob(D.U(a[4], 16)[0] == g.lc, "the letter case")
            q = ex.padd(p.i, D.setb(z3.simplify(-g.L), -128, -1))
            ob(ex.bnd_range(st, p.o, q, D.setb(g.L, 1, 128)), "space for the text before the pointer")
            ex.buf_write_range(st, p.o, q, g.L, lambda k: D.setb(g.GT(z3.simplify(g.L - 1 - k)), 0, (1 << 8 * u) - 1))

        def c_digits(ex, st, ins, a):
            w = "pre(write_txtdigits_backwards)"
            p = a[1]
            ok = isinstance(p, Ptr) and p.o.kind == "buf" and p.o.unit == 1 and p.b == 0
            ex.oblige(st, ok, w, "output pointer")
            ex.oblige(st, D.U(ex.mat(a[0]), 64)[0] == self.x, w, "the value")
            ex.oblige(st, D.U(a[2], 16)[0] == g.lc, w, "the letter case")
            q = ex.padd(p.i, D.setb(-g.n, -64, -1))
            ex.oblige(st, ex.bnd_range(st, p.o, q, g.n), w, "space for all digits before the pointer")
            ex.buf_write_range(st, p.o, q, g.n, lambda k: D.setb(g.char(z3.simplify(g.n - 1 - k)), 48, 127))
            self.dbuf, self.dend = p.o, p.i
            return Ptr(p.o, q)

        def c_copy(ex, st, ins, a):
            w = "pre(copy_n)"
            s, n, p = a[0], i64(ex.mat(a[1])), a[2]
            ok = isinstance(p, Ptr) and p.o.kind == "buf" and p.o.unit == u and p.b == 0 and isinstance(s, Ptr) and s.o.kind == "buf" and s.o.unit == 1
            ex.oblige(st, ok, w, "pointers")
            ex.oblige(st, ex.bnd_range(st, s.o, s.i, n), w, "source")
            ex.oblige(st, ex.bnd_range(st, p.o, p.i, n), w, "destination")
            ex.buf_write_range(st, p.o, p.i, n, lambda k: D.U(ex.buf_read(st, s.o, z3.simplify(i64(s.i) + k)), 8)[0])

        def c_enc(ex, st, ins, a):
            w = "pre(encode_char)"
            p = a[0]
            ok = isinstance(p, Ptr) and p.o.kind == "buf" and p.o.unit == u and p.b == 0
            ex.oblige(st, ok, w, "output pointer")
            ex.oblige(st, D.U(ex.mat(a[1]), 32)[0] == D.U(self.vars["sep"], 32)[0], w, "the separator")
            ex.oblige(st, ex.bnd_range(st, p.o, p.i, self.ss), w, "space")

            def unit(k):
                r = g.sepunit(0)
                for i in range(1, self.ss):
                    r = z3.If(k == i, g.sepunit(i), r)
                return D.setb(r, 0, (1 << 8 * u) - 1)
            ex.buf_write_range(st, p.o, p.i, self.ss, unit)
            return Ptr(p.o, ex.padd(p.i, self.ss))
        ex.contracts["re:36write_txtdigits_backwards_little_sepI"] = c_back
        ex.contracts["re:intdigits_backwards_writerI.*25write_txtdigits_backwardsIyhE"] = c_digits
        ex.contracts["re:4strf6detail6copy_nI"] = c_copy
        ex.contracts["encode_char_fn"] = c_enc

    def packed(self, ex, v):
        """64-bit values that are two fields (digits_distribution is returned as such)"""
        return (z3.is_expr(v) or isinstance(v, int)) and ex.dom.parts(v) is not None

    def alloca_buf(self, ex, st, fr, ins, sz):
        if ins.ty.k == "arr" and sz >= 8:
            return Ptr(ex.new_buf(st, "digits_buff", 1, sz), 0)
        return None

    def on_return(self, ex, st, ret):
        self.s.final(ex, st)

    def rest(self, v, q):
        """units still to be delivered"""
        return z3.simplify(self.total - (i64(v[q].i) - i64(v[("ghost", "sh")])))

    def left(self, r):
        """PS(r) is s if, with r units left, s separators are left: instances of its definition"""
        g = self.gr
        for s in self.base + self.sterms:
            g.once(("left", r, s), lambda r, s: z3.And(
                g._at(z3.simplify(s - 1)), g._at(s),
                z3.Implies(z3.And(s >= 0, s <= g.Sn, g.B(s - 1) <= r - g.ss * s, r - g.ss * s <= g.B(s)), g.PS(r) == s)))

    def ptrs(self, hv):
        return [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is self.s.o and k[0] == "phi" and k not in self.end_ptrs]

    def head_axioms(self, ex, st, fr, hv):
        g, terms = self.gr, []
        vals = dict(hv)
        vals.setdefault(("ghost", "sh"), st.ghost["sh"])
        for q in self.ptrs(hv):
            r = self.rest(vals, q)
            s = ex.fresh("seps", 64)
            ex.solver.add(s == g.PS(r))
            g.seen(s)
            g.seen(s - 1)
            g.low(s)
            g.low(s - 1)
            g.low(s + 1)
            if self.B_ == 2:
                d = z3.simplify(r - g.ss * s)
                for t in (d, d - 1, d - 2):
                    g.pow_at(z3.simplify(t))
            terms += [s, z3.simplify(s - 1)]
        self.sterms = self.by_loop[id(fr.loops[-1][0])] = terms
        return []

    def back_axioms(self, ex, st, fr, vals):
        self.sterms = self.by_loop.get(id(fr.loops[-1][0]), [])
        return []

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        g, D = self.gr, ex.dom
        self.sterms = [t for c in fr.loops for t in self.by_loop.get(id(c[0]), [])]
        yield from self.s.cands(ex, st, hv, entry, fr)
        ints = [(k, t.w) for k, v, t in vs if k[0] == "phi" and t is not None and t.k == "int" and t.w in (32, 64)]
        dig = [k for k, v in hv.items() if isinstance(v, Ptr) and getattr(self, "dbuf", None) is v.o]
        ends = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is self.s.o and k[0] == "phi"]
        for q in ends:
            if not is_c(entry[q].i) and ex.chk(entry[q].i != i64(entry[("ghost", "whi")])) == z3.unsat and ex.chk(entry[q].i > i64(entry[("ghost", "wlo")])) != z3.unsat:
                self.end_ptrs.add(q)
            yield ("%s==whi" % (q,), lambda v, q=q: i64(v[q].i) == i64(v[("ghost", "whi")]))
        for q in self.ptrs(hv):
            def r(v, q=q):
                t = self.rest(v, q)
                self.left(t)
                return t
            s = lambda v, r=r: g.PS(r(v))
            d = lambda v, r=r, s=s: r(v) - g.ss * s(v)        # digits left
            yield ("%s: digits" % (q,), lambda v, d=d, s=s: z3.And(s(v) >= 0, s(v) <= g.Sn, d(v) >= 0, d(v) <= g.n))
            yield ("%s: digits left" % (q,), lambda v, d=d, s=s: d(v) >= 1)
            yield ("%s: between groups" % (q,), lambda v, d=d, s=s: d(v) == g.B(s(v) - 1))
            yield ("%s: no separator left" % (q,), lambda v, s=s: s(v) == 0)
            yield ("%s: separators left" % (q,), lambda v, s=s: s(v) >= 1)
            yield ("%s: up to K groups left" % (q,), lambda v, s=s: s(v) <= g.K)
            yield ("%s: up to K-1 groups left" % (q,), lambda v, s=s: s(v) <= g.K - 1)
            yield ("%s: K groups left" % (q,), lambda v, s=s: s(v) >= g.K)
            if entry.get(q) is not None and isinstance(entry[q], Ptr) and entry[q].o is self.s.o:
                s0 = s({q: entry[q], ("ghost", "sh"): entry[("ghost", "sh")]})
                yield ("%s: as many separators as on entry" % (q,), lambda v, s=s, s0=s0: s(v) == s0)
            yield ("%s: all groups left" % (q,), lambda v, s=s: s(v) == g.Sn)
            for y in dig:
                yield ("%s: digit" % (y,), lambda v, y=y, d=d: i64(v[y].i) + d(v) == i64(self.dend))
            for x, w in ints:
                X = lambda v, x=x, w=w: D.U(ex.mat(v[x]), w)[0]
                I = lambda v, x=x, w=w: D.S(ex.mat(v[x]), w)[0]
                if w == 64 and D.parts(ex.mat(entry[x])) is not None:
                    H = lambda v, x=x: ex.dom.parts(ex.mat(v[x]))[0]
                    Lo = lambda v, x=x: ex.dom.parts(ex.mat(v[x]))[1]
                    yield ("%s: no middle groups" % (x,), lambda v, H=H: H(v) == 0)
                    for t in (0, 1):
                        yield ("%s: all low groups, but %d" % (x, t), lambda v, Lo=Lo, t=t: Lo(v) == g.LW(g.K - t))
                    for t in (0, 1):
                        yield ("%s: middle groups" % (x,), lambda v, H=H, s=s, t=t: z3.And(H(v) >= 1 - t, s(v) == g.K - 1 + H(v) + t))
                        yield ("%s: low groups %d" % (x, t), lambda v, Lo=Lo, s=s, t=t: z3.And(s(v) >= t, Lo(v) == g.LW(s(v) - t)))
                    continue
                if w == 64:
                    yield ("%s==2^(digits-1)" % (x,), lambda v, X=X, d=d: X(v) == POW(d(v) - 1))
                    yield ("%s==2^(digits-1), if any" % (x,), lambda v, X=X, d=d: z3.If(d(v) >= 1, X(v) == POW(d(v) - 1), X(v) == 0))
                    continue
                for t in (0, 1):
                    yield ("%s: low groups %d" % (x, t), lambda v, X=X, s=s, t=t: z3.And(s(v) >= t, X(v) == g.LW(s(v) - t)))
                for t in (0, 1):
                    yield ("%s: all low groups, but %d" % (x, t), lambda v, X=X, t=t: X(v) == g.LW(g.K - t))
                    yield ("%s: middle groups" % (x,), lambda v, I=I, s=s, t=t: z3.And(I(v) >= 1 - t, s(v) == g.K - 1 + I(v) + t))
                    yield ("%s: digits of the group" % (x,), lambda v, I=I, s=s, d=d, t=t: z3.And(I(v) >= t, I(v) == d(v) - g.B(s(v) - 1)))


POW = z3.Function("POW2", z3.IntSort(), z3.IntSort())
AND = z3.Function("AND", z3.IntSort(), z3.IntSort(), z3.IntSort())


def binary(ex, g):
    """the digit of weight 2^j is 1 iff x & 2^j is not 0 (lemma in extra() of C10)"""
    x = g.x

    def hook(op, w, a, b):
        if op == "shl" and is_c(a) and int(a) == 1 and w == 64:
            return ex.dom.setb(POW(b), 0, (1 << 64) - 1)
        if op == "and" and w == 64 and not is_c(a) and not is_c(b) and (a.eq(x) or b.eq(x)):
            if b.eq(x):
                a, b = b, a
            return ex.dom.setb(AND(a, ex.dom.U(b, w)[0]), 0, (1 << 64) - 1)
        return None
    ex.dom.hook = hook

    def pow_at(j):
        ex.solver.add(z3.Implies(z3.And(j >= 0, j < 64), z3.And(
            POW(j) >= 1, POW(j) < 1 << 64, POW(j) / 2 == z3.If(j >= 1, POW(j - 1), 0),
            g.dg.D(x, j) == z3.If(AND(x, POW(j)) != 0, 1, 0))))
    g.pow_at = pow_at
    pow_at(z3.simplify(g.n - 1))


def copyn(cu):
    """copy_n(src, n, dst): dst[k] = src[k] for every k < n, nothing else is written"""
    def args(ex, st, sp):
        D = ex.dom
        n, N, L, a, b = sp.n, _, _, _, sp.at = tuple(z3.Int(x) for x in ("n", "N", "L", "a", "at"))
        ex.solver.add(n >= 0, a >= 0, b >= 0, a + n <= N, b + n <= L, N <= 1 << 60, L <= 1 << 60)
        for t in (n, N, L, a, b):
            D.setb(t, 0, 1 << 60)
        sp.src, sp.a = ex.new_buf(st, "src", 1, N, ro=True), a
        sp.b = ex.new_buf(st, "dst", cu, L)
        sp.k0 = z3.Int("k0")
        ex.solver.add(sp.k0 >= 0, sp.k0 < L)
        D.setb(sp.k0, 0, 1 << 60)
        sp.old = D.U(ex.buf_read(st, sp.b, sp.k0), 8 * cu)[0]
        sp.new = D.U(ex.buf_read(st, sp.src, D.setb(z3.simplify(sp.k0 - b + a), -1 << 61, 1 << 61)), 8)[0]
        return [Ptr(sp.src, a), n, Ptr(sp.b, b)]

    def inside(sp, m):
        return z3.And(sp.k0 >= sp.at, sp.k0 < sp.at + m)

    def post(ex, st, r, sp):
        v = ex.dom.U(ex.buf_read(st, sp.b, sp.k0), 8 * cu)[0]
        ex.oblige(st, v == z3.If(inside(sp, sp.n), sp.new, sp.old), "post(copy_n)", "dst[k]==src[k] for k<n, nothing else is written")

    def cands(ex, st, fr, hdr, vs, entry, hv, sp):
        ds = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is sp.b]
        ss = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is sp.src]
        ints = [(k, t.w) for k, v, t in vs if k[0] == "phi" and t is not None and t.k == "int" and t.w in (32, 64)]
        ms = [(k, lambda v, k=k: i64(v[k].i) - sp.at) for k in ds] + [(k, lambda v, k=k: i64(v[k].i) - sp.a) for k in ss]
        for k, w in ints:
            X = lambda v, k=k, w=w: ex.dom.U(ex.mat(v[k]), w)[0]
            ms += [(k, X), ("n-%s" % (k,), lambda v, X=X: sp.n - X(v))]
        for k, m in ms:
            yield ("0<=%s<=n" % (k,), lambda v, m=m: z3.And(m(v) >= 0, m(v) <= sp.n))
            for k2, m2 in ms:
                if str(k2) != str(k):
                    yield ("%s==%s" % (k, k2), lambda v, m=m, m2=m2: m(v) == m2(v))
            if ("buf", sp.b.id) in hv:
                class S:
                    pass

                def rd(v):
                    s = S()
                    s.mem = {sp.b.id: v[("buf", sp.b.id)]}
                    return ex.dom.U(ex.buf_read(s, sp.b, sp.k0), 8 * cu)[0]
                yield ("copied[0,%s)" % (k,), lambda v, m=m, rd=rd: rd(v) == z3.If(inside(sp, m(v)), sp.new, sp.old))
    return FnSpec(args, post, cands=cands)


FEW = ((2, True, "last group not repeated as all digits are in the groups before it"), (2, "1", "last group repeated, one group given"), (2, "2", "last group repeated, several groups given"), (3, None, "not repeated"))


def sepw_units(tier):
    us = []
    for c in "csiw":
        src, ts = HEAD, []
        C, cu = CH[c]
        for B_ in (10, 16, 8, 2):
            if B_ == 2 and c != "c" and tier != "thorough":
                continue
            f = "f_little%d%s" % (B_, c)
            src += '''extern "C" void %s(destination<%s>& d, unsigned long long x, unsigned g, %s sep, int n, int ns, unsigned short lc){
  detail::intdigits_writer<%d>::write_little_sep(d, x, G(g), n, ns, sep, (lettercase)lc); }\n''' % (f, C, C, B_)
            for m, few, nm in (FEW if B_ == 2 else ((2, None, REP[2]), (3, None, REP[3]))):
                ts.append(Task("intdigits_writer<%d>::write_little_sep<%s> [%s]" % (B_, C, nm), f, lambda B_=B_, cu=cu, m=m, few=few: Writer(B_, cu, m, None, few), "lin",
                               deadline=600 if B_ == 2 and few == "2" else 150,
                               native=("punct.cpp|-DKIND=W|-DBASE=%d" % B_, ["little", c])))
            if cu == 4:
                continue
            f = "f_big%d%s" % (B_, c)
            src += '''extern "C" void %s(destination<%s>& d, encode_char_f<%s> e, unsigned long long x, unsigned g, char32_t sep, int ss, int n, unsigned short lc){
  detail::intdigits_writer<%d>::write_big_sep(d, e, x, G(g), sep, ss, n, (lettercase)lc); }\n''' % (f, C, C, B_)
            for ss in {1: (2, 3, 4) if B_ != 2 or tier == "thorough" else (2,), 2: (2,)}[cu]:
                for m, few, nm in FEW:
                    ts.append(Task("intdigits_writer<%d>::write_big_sep<%s> [%d units, %s]" % (B_, C, ss, nm), f, lambda B_=B_, cu=cu, m=m, ss=ss, few=few: Writer(B_, cu, m, ss, few), "lin",
                                   deadline=600 if B_ == 2 and few == "2" else 150,
                                   native=("punct.cpp|-DKIND=W|-DBASE=%d" % B_, ["big", c])))
        us.append(Unit("sepw_" + c, src, sorted({t.fn for t in ts}), ts, noinline=WNO))
    csrc = HEAD + "".join('extern "C" void f_copy_%s(const unsigned char* s, unsigned long n, %s* d){ detail::copy_n(s, n, d); }\n' % (c, CH[c][0]) for c in "csw")
    us.append(Unit("copyn", csrc, ["f_copy_" + c for c in "csw"], [
        Task("copy_n<unsigned char, %s>" % CH[c][0], "f_copy_" + c, lambda c=c: copyn(CH[c][1]), "lin", native=("punct.cpp|-DKIND=W|-DBASE=10", ["copy", c]))
        for c in "csw"]))
    return us


WNO = [r"36write_txtdigits_backwards_little_sepI", r"intdigits_backwards_writerI.*25write_txtdigits_backwardsI", r"15digits_grouping10distributeE", r"4strf6detail6copy_nI"]


# ------------------------------------------------------------------ printers
PRN = ('extern "C" void %(f)s(destination<%(C)s>& d, %(I)s v, int prec, int pad0, int sign, bool base, int width, int al, char32_t fill, unsigned short lc, long* out, unsigned g, char32_t sep)'
       '{ %(P)s pre; auto p = make_printer<%(C)s>(&pre, pack((lettercase)lc, numpunct<%(B)d>(G(g)).thousands_sep(sep)), %(E)s); %(O)s p(d); }\n')
PRD = PRN.replace("char32_t sep)", "char32_t sep, int fbase, bool punct)")
OUT = "out[0] = (long)pre.accumulated_size(); out[1] = pre.accumulated_width().underlying_value();"
PNO = T.NOINLINE + [r"15digits_grouping16separators_countE", r"intdigits_writerI.*16write_little_sepI", r"intdigits_writerI.*13write_big_sepI", r"8validateEDi", r"11encode_charE"]
SEPS = {"plain": "no separators", "one": "separators of one unit", "many": "separators of several units"}


class PunctSpec(PrintSpec):
    """as without punctuation, but the digits have separators: Sn of them (separators_count), each counted as one
    character.  The text of digits and separators is that of the contracts of write_little_sep and write_big_sep"""

    def separated(self, ex, B, x, lc, nd, dunit):
        D = ex.dom
        self.B_, self.x, self.nd, self.lcv = B, x, nd, lc
        self.g, self.sep = self.var(ex, "g", 32), self.var(ex, "sepchar", 32)
        for t in (self.g, self.sep):
            D.setb(t, 0, (1 << 32) - 1)
            ex.solver.add(t >= 0, t < 1 << 32)
        self.more = [self.g, self.sep]
        case = self.case[5]
        if self.kind[0] == "R":
            base, punct = self.var(ex, "format_base", 32), self.var(ex, "punct", 1)
            ex.solver.add(z3.And(base != 2, base != 8, base != 16) if B == 10 else base == B)
            if case == "off":
                ex.solver.add(z3.Not(punct))
            else:
                ex.solver.add(punct)
            self.more += [base, punct]
        self.gword = self.g if case != "off" else 3
        mx = {1: 4, 2: 2, 4: 1}[self.u]
        Sn, ss, ok = self.Sn, self.ss, self.ok = z3.Int("Sn"), z3.Int("sepsize"), z3.Bool("encodable")
        ex.solver.add(Sn >= 0, Sn < nd, ss >= 1, ss <= mx, z3.Implies(self.sep < 0x80, z3.And(ok, ss == 1)))
        D.setb(Sn, 0, 63)
        U = z3.Function("SEPUNIT", z3.IntSort(), z3.IntSort())
        M = (1 << 8 * self.u) - 1
        ex.solver.add(U(0) >= 0, U(0) <= M, z3.Implies(self.sep < 0x80, U(0) == self.sep))
        self.sepunit0 = D.setb(U(0), 0, M)
        if case in ("plain", "off"):
            ex.solver.add(z3.Or(Sn == 0, z3.Not(ok)) if case == "plain" else Sn == 0)
            self.ns = z3.IntVal(0)
            return 0, nd, dunit
        ex.solver.add(ok, Sn >= 1, ss == 1 if case == "one" else ss >= 2)
        GT = z3.Function("GROUPED", z3.IntSort(), z3.IntSort())

        def unit(k):
            ex.solver.add(GT(k) >= 0, GT(k) <= M)
            return D.setb(GT(k), 0, M)
        n = Sn * mx if case != "one" else Sn
        for k in range(mx - 1, 1, -1):
            n = z3.If(ss == k, Sn * k, n) if case != "one" else n
        self.gtext = (z3.simplify(nd + n), unit)
        return Sn, self.gtext[0], unit

    def contracts(self, ex):
        D, u = ex.dom, self.u
        val = lambda a, w: D.U(ex.mat(a), w)[0]

        def word(st, a):
            if isinstance(a, Ptr):
                a = ex.load(st, a, INT(32))
            return val(a, 32)

        def c_sep(ex, st, ins, a):
            ex.oblige(st, word(st, a[0]) == self.gword, "pre(separators_count)", "the grouping")
            ex.oblige(st, D.S(ex.mat(a[1]), 32)[0] == self.nd, "pre(separators_count)", "the number of digits")
            return self.Sn

        def c_validate(ex, st, ins, a):
            ex.oblige(st, val(a[-1], 32) == self.sep, "pre(validate)", "the separator")
            raise Fork([(z3.Not(self.ok), lambda: -1)] + [(z3.And(self.ok, self.ss == k), lambda k=k: k) for k in range(1, {1: 4, 2: 2, 4: 1}[u] + 1)])

        def c_enc(ex, st, ins, a):
            w = "pre(encode_char)"
            p = a[0]
            ex.oblige(st, val(a[1], 32) == self.sep, w, "the separator")
            ex.oblige(st, self.ok, w, "it can be encoded")
            ex.oblige(st, self.ss == 1, w, "space")
            ex.oblige(st, isinstance(p, Ptr) and p.o.kind == "cell" and p.b == 0 and p.o.size == u, w, "output pointer")
            st.mem[p.o.id] = {0: (u, self.sepunit0)}
            return Ptr(p.o, p.i, u)

        def common(ex, st, w, d, x, g, n, lc):
            ex.oblige(st, isinstance(d, Ptr) and d.o is self.s.cell, w, "destination")
            ex.oblige(st, val(x, 64) == self.x, w, "the value")
            ex.oblige(st, word(st, g) == self.gword, w, "the grouping")
            ex.oblige(st, D.S(ex.mat(n), 32)[0] == self.nd, w, "the number of digits")
            ex.oblige(st, self.Sn >= 1, w, "at least one separator")
            if self.B_ == 16:
                ex.oblige(st, val(lc, 16) == self.lcv, w, "the letter case")

        def c_little(ex, st, ins, a):
            w = "pre(write_little_sep)"
            common(ex, st, w, a[0], a[1], a[2], a[3], a[6])
            ex.oblige(st, D.S(ex.mat(a[4]), 32)[0] == self.Sn, w, "the number of separators")
            ex.oblige(st, z3.And(self.ok, self.ss == 1, val(a[5], 8 * u) == self.sepunit0), w, "the separator")
            T.append(self.s, ex, st, *self.gtext, w)

        def c_big(ex, st, ins, a):
            w = "pre(write_big_sep)"
            ex.oblige(st, isinstance(a[1], Ptr) and "encode_char" in a[1].o.name, w, "the encoding function")
            common(ex, st, w, a[0], a[2], a[3], a[6], a[7])
            ex.oblige(st, z3.And(self.ok, val(a[4], 32) == self.sep, D.S(ex.mat(a[5]), 32)[0] == self.ss), w, "the separator")
            T.append(self.s, ex, st, *self.gtext, w)
        ex.contracts["re:15digits_grouping16separators_countE"] = c_sep
        ex.contracts["re:8validateEDi"] = c_validate
        ex.contracts["re:11encode_charE"] = c_enc
        ex.contracts["re:intdigits_writerI.*16write_little_sepI"] = c_little
        ex.contracts["re:intdigits_writerI.*13write_big_sepI"] = c_big


def pr_units(tier):
    us = []
    for B in (10, 16, 8, 2):
        for k in "PQR":
            src, ts = HEAD, []
            combos = [("i", "c"), ("m", "s")] + ([("a", "i")] if B == 10 and k == "P" else [])
            if tier == "thorough":
                combos = [(t, c) for t in "asilhtjm" for c in "csiw"]
            if k == "R" and tier != "thorough":
                combos = [("m", {10: "c", 16: "s", 8: "i", 2: "c"}[B])]
            elif k == "Q" and B != 10 and tier != "thorough":
                combos = [("m", {16: "c", 8: "s", 2: "c"}[B])]
            E = "fmt(v)%s.set_int_format(int_format_full_dynamic{fbase, prec, pad0, (showsign)sign, base, punct})" % AL if k == "R" else "fmt(v).set_int_format(int_format_static_base_and_punct<%d,true>{prec, pad0, (showsign)sign, base})" % B + (AL if k != "P" else "")
            for t, c in combos:
                for pm in (True, False):
                    if not pm and (t != "i" or (k != "P" and tier != "thorough")):
                        continue
                    f = "f_%s%d_%s%s%s" % (k, B, t, c, "" if pm else "_n")
                    src += (PRD if k == "R" else PRN) % dict(f=f, C=CH[c][0], I=INTS[t][0], P="full_premeasurements" if pm else "no_premeasurements", B=B, E=E, O=OUT if pm else "")
                    for case, cn in cases("%s%d" % (k, B), INTS[t][2]):
                        for sc in list(SEPS) + (["off"] if k == "R" else []):
                            if CH[c][1] == 4 and sc == "many":
                                continue
                            ts.append(Task("print%s %s base %d%s to %s%s [%s]" % ("" if pm else " (not premeasured)", INTS[t][0], B, {"P": "", "Q": ", aligned", "R": ", dynamic base"}[k], CH[c][0], cn, SEPS.get(sc, "not punctuated")), f,
                                           lambda B=B, k=k, t=t, c=c, case=case, pm=pm, sc=sc: PunctSpec("%s%d" % (k, B), INTS[t][1], INTS[t][2], CH[c][1], case + (sc,), pm), "lin",
                                           native=("punct.cpp|-DKIND=%s|-DBASE=%d" % (k, B), [t, c])))
            us.append(Unit("pp%s%d" % (k, B), src, sorted({t.fn for t in ts}), ts, noinline=PNO + ([r"int_printer_static_base_and_punctI.*clE"] if k == "R" else [])))
    return us


# ------------------------------------------------------------------ facets
ACC = {
    # name: (expression of type F, values of grouping, thousands_sep, decimal_point)
    "numpunct set": ("numpunct<%d>(G(g)).thousands_sep(s).decimal_point(d)", "gsd"),
    "numpunct set later": ("[&]{ numpunct<%d> x; x.grouping(G(g)); x.thousands_sep(s); x.decimal_point(d); return x; }()", "gsd"),
    "numpunct grouping&&": ("numpunct<%d>{}.decimal_point(d).grouping(G(g))", "g,d"),
    "numpunct default": ("numpunct<%d>{}", "-,."),
    "default_numpunct": ("default_numpunct<%d>{}", "-,."),
    "default_numpunct as numpunct": ("(numpunct<%d>)default_numpunct<%d>{}", "-,."),
    "no_grouping default": ("no_grouping<%d>{}", "-,."),
    "no_grouping set": ("no_grouping<%d>{}.decimal_point(d)", "-,d"),
    "no_grouping set later": ("[&]{ no_grouping<%d> x; x.decimal_point(d); return x; }()", "-,d"),
    "no_grouping as numpunct": ("(numpunct<%d>)no_grouping<%d>{}.decimal_point(d)", "-,d"),
}


def accessor(want):
    def args(ex, st, sp):
        a = [sp.var(ex, n, 32) for n in ("g", "s", "d")]
        sp.out = ex.new_cell(st, "out", 24)
        return a + [sp.var(ex, "n", 32), Ptr(sp.out)]

    def post(ex, st, r, sp):
        val = {"-": bv(3), ",": bv(44), ".": bv(46)}
        for i, (c, nm) in enumerate(zip(want, ("grouping", "thousands_sep", "decimal_point"))):
            v = ex.load(st, Ptr(sp.out, 0, 4 * i), INT(32))
            ex.oblige(st, simp(lift(v) == val.get(c, sp.vars.get(c))), "post(%s)" % nm, "the value that was set, or the default")
    return FnSpec(args, post)


def acc_units():
    src, ts = HEAD, []
    for B in (10, 16, 8, 2):
        for i, (nm, (e, want)) in enumerate(ACC.items()):
            f = "f_acc%d_%d" % (B, i)
            src += 'extern "C" void %s(unsigned g, char32_t s, char32_t d, int n, unsigned* out){ const auto x = %s; out[0] = W(x.grouping()); out[1] = x.thousands_sep(); out[2] = x.decimal_point(); }\n' % (f, e.replace("%d", str(B)))
            ts.append(Task("%s [base %d]" % (nm, B), f, lambda want=want: accessor(want), "bv", native=("punct.cpp|-DKIND=F|-DBASE=%d" % B, [str(i)])))
        for n in range(1, 7):
            for last in (0, 1):
                f = "f_np%d_%d_%d" % (B, n, last)
                xs = ", ".join("g%d" % i for i in range(n))
                src += 'extern "C" unsigned %s(%s){ return W(numpunct<%d>(%s%s).grouping()); }\n' % (f, ", ".join("int g%d" % i for i in range(n)), B, xs, ", -1" if last else "")
                ts.append(Task("numpunct<%d>(%d groups%s)" % (B, n, ", -1" if last else ""), f, lambda n=n, last=last: listed(n, last), "bv", native=("punct.cpp|-DKIND=F|-DBASE=%d" % B, ["list%d" % last])))
    return [Unit("acc", src, sorted({t.fn for t in ts}), ts)]


def units(tier):
    return grp_units() + acc_units() + wr_units() + sepw_units(tier) + pr_units(tier)


def extra(tier):
    """the facts about group boundaries that the proofs use as axioms: consequences of their definitions
    B(-1) = 0, B(s) = B(s-1) + GR(s); W(s) = GR(s) + 32 W(s+1), W(K) = m; LW(0) = 0, LW(s) = 32 LW(s-1) + GR(s-1)"""
    n_ok, n_all, bad = 0, 0, []

    def lemma(name, goal, *hyps):
        nonlocal n_ok, n_all
        n_all += 1
        sol = z3.Solver()
        sol.set("timeout", 60000)
        sol.add(*hyps)
        sol.add(z3.Not(goal))
        if sol.check() == z3.unsat:
            n_ok += 1
        else:
            bad.append(name)
    I = z3.Int
    s, t, r, n, ss, u = I("s"), I("t"), I("r"), I("n"), I("ss"), I("u")
    B0, B1, B2, g = I("B(s-1)"), I("B(s)"), I("B(t-1)"), I("GR(s)")
    step = [s >= 0, g >= 1, g <= 31, z3.Or(B1 == B0 + g, B1 == BIG)]
    lemma("B(s-1)>=s is kept", B1 >= s + 1, *step, B0 >= s, s <= 64)
    lemma("B is increasing", B1 > B0, *step, B0 < BIG)
    # B(s) < n iff s < Sn, where Sn is the least s with B(s) >= n; at most n - 1 separators
    lemma("Sn < n", s < n, B0 >= s, B0 < n)
    lemma("no separator after the last group", B1 >= n, B1 == BIG, n <= 64)
    for m in (2, 3):
        for k in range(1, 7):
            gs = [I("g%d" % i) for i in range(k)]
            rng = [z3.And(x >= 1, x <= 31) for x in gs]
            w = z3.IntVal(m)
            for x in reversed(gs):
                w = x + 32 * w
                lemma("representation of a grouping", z3.And(w >= 65, w < 1 << 32), *rng)
            lw = z3.IntVal(0)
            for x in gs:
                lemma("low groups", z3.And(lw >= 0, lw < 1 << 25), *rng)
                lw = 32 * lw + x
            lemma("low groups", z3.And(lw >= 0, lw < 1 << 30), *rng)
    # the number of separators among the last r units is unique (PS, DD): t > s, so B(s) <= B(t-1)
    lemma("separators left are unique", z3.BoolVal(False), ss >= 1, t > s, B0 <= r - ss * s, r - ss * s <= B1, B1 <= B2, B2 <= r - ss * t)
    # every unit belongs to one group or to one separator (GT): group s is [B(s-1)+ss*s, B(s)+ss*s),
    # separator s+1 is [B(s)+ss*s, B(s)+ss*(s+1)), and group s+1 begins there
    lemma("units of a group or separator", (u < B1 + ss * (s + 1)) == z3.Or(u < B1 + ss * s, z3.And(u >= B1 + ss * s, u < B1 + ss * (s + 1))), ss >= 1, s >= 0, u >= B0 + ss * s, B1 >= B0)
    v = [dict(property="C14", function="lemmas", input=None, summary="lemma not proved: " + ", ".join(bad[:5]))] if bad else []
    return dict(obligations=n_all, discharged=n_ok, violations=v, coverage=dict(arithmetic_lemmas=n_all))


def replay_args(task, m):
    g = lambda k: str(int(m.get(k, 0)))
    if "prec" in m:
        return ["--replay"] + [g(k) for k in ("v", "prec", "pad0", "sign", "base", "width", "al", "fill", "lc", "g", "sepchar", "format_base", "punct")]
    if "x" in m and "lc" in m:
        return ["--replay"] + [g(k) for k in ("x", "lc", "sep")]
    gs = [g("g%d" % i) for i in range(7) if "g%d" % i in m]
    if "m" in m and "digits_grouping(" not in task.name and "numpunct<" not in task.name:
        return ["--replay", g("n"), g("m")] + gs
    if "len" in m or "s" in m:
        return None
    return ["--replay"] + gs


TRUST = ["contract of the charset functions validate, encode_char, encode_fill and encoded_char_size (C04 for the UTF charsets): the separator can not be encoded, or it is encoded as 1 to 4 (char), 1 to 2 (char16_t) or 1 (char32_t, wchar_t) units",
         "contract of destination's virtual functions (documented interface)",
         "arithmetic facts about digits and powers of two (lemmas of C10) and about group boundaries (lemmas), instantiated where needed"]
ASSUME = ["precision and pad0 at most 10^9; showsign, alignment and lettercase are enumerators",
          "a digits_grouping is one that its constructors, digits_grouping_creator or the default constructor produce (each is proved to establish the representation)",
          "write_little_sep, write_big_sep and write_txtdigits_backwards_little_sep are called with at least one separator (shown at each call)"]
LEVEL = "proof"
