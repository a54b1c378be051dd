"""C10: integers are printed as specified by their format (no punctuation)"""
import itertools
import z3
from exec import Ptr, UNDEF, PDiff, simp
from dom import is_c
from driver import Task, Unit
from spec_fn import FnSpec
from spec_dst import Stream, i64
import spec_txt as T

MAXN = {"c": 1, "Ds": 2, "Di": 4, "w": 4}
CH = {"c": ("char", 1), "s": ("char16_t", 2), "i": ("char32_t", 4), "w": ("wchar_t", 4), "u": ("char8_t", 1)}
INTS = {"a": ("signed char", 8, True), "s": ("short", 16, True), "i": ("int", 32, True), "l": ("long", 64, True), "x": ("long long", 64, True),
        "h": ("unsigned char", 8, False), "t": ("unsigned short", 16, False), "j": ("unsigned int", 32, False),
        "m": ("unsigned long", 64, False), "y": ("unsigned long long", 64, False)}
HEAD = "#include <strf/to_string.hpp>\nusing namespace strf;\n"
SRC_CD = 'extern "C" int f_cd%(B)d_%(t)s(%(I)s x){ return detail::count_digits<%(B)d>(x); }\n'
SRC_WB = 'extern "C" %(C)s* f_wb%(B)d_%(t)s%(c)s(%(I)s x, %(C)s* it, unsigned short lc){ return detail::intdigits_backwards_writer<%(B)d>::write_txtdigits_backwards(x, it, (lettercase)lc); }\n'
SRC_BIN = 'extern "C" void f_bin_%(t)s%(c)s(destination<%(C)s>& d, %(I)s x, int n){ detail::intdigits_writer<2>::write(d, x, n); }\n'
PRN = ('extern "C" void f_%(k)s_%(t)s%(c)s(destination<%(C)s>& d, %(I)s v, int prec, int pad0, int sign, bool base, int width, int al, char32_t fill, unsigned short lc, long* out)'
       '{ %(P)s pre; auto p = make_printer<%(C)s>(&pre, pack((lettercase)lc), %(E)s); out[0] = (long)pre.accumulated_size(); out[1] = pre.accumulated_width().underlying_value(); p(d); }\n')
PRN_N = PRN.replace("%(P)s pre;", "no_premeasurements pre;").replace(" out[0] = (long)pre.accumulated_size(); out[1] = pre.accumulated_width().underlying_value();", "")
AL = ".set_alignment_format(alignment_format{fill, width_t::from_underlying(width), (text_alignment)al})"
KINDS = {"A": "v", "B": "fmt(v)" + AL}
for _b in (2, 8, 10, 16):
    KINDS["C%d" % _b] = "set_nopp<%d>(fmt(v), (showsign)sign, base)" % _b
    KINDS["CA%d" % _b] = "set_nopp<%d>(fmt(v), (showsign)sign, base)%s" % (_b, AL)
    KINDS["D%d" % _b] = "fmt(v).set_int_format(int_format_static_base_and_punct<%d,false>{prec, pad0, (showsign)sign, base})" % _b
    KINDS["E%d" % _b] = KINDS["D%d" % _b] + AL
HELP = '''
template <int B, class T> auto set_nopp(T f, showsign s, bool base) {
  return f.set_int_format(int_format_no_pad0_nor_punct<B>{s, base}); }
'''
u16 = lambda v: z3.If(v < 0, v + 65536, v)


# ------------------------------------------------------------------ count_digits (bit-vectors, loop free)
def cd(B, w):
    def args(ex, st, sp):
        return [sp.var(ex, "x", w)]

    def post(ex, st, r, sp):
        x = sp.vars["x"]
        want = z3.BitVecVal(1, 32)
        k = B
        while k < 1 << w:
            want = want + z3.If(z3.UGE(x, k), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
            k *= B
        r = z3.BitVecVal(r, 32) if is_c(r) else r
        ex.oblige(st, simp(r == want), "post(count_digits)", "1 + #{k>=1 : x >= B^k}")
    return FnSpec(args, post)


# ------------------------------------------------------------------ digit writers
class Digits:
    """the digits of x: Q(j) = floor(x / B^j), D(j) = Q(j) mod B; n = ND_B(x) digits.
    Axioms are instances of lemmas proved separately (extra())"""

    def __init__(self, ex, B, w, x):
        self.ex, self.B, self.w, self.x = ex, B, w, x
        self.Q = z3.Function("Q%d" % B, z3.IntSort(), z3.IntSort())
        self.D = T.DIG(B)
        self.n = T.nd_facts(ex, B, x, w)
        ex.solver.add(self.Q(0) == x)
        self.seen = set()

    def at(self, j):
        j = z3.simplify(i64(j))
        if j.get_id() in self.seen and False:
            return
        B, Q, x, n = self.B, self.Q, self.x, self.n
        d = self.D(x, j)
        self.ex.solver.add(z3.Implies(z3.And(j >= 0, j < 64), z3.And(
            Q(j) == B * Q(j + 1) + d, d >= 0, d < B, Q(j) >= 0, Q(j) <= x, (Q(j) == 0) == z3.Or(j >= n, x == 0),
            z3.Implies(j < n, (Q(j) >= B) == (j + 1 < n)))))


def wb(B, w, cu):
    """write_txtdigits_backwards: [it-n, it) = the digits of x; returns it-n"""
    def args(ex, st, sp):
        x = sp.x = sp.var(ex, "x", w)
        if w > 1:
            ex.dom.setb(x, 0, (1 << w) - 1)
            ex.solver.add(x >= 0, x < 1 << w)
        sp.lc = sp.var(ex, "lc", 16)
        sp.dg = Digits(ex, B, w, x)
        L, sp.end = z3.Int("size"), z3.Int("it")
        ex.solver.add(sp.end >= sp.dg.n, sp.end <= L, L <= 1 << 60)
        ex.dom.setb(sp.end, 0, 1 << 60)
        ex.dom.setb(L, 0, 1 << 60)
        sp.b = ex.new_buf(st, "text", cu, L)
        sp.k0 = z3.Int("k0")
        ex.solver.add(sp.k0 >= 0, sp.k0 < L)
        ex.dom.setb(sp.k0, 0, 1 << 60)
        sp.old = ex.buf_read(st, sp.b, sp.k0)
        sp.dg.at(0)
        sp.dg.at(1)
        return [x, Ptr(sp.b, sp.end), sp.lc]

    def text(ex, sp, pos):
        """unit at absolute index pos in [end-n, end)"""
        d = sp.dg.D(sp.x, z3.simplify(sp.end - 1 - pos))
        return T.digit_char(B, d, ex.dom.U(sp.lc, 16)[0])

    def post(ex, st, r, sp):
        ob = lambda c, m: ex.oblige(st, c, "post(write_txtdigits_backwards)", m)
        ok = isinstance(r, Ptr) and r.o is sp.b and r.b == 0
        ob(ok, "returns a pointer into the buffer")
        ob(i64(r.i) == sp.end - sp.dg.n, "returns it - (number of digits)")
        v = ex.dom.U(ex.buf_read(st, sp.b, sp.k0), 8 * cu)[0]
        inside = z3.And(sp.k0 >= sp.end - sp.dg.n, sp.k0 < sp.end)
        sp.dg.at(z3.simplify(sp.end - 1 - sp.k0))
        ob(z3.Implies(inside, v == text(ex, sp, sp.k0)), "the digits, most significant first")
        ob(z3.Implies(z3.Not(inside), v == ex.dom.U(sp.old, 8 * cu)[0]), "nothing else is written")

    def head(ex, st, fr, hv, sp):
        for k, v in hv.items():
            if isinstance(v, Ptr) and v.o is sp.b:
                j = z3.simplify(sp.end - i64(v.i))
                for t in (j, j + 1, j + 2):
                    sp.dg.at(t)
        return []

    def cands(ex, st, fr, hdr, vs, entry, hv, sp):
        ptrs = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is sp.b]
        ints = [(k, t.w) for k, v, t in vs if k[0] == "phi" and t is not None and t.k == "int" and t.w >= 8]
        buf = ("buf", sp.b.id)
        rd = lambda vals: ex.dom.U(read(ex, vals[buf], sp), 8 * cu)[0]
        for q in ptrs:
            j = lambda v, q=q: z3.simplify(sp.end - i64(v[q].i))
            yield ("%s<=it" % (q,), lambda v, j=j: j(v) >= 0)
            yield ("%s>it-n" % (q,), lambda v, j=j: j(v) < sp.dg.n)
            yield ("%s>=it-n" % (q,), lambda v, j=j: j(v) <= sp.dg.n)
            for x, w_ in ints:
                yield ("%s==Q(it-%s)" % (x, q), lambda v, j=j, x=x, w_=w_: ex.dom.U(ex.mat(v[x]), w_)[0] == sp.dg.Q(j(v)))
            if buf in hv:
                yield ("written[%s,it)" % (q,), lambda v, j=j, q=q: z3.Implies(z3.And(sp.k0 >= i64(v[q].i), sp.k0 < sp.end), rd(v) == text(ex, sp, sp.k0)))
                yield ("rest unchanged", lambda v, q=q: z3.Implies(z3.Or(sp.k0 < i64(v[q].i), sp.k0 >= sp.end), rd(v) == ex.dom.U(sp.old, 8 * cu)[0]))

    def read(ex, bm, sp):
        class S:
            pass
        s = S()
        s.mem = {sp.b.id: bm}
        return ex.buf_read(s, sp.b, sp.k0)
    sp = lambda: _tab(FnSpec(args, post, cands=cands, head=head))
    return sp


def dec_table(k):
    """chars_00_to_99: the two decimal digits of 0..99, and the terminator"""
    if is_c(k):
        return 0 if k == 200 else 48 + (k // 20 if k % 2 == 0 else (k // 2) % 10)
    return z3.If(k == 200, 0, 48 + z3.If(k % 2 == 0, k / 20, (k / 2) % 10))


def _tab(sp):
    sp.table_forms = (dec_table,)
    return sp


def cduns(u):
    pass


# ------------------------------------------------------------------ printers
class PrintSpec(FnSpec):
    def __init__(self, kind, w, signed, unit, case=(None,) * 5, premeas=True):
        FnSpec.__init__(self, None, None)
        self.case = case
        self.kind, self.w, self.signed, self.u, self.pm = kind, w, signed, unit, premeas

    def setup(self, ex, st, fname):
        self.fname = fname
        D = ex.dom
        v = self.var(ex, "v", self.w)
        if not self.signed:
            D.setb(v, 0, (1 << self.w) - 1)
            ex.solver.add(v >= 0, v < 1 << self.w)
        prec, pad0, sign, base, width, al, fill, lc = [self.var(ex, n, w) for n, w in
            (("prec", 32), ("pad0", 32), ("sign", 32), ("base", 1), ("width", 32), ("al", 32), ("fill", 32), ("lc", 16))]
        D.setb(fill, 0, (1 << 32) - 1)
        D.setb(lc, 0, 65535)
        D.setb(prec, -(1 << 31), 10 ** 9)
        D.setb(pad0, -(1 << 31), 10 ** 9)
        for t in (fill, lc):
            ex.solver.add(t >= 0)
        ex.solver.add(fill < 1 << 32, lc < 65536, prec <= 10 ** 9, pad0 <= 10 ** 9, z3.Or(sign == 0, sign == 0x2B, sign == 0x20),
                      al >= 0, al <= 2, z3.Or(lc == 0, lc == 0x20, lc == 0x2020))
        D.setb(al, 0, 2)
        D.setb(sign, 0, 0x2B)
        cv, cs, cb, ca, cw = self.case[:5]
        if cv is not None:
            D.setb(v, *((-(1 << (self.w - 1)), -1) if cv else (0, (1 << (self.w - 1)) - 1)))
            ex.solver.add(v < 0 if cv else v >= 0)
        W0, wf = self.W0, self.wf = z3.Int("W0"), z3.Int("wf")
        ex.solver.add(width == 65536 * W0 + wf, wf >= 0, wf < 65536)
        D.setdiv(width, 65536, W0, *{None: (-32768, 32767), 0: (0, 32767), 1: (-32768, -1)}[cw], wf)
        if cw is not None:
            D.setb(width, *((-(1 << 31), -1) if cw else (0, (1 << 31) - 1)))
            ex.solver.add(W0 < 0 if cw else W0 >= 0)
        ain = dict(sign=sign, base=base, al=al)
        for n, t, k in (("sign", sign, cs), ("al", al, ca), ("base", base, cb)):
            if k is not None:
                ex.solver.add(t == k)
                ain[n] = k
        if cs is not None:
            sign = z3.IntVal(cs)
        if cb is not None:
            base = z3.BoolVal(cb)
        if ca is not None:
            al = z3.IntVal(ca)
        B = int(self.kind.lstrip("ABCDEPQR") or 10)
        aligned = self.kind[0] in "BEQR" or self.kind.startswith("CA")
        Z = z3.IntVal
        if self.kind in "AB":
            sg, bs, pr, p0 = Z(0), z3.BoolVal(False), Z(0), Z(0)
        elif self.kind[0] == "C":
            sg, bs, pr, p0 = sign, base, Z(0), Z(0)
        else:
            sg, bs, pr, p0 = sign, base, prec, pad0
        fl = fill if aligned else Z(32)
        if B == 10:
            x = z3.If(v < 0, -v, v) if self.signed else v
        else:
            x = z3.If(v < 0, v + (1 << self.w), v) if self.signed else v
        neg = (v < 0) if self.signed and B == 10 else z3.BoolVal(False)
        if cv is not None:
            x = (-v if B == 10 else v + (1 << self.w)) if cv else v
            neg = z3.BoolVal(bool(cv) and B == 10)
        nd, dunit = T.digits_seg(ex, B, x, self.w, lc)
        ns, dlen, dunit = self.separated(ex, B, x, lc, nd, dunit)
        F = T.Fill(ex, fill, self.u)
        if not aligned:
            F.size(Z(32))
        # prefix
        fs = z3.BoolVal(False)
        if B == 10:
            if self.signed:
                fs = z3.And(z3.Not(neg), sg == 0x20)
                pn = z3.If(z3.Or(neg, sg == 0x2B), 1, 0)
            else:
                pn = Z(0)
            punit = lambda k: z3.If(neg, Z(0x2D), Z(0x2B))
            precp = pr
        elif B == 8:
            pn = z3.If(z3.And(bs, x != 0), 1, 0)
            punit = lambda k: Z(0x30)
            precp = pr - pn      # the prefix is a digit too
        else:
            pn = z3.If(bs, 2, 0)
            L = {16: 0x58, 2: 0x42}[B]
            punit = lambda k: z3.If(k == 0, Z(0x30), z3.If(lc == 0, Z(L), Z(L + 32)))
            precp = pr
        fsn = z3.If(fs, 1, 0)
        za, zb = precp - nd, p0 - (nd + ns + pn + fsn)
        mx = lambda a, b: z3.If(a >= b, a, b)
        zeros = T.name(ex, "zeros", mx(mx(za, zb), Z(0)), 0, 10 ** 9)
        content = z3.simplify(nd + ns + pn + fsn + zeros)
        if aligned:
            # nearest integer, halves toward zero
            W = z3.If(z3.Or(wf > 32768, z3.And(wf == 32768, width < 0)), W0 + 1, W0)
            fc = T.name(ex, "fillcount", mx(W - content, Z(0)), 0, 32768) if cw != 1 else Z(0)
        else:
            fc = Z(0)
        left = z3.simplify(z3.If(al == 0, Z(0), z3.If(al == 1, fc, fc / 2)))
        if ca == 2:
            left = T.name(ex, "left", left, 0, 16384)
        right = T.name(ex, "right", fc - left, 0, 32768)
        lf = T.name(ex, "leftfill", left + fsn, 0, 32769)
        self.text = T.Text([F.seg(lf, fl), (pn, punit), T.const_seg(zeros, 0x30), (dlen, dunit), F.seg(right, fl)])
        ex.solver.add(self.text.length >= 0)
        self.s = Stream(self.u, 64, self.text.length, self.text.value)
        d = self.s.setup(ex, st)
        T.install(ex, self.s, F)
        self.contracts(ex)
        self.out = ex.new_cell(st, "out", 16)
        self.total_width = z3.simplify(content + fc)
        ex.start(st, fname, [d, v, prec, pad0, ain["sign"], ain["base"], width, ain["al"], fill, lc, Ptr(self.out)] + self.more)

    more = []

    def separated(self, ex, B, x, lc, nd, dunit):
        """number of separators; size and units of the digits with the separators"""
        return 0, nd, dunit

    def contracts(self, ex):
        pass

    def on_return(self, ex, st, ret):
        self.s.final(ex, st)
        ob = lambda c, m: ex.oblige(st, c, "post(premeasurements)", m)
        o = st.mem[self.out.id]
        sz, wd = o.get(0, (0, None))[1], o.get(8, (0, None))[1]
        if not self.pm:
            return
        ob(sz is not None and wd is not None, "written")
        ob(i64(ex.dom.S(ex.mat(sz), 64)[0]) == self.text.length, "the calculated size is the number of units written")
        w = self.total_width
        ob(i64(ex.dom.S(ex.mat(wd), 64)[0]) == z3.If(w > 0x7FFF, z3.IntVal(0x7FFFFFFF), w * 65536), "the calculated width is the number of characters")

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        return []


# ------------------------------------------------------------------ write_fill, binary digits
def wfill(cu):
    """write_fill(dst, count, ch): max(count, 0) times ch"""
    def args(ex, st, sp):
        n, ch = sp.var(ex, "count", 64), sp.var(ex, "ch", 8 * cu)
        ex.solver.add(n <= 1 << 58)
        ex.dom.setb(n, -(1 << 63), 1 << 58)
        c = ex.dom.U(ch, 8 * cu)[0]
        sp.S = Stream(cu, 1, z3.If(n > 0, n, 0), lambda k: c)
        return [sp.S.setup(ex, st), n, ch]
    return FnSpec(args, lambda ex, st, r, sp: sp.S.final(ex, st), cands=lambda ex, st, fr, hdr, vs, entry, hv, sp: sp.S.cands(ex, st, hv, entry, fr))


def binw(w, cu):
    """intdigits_writer<2>::write(dst, x, ND2(x)): the binary digits of x.  The digit of weight 2^j is
    1 iff x & 2^j is not 0 (lemma in extra())"""
    POW = z3.Function("POW2", z3.IntSort(), z3.IntSort())
    AND = z3.Function("AND", z3.IntSort(), z3.IntSort(), z3.IntSort())

    def at(ex, sp, j):
        j = z3.simplify(j)
        x = sp.x
        ex.solver.add(z3.Implies(z3.And(j >= 0, j < w), z3.And(
            POW(j) >= 1, POW(j) < 1 << w, POW(j) / 2 == z3.If(j >= 1, POW(j - 1), 0),
            T.DIG(2)(x, j) == z3.If(AND(x, POW(j)) != 0, 1, 0))))

    def hook(op, w_, a, b):
        if op == "shl" and is_c(a) and int(a) == 1 and w_ == w:
            return hook.ex.dom.setb(POW(b), 0, (1 << w) - 1)
        if op == "and" and w_ == w and not is_c(a) and not is_c(b):
            if b.eq(hook.sp.x):
                a, b = b, a
            return hook.ex.dom.setb(AND(a, hook.ex.dom.U(b, w)[0]), 0, (1 << w) - 1)
        return None

    def args(ex, st, sp):
        hook.ex, hook.sp = ex, sp
        ex.dom.hook = hook
        x = sp.x = sp.var(ex, "x", w)
        ex.dom.setb(x, 0, (1 << w) - 1)
        n = T.nd_facts(ex, 2, x, w)
        ex.solver.add(x >= 0, x < 1 << w, z3.Implies(x <= 1, n == 1), T.DIG(2)(x, 0) == x % 2)
        sp.S = Stream(cu, 64, n, lambda k: 48 + T.DIG(2)(x, z3.simplify(n - 1 - k)))
        at(ex, sp, n - 1)
        at(ex, sp, z3.simplify(n - 1 - sp.S.k0))
        return [sp.S.setup(ex, st), x, n]

    def head(ex, st, fr, hv, sp):
        for k, v in hv.items():
            if isinstance(v, Ptr) and v.o is sp.S.o:
                j = z3.simplify(T.ND(2)(sp.x) - 1 - (i64(v.i) - i64(hv[("ghost", "sh")] if ("ghost", "sh") in hv else st.ghost["sh"])))
                at(ex, sp, j)
                at(ex, sp, j - 1)
        return []

    def cands(ex, st, fr, hdr, vs, entry, hv, sp):
        yield from sp.S.cands(ex, st, hv, entry, fr)
        n = T.ND(2)(sp.x)
        for q, pv in hv.items():
            if isinstance(pv, Ptr) and pv.o is sp.S.o:
                yield ("%s==whi" % (q,), lambda v, q=q: i64(v[q].i) == i64(v[("ghost", "whi")]))
        for k, v, t in vs:
            if k[0] != "phi" or t is None or t.k != "int" or t.w != w:
                continue
            for q, pv in hv.items():
                if isinstance(pv, Ptr) and pv.o is sp.S.o:
                    j = lambda v, q=q: z3.simplify(n - 1 - (i64(v[q].i) - i64(v[("ghost", "sh")])))
                    U = lambda v, k=k: ex.dom.U(ex.mat(v[k]), w)[0]
                    yield ("%s==2^j" % (k,), lambda v, j=j, U=U: z3.And(U(v) == POW(j(v)), j(v) >= 0, j(v) < n))
                    g = lambda v: v[("ghost", "good")]
                    yield ("good=>%s==2^j" % (k,), lambda v, j=j, U=U, g=g: z3.Implies(g(v), z3.And(U(v) == POW(j(v)), j(v) >= 0, j(v) < n)))
    return FnSpec(args, lambda ex, st, r, sp: sp.S.final(ex, st), cands=cands, head=head)


def cases(kind, signed):
    """exhaustive case distinctions that keep the proofs small: value negative, showsign, showbase, alignment"""
    B = int(kind.lstrip("ABCDEPQR") or 10)
    cv = (0, 1) if signed else (None,)
    cs = (0, 0x2B, 0x20) if B == 10 and kind[0] in "CDEPQR" and signed else (None,)
    cb = (False, True) if B != 10 and kind[0] in "CDEPQR" else (None,)
    ca = (0, 1, 2) if kind[0] in "BEQR" or kind[:2] == "CA" else (None,)
    cw = (0, 1) if ca != (None,) else (None,)
    for c in itertools.product(cv, cs, cb, ca, cw):
        nm = [{None: "", 0: "v>=0", 1: "v<0"}[c[0]], {None: "", 0: "sign", 0x2B: "sign+", 0x20: "sign~"}[c[1]],
              {None: "", False: "nobase", True: "base"}[c[2]], {None: "", 0: "left", 1: "right", 2: "center"}[c[3]],
              {None: "", 0: "width>=0", 1: "width<0"}[c[4]]]
        nm = [x for x in nm if x]
        yield c, " [%s]" % ", ".join(nm) if nm else ""


def units(tier):
    us = []
    fns, tasks = "", []
    for B in (2, 8, 10, 16):
        for t in "htjmy":
            fns += SRC_CD % dict(B=B, t=t, I=INTS[t][0])
            tasks.append(Task("count_digits<%d>(%s)" % (B, INTS[t][0]), "f_cd%d_%s" % (B, t), (lambda B=B, t=t: cd(B, INTS[t][1])), dom="bv",
                              native=("ints.cpp|-DKIND=E|-DBASE=%d" % B, [t, "c"])))
    us.append(Unit("cd", HEAD + fns, [t.fn for t in tasks], tasks))
    fns, tasks = "", []
    for B in (8, 10, 16):
        for t, c in [("m", c) for c in "csiw"]:
            fns += SRC_WB % dict(B=B, t=t, c=c, I=INTS[t][0], C=CH[c][0])
            tasks.append(Task("write_txtdigits_backwards<%d>(%s, %s*)" % (B, INTS[t][0], CH[c][0]), "f_wb%d_%s%s" % (B, t, c),
                              wb(B, INTS[t][1], CH[c][1]), dom="lin", native=("ints.cpp|-DKIND=E|-DBASE=%d" % B, [t, c])))
    us.append(Unit("wb", HEAD + fns, [t.fn for t in tasks], tasks))
    fns, tasks = "", []
    for c in "csiw":
        fns += 'extern "C" void f_wf_%(c)s(destination<%(C)s>& d, std::ptrdiff_t n, %(C)s ch){ detail::write_fill(d, n, ch); }\n' % dict(c=c, C=CH[c][0])
        tasks.append(Task("write_fill<%s>" % CH[c][0], "f_wf_%s" % c, (lambda c=c: wfill(CH[c][1])), dom="lin",
                          native=("ints.cpp|-DKIND=E|-DBASE=10", ["i", c])))
        fns += SRC_BIN % dict(t="m", c=c, C=CH[c][0], I="unsigned long")
        tasks.append(Task("intdigits_writer<2>::write<%s>" % CH[c][0], "f_bin_m%s" % c, (lambda c=c: binw(64, CH[c][1])), dom="lin",
                          native=("ints.cpp|-DKIND=E|-DBASE=2", ["m", c])))
    us.append(Unit("wf", HEAD + fns, [t.fn for t in tasks], tasks))
    combos = [("i", "c"), ("m", "c"), ("a", "c"), ("l", "s"), ("j", "w"), ("s", "i")]
    if tier == "thorough":
        combos = [(t, c) for t in "asilhtjm" for c in "csiw"]
    for k in KINDS:
        fns, tasks = "", []
        nat = "ints.cpp|-DKIND=%s|-DBASE=%s" % (k.rstrip("0123456789"), k.lstrip("ABCDE") or "10")
        for t, c in combos:
            for pm in (True, False):
                if not pm and (t, c) not in (("i", "c"), ("m", "c")):
                    continue
                fn = "f_%s_%s%s%s" % (k, t, c, "" if pm else "_n")
                fns += (PRN if pm else PRN_N).replace("f_%(k)s_%(t)s%(c)s", fn) % dict(k=k, t=t, c=c, C=CH[c][0], I=INTS[t][0], P="full_premeasurements", E=KINDS[k])
                for case, cn in cases(k, INTS[t][2]):
                    tasks.append(Task("print%s %s %s to %s%s" % ("" if pm else " (not premeasured)", k, INTS[t][0], CH[c][0], cn), fn,
                                      (lambda k=k, t=t, c=c, case=case, pm=pm: PrintSpec(k, INTS[t][1], INTS[t][2], CH[c][1], case, pm)), dom="lin",
                                      native=(nat, [t, c])))
        us.append(Unit("p" + k, HEAD + HELP + fns, sorted({t.fn for t in tasks}), tasks, noinline=T.NOINLINE))
    return us


def extra(tier):
    """the arithmetic facts about digits that the proofs use as axioms, for every base, width and index"""
    n_ok, n_all, bad = 0, 0, []

    def lemma(name, goal, *hyps):
        nonlocal n_ok, n_all
        n_all += 1
        sol = z3.Solver()
        sol.set("timeout", 60000)
        sol.add(*hyps)
        sol.add(z3.Not(goal))
        if sol.check() == z3.unsat:
            n_ok += 1
        else:
            bad.append(name)
    x = z3.Int("x")
    for B in (2, 8, 10, 16):
        for w in (8, 16, 32, 64):
            M = 1 << w
            K = [B ** k for k in range(1, 70) if B ** k < M]
            n = z3.Int("n")
            dom = [x >= 0, x < M]
            # ND_B(x) = 1 + #{k >= 1 : x >= B^k} is between 1 and the maximal number of digits
            lemma("1<=ND%d<=max(%d)" % (B, w), z3.BoolVal(1 + len(K) == T.MAXD[B][w]))
            if w != 64:
                continue
            q = [z3.Int("q%d" % i) for i in range(65)]
            for j in range(64):
                # Q(j) = floor(x / B^j)
                P, P1 = B ** j, B ** (j + 1)
                defs = dom + [P * q[j] <= x, x < P * q[j] + P, P1 * q[j + 1] <= x, x < P1 * q[j + 1] + P1]
                d = q[j] - B * q[j + 1]
                lemma("digit %d base %d" % (j, B), z3.And(d >= 0, d < B, q[j] >= 0, q[j] <= x), *defs)
                # x >= B^k is antitone in k, so ND_B(x) > j iff x >= B^j (j >= 1); ND_B(x) > 0
                gt = lambda k: z3.BoolVal(True) if k == 0 else x >= B ** k
                lemma("Q(%d)=0 base %d" % (j, B), (q[j] == 0) == z3.Or(z3.Not(gt(j)), x == 0), *defs)
                lemma("Q(%d)>=%d" % (j, B), z3.Implies(gt(j), (q[j] >= B) == gt(j + 1)), *defs)
                if j:
                    lemma("antitone %d %d" % (B, j), z3.Implies(x >= B ** (j + 1), x >= B ** j))
    y = z3.BitVec("y", 64)
    for j in range(64):
        lemma("bit %d" % j, ((y & (1 << j)) != 0) == (z3.LShR(y, j) & 1 == 1))
        lemma("2^%d>>1" % j, z3.LShR(z3.BitVecVal(1 << j, 64), 1) == ((1 << (j - 1)) if j else 0))
    v = [dict(property="C10", function="lemmas", input=None, summary="lemma not proved: " + ", ".join(bad[:5]))] if bad else []
    return dict(obligations=n_all, discharged=n_ok, violations=v, coverage=dict(arithmetic_lemmas=n_all))


def replay_args(task, m):
    if "prec" not in m:
        return None
    v = m["v"]
    return ["--replay"] + [str(int(m[k])) for k in ("v", "prec", "pad0", "sign", "base", "width", "al", "fill", "lc")]


TRUST = ["contract of encode_fill and encoded_char_size for ASCII and other fill characters (checked by C04 for the UTF charsets)",
         "contract of strf::output_buffer's virtual functions (documented interface)",
         "the chain from per-index lemmas to 'for every index' (finite case distinction, indices 0..63)"]
ASSUME = ["precision and pad0 at most 10^9; showsign, alignment and lettercase are enumerators",
          "the default pack with a lettercase facet; no punctuation"]
LEVEL = "proof"
