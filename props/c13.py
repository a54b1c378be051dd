"""C13: widths of strings"""
import z3
import spec_gcb as G
from exec import Obj, Ptr, Unsupported, UNDEF, PDiff, BufMem, Fork, NULL
from dom import is_c
from driver import Task, Unit
from exec import simp
from spec_fn import FnSpec

HEAD = "#include <strf/to_string.hpp>\nusing namespace strf;\n"
NR = 24


def i64(x):
    return z3.IntVal(x) if is_c(x) else x


def b32(x):
    return z3.BitVecVal(x, 32) if is_c(x) else x


class Clusters:
    """ghost description of n code points: GS(i) history after the first i, W(i) / NB(i) width of and boundary before
    code point i, A(i) = sum of W over the boundaries before i"""

    def __init__(self, ex, n, rng=None):
        I, B = z3.IntSort(), z3.BitVecSort(32)
        self.ex, self.n, self.rng = ex, n, rng
        self.GS, self.A = z3.Function("GS", I, I), z3.Function("A", I, B)
        self.NB, self.W = z3.Function("NB", I, z3.BoolSort()), z3.Function("W", I, B)
        self.U = z3.Function("SRC", I, B)
        self.seen = {}

    def read_in(self, st, i):
        i = z3.simplify(i64(i))
        u, add = self.U(i), self.ex.solver.add
        if st is not None:
            st.ghost["last"] = i
            lo, hi = self.rng
            K = z3.Function("K", z3.IntSort(), z3.IntSort())
            k, w = G.classify(u, lo, hi)
            brk, nx = G.delta(self.GS(i), K(i))
            c = [z3.UGE(u, lo)] if lo else []
            if hi < 1 << 32:
                c.append(z3.ULT(u, hi))
            add(*c, K(i) == k, self.W(i) == w, self.NB(i) == brk, self.GS(z3.simplify(i + 1)) == nx,
                self.A(z3.simplify(i + 1)) == self.A(i) + z3.If(self.NB(i), self.W(i), z3.BitVecVal(0, 32)))
        return u

    def rel(self, s, g):
        return z3.Or([z3.And(s == z3.BitVecVal(a, 32), g == b) for a, b in G.relation()])


def calc_func(lo, hi):
    """std_width_calc_func, the code point of the current iteration being in [lo,hi)"""
    def args(ex, st, sp):
        n, w, s = sp.var(ex, "n", 64), sp.var(ex, "width", 32), sp.var(ex, "state", 32)
        sp.pos = sp.var(ex, "pos", 1)
        add = ex.solver.add
        add(n >= 0, n <= 1 << 58, w >= 0)
        ex.dom.setb(n, 0, 1 << 58)
        c = sp.c = Clusters(ex, n, (lo, hi))
        add(c.A(0) == 0, c.rel(s, c.GS(0)), *[z3.And(c.GS(0) >= 0, c.GS(0) < len(G.GS))])
        sp.src = ex.new_buf(st, "src", 4, n, ro=True, base=c)
        st.ghost["last"] = z3.IntVal(-1)
        sp.out = [ex.new_cell(st, x, 8) for x in ("ow", "os", "op")]
        return [Ptr(sp.src, 0), Ptr(sp.src, n), w, s, sp.pos] + [Ptr(o) for o in sp.out]

    def cands(ex, st, fr, hdr, vs, entry, hv, sp):
        c, w0 = sp.c, sp.vars["width"]
        ps = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is sp.src]
        b = [k for k, v in hv.items() if z3.is_expr(v) and z3.is_bv(v) and v.size() == 32]
        nm = lambda k: "%" + "_".join(map(str, k[1:]))
        for p in ps:
            i = lambda v, p=p: i64(v[p].i)
            yield "0<=%s<=n" % nm(p), lambda v, i=i: z3.And(i(v) >= 0, i(v) <= sp.vars["n"])
            yield "state(%s)" % nm(p), lambda v, i=i: z3.And(c.GS(i(v)) >= 0, c.GS(i(v)) < len(G.GS))
            for x in b:
                yield "%s~history(%s)" % (nm(x), nm(p)), lambda v, i=i, x=x: c.rel(b32(v[x]), c.GS(i(v)))
                yield "%s==limit-width(%s)" % (nm(x), nm(p)), lambda v, i=i, x=x: b32(v[x]) == w0 - c.A(i(v))
                yield "%s==width(%s)" % (nm(x), nm(p)), lambda v, i=i, x=x: b32(v[x]) == c.A(i(v))
        for x in b:
            yield "0<=%s<=limit" % nm(x), lambda v, x=x: z3.And(b32(v[x]) >= 0, b32(v[x]) <= w0)

    def post(ex, st, r, sp):
        c, n, w0 = sp.c, sp.vars["n"], sp.vars["width"]
        ob = lambda x, m: ex.oblige(st, x, "post(std_width_calc_func)", m)
        g = lambda o, sz: st.mem[o.id].get(0, (0, None))[1] if st.mem[o.id].get(0, (0, None))[0] == sz else None
        rw, rs, rp = g(sp.out[0], 4), g(sp.out[1], 4), g(sp.out[2], 8)
        if rw is None or rs is None or rw is UNDEF or rs is UNDEF or not isinstance(rp, Ptr):
            return ob(False, "result")
        rw, rs = b32(ex.dom.lift(rw, 32)), b32(ex.dom.lift(rs, 32))
        pos = sp.pos if z3.is_bool(sp.pos) else sp.pos != 0
        if rp.o.kind == "null":
            j = i64(st.ghost["last"])
            ob(z3.Not(pos), "the position is returned when asked for")
            ob(rw == 0, "the limit was reached: nothing remains")
            ob(z3.And(j >= 0, j < n, c.NB(j), z3.ULE(c.A(j), w0), z3.ULE(w0 - c.A(j), c.W(j))), "the limit is reached only by a cluster that starts inside it")
            return
        ok = rp.o is sp.src and rp.b == 0
        ob(ok, "pointer into the string")
        if not ok:
            return
        j = i64(rp.i)
        ob(z3.And(j >= 0, j <= n), "pointer into the string")
        ob(z3.And(rw >= 0, rw <= w0, rw == w0 - c.A(j)), "remaining width is the limit minus the width before the position")
        ob(z3.Implies(j == n, c.rel(rs, c.GS(n))), "state at the end of the string")
        ob(z3.Implies(j < n, z3.And(pos, c.NB(j), z3.UGT(c.W(j), w0 - c.A(j)))), "stops early only before a cluster that does not fit")
    return FnSpec(args, post, cands=cands)


COMPLETED, NOSPACE = 0, 1
WMAX = (1 << 31) - 1


class WidthSpec(FnSpec):
    """std_width_calc_t::str_width / str_width_and_pos for any charset, against the contracts of its transcoder to
    UTF-32 (C01, C05) and of std_width_calc_func (above).  The string is KG code points, the first k of which are the
    first B(k) units; A(k) is the width of the first k, NB(k) / W(k) as in Clusters."""

    def __init__(self, pos, unit):
        FnSpec.__init__(self, None, None)
        self.pos, self.unit, self.packed = pos, unit, True

    def facts(self, ex, k):
        """if 0 <= k <= KG"""
        B, A = self.B(k), self.A(k)
        ex.solver.add(z3.Implies(z3.And(k >= 0, k <= self.KG), z3.And(B >= 0, B <= self.n, A >= 0, A <= self.A(self.KG))), z3.Implies(k == self.KG, B == self.n))
        return k

    def setup(self, ex, st, fname):
        self.fname, D, add = fname, ex.dom, ex.solver.add
        I = z3.IntSort()
        self.B, self.A, self.W, self.NB = [z3.Function(x, I, I) for x in ("B", "A", "W")] + [z3.Function("NB", I, z3.BoolSort())]
        self.R = z3.Function("History", I, I, z3.BoolSort())        # the state of std_width_calc_func describes the history
        self.KG = z3.Int("KG")
        n, w = self.n, self.w = self.var(ex, "n", 64), self.var(ex, "width", 32)
        D.setb(n, 0, 1 << 48)
        D.setb(w, -(1 << 31), WMAX)
        D.setb(self.KG, 0, 1 << 48)
        add(n >= 0, n <= 1 << 48, w >= -(1 << 31), w <= WMAX, self.KG >= 0, self.KG <= n, self.B(0) == 0, self.A(0) == 0, self.R(0, 0), self.B(self.KG) == n)
        self.facts(ex, self.KG)
        self.w0 = z3.Int("limit")
        add(self.w0 == z3.If(w > 0, w, 0))
        self.sbuf = ex.new_buf(st, "src", self.unit, n, ro=True)
        self.out = ex.new_cell(st, "op", 8)
        st.ghost.update(k=z3.IntVal(0), kb=z3.IntVal(0), km=z3.IntVal(0))
        ex.contracts["tr_func"] = self.c_tr
        ex.contracts["size_func"] = self.c_size
        ex.contracts["re:19std_width_calc_funcE"] = self.c_calc
        ex.contracts["re:9transcodeE"] = self.c_tr
        ex.contracts["re:14transcode_sizeE"] = self.c_size
        a = [Ptr(self.sbuf, 0), Ptr(self.sbuf, n), w]
        ex.start(st, fname, a + ([Ptr(self.out)] if self.pos else []))

    def put(self, st, p, fields):
        if not isinstance(p, Ptr) or p.o.kind != "cell" or not is_c(p.i):
            raise Unsupported("result pointer")
        c = dict(st.mem[p.o.id])
        for off, sz, v in fields:
            c[p.i + off] = (sz, v)
        st.mem[p.o.id] = c

    def src(self, ex, st, w, a, e, k):
        ok = isinstance(a, Ptr) and a.o is self.sbuf and a.b == 0 and isinstance(e, Ptr) and e.o is self.sbuf and e.b == 0
        ex.oblige(st, ok, w, "source pointers")
        if not ok:
            raise Unsupported("source pointers")
        ex.oblige(st, i64(a.i) == self.B(i64(k)), w, "the code points that follow")
        ex.oblige(st, i64(e.i) == self.n, w, "end of the source")

    def flags(self, ex, st, w, f):
        ex.oblige(st, ex.dom.U(ex.mat(f), 32)[0] == 0, w, "default flags")

    def c_tr(self, ex, st, ins, a):
        w, D = "pre(transcode)", ex.dom
        k = i64(st.ghost["k"])
        self.src(ex, st, w, a[1], a[2], k)
        self.flags(ex, st, w, a[6])
        p, e = a[3], a[4]
        ok = isinstance(p, Ptr) and isinstance(e, Ptr) and p.o.kind == "cell" and p.o is e.o and is_c(p.i) and is_c(e.i) and p.i == 0 and 0 < e.i <= (p.o.size or 0)
        ex.oblige(st, bool(ok), w, "the buffer")
        if not ok:
            raise Unsupported("buffer")
        self.buf = p.o
        m = e.i // 4
        k2 = ex.fresh("k", 64)
        ex.solver.add(k2 >= k, k2 <= self.KG, k2 - k <= m, z3.Implies(k2 < self.KG, k2 - k == m))
        D.setb(k2, 0, 1 << 48)
        self.facts(ex, k2)
        st.ghost["kb"], st.ghost["km"] = k, D.setb(z3.simplify(k2 - k), 0, m)
        r = D.setb(ex.fresh("reason", 32), 0, 3)
        ex.solver.add(r == z3.If(k2 == self.KG, COMPLETED, NOSPACE))
        st.mem[p.o.id] = {o: (sz, UNDEF) for o, (sz, v) in st.mem[p.o.id].items()}
        self.put(st, a[0], ((0, 8, Ptr(self.sbuf, self.B(k2))), (8, 8, Ptr(p.o, D.setb(z3.simplify(4 * (k2 - k)), 0, 4 * m))), (16, 4, r)))

    def c_calc(self, ex, st, ins, a):
        w, D = "pre(std_width_calc_func)", ex.dom
        p, e = a[0], a[1]
        kb, km, k = [i64(st.ghost[x]) for x in ("kb", "km", "k")]
        ok = isinstance(p, Ptr) and isinstance(e, Ptr) and p.o is e.o and p.o is getattr(self, "buf", None)
        ex.oblige(st, bool(ok), w, "the buffer")
        if not ok:
            raise Unsupported("buffer")
        ex.oblige(st, z3.And(i64(p.i) == 0, i64(e.i) == 4 * km, k == kb), w, "the code points just decoded")
        lim, s = D.S(ex.mat(a[2]), 32)[0], D.S(ex.mat(a[3]), 32)[0]
        ex.oblige(st, z3.And(lim == self.w0 - self.A(k), lim >= 0), w, "the limit is what remains of the limit")
        ex.oblige(st, self.R(s, k), w, "the state describes the code points before")
        f = a[4]
        f = D.lift(f, 1) if not z3.is_expr(f) else f
        f = f if z3.is_bool(f) else f != 0
        ex.oblige(st, f == self.pos, w, "whether the position is asked for")
        j = D.setb(ex.fresh("j", 64), 0, 1 << 48)
        rw, rs = ex.fresh("remaining", 32), ex.fresh("state", 32)
        ex.solver.add(j >= k, j <= k + km, rw >= 0, rw <= WMAX)
        D.setb(rw, 0, WMAX)
        D.setb(rs, 0, WMAX)
        ex.solver.add(rs >= 0, rs <= WMAX)
        self.facts(ex, j)
        nx = z3.simplify(j + 1)
        if not self.pos:
            null = z3.Bool("full!%d" % next(ex.nfresh))
            self.facts(ex, nx)
            ex.solver.add(z3.If(null, z3.And(j < k + km, rw == 0, self.NB(j), self.A(j) <= self.w0, self.w0 <= self.A(j) + self.W(j), self.A(nx) == self.A(j) + self.W(j)),
                                z3.And(j == k + km, rw == self.w0 - self.A(j), self.R(rs, j))))
            st.ghost["k"] = j
            raise Fork([(null, lambda: [D.join(rs, rw), Ptr(NULL)]), (z3.Not(null), lambda: [D.join(rs, rw), e])])
        else:
            ex.solver.add(rw == self.w0 - self.A(j), z3.Implies(j < k + km, z3.And(self.NB(j), self.A(j) + self.W(j) > self.w0)), z3.Implies(j == k + km, self.R(rs, j)))
            rp = Ptr(p.o, D.setb(z3.simplify(4 * (j - k)), 0, 4 * 4096))
        st.ghost["k"] = j
        return [D.join(rs, rw), rp]

    def c_size(self, ex, st, ins, a):
        w, D = "pre(transcode_size)", ex.dom
        kb, km = i64(st.ghost["kb"]), i64(st.ghost["km"])
        self.src(ex, st, w, a[1], a[2], kb)
        self.flags(ex, st, w, a[4])
        lim = D.S(ex.mat(a[3]), 64)[0]
        ex.oblige(st, z3.And(lim >= 0, lim <= km), w, "limit")
        kk = z3.simplify(kb + lim)
        self.facts(ex, kk)
        r = D.setb(ex.fresh("reason", 32), 0, 3)
        ex.solver.add(r == z3.If(kk == self.KG, COMPLETED, NOSPACE))
        self.put(st, a[0], ((0, 8, lim), (8, 8, Ptr(self.sbuf, self.B(kk))), (16, 4, r)))

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        G = lambda v, x: i64(v[("ghost", x)])
        iv = lambda v, x: ex.dom.S(ex.mat(v[x]), 32)[0]

        def fld(x, h):
            p = ex.dom.parts(x)
            return ex.dom.S(p[h], 32)[0] if p else z3.Int("nofield")
        yield "0<=k<=KG", lambda v: z3.And(G(v, "k") >= 0, G(v, "k") <= self.KG, self.A(G(v, "k")) >= 0, self.A(G(v, "k")) <= self.A(self.KG))
        yield "width(k)<=limit", lambda v: self.A(G(v, "k")) <= self.w0
        yield "B(k)<=n", lambda v: z3.And(self.B(G(v, "k")) >= 0, self.B(G(v, "k")) <= self.n)
        for q, x in hv.items():
            if isinstance(x, Ptr) and x.o is self.sbuf:
                yield "src==B(k)", lambda v, q=q: i64(v[q].i) == self.B(G(v, "k"))
            elif q[0] != "ghost" and ((z3.is_expr(x) and z3.is_int(x)) or is_c(x)):
                for h in (0, 1) if ex.width_of(x) == 64 or ex.dom.parts(x) else (None,):
                    f = iv if h is None else lambda v, q, h=h: fld(v[q], h)
                    nm = str(q) + ("" if h is None else ".%d" % h)
                    yield "%s==limit-width(k)" % nm, lambda v, q=q, f=f: f(v, q) == self.w0 - self.A(G(v, "k"))
                    yield "%s==width(k)" % nm, lambda v, q=q, f=f: f(v, q) == self.A(G(v, "k"))
                    yield "%s~history(k)" % nm, lambda v, q=q, f=f: self.R(f(v, q), G(v, "k"))

    def on_return(self, ex, st, ret):
        ob = lambda c, m: ex.oblige(st, c, "post(%s)" % ("str_width_and_pos" if self.pos else "str_width"), m)
        r = ex.dom.S(ex.mat(ret), 32)[0]
        T = self.A(self.KG)
        if not self.pos:
            return ob(r == z3.If(T < self.w0, T, self.w0), "the width of the string, or the limit")
        k = i64(st.ghost["k"])
        p = st.mem[self.out.id].get(0, (0, None))[1]
        ok = isinstance(p, Ptr) and p.o is self.sbuf and p.b == 0
        ob(ok, "pointer into the string")
        if ok:
            ob(i64(p.i) == self.B(k), "a boundary between code points")
            ob(r == self.A(k), "the width of the part before the position")
            ob(z3.And(r >= 0, r <= self.w0), "not above the limit")
            ob(z3.Or(k == self.KG, z3.And(self.NB(k), self.A(k) + self.W(k) > self.w0)), "all the clusters that fit")


def counting(calc, pos, unit):
    """fast_width: width 1 per code unit; width_as_u32len, width_as_fast_u32len: 1 per code point, as counted by the
    charset's count_codepoints / count_codepoints_fast (C04, C05)"""
    def args(ex, st, sp):
        D, add, I = ex.dom, ex.solver.add, z3.IntSort()
        n, w = sp.var(ex, "n", 64), sp.var(ex, "width", 32)
        sp.KG = KG = n if calc == "fast" else z3.Int("KG")
        sp.B = (lambda k: k) if calc == "fast" else z3.Function("B", I, I)
        D.setb(n, 0, 1 << 48)
        D.setb(KG, 0, 1 << 48)
        D.setb(w, -(1 << 31), WMAX)
        add(n >= 0, n <= 1 << 48, w >= -(1 << 31), w <= WMAX, KG >= 0, KG <= n)
        sp.src = ex.new_buf(st, "src", unit, n, ro=True)
        sp.out = ex.new_cell(st, "op", 8)

        def c_count(which):
            def h(ex, st, ins, a):
                wh = "pre(%s)" % which
                a = a[-3:]
                ok = isinstance(a[0], Ptr) and a[0].o is sp.src and a[0].b == 0 and isinstance(a[1], Ptr) and a[1].o is sp.src and a[1].b == 0
                ex.oblige(st, ok, wh, "source pointers")
                ex.oblige(st, which == ("count_codepoints_fast" if calc == "u32f" else "count_codepoints"), wh, "function")
                ex.oblige(st, z3.And(i64(a[0].i) == 0, i64(a[1].i) == n), wh, "the whole string")
                lim = D.S(ex.mat(a[2]), 64)[0]
                ex.oblige(st, lim >= 0, wh, "limit")
                c = ex.fresh("count", 64)
                D.setb(c, 0, 1 << 48)
                add(c == z3.If(lim < KG, lim, KG), sp.B(c) >= 0, sp.B(c) <= n)
                return [c, Ptr(sp.src, sp.B(c))]
            return h
        for rx, k in (("count_func", "count_codepoints"), ("countfast_func", "count_codepoints_fast"), ("re:16count_codepointsE", "count_codepoints"), ("re:21count_codepoints_fastE", "count_codepoints_fast")):
            ex.contracts[rx] = c_count(k)
        return [Ptr(sp.src, 0), Ptr(sp.src, n), w] + ([Ptr(sp.out)] if pos else [])

    def post(ex, st, r, sp):
        D, w = ex.dom, sp.vars["width"]
        ob = lambda c, m: ex.oblige(st, c, "post(%s)" % ("str_width_and_pos" if pos else "str_width"), m)
        r = D.S(ex.mat(r), 32)[0]
        lim = z3.If(w > 0, w, 0)
        if calc == "fast" and not pos:
            return ob(r == z3.If(sp.KG * 65536 <= lim, sp.KG * 65536, lim), "the width, or the limit")
        q = z3.Int("lim_q")
        ex.solver.add(q * 65536 <= lim, lim < (q + 1) * 65536)          # floor
        c = q if pos else z3.If(q * 65536 == lim, q, q + 1)
        cnt = z3.If(c < sp.KG, c, sp.KG)
        if not pos:
            return ob(r == z3.If(cnt * 65536 > WMAX, WMAX, cnt * 65536), "the number of code points up to the limit, as a width")
        ob(r == cnt * 65536, "the width of the greatest part that fits")
        p = st.mem[sp.out.id].get(0, (0, None))[1]
        ok = isinstance(p, Ptr) and p.o is sp.src and p.b == 0
        ob(ok, "pointer into the string")
        if ok:
            ob(i64(p.i) == sp.B(cnt), "the end of the greatest part that fits")
    return FnSpec(args, post)


def chwidth(cs, calc, bits):
    """char_width(charset, unit)"""
    def args(ex, st, sp):
        ch = sp.var(ex, "ch", bits)
        sp.D = z3.Function("DECODE", z3.BitVecSort(bits), z3.BitVecSort(32))
        ex.contracts["decode_func"] = ex.contracts["re:11decode_unitE"] = lambda ex, st, ins, a: sp.D(ex.dom.lift(a[-1], bits))
        return [ch]

    def post(ex, st, r, sp):
        ch = sp.vars["ch"]
        u = ch if bits == 32 else z3.ZeroExt(32 - bits, ch)
        c = {"gen": u if bits == 32 else sp.D(ch), "w1252": sp.D(ch), "utf8": z3.If(z3.ULT(u, 0x80), u, z3.BitVecVal(0xFFFD, 32))}.get(cs, u)
        w = z3.If(z3.Or([z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in G.WIDE]), z3.BitVecVal(2 << 16, 32), z3.BitVecVal(1 << 16, 32))
        ex.oblige(st, simp(b32(r) == (w if calc == "std" else 1 << 16)), "post(char_width)", "documented width")
    return FnSpec(args, post)


TYPES = [("char", 1), ("char8_t", 1), ("char16_t", 2), ("char32_t", 4), ("wchar_t", 4)]
REAL = [("utf8", "utf8_t<char>", "char", 1), ("utf16", "utf16_t<char16_t>", "char16_t", 2), ("utf32", "utf32_t<char32_t>", "char32_t", 4),
        ("w1252", "windows_1252_t<char>", "char", 1)]
GEN = '''
template <class C> struct gtr {
    transcode_result<C, char32_t> transcode(const C* s, const C* e, char32_t* d, char32_t* de, transcoding_error_notifier* n, transcode_flags f) const { return tr_func(s, e, d, de, n, f); }
    transcode_size_result<C> transcode_size(const C* s, const C* e, std::ptrdiff_t l, transcode_flags f) const { return size_func(s, e, l, f); } };
struct gcs { using code_unit = CT; gtr<CT> to_u32() const { return {}; } char32_t decode_unit(CT c) const { return decode_func(c); }
  count_codepoints_result<CT> count_codepoints(const CT* s, const CT* e, std::ptrdiff_t m) const { return count_func(s, e, m); }
  count_codepoints_result<CT> count_codepoints_fast(const CT* s, const CT* e, std::ptrdiff_t m) const { return countfast_func(s, e, m); } };
'''
DECL = '''
extern "C" { transcode_result<CT, char32_t> tr_func(const CT*, const CT*, char32_t*, char32_t*, transcoding_error_notifier*, transcode_flags);
 transcode_size_result<CT> size_func(const CT*, const CT*, std::ptrdiff_t, transcode_flags); char32_t decode_func(CT);
 count_codepoints_result<CT> count_func(const CT*, const CT*, std::ptrdiff_t); count_codepoints_result<CT> countfast_func(const CT*, const CT*, std::ptrdiff_t); }
'''
FNS = '''
extern "C" int f_width_NN(const CT* s, const CT* e, int w){ return CALC{}.str_width(CS{}, width_t::from_underlying(w), s, e).underlying_value(); }
extern "C" int f_pos_NN(const CT* s, const CT* e, int w, const CT** op){ auto r = CALC{}.str_width_and_pos(CS{}, width_t::from_underlying(w), s, e); *op = r.ptr; return r.width.underlying_value(); }
extern "C" int f_char_NN(CT c){ return CALC{}.char_width(CS{}, c).underlying_value(); }
'''
CALCS = [("std", "std_width_calc_t"), ("fast", "fast_width_t"), ("u32f", "width_as_fast_u32len_t"), ("u32", "width_as_u32len_t")]
NOINLINE = [r"19std_width_calc_funcE", r"4strf.*9transcodeE", r"4strf.*14transcode_sizeE", r"4strf.*16count_codepointsE", r"4strf.*21count_codepoints_fastE"]


def units(tier):
    us = []
    G.relation()
    src = HEAD + '''
extern "C" void f_calc(const char32_t* s, const char32_t* e, int w, unsigned st, bool pos, int* ow, unsigned* os, const char32_t** op){
  auto r = detail::std_width_calc_func(s, e, width_t::from_underlying(w), st, pos); *ow = r.remaining_width.underlying_value(); *os = r.state; *op = r.ptr; }
'''
    for cs, CS, C, u in [("gen", "gcs", C, u) for C, u in TYPES] + REAL:
        nm = C.replace("_t", "") if cs == "gen" else cs
        txt, pub, ts = HEAD + DECL.replace("CT", C) + GEN.replace("CT", C), [], []
        for k, calc in CALCS:
            N = nm + "_" + k
            txt += FNS.replace("NN", N).replace("CALC", calc).replace("CS", CS).replace("CT", C)
            pub += ["f_%s_%s" % (f, N) for f in ("width", "pos", "char")]
            L = "%s::%%s<%s>" % (calc, C if cs == "gen" else CS)
            for f, l, p in (("width", "str_width", False), ("pos", "str_width_and_pos", True)):
                mk = (lambda u=u, p=p: WidthSpec(p, u)) if k == "std" else (lambda u=u, p=p, k=k: counting(k, p, u))
                ts.append(Task(L % l, "f_%s_%s" % (f, N), mk, "lin", native=("width_str.cpp", [f, k, nm])))
            ts.append(Task(L % "char_width", "f_char_" + N, lambda cs=cs, k=k, u=u: chwidth(cs, k, 8 * u), "hyb", native=("width_str.cpp", ["char", k, nm])))
        us.append(Unit("wstr_" + nm, txt, pub, ts, noinline=NOINLINE + ([r"11decode_unitE"] if cs == "w1252" else [])))
    ts = [Task("std_width_calc_func[%x,%x)" % r, "f_calc", lambda r=r: calc_func(*r), "hyb", native=("width_str.cpp", ["calc"])) for r in G.ranges(NR)]
    us.append(Unit("wcalc", src, ["f_calc"], ts))
    return us


def replay_args(task, m):
    return ["--replay", "%x" % m["ch"]] if "ch" in m else None


TRUST = ["the Unicode 13 grapheme cluster break classes and Extended_Pictographic (vc/gcb13.txt, extracted from the Unicode Character Database of Perl 5.38, Unicode 15, less later additions)",
         "contract of the charset's transcoder to UTF-32 (C01, C02, C05, C06): decodes a whole number of sequences, as many as fit, one code point each",
         "contract of count_codepoints and count_codepoints_fast (C04 for the UTF charsets)",
         "induction over the code points (meta-level): the obligations of std_width_calc_func are split by the value of the code point read into %d ranges that cover all 32-bit values" % NR]
ASSUME = ["str <= str_end, length at most 2^48 units",
          "the charsets: any (template instantiated with a charset whose functions are left open, for the five unit types), UTF-8, UTF-16, UTF-32 and windows-1252"]
LEVEL = "proof"
