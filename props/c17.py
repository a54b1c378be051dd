"""C17: aligned joins, and ranges"""
import z3
from exec import Ptr, Obj, Fork
from dom import is_c
from driver import Task, Unit
from spec_dst import Stream, i64
import spec_txt as T
from props import c16
from props.c16 import Facade, TYPES, LIM, MX, I0

HEAD = c16.HEAD.replace("struct CS { using code_unit", '''extern "C" { void ext_fill(transcode_dst<CT>&, std::ptrdiff_t, char32_t); long ext_fillsize(char32_t, long); }
struct CS { encode_fill_f<CT> encode_fill_func() const { return ext_fill; } std::ptrdiff_t encoded_char_size(char32_t c) const { return ext_fillsize(c, id); } using code_unit''')
WD = "width_t::from_underlying(width)"
JOINS = [("left", "join_left(%s, ch)(A3)" % WD), ("right", "join_right(%s, ch)(A3)" % WD), ("center", "join_center(%s, ch)(A3)" % WD),
         ("align_left", "join_align(%s, text_alignment::left, ch)(A3)" % WD), ("align_right", "join_align(%s, text_alignment::right, ch)(A3)" % WD),
         ("align_center", "join_align(%s, text_alignment::center, ch)(A3)" % WD),
         ("fmt_left", "join(A3).fill(ch) < " + WD), ("fmt_right", "join(A3).fill(ch) > " + WD), ("fmt_center", "join(A3).fill(ch) ^ " + WD),
         ("set", "join(A3).set_alignment_format(alignment_format{ch, %s, text_alignment::left})" % WD),
         ("space_left", "join_left(%s)(A3)" % WD), ("space_right", "join_right(%s)(A3)" % WD), ("space_center", "join_center(%s)(A3)" % WD),
         ("space_fmt", "join(A3) > " + WD),
         ("one_right", "join_right(%s, ch)(P<0>{x})" % WD), ("none_center", "join_center(%s, ch)()" % WD),
         ("of_join_right", "join_right(%s, ch)(join(P<0>{x}, P<1>{y}), join(P<2>{z}))" % WD),
         ("in_join_center", "join(join_center(%s, ch)(A3))" % WD),
         ("facets_right", "join_right(%s, ch)(with(F{f})(A3))" % WD)]


class Join(Facade):
    """fills: how many fill characters are printed, before and after the arguments"""
    def __init__(self, mode, nm, u, wide, na):
        Facade.__init__(self, "cr" if mode == "reserve_calc" else "to", mode if mode == "reserve_calc" else None, 0, 0, u, None, None, na)
        self.mode, self.nm, self.wide = mode, nm, wide

    def setup(self, ex, st, fname):
        self.fname = fname
        D, add = ex.dom, ex.solver.add
        V = lambda nm, w: self.var(ex, nm, w)
        x, y, z, f, c, width, ch, lim = V("x", 64), V("y", 64), V("z", 64), V("f", 64), V("c", 64), V("width", 32), V("ch", 32), V("lim", 32)
        add(f < 1 << 30, f >= 0, c < 1 << 30, c >= 0, lim >= 0)
        add(width >= -(1 << 31), width <= MX, ch >= 0, ch < 1 << 32)
        D.setb(width, -(1 << 31), MX)
        D.setb(ch, 0, (1 << 32) - 1)
        D.setb(f, 0, 1 << 30)
        D.setb(c, 0, 1 << 30)
        D.setb(lim, 0, MX)
        self.v, self.f, self.c, self.h, self.n, self.lim = [x, y, z], f, c, I0, I0, lim
        self.ch = z3.IntVal(32) if self.nm.startswith("space") else ch
        self.S = [D.setb(z3.Int("S%d" % k), 0, LIM) for k in range(3)]
        self.W = [D.setb(z3.Int("W%d" % k), 0, MX) for k in range(3)]
        add(*[z3.And(s >= 0, s <= LIM) for s in self.S] + [z3.And(w >= 0, w <= MX) for w in self.W])
        W = self.W_ = T.name(ex, "contentw", z3.Sum(self.W[:self.na] + [I0]), 0, 3 * MX)
        d0, df = z3.Int("D0"), z3.Int("df")
        if self.wide:
            add(width > W, width - W == 65536 * d0 + df, df >= 0, df < 65536)
            D.setb(z3.simplify(width - W), 1, MX)
            D.setb(df, 0, 65535)
            fc = T.name(ex, "fillcount", z3.If(df > 32768, d0 + 1, d0), 0, 32768)
            D.setdiv(z3.simplify(width - W), 65536, d0, 0, 32767, df)
        else:
            add(width <= W)
            fc = I0
        self.fc = fc
        a = [k for k in ("left", "right", "center", "set") if self.nm.endswith(k)]
        a = a[0] if a else "right"
        L = {"left": I0, "set": I0, "right": fc, "center": fc / 2}[a]
        L = T.name(ex, "fill_before", L, 0, 32768)
        R = T.name(ex, "fill_after", fc - L, 0, 32768)
        self.fills = [L, R]
        self.N = [D.setb(z3.Int("units%d" % k), 0, LIM) for k in range(2)]      # units of each fill
        for k in range(2):
            add(self.N[k] >= 0, self.N[k] <= LIM, z3.Implies(self.fills[k] == 0, self.N[k] == 0))
        self.FS = None
        for k, g in dict(ext_size=self.c_size, ext_pwidth=self.c_pwidth, ext_print=self.c_print, ext_create=self.c_create, ext_create_n=self.c_create,
                         ext_finish=self.c_finish, ext_fill=self.c_fill, ext_fillsize=self.c_fillsize).items():
            ex.contracts[k] = g
        st.ghost.update(ev=I0, r=z3.IntVal(-1), fs=z3.IntVal(-1))
        args = [x, y, z, f, c, width, ch]
        if self.mode.startswith("measure"):
            return ex.start(st, fname, args + [lim])
        self.want = (["create"] if self.kind == "cr" else []) + ["print fill 0"] + ["print %d" % k for k in range(self.na)] + ["print fill 1"] + (["finish"] if self.kind == "cr" else [])

        def out(k):
            v = D.setb(z3.Function("OUT", z3.IntSort(), z3.IntSort())(k), 0, (1 << 8 * self.u) - 1)
            add(v >= 0, v < 1 << 8 * self.u)
            return v
        self.out = out
        S = self.stream = Stream(self.u, 1, z3.simplify(z3.Sum(self.S[:self.na] + self.N + [I0])), out)
        d = S.setup(ex, st)
        ex.start(st, fname, ([d] if self.kind == "to" else []) + args)

    def event(self, ex, st, what, w):
        i = j = z3.simplify(i64(st.ghost["ev"])).as_long()
        while j < len(self.want) and self.want[j] != what and self.want[j].startswith("print"):
            self.skip(ex, st, self.want[j], w)
            j += 1
        ex.oblige(st, bool(j < len(self.want) and self.want[j] == what), w, "%s, after %s" % (what, self.want[:i]))
        st.ghost["ev"] = z3.IntVal(j + 1)

    def skip(self, ex, st, what, w):
        g = st.ghost["good"]
        bad = z3.Not(g) if z3.is_expr(g) else z3.BoolVal(not g)
        ex.oblige(st, z3.Or(bad, self.fills[int(what[-1])] == 0) if "fill" in what else bad, w, "%s is left out only if there is nothing to print or the destination is bad" % what)

    def c_fill(self, ex, st, ins, a):
        w = "pre(encode_fill)"
        i = z3.simplify(i64(st.ghost["ev"])).as_long()
        k = 0 if "print fill 0" in self.want[i:] else 1
        if k == 0 and self.nm.endswith(("left", "set")):      # nothing before
            k = 1
        self.event(ex, st, "print fill %d" % k, w)
        ok = isinstance(a[0], Ptr) and a[0].o is self.stream.cell
        ex.oblige(st, bool(ok), w, "the destination")
        cnt, ch = self.I(ex, a[1]), ex.dom.U(ex.mat(a[2]), 32)[0] if not is_c(a[2]) else z3.IntVal(a[2])
        ex.oblige(st, z3.And(cnt == self.fills[k], ch == self.ch), w, "the fill character, as many times as the alignment needs there")
        self.put(ex, st, self.N[k], w)

    def put(self, ex, st, n, w):
        p, e, g = self.stream.fields(ex, st, w)
        P = self.stream.pos(st, p.i)
        T.append(self.stream, ex, st, n, lambda i: self.out(z3.simplify(P + i)), w)

    def c_fillsize(self, ex, st, ins, a):
        ch = ex.dom.U(ex.mat(a[0]), 32)[0] if not is_c(a[0]) else z3.IntVal(a[0])
        ex.oblige(st, z3.And(ch == self.ch, self.I(ex, a[1]) == self.c), "pre(encoded_char_size)", "the fill character and the charset given")
        k = z3.Int("FS")
        cur = z3.simplify(i64(st.ghost["fs"])).as_long()
        if cur >= 0:
            return z3.IntVal(cur)

        def take(v):
            def go():
                return z3.IntVal(v)
            return go
        raise Fork([(k == v, take(v)) for v in range(0, 7)])

    def size(self):
        fs = z3.Int("FS")
        return z3.Sum(self.S[:self.na] + [I0]) + z3.If(self.fc == 0, 0, z3.Sum([z3.If(fs == v, v * self.fc, I0) for v in range(1, 7)]))

    def c_create(self, ex, st, ins, a):
        w = "pre(create)"
        self.event(ex, st, "create", w)
        ex.oblige(st, self.I(ex, a[0], 32) == 7, w, "the creator given")
        ex.oblige(st, bool(len(a) > 1), w, "create(size)")
        if len(a) > 1:
            ex.oblige(st, self.I(ex, a[1]) == self.size(), w, "the size")
        return Ptr(self.stream.cell)

    def on_return(self, ex, st, ret):
        w = "post(print)"
        if self.mode.startswith("measure"):
            w = "post(measure)"
            size, width = self.I(ex, ret[0]), self.I(ex, ret[1])
            if "size" in self.mode:
                ex.oblige(st, size == self.size(), w, "the size of the arguments and of the fill")
            if "width" in self.mode:
                t = self.W_ + 65536 * self.fc
                ex.oblige(st, width == z3.If(t <= self.lim, t, self.lim), w, "the width of the arguments and of the fill, or the limit")
            return
        i = z3.simplify(i64(st.ghost["ev"])).as_long()
        if self.kind == "cr":
            ex.oblige(st, bool(i == len(self.want)), w, "finish() is called")
            return ex.oblige(st, self.I(ex, ret) == i64(st.ghost["r"]), w, "the result of finish() is returned")
        for x in self.want[i:]:
            self.skip(ex, st, x, w)
        self.stream.final(ex, st)


PS = dict(measure_size=("yes", "no"), measure_width=("no", "yes"), measure_size_and_width=("yes", "yes"))


def join_code(mode, nm, e):
    """(signature and body with %s for the name, what the result is)"""
    if mode == "print":
        return "void %s(destination<CT>& d, ARGS, long c, int width, char32_t ch)", "to(d).with(CS{c}, F{f})(%s);" % e
    if mode == "reserve_calc":
        return "long %s(ARGS, long c, int width, char32_t ch)", "return make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(%s);" % e
    sp, wp = PS[mode]
    return ("SZ %s(ARGS, long c, int width, char32_t ch, int lim)",
            "premeasurements<size_presence::%s, width_presence::%s> p%s; measure<CT>(&p, pack(CS{c}, F{f}), %s); return {%s, %s};"
            % (sp, wp, "{width_t::from_underlying(lim)}" if wp == "yes" else "", e, "p.accumulated_ssize()" if sp == "yes" else "0",
               "p.accumulated_width().underlying_value()" if wp == "yes" else "0"))


RHEAD = HEAD + '''
struct Q { long v; };
extern "C" long ext_op(long);
struct OP { P<1> operator()(const P<0>& p) const { return {ext_op(p.v)}; } };
namespace strf { template <> struct printable_def<Q> { using representative = Q; using forwarded_type = Q; using format_specifiers = tag<alignment_format_specifier>;
  template <class Pre, class FP> static PR<2> mk(Pre* pre, const FP& fp, long v, long w) { long f = get_facet<fcat, Q>(fp).id + w;
    if (Pre::size_demanded) pre->add_size(ext_size(2, v, f)); if (Pre::width_demanded) pre->add_width(width_t::from_underlying(ext_pwidth(2, v, f))); return {v, f}; }
  template <class Pre, class FP> static PR<2> make_printer(tag<CT>, Pre* pre, const FP& fp, Q q) { return mk(pre, fp, q.v, 0); }
  template <class Pre, class FP, class... F> static PR<2> make_printer(tag<CT>, Pre* pre, const FP& fp, value_and_format<printable_def<Q>, F...> x) { return mk(pre, fp, x.value().v, x.get_alignment_format().width.underlying_value()); } }; }
struct SZ { long s; long w; };
#define RARGS const P<0>* b, const P<0>* e, const Q* qb, const Q* qe, const CT* sep, long len, long f, long c, long h, int width
'''
# name, separated, which element, expression
SEP = "sep, (std::ptrdiff_t)len"
RANGES = [("range", 0, 0, "range(b, e)"), ("separated", 1, 0, "separated_range_p<const P<0>*, CT>{b, e, %s}" % SEP),
          ("transformed", 0, 1, "range(b, e, OP{})"), ("separated_transformed", 1, 1, "separated_transformed_range_p<const P<0>*, CT, OP>{b, e, %s, OP{}}" % SEP),
          ("fmt", 0, 2, "fmt_range(qb, qe) > %s" % WD), ("fmt_separated", 1, 2, "sep_range_with_fmt<const Q*, CT>{{qb, qe, %s}} > %s" % (SEP, WD))]


class Range(Facade):
    """element i: size SZ(i), width WD(i); printed at OFF(i), after the separator if i > 0"""
    def __init__(self, mode, sep, elem, u):
        Facade.__init__(self, "to", None, 0, 0, u)
        self._unroll = None
        self.mode, self.sep, self.elem = mode, sep, elem

    def setup(self, ex, st, fname):
        self.fname = fname
        D, add, u = ex.dom, ex.solver.add, self.u
        V = lambda nm, w: self.var(ex, nm, w)
        n, sl, f, c, h, width, lim = V("n", 64), V("seplen", 64), V("f", 64), V("c", 64), V("h", 64), V("width", 32), V("lim", 32)
        for v, lo, hi in ((n, 0, 1 << 44), (sl, 0, 1 << 44), (f, 0, 1 << 30), (c, 0, 1 << 30), (h, 0, 1 << 30), (width, -(1 << 31), MX), (lim, 0, MX)):
            add(v >= lo, v <= hi)
            D.setb(v, lo, hi)
        self.n, self.sl, self.f, self.c, self.h, self.width, self.lim = n, sl, f, c, h, width, lim
        self.b = ex.new_buf(st, "elements", 8, n, ro=True)
        self.sb = ex.new_buf(st, "separator", u, sl, ro=True)
        self.st0 = st
        FN = lambda nm: z3.Function(nm, z3.IntSort(), z3.IntSort())
        self.SZ, self.WDT, self.OFF, self.PS, self.PW, self.OPV = FN("SZ"), FN("WD"), FN("OFF"), FN("PS"), FN("PW"), FN("OPV")
        self.MUL = z3.Function("MUL", z3.IntSort(), z3.IntSort(), z3.IntSort())
        # the total size of the separators: at most 2^60
        self.TIMES = z3.Function("TIMES", z3.IntSort(), z3.IntSort(), z3.IntSort())
        D.mulfn = self.TIMES
        t = self.TIMES(z3.simplify(n - 1), sl)
        add(z3.If(n == 0, t == -sl, z3.If(n == 1, t == 0, z3.And(t >= 0, t <= 1 << 60))))
        self.LEN = D.setb(z3.Int("LEN"), 0, 1 << 60)
        self.seen = {}
        add(self.PS(0) == 0, self.PW(0) == 0, self.OFF(0) == 0, self.LEN >= 0, self.LEN <= 1 << 60, z3.Implies(n == 0, self.LEN == 0),
            self.PS(n) >= 0, self.PS(n) <= 1 << 60, self.PW(n) >= 0)
        for k, g in dict(ext_size=self.c_size, ext_pwidth=self.c_pwidth, ext_print=self.c_print, ext_op=self.c_op, ext_width=self.c_width).items():
            ex.contracts[k] = g
        ex.contracts["re:7sat_mulI"] = self.c_mul
        ex.contracts["re:7sat_mulE"] = self.c_mul
        st.ghost.update(ev=I0, opi=z3.IntVal(-1))
        self.last = None
        self.b.onread = lambda ex, st, i: self.at(ex, i64(i))
        p, q, s = Ptr(self.b, 0), Ptr(self.b, n), Ptr(self.sb, 0)
        args = [p, q, p, q, s, sl, f, c, h, width]
        if self.mode.startswith("measure"):
            return ex.start(st, fname, args + [lim])
        k0 = z3.Int("k0")

        def out(k):
            v = D.setb(z3.Function("OUT", z3.IntSort(), z3.IntSort())(k), 0, (1 << 8 * u) - 1)
            add(v >= 0, v < 1 << 8 * u)
            return v
        self.out = out
        S = self.stream = Stream(u, 1, self.LEN, out, k0=k0)
        d = S.setup(ex, st)
        ex.start(st, fname, [d] + args)

    def at(self, ex, i):
        """the definitions at element i"""
        i = z3.simplify(i)
        if i.get_id() in self.seen:
            return
        self.seen[i.get_id()] = i
        j = z3.simplify(i + 1)
        D, n = ex.dom, self.n
        for f, hi in ((self.SZ, LIM), (self.WDT, MX), (self.PS, 1 << 60), (self.OFF, 1 << 60)):
            D.setb(f(i), 0, hi)
            D.setb(f(j), 0, hi)
        ax = [self.SZ(i) >= 0, self.SZ(i) <= LIM, self.WDT(i) >= 0, self.WDT(i) <= MX,
              self.PS(j) == self.PS(i) + self.SZ(i), self.PW(j) == self.PW(i) + self.WDT(i), self.PS(i) >= 0, self.PW(i) >= 0,
              self.PS(j) <= self.PS(n), self.PW(j) <= self.PW(n),
              self.OFF(i) >= 0, self.OFF(i) + self.SZ(i) <= self.LEN, z3.Implies(j == n, self.OFF(i) + self.SZ(i) == self.LEN),
              z3.Implies(j < n, z3.And(self.OFF(j) == self.OFF(i) + self.SZ(i) + (self.sl if self.sep else 0), self.OFF(j) <= self.LEN))]
        ex.solver.add(z3.Implies(z3.And(i >= 0, i < n), z3.And(*ax)))
        if self.sep and not self.mode.startswith("measure"):
            # the separator before element j
            k0, e = self.stream.k0, self.OFF(i) + self.SZ(i)
            v = ex.dom.U(ex.buf_read(self.st0, self.sb, z3.simplify(k0 - e)), 8 * self.u)[0]
            ex.solver.add(z3.Implies(z3.And(i >= 0, j < n, k0 >= e, k0 < e + self.sl), self.out(k0) == v))

    def value(self, ex, i):
        v = ex.dom.S(ex.buf_read(self.st0, self.b, i), 64)[0]
        return self.OPV(v) if self.elem == 1 else v

    def cur(self, st):
        return z3.simplify(i64(st.ghost["ev"]))

    def elem_ok(self, ex, st, a, w):
        i = self.cur(st)
        ex.oblige(st, i < self.n, w, "one more element")
        ex.oblige(st, bool(self.num(a[0]) == self.elem), w, "the element")
        ex.oblige(st, self.I(ex, a[1]) == self.value(ex, i), w, "the next element of the range")
        ex.oblige(st, self.I(ex, a[2]) == self.f + (self.width if self.elem == 2 else 0), w, "the facets and the format given")
        self.at(ex, i)
        return i

    def c_op(self, ex, st, ins, a):
        v = self.I(ex, a[0])
        t = self.OPV(v)
        ex.solver.add(t >= -(1 << 63), t < 1 << 63)
        return ex.dom.setb(t, -(1 << 63), (1 << 63) - 1)

    def c_size(self, ex, st, ins, a):
        i = self.elem_ok(ex, st, a, "pre(size)")
        if self.mode == "measure_size":
            st.ghost["ev"] = z3.simplify(i + 1)
        return self.SZ(i)

    def c_pwidth(self, ex, st, ins, a):
        i = self.elem_ok(ex, st, a, "pre(width)")
        st.ghost["ev"] = z3.simplify(i + 1)
        return self.WDT(i)

    def c_print(self, ex, st, ins, a):
        w = "pre(print)"
        i = self.elem_ok(ex, st, a, w)
        ok = isinstance(a[3], Ptr) and a[3].o is self.stream.cell
        ex.oblige(st, bool(ok), w, "the destination")
        p, e, g = self.stream.fields(ex, st, w)
        P = self.stream.pos(st, p.i)
        ex.oblige(st, z3.Implies(g, P == self.OFF(i)), w, "printed at its place")
        T.append(self.stream, ex, st, self.SZ(i), lambda k: self.out(z3.simplify(P + k)), w)
        st.ghost["ev"] = z3.simplify(i + 1)

    def c_width(self, ex, st, ins, a):
        w, D = "pre(str_width)", ex.dom
        lim = self.I(ex, a[0], 32)
        ok = all(isinstance(t, Ptr) and t.o is self.sb and t.b == 0 for t in a[1:3])
        ex.oblige(st, bool(ok), w, "the separator")
        if ok:
            ex.oblige(st, z3.And(i64(a[1].i) == 0, i64(a[2].i) == self.sl), w, "the separator")
        ex.oblige(st, z3.And(self.I(ex, a[3]) == self.c + self.h, self.I(ex, a[4]) == self.c), w, "the width calculator and the charset given")
        r, t = D.setb(ex.fresh("width", 32), 0, MX), z3.Int("sepw")
        ex.solver.add(r >= 0, r <= MX, t >= 0, z3.Or(r == t, z3.And(r >= lim, t >= lim)))
        for m in (r, t):
            k = z3.simplify(self.n - 1)
            ex.solver.add(z3.Implies(k >= 1, self.MUL(m, k) >= m), self.MUL(m, k) >= 0)
        self.last = r
        return r

    def c_mul(self, ex, st, ins, a):
        """sat_mul(width, count), proved by C09"""
        x, y = self.I(ex, a[0], 32), self.I(ex, a[1])
        ex.oblige(st, z3.And(x >= 0, y >= 0), "pre(sat_mul)", "factors")
        m = self.MUL(x, z3.simplify(y))
        ex.solver.add(m >= 0, z3.Implies(y >= 1, m >= x))
        return ex.dom.setb(z3.If(m > MX, z3.IntVal(MX), m), 0, MX)

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        n = self.n
        G = lambda v, x: i64(v[("ghost", x)])
        ev = lambda v: G(v, "ev")
        self.at(ex, i64(hv[("ghost", "ev")]))
        self.at(ex, i64(hv[("ghost", "ev")]) - 1)
        yield "0<=ev<=n", lambda v: z3.And(ev(v) >= 0, ev(v) <= n)
        yield "1<=ev", lambda v: ev(v) >= 1
        for q, x in hv.items():
            if q[0] == "ghost":
                continue
            if isinstance(x, Ptr) and x.o is self.b:
                for k in (0, -1, 1):
                    yield "it==begin+ev+%d" % k, lambda v, q=q, k=k: i64(v[q].i) == ev(v) + k
            elif (z3.is_expr(x) and z3.is_int(x)) or is_c(x):
                f64 = lambda v, q=q: ex.dom.S(ex.mat(v[q]), 64)[0] if not is_c(v[q]) else z3.IntVal(v[q])
                nm = "_".join(map(str, q))
                for k in (0, -1, 1):
                    yield nm + "==ev+%d" % k, lambda v, f=f64, k=k: f(v) == ev(v) + k
                    yield nm + "==8*(ev+%d)" % k, lambda v, f=f64, k=k: f(v) == 8 * (ev(v) + k)
                    yield nm + "==n-ev+%d" % k, lambda v, f=f64, k=k: f(v) == n - ev(v) + k
                yield nm + "==PS", lambda v, f=f64: f(v) == self.PS(ev(v))
                yield nm + "==PW", lambda v, f=f64: f(v) == z3.If(self.PW(ev(v)) > MX, MX, self.PW(ev(v)))
        if not self.mode.startswith("measure"):
            S = self.stream
            pk, gk = ("cell", S.cell.id, 8, 8), ("cell", S.cell.id, 24, 1)
            good = lambda v: (v[gk] if z3.is_expr(v[gk]) else z3.BoolVal(bool(v[gk]))) if gk in v else G(v, "good") 
            for q, x in hv.items():
                if isinstance(x, Ptr) and x.o is S.o:
                    pos = lambda v, q=q: i64(v[q].i) - G(v, "sh")
                    for gd, gl in ((good, "good=>"),):
                        if gk not in hv:
                            gd = lambda v: v[("ghost", "good")] if z3.is_expr(v[("ghost", "good")]) else z3.BoolVal(bool(v[("ghost", "good")]))
                        yield gl + "pos==OFF(ev)", lambda v, pos=pos, gd=gd: z3.Implies(z3.And(gd(v), ev(v) < n), pos(v) == self.OFF(ev(v)))
                        yield gl + "ev==0=>pos==0", lambda v, pos=pos, gd=gd: z3.Implies(z3.And(gd(v), ev(v) == 0), pos(v) == 0)
                        yield gl + "pos==END(ev-1)", lambda v, pos=pos, gd=gd: z3.Implies(z3.And(gd(v), ev(v) >= 1), pos(v) == self.OFF(ev(v) - 1) + self.SZ(ev(v) - 1))
            yield from S.cands(ex, st, hv, entry, fr)

    def on_return(self, ex, st, ret):
        w, n = "post(range)", self.n
        ob = lambda c, m: ex.oblige(st, c, w, m)
        i = self.cur(st)
        if not self.mode.startswith("measure"):
            g = st.ghost["good"]
            bad = z3.Not(g) if z3.is_expr(g) else z3.BoolVal(not g)
            ob(z3.Or(bad, i == n), "all elements are printed (unless the destination is bad)")
            return self.stream.final(ex, st)
        size, width = self.I(ex, ret[0]), self.I(ex, ret[1])
        ns = z3.simplify(n - 1)
        if "size" in self.mode:
            seps = z3.If(n >= 2, self.TIMES(ns, self.sl), I0) if self.sep else I0
            ob(size == self.PS(n) + seps, "the size of the elements and separators")
        if "width" in self.mode:
            t = self.PW(n)
            if self.sep:
                sw = z3.Int("sepw")
                ex.solver.add(sw >= 0, self.MUL(sw, ns) >= 0)
                t = t + z3.If(n >= 2, self.MUL(sw, ns), I0)
            ob(width == z3.If(t <= self.lim, t, self.lim), "the width of the elements and separators, or the limit")


# the functions that make ranges: which elements, separator (and its length) and function they hold
OPF = [("range", "range(%s)", 0, 0), ("range_op", "range(%s, OPI{f})", 0, 1), ("separated", "separated_range(%s, sep)", 1, 0), ("separated_op", "separated_range(%s, sep, OPI{f})", 1, 1),
       ("fmt", "fmt_range(%s)", 0, 0), ("fmt_separated", "fmt_separated_range(%s, sep)", 1, 0)]
FROM = [("iterators", "b, e"), ("container", "RG{b, e}"), ("list", "il"), ("array", "*(const Q(*)[5])b")]
MADE = [("%s_from_%s" % (a, b), E % x, b, sep, op) for a, E, sep, op in OPF for b, x in FROM]
MHEAD = RHEAD + """
extern "C" void ext_made(const Q*, const Q*, const CT*, long, long);
struct OPI { long id; P<1> operator()(const Q& q) const { return {q.v}; } };
struct RG { using const_iterator = const Q*; const Q* b; const Q* e; const Q* begin() const { return b; } const Q* end() const { return e; } };
template <class I> void made(const range_p<I>& r) { ext_made(r.begin, r.end, nullptr, -1, -1); }
template <class I> void made(const separated_range_p<I, CT>& r) { ext_made(r.begin, r.end, r.sep_begin, r.sep_len, -1); }
template <class I> void made(const transformed_range_p<I, OPI>& r) { ext_made(r.begin, r.end, nullptr, -1, r.op.id); }
template <class I> void made(const separated_transformed_range_p<I, CT, OPI>& r) { ext_made(r.begin, r.end, r.sep_begin, r.sep_len, r.op.id); }
template <class... F> void made(const value_and_format<F...>& x) { made(x.value()); }
"""


class Made(Facade):
    def __init__(self, src, sep, op):
        Facade.__init__(self, "to", None, 0, 0, 8)
        self._unroll = None
        self.src, self.sep, self.op = src, sep, op

    def setup(self, ex, st, fname):
        self.fname = fname
        n, f = self.var(ex, "n", 64), self.var(ex, "f", 64)
        ex.solver.add(n >= (5 if self.src == "array" else 0), n <= 1 << 44)
        ex.dom.setb(n, 0, 1 << 44)
        self.n, self.f = n, f
        self.b = ex.new_buf(st, "elements", 8, n, ro=True)
        self.len = ex.dom.setb(z3.Int("length"), 0, 1 << 60)
        ex.solver.add(self.len >= 0, self.len <= 1 << 60)
        self.s = ex.new_buf(st, "separator", 1, self.len, ro=True)
        st.ghost["ev"] = I0
        ex.contracts["ext_made"] = self.c_made
        ex.contracts["re:9str_ssize"] = self.c_len
        ex.start(st, fname, [Ptr(self.b, 0)] + ([n] if self.src == "list" else [Ptr(self.b, n)]) + [Ptr(self.s, 0), f])

    def at_(self, p, o, i):
        return bool(isinstance(p, Ptr) and p.o is o and p.b == 0), (i64(p.i) == i if isinstance(p, Ptr) else z3.BoolVal(False))

    def c_len(self, ex, st, ins, a):
        ok, z = self.at_(a[0], self.s, 0)
        ex.oblige(st, ok, "pre(str_ssize)", "the separator")
        ex.oblige(st, z, "pre(str_ssize)", "the separator")
        return self.len

    def c_made(self, ex, st, ins, a):
        w = "post(range)"
        st.ghost["ev"] = z3.IntVal(1)
        for k, i, m in ((0, 0, "first element"), (1, 5 if self.src == "array" else self.n, "end of the elements")):
            for c in self.at_(a[k], self.b, i):
                ex.oblige(st, c, w, m)
        if self.sep:
            for c in self.at_(a[2], self.s, 0):
                ex.oblige(st, c, w, "the separator")
            ex.oblige(st, self.I(ex, a[3]) == self.len, w, "the length of the separator")
        if self.op:
            ex.oblige(st, self.I(ex, a[4]) == self.f, w, "the function given")

    def on_return(self, ex, st, ret):
        ex.oblige(st, bool(z3.simplify(i64(st.ghost["ev"])).as_long() == 1), "post(range)", "made")


def units(tier):
    us = []
    for ch, C, u in TYPES:
        src, fns, ts = HEAD.replace("%(C)s", C) + "struct SZ { long s; long w; };\n", [], []
        for nm, e in JOINS:
            na = 1 if nm.startswith("one") else 0 if nm.startswith("none") else 3
            for mode in ["print", "reserve_calc"] + list(PS):
                fn = "j_%s_%s" % (mode, nm)
                sig, body = join_code(mode, nm, e)
                src += 'extern "C" %s { %s }\n' % (sig % fn, body)
                fns.append(fn)
                nat = ("aligned.cpp|-DCT=" + C, [mode + "_" + nm])
                for wide in (False, True):
                    ts.append(Task("join_%s_%s,%s<%s>" % (nm, mode, "fill" if wide else "no fill", C), fn,
                                   lambda mode=mode, nm=nm, u=u, wide=wide, na=na: Join(mode, nm, u, wide, na), "lin", native=nat))
        us.append(Unit("join_" + ch, src, fns, ts))
        src, fns, ts = RHEAD.replace("%(C)s", C), [], []
        for nm, sep, elem, e in RANGES:
            for mode in ["print"] + list(PS):
                fn = "r_%s_%s" % (mode, nm)
                if mode == "print":
                    sig, body = "void %s(destination<CT>& d, RARGS)" % fn, "to(d).with(CS{c}, F{f})(%s);" % e
                else:
                    sp, wp = PS[mode]
                    sig = "SZ %s(RARGS, int lim)" % fn
                    body = ("premeasurements<size_presence::%s, width_presence::%s> p%s; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + h}), %s); return {%s, %s};"
                            % (sp, wp, "{width_t::from_underlying(lim)}" if wp == "yes" else "", e, "p.accumulated_ssize()" if sp == "yes" else "0",
                               "p.accumulated_width().underlying_value()" if wp == "yes" else "0"))
                src += 'extern "C" %s { %s }\n' % (sig, body)
                fns.append(fn)
                ts.append(Task("%s_%s<%s>" % (nm, mode, C), fn, lambda mode=mode, sep=sep, elem=elem, u=u: Range(mode, sep, elem, u), "lin",
                               native=("ranges.cpp|-DCT=" + C, [mode + "_" + nm])))
        us.append(Unit("range_" + ch, src, fns, ts, noinline=[r"7sat_mulI", r"7sat_mulE"]))
        src, fns, ts = MHEAD.replace("%(C)s", C), [], []
        for nm, e, fr, sep, op in MADE:
            src += 'extern "C" void m_%s(%s, const CT* sep, long f) { made(%s); }\n' % (nm, "std::initializer_list<Q> il" if fr == "list" else "const Q* b, const Q* e", e)
            fns.append("m_" + nm)
            ts.append(Task("made_%s<%s>" % (nm, C), "m_" + nm, lambda fr=fr, sep=sep, op=op: Made(fr, sep, op), "lin", native=("ranges.cpp|-DCT=" + C, ["made_" + nm])))
        us.append(Unit("made_" + ch, src, fns, ts, noinline=[r"9str_ssize"]))
    return us


def replay_args(task, m):
    if task.fn[:2] in ("r_", "m_"):
        return ["--replay", str(m.get("lim", 0))]
    return ["--replay"] + [str(m.get(k, 0)) for k in ("x", "y", "z", "f", "width", "ch", "lim")]


def native_cases(which):
    """native/join_cases.inc, native/range_cases.inc: the same expressions, run natively"""
    out = []
    for mode in ["print", "reserve_calc"] + list(PS):
        for nm, e, *r in (JOINS if which == "join" else [(nm, e, sep, elem) for nm, sep, elem, e in RANGES]):
            if which != "join" and mode == "reserve_calc":
                continue
            if mode == "print":
                body = "to(d).with(CS{c}, F{f})(%s);" % e
            elif mode == "reserve_calc":
                body = "ret = make_printing_syntax(CR{7}).with(CS{c}, F{f}).reserve_calc()(%s);" % e
            else:
                sp, wp = PS[mode]
                body = ("premeasurements<size_presence::%s, width_presence::%s> p%s; measure<CT>(&p, pack(CS{c}, F{f}, WC{c + %s}), %s); %s%s"
                        % (sp, wp, "{width_t::from_underlying(lim)}" if wp == "yes" else "", "h" if which != "join" else "32", e,
                           "m.s = (long)p.accumulated_ssize(); " if sp == "yes" else "", "m.w = p.accumulated_width().underlying_value();" if wp == "yes" else ""))
            x = "" if which == "join" else " issep = %d; elem = %d;" % tuple(r)
            if which == "join":
                x = " na = %d;" % (1 if nm.startswith("one") else 0 if nm.startswith("none") else 3)
            out.append('if (name == "%s_%s") { mode = "%s"; nm = "%s";%s %s }' % (mode, nm, mode, nm, x, body))
    for nm, e, fr, sep, op in MADE if which != "join" else []:
        il = "std::initializer_list<Q> il{{1}, {2}, {3}, {4}, {5}}; b = il.begin(); e = il.end(); " if fr == "list" else "e = b + 5; " if fr == "array" else ""
        out.append('if (name == "made_%s") { mode = "made"; issep = %d; elem = %d; const Q *b = qb, *e = qe; long f = 77; %smade(%s); ok = mb == b && me == e; }' % (nm, sep, op, il, e))
    return "\n".join(out)


def extra(tier):
    """the facts used about sums (Range.at), from their definitions: by induction, forwards for >= 0, backwards for the bounds by the total"""
    SZ, PS, OFF = (z3.Function(k, z3.IntSort(), z3.IntSort()) for k in ("SZ", "PS", "OFF"))
    i, n, sl, LEN = z3.Ints("i n sl LEN")
    d = z3.And(0 <= i, i < n, sl >= 0, SZ(i) >= 0, SZ(i + 1) >= 0, PS(i + 1) == PS(i) + SZ(i), LEN == OFF(n - 1) + SZ(n - 1), z3.Implies(i + 1 < n, OFF(i + 1) == OFF(i) + SZ(i) + sl))
    lem = [("PS is not negative, step", z3.And(d, PS(i) >= 0), PS(i + 1) >= 0), ("PS(n) is the largest, base", i + 1 == n, PS(i + 1) <= PS(n)),
           ("PS(n) is the largest, step", z3.And(d, PS(i + 1) <= PS(n)), PS(i) <= PS(n)),
           ("elements are within the length, base", z3.And(d, i + 1 == n), OFF(i) + SZ(i) == LEN),
           ("elements are within the length, step", z3.And(d, i + 1 < n, OFF(i + 1) + SZ(i + 1) <= LEN), z3.And(OFF(i) + SZ(i) <= LEN, OFF(i + 1) <= LEN)),
           ("offsets are not negative, step", z3.And(d, i + 1 < n, OFF(i) >= 0), OFF(i + 1) >= 0)]
    bad = []
    for nm, pre, post in lem:
        s = z3.Solver()
        s.add(pre, z3.Not(post))
        if s.check() != z3.unsat:
            bad.append(nm)
    return dict(obligations=len(lem), discharged=len(lem) - len(bad), coverage={"lemmas on sums": len(lem)}, violations=[dict(property="C17", function="lemma " + b, input=None, summary="lemma not proved") for b in bad])


TRUST = ["str_ssize: the length of a null-terminated string (std::char_traits::length)", "contract of sat_mul(width_t, integer), which C09 proves", "contract of str_width (documented interface)", "contracts of the arguments' printers, of the destination creator, of encode_fill and encoded_char_size (documented interface)",
         "contract of destination's virtual functions (documented interface)"]
ASSUME = ["total size of a range at most 2^60 units, at most 2^44 elements", "joins of at most three arguments (join is a variadic template)", "sizes at most 2^48", "width limits that are not negative"]
LEVEL = "proof"

if __name__ == "__main__":
    import sys
    print(native_cases(sys.argv[1]))
