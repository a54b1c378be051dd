"""C16: the printing functions (to(...), reserve policies, line, tr, trline, facets) and tr(...) as a printable"""
import z3
from exec import Ptr, Obj, Fork, NULL
from dom import is_c
from driver import Task, Unit
from spec_fn import FnSpec
from spec_dst import Stream, i64
import spec_txt as T

TYPES = [("c", "char", 1), ("u", "char8_t", 1), ("s", "char16_t", 2), ("i", "char32_t", 4), ("w", "wchar_t", 4)]
HEAD = '''#include <strf/to_string.hpp>
using namespace strf; using CT = %(C)s; using PP = detail::polymorphic_printer<CT>;
struct CS; struct DST1; struct DST2;
extern "C" { void ext_repl(destination<CT>&); int ext_replsize(); long ext_size(int k, long v, long f); int ext_pwidth(int k, long v, long f); void ext_print(int k, long v, long f, destination<CT>&);
  int ext_width(int, const CT*, const CT*, long wid, long cid); DST1* ext_create(int); DST2* ext_create_n(int, unsigned long); long ext_finish(void*, int);
  void rec_write(const CT*, const CT*, long, long, long); long rec_size(const CT*, const CT*, long, long); void rec_pre(const CT*, const CT*, long); }
struct CS { using code_unit = CT; using category = charset_c<CT>; long id; void write_replacement_char(destination<CT>& d) const { ext_repl(d); } int replacement_char_size() const { return ext_replsize(); } };
struct EH { using category = tr_error_notifier_c; long id; void handle(const CT*, std::ptrdiff_t, CS, std::ptrdiff_t) const {} };
struct WC { using category = width_calculator_c; long id; template <class C> width_t str_width(C cs, width_t l, const CT* b, const CT* e) const { return width_t::from_underlying(ext_width(l.underlying_value(), b, e, id, cs.id)); } };
struct F; struct fcat { static F get_default(); };
struct F { using category = fcat; long id; };
template <int K> struct P { long v; };
template <int K> struct PR { long v; long f; void operator()(destination<CT>& d) const { ext_print(K, v, f, d); } };
namespace strf { template <int K> struct printable_def<P<K>> { using representative = P<K>; using forwarded_type = P<K>;
  template <class Pre, class FP> static PR<K> make_printer(tag<CT>, Pre* pre, const FP& fp, P<K> p) { long f = get_facet<fcat, P<K>>(fp).id;
    if (Pre::size_demanded) pre->add_size(ext_size(K, p.v, f)); if (Pre::width_demanded) pre->add_width(width_t::from_underlying(ext_pwidth(K, p.v, f))); return {p.v, f}; } }; }
struct DST1 : destination<CT> { DST1(); long finish() { return ext_finish(this, 1); } };
struct DST2 : destination<CT> { DST2(); long finish() { return ext_finish(this, 2); } };
struct CR { using char_type = CT; using destination_type = DST1&; using sized_destination_type = DST2&; using finish_type = long; int id;
  DST1& create() const { return *ext_create(id); } DST2& create(std::size_t n) const { return *ext_create_n(id, n); } };
namespace strf { namespace detail {
template <> void tr_string_write<CS, EH>(const CT* s, const CT* e, const PP* const* a, std::ptrdiff_t n, destination<CT>& d, CS c, EH h) { rec_write(s, e, n, c.id, h.id); if (n > 0) a[0]->print_to(d); if (n > 1) a[1]->print_to(d); if (n > 2) a[2]->print_to(d); }
template <> std::ptrdiff_t tr_string_size<CT>(const premeasurements<size_presence::yes, width_presence::no>* a, std::ptrdiff_t n, const CT* s, const CT* e, std::ptrdiff_t r) noexcept
{ return rec_size(s, e, n, r) + (n > 0 ? a[0].accumulated_ssize() : 0) + (n > 1 ? 2 * a[1].accumulated_ssize() : 0) + (n > 2 ? 4 * a[2].accumulated_ssize() : 0); }
template <class A> void each(A& p, const CT* s, const CT* e) { rec_pre(s, e, p.num_args()); p.account_arg(2); p.account_arg(0); p.account_arg(1); p.account_arg(1); p.account_arg(3); p.account_string(s, e); }
template <> void tr_do_premeasurements(tr_pre_size<CT>& p, const CT* s, const CT* e) { each(p, s, e); }
template <> void tr_do_premeasurements(tr_pre_width<CT, CS, WC>& p, const CT* s, const CT* e) { each(p, s, e); }
template <> void tr_do_premeasurements(tr_pre_size_and_width<CT, CS, WC>& p, const CT* s, const CT* e) { each(p, s, e); }
} }
using SV = detail::simple_string_view<CT>;
#define A3 P<0>{x}, P<1>{y}, P<2>{z}
#define ARGS long x, long y, long z, long f
#define TRF CS{c}, EH{h}, F{f}
'''
# name, kind of destination, reserve, end of line, tr, expression
FNS = []
for nm, call, line, tr in (("", "(A3)", 0, 0), ("line", ".line(A3)", 1, 0), ("tr", ".tr(SV(b, e), A3)", 0, 1), ("trline", ".trline(SV(b, e), A3)", 1, 1)):
    FNS.append(("to_" + (nm or "print"), "to", None, line, tr, "to(d).with(TRF)" + call))
    for r in ("no_reserve", "reserve_given", "reserve_calc"):
        rp = {"no_reserve": ".no_reserve()", "reserve_given": ".reserve(n)", "reserve_calc": ".reserve_calc()"}[r]
        FNS.append(("%s_%s" % (r, nm or "print"), "cr", r, line, tr, "return make_printing_syntax(CR{7}).with(TRF)" + rp + call))
for k, A in ((0, ""), (1, "P<0>{x}"), (2, "P<0>{x}, P<1>{y}")):
    C = ", " if A else ""
    FNS.append(("to_print_%d_arguments" % k, "to", None, 0, 0, "to(d).with(TRF)(%s)" % A, k))
    FNS.append(("to_trline_%d_arguments" % k, "to", None, 1, 1, "to(d).with(TRF).trline(SV(b, e)%s%s)" % (C, A), k))
    FNS.append(("reserve_calc_line_%d_arguments" % k, "cr", "reserve_calc", 1, 0, "return make_printing_syntax(CR{7}).with(TRF).reserve_calc().line(%s)" % A, k))
    FNS.append(("reserve_calc_tr_%d_arguments" % k, "cr", "reserve_calc", 0, 1, "return make_printing_syntax(CR{7}).with(TRF).reserve_calc().tr(SV(b, e)%s%s)" % (C, A), k))
    FNS.append(("reserve_given_tr_%d_arguments" % k, "cr", "reserve_given", 0, 1, "return make_printing_syntax(CR{7}).with(TRF).reserve(n).tr(SV(b, e)%s%s)" % (C, A), k))
    FNS.append(("printable_tr_%d_arguments" % k, "to", None, 0, 1, "to(d).with(TRF)(tr(SV(b, e)%s%s))" % (C, A), k))
FNS.append(("to_facets_as_arguments", "to", None, 0, 0, "to(d)(F{f}, A3)"))
FNS.append(("tr_facets_as_arguments", "to", None, 0, 1, "to(d).tr(CS{c}, EH{h}, F{f}, SV(b, e), A3)"))
FNS.append(("reserve_calc_facets_as_arguments", "cr", "reserve_calc", 0, 0, "return make_printing_syntax(CR{7}).reserve_calc()(F{f}, A3)"))
FNS.append(("reserve_twice", "cr", "reserve_calc", 0, 0, "return make_printing_syntax(CR{7}).reserve(n).with(F{f}).reserve_calc()(A3)"))
for m in ("", "const "):      # printing functions that are objects, const or not: the facets and the policy are copied, or the policy changed
    q = "const_" if m else "lvalue_"
    FNS.append((q + "no_reserve", "cr", "no_reserve", 0, 0, m + "auto s = make_printing_syntax(CR{7}).with(TRF).reserve_calc(); return s.no_reserve()(A3)"))
    FNS.append((q + "no_reserve_after_reserve", "cr", "no_reserve", 1, 0, m + "auto s = make_printing_syntax(CR{7}).with(TRF).reserve(n); return s.no_reserve().line(A3)"))
    FNS.append((q + "reserve_calc", "cr", "reserve_calc", 0, 1, m + "auto s = make_printing_syntax(CR{7}).with(TRF).reserve(n); return s.reserve_calc().tr(SV(b, e), A3)"))
    FNS.append((q + "reserve", "cr", "reserve_given", 0, 1, m + "auto s = make_printing_syntax(CR{7}).with(TRF); return s.reserve(n).tr(SV(b, e), A3)"))
    FNS.append((q + "reserve_given_space", "cr", "reserve_given", 1, 0, m + "auto s = make_printing_syntax(CR{7}).with(F{f}).reserve(n + 1); return s.reserve_given_space((std::size_t)n).line(A3)"))
    FNS.append((q + "with", "cr", "reserve_given", 1, 1, m + "auto s = make_printing_syntax(CR{7}).reserve(n); return s.with(TRF).trline(SV(b, e), A3)"))
    FNS.append((q + "with_with", "cr", "reserve_calc", 1, 0, m + "auto s = make_printing_syntax(CR{7}).with(F{f + 1}).reserve_calc(); return s.with(F{f}).line(A3)"))
    FNS.append((q + "with_nothing", "cr", "reserve_given", 0, 0, m + "auto s = make_printing_syntax(CR{7}).with(F{f}).reserve(n); return s.with()(A3)"))
FNS.append(("syntax_made_with_policy_and_facets", "cr", "reserve_given", 0, 1, "return make_printing_syntax(CR{7}, reserve_given_space{(std::size_t)n}, TRF).tr(SV(b, e), A3)"))
FNS.append(("no_reserve_after_reserve_calc", "cr", "no_reserve", 1, 0, "return make_printing_syntax(CR{7}).reserve_calc().with(F{f}).no_reserve().line(A3)"))
FNS.append(("reserve_after_reserve_calc", "cr", "reserve_given", 0, 0, "return make_printing_syntax(CR{7}).reserve_calc().reserve(n).with(F{f})(A3)"))
FNS.append(("reserve_given_space_then_with", "cr", "reserve_given", 0, 0, "return make_printing_syntax(CR{7}).reserve(n + 1).reserve_given_space((std::size_t)n).with(F{f})(A3)"))
FNS.append(("with_twice", "to", None, 1, 0, "to(d).with(F{f + 1}).with(F{f}).line(A3)"))
FNS.append(("pack_of_facets", "to", None, 0, 0, "to(d).with(pack(F{f}))(A3)"))
FNS.append(("last_facet_wins", "to", None, 0, 0, "to(d).with(pack(F{f + 1}, constrain<std::is_integral>(F{f + 2}), F{f}))(A3)"))
FNS.append(("printable_tr", "to", None, 0, 1, "to(d).with(TRF)(tr(SV(b, e), A3))"))
FNS.append(("printable_facets_pack", "to", None, 0, 0, "to(d)(with(F{f})(A3))"))
FNS.append(("printable_join", "to", None, 0, 0, "to(d).with(F{f})(join(A3))"))
FNS.append(("printable_join_in_join", "to", None, 0, 0, "to(d).with(F{f})(join(P<0>{x}, join(P<1>{y}, P<2>{z})))"))
PRE = []
for nm, sp, wp in (("size", "yes", "no"), ("width", "no", "yes"), ("size_and_width", "yes", "yes")):
    for k, ex in (("tr", "tr(SV(b, e), A3)"), ("print", "A3"), ("join", "join(A3)"), ("facets_pack", "with(F{f})(A3)"), ("join_in_join", "join(P<0>{x}, join(P<1>{y}, P<2>{z}))")):
        PRE.append(("measure_%s_%s" % (k, nm), nm, k, "premeasurements<size_presence::%s, width_presence::%s> p%s; measure<CT>(&p, pack(TRF, WC{c + h}), %s); return {%s, %s};"
                    % (sp, wp, "" if wp == "no" else "{width_t::from_underlying(lim)}", ex, "p.accumulated_ssize()" if sp == "yes" else "0",
                       "p.accumulated_width().underlying_value()" if wp == "yes" else "0")))
for nm, sp, wp in (("size", "yes", "no"), ("width", "no", "yes"), ("size_and_width", "yes", "yes")):
    for k, A in ((0, ""), (1, ", P<0>{x}"), (2, ", P<0>{x}, P<1>{y}")):
        PRE.append(("measure_tr_%s_%d_arguments" % (nm, k), nm, "tr", "premeasurements<size_presence::%s, width_presence::%s> p%s; measure<CT>(&p, pack(TRF, WC{c + h}), tr(SV(b, e)%s)); return {%s, %s};"
                    % (sp, wp, "" if wp == "no" else "{width_t::from_underlying(lim)}", A, "p.accumulated_ssize()" if sp == "yes" else "0", "p.accumulated_width().underlying_value()" if wp == "yes" else "0"), k))
LIM, MX = 1 << 48, (1 << 31) - 1


I0 = z3.IntVal(0)


class Facade(FnSpec):
    def __init__(self, kind, reserve, line, tr, u, pre=None, what=None, nargs=3):
        FnSpec.__init__(self, None, None, unroll=16)
        self.kind, self.reserve, self.line, self.tr, self.u, self.pre, self.what, self.na = kind, reserve, line, tr, u, pre, what, nargs

    def setup(self, ex, st, fname):
        self.fname = fname
        D, add = ex.dom, ex.solver.add
        V = lambda nm, w: self.var(ex, nm, w)
        x, y, z, f, c, h = V("x", 64), V("y", 64), V("z", 64), V("f", 64), V("c", 64), V("h", 64)
        add(f < 1 << 30, f >= 0, c < 1 << 30, c >= 0, h < 1 << 30, h >= 0)
        D.setb(c, 0, 1 << 30)
        D.setb(h, 0, 1 << 30)
        self.v, self.f, self.c, self.h = [x, y, z], f, c, h
        n, b = self.var(ex, "n", 64), self.var(ex, "len", 64)
        add(n >= 0, n <= LIM, b >= 0, b <= LIM)
        D.setb(n, 0, LIM)
        D.setb(b, 0, LIM)
        self.n, self.len = n, b
        self.R = D.setb(z3.Int("replsize"), 0, 8)
        self.S = [D.setb(z3.Int("S%d" % k), 0, LIM) for k in range(3)]
        self.W = [D.setb(z3.Int("W%d" % k), 0, MX) for k in range(3)]
        self.X = D.setb(z3.Int("trsize"), 0, LIM)
        add(self.R >= 0, self.R <= 8, self.X >= 0, self.X <= LIM)
        add(*[z3.And(s >= 0, s <= LIM) for s in self.S] + [z3.And(w >= 0, w <= MX) for w in self.W])
        self.sb = ex.new_buf(st, "tr-string", self.u, b, ro=True)
        s, e = Ptr(self.sb, 0), Ptr(self.sb, b)
        for k, v in dict(ext_size=self.c_size, ext_pwidth=self.c_pwidth, ext_print=self.c_print, ext_width=self.c_width, ext_create=self.c_create, ext_create_n=self.c_create,
                         ext_finish=self.c_finish, rec_write=self.c_rwrite, rec_size=self.c_rsize, rec_pre=self.c_rpre, ext_replsize=lambda ex, st, ins, a: self.R).items():
            ex.contracts[k] = v
        st.ghost["ev"] = z3.IntVal(0)
        st.ghost["r"] = z3.IntVal(-1)
        if self.pre:
            self.lim = V("lim", 32)
            add(self.lim >= 0)
            D.setb(self.lim, 0, MX)
            st.ghost["tw"] = z3.IntVal(0)
            return ex.start(st, fname, [s, e, x, y, z, f, c, h, self.lim])
        # what must happen, in this order
        self.want = (["create"] if self.kind == "cr" else []) + (["tr"] if self.tr else []) + ["print %d" % k for k in range(self.na)] + (["finish"] if self.kind == "cr" else [])
        tot = z3.Sum(self.S[:self.na] + [I0]) + (1 if self.line else 0)

        def out(k):
            v = D.setb(z3.Function("OUT", z3.IntSort(), z3.IntSort())(k), 0, (1 << 8 * self.u) - 1)
            add(v >= 0, v < 1 << 8 * self.u)
            return z3.If(k == tot - 1, 10, v) if self.line else v
        self.out = out
        S = self.stream = Stream(self.u, 1, z3.simplify(tot), out)
        d = S.setup(ex, st)
        if self.kind == "to":
            return ex.start(st, fname, [s, e, d, x, y, z, f, c, h])
        ex.start(st, fname, [s, e, n, x, y, z, f, c, h])

    def I(self, ex, v, w=64):
        return ex.dom.S(ex.mat(v), w)[0] if not is_c(v) else z3.IntVal(v - (1 << w) if v >> (w - 1) else v)

    def num(self, v):
        return int(v) if is_c(v) else int(str(z3.simplify(v)))

    def event(self, ex, st, what, w):
        i = z3.simplify(i64(st.ghost["ev"])).as_long()
        j = i
        while j < len(self.want) and self.want[j] != what and self.want[j].startswith("print"):
            j += 1
        ok = j < len(self.want) and self.want[j] == what
        ex.oblige(st, bool(ok), w, "%s, after %s" % (what, self.want[:i]))
        if ok and j > i:
            self.skipped(ex, st, w)
        st.ghost["ev"] = z3.IntVal(j + 1)

    def skipped(self, ex, st, w):
        g = st.ghost["good"]
        ex.oblige(st, z3.Not(g) if z3.is_expr(g) else not g, w, "an argument is left out only if the destination is bad")

    def arg(self, ex, st, a, w):
        k = self.num(a[0])
        ex.oblige(st, self.I(ex, a[1]) == self.v[k], w, "the value of argument %d" % k)
        ex.oblige(st, self.I(ex, a[2]) == self.f, w, "the facet given to argument %d" % k)
        return k

    def c_size(self, ex, st, ins, a):
        return self.S[self.arg(ex, st, a, "pre(size)")]

    def c_pwidth(self, ex, st, ins, a):
        return self.W[self.arg(ex, st, a, "pre(width)")]

    def c_print(self, ex, st, ins, a):
        w = "pre(print)"
        k = self.arg(ex, st, a, w)
        self.event(ex, st, "print %d" % k, w)
        ok = isinstance(a[3], Ptr) and a[3].o is self.stream.cell
        ex.oblige(st, bool(ok), w, "the destination")
        p, e, g = self.stream.fields(ex, st, w)
        P = self.stream.pos(st, p.i)
        T.append(self.stream, ex, st, self.S[k], lambda i: self.out(z3.simplify(P + i)), w)

    def c_create(self, ex, st, ins, a):
        w = "pre(create)"
        self.event(ex, st, "create", w)
        ex.oblige(st, self.I(ex, a[0], 32) == 7, w, "the creator given")
        sized = len(a) > 1
        ex.oblige(st, bool(sized == (self.reserve != "no_reserve")), w, "create() or create(size), by the reserve policy")
        if sized:
            calc = z3.Sum(self.S[:self.na] + [I0]) if not self.tr else self.X + z3.Sum([I0] + [self.S[k] * (1 << k) for k in range(self.na)])
            ex.oblige(st, self.I(ex, a[1]) == (self.n if self.reserve == "reserve_given" else calc + (1 if self.line else 0)), w, "the size")
        return Ptr(self.stream.cell)

    def c_finish(self, ex, st, ins, a):
        w = "pre(finish)"
        self.event(ex, st, "finish", w)
        ex.oblige(st, bool(isinstance(a[0], Ptr) and a[0].o is self.stream.cell), w, "the destination")
        ex.oblige(st, bool(self.num(a[1]) == (1 if self.reserve == "no_reserve" else 2)), w, "the destination's type, by the reserve policy")
        self.stream.final(ex, st)
        st.ghost["r"] = ex.fresh("finish_result", 64)
        return st.ghost["r"]

    def range(self, ex, st, p, q, w):
        ok = all(isinstance(t, Ptr) and t.o is self.sb and t.b == 0 for t in (p, q))
        ex.oblige(st, bool(ok), w, "pointers to the tr-string")
        if ok:
            ex.oblige(st, z3.And(i64(p.i) == 0, i64(q.i) == self.len), w, "the whole tr-string")

    def c_rwrite(self, ex, st, ins, a):
        w = "pre(tr_string_write)"
        self.event(ex, st, "tr", w)
        self.range(ex, st, a[0], a[1], w)
        ex.oblige(st, self.I(ex, a[2]) == self.na, w, "number of arguments")
        ex.oblige(st, z3.And(self.I(ex, a[3]) == self.c, self.I(ex, a[4]) == self.h), w, "the charset and the error notifier given")

    def c_rsize(self, ex, st, ins, a):
        w = "pre(tr_string_size)"
        self.range(ex, st, a[0], a[1], w)
        ex.oblige(st, z3.And(self.I(ex, a[2]) == self.na, self.I(ex, a[3]) == self.R), w, "number of arguments and size of the replacement character")
        return self.X

    def c_rpre(self, ex, st, ins, a):
        w = "pre(tr_do_premeasurements)"
        self.range(ex, st, a[0], a[1], w)
        ex.oblige(st, self.I(ex, a[2]) == self.na, w, "number of arguments")
        st.ghost["ev"] = z3.simplify(i64(st.ghost["ev"]) + 1)

    def c_width(self, ex, st, ins, a):
        w, D = "pre(str_width)", ex.dom
        lim = self.I(ex, a[0], 32)
        self.range(ex, st, a[1], a[2], w)
        ex.oblige(st, z3.And(self.I(ex, a[3]) == self.c + self.h, self.I(ex, a[4]) == self.c), w, "the width calculator and the charset given")
        r, t = D.setb(ex.fresh("width", 32), 0, MX), z3.Int("true_width")
        ex.solver.add(r >= 0, r <= MX, t >= 0, z3.Or(r == t, z3.And(r >= lim, t >= lim)))
        st.ghost["tw"] = t
        return r

    def on_return(self, ex, st, ret):
        w = "post(print)"
        if self.pre:
            w = "post(measure)"
            size, width = self.I(ex, ret[0]), self.I(ex, ret[1])
            S, W = self.S, self.W
            if "size" in self.pre:
                ex.oblige(st, size == (z3.Sum([S[k] if k < self.na else self.R for k in (2, 0, 1, 1, 3)]) + self.len if self.what == "tr" else z3.Sum(S)), w, "the sum of the sizes")
            if "width" in self.pre:
                t = z3.Sum([W[k] if k < self.na else z3.IntVal(65536) for k in (2, 0, 1, 1, 3)]) + st.ghost["tw"] if self.what == "tr" else z3.Sum(W)
                ex.oblige(st, width == z3.If(t <= self.lim, t, self.lim), w, "the sum of the widths, or the limit")
            if self.what == "tr":
                ex.oblige(st, i64(st.ghost["ev"]) <= 1 if self.pre == "width" else i64(st.ghost["ev"]) == 1, w, "the tr-string is measured once")
            return
        i = z3.simplify(i64(st.ghost["ev"])).as_long()
        if self.kind == "cr":
            ex.oblige(st, bool(i == len(self.want)), w, "finish() is called")
            return ex.oblige(st, self.I(ex, ret) == i64(st.ghost["r"]), w, "the result of finish() is returned")
        if i < len(self.want):
            ex.oblige(st, bool(all(x.startswith("print") for x in self.want[i:])), w, "the tr-string is printed")
            self.skipped(ex, st, w)
        self.stream.final(ex, st)


def units(tier):
    us = []
    for ch, C, u in TYPES:
        src, fns, ts = HEAD.replace("%(C)s", C), [], []
        for nm, kind, rsv, line, tr, e, na in [x + (3,) * (7 - len(x)) for x in FNS]:
            fn = "f_" + nm
            src += 'extern "C" %s %s(const CT* b, const CT* e, %s, ARGS, long c, long h) { %s; }\n' % ("void" if kind == "to" else "long", fn, "destination<CT>& d" if kind == "to" else "unsigned long n", e)
            fns.append(fn)
            nat = ("print.cpp|-DCT=" + C, [nm])
            ts.append(Task("%s<%s>" % (nm, C), fn, lambda kind=kind, rsv=rsv, line=line, tr=tr, u=u, na=na: Facade(kind, rsv, line, tr, u, nargs=na), "lin", native=nat))
        src += "struct SZ { long s; long w; };\n"
        for nm, pre, k, e, na in [x + (3,) * (5 - len(x)) for x in PRE]:
            fn = "f_" + nm
            src += 'extern "C" SZ %s(const CT* b, const CT* e, ARGS, long c, long h, int lim) { %s }\n' % (fn, e)
            fns.append(fn)
            nat = ("print.cpp|-DCT=" + C, [nm])
            ts.append(Task("%s<%s>" % (nm, C), fn, lambda u=u, pre=pre, k=k, na=na: Facade(None, None, 0, k == "tr", u, pre, k, na), "lin", native=nat))
        us.append(Unit("print_" + ch, src, fns, ts))
    return us


def replay_args(task, m):
    return ["--replay"] + [str(m.get(k, 0)) for k in ("x", "y", "z", "f", "n", "lim")]


TRUST = ["contracts of the arguments' printers, of the destination creator and of str_width (documented interface)",
         "contract of destination's virtual functions (documented interface)",
         "tr_string_write, tr_string_size and tr_do_premeasurements replaced by representatives (explicit specialisations) that use each argument given to them (the functions are proved by C15)"]
ASSUME = ["none to three arguments (the functions are variadic templates)", "sizes at most 2^48"]
LEVEL = "proof"


if __name__ == "__main__":   # writes native/print_cases.inc
    for nm, kind, rsv, line, tr, e, na in [x + (3,) * (7 - len(x)) for x in FNS]:
        print('    if (name == "%s") { a.kind = "%s"; a.line = %d; a.tr = %d; a.na = %d; %s; }' % (nm, rsv or kind, line, tr, na, e.replace("return ", "a.ret = ")))
    for nm, pre, k, e, na in [x + (3,) * (5 - len(x)) for x in PRE]:
        print('    if (name == "%s") { a.kind = "measure"; a.tr = %d; a.na = %d; a.what = "%s"; struct sz { long s, w; }; auto go = [&]() -> sz { %s }; auto r = go(); a.gs = r.s; a.gw = r.w; }' % (nm, k == "tr", na, pre, e))
