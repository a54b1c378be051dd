"""C15: tr-strings"""
import z3
from exec import Ptr, Obj, Fork, NULL, simp, Unsupported
from dom import is_c
from driver import Task, Unit
from spec_fn import FnSpec
from spec_dst import Stream, i64
import spec_txt as T

TYPES = [("c", "char", 1), ("u", "char8_t", 1), ("s", "char16_t", 2), ("i", "char32_t", 4), ("w", "wchar_t", 4)]
HEAD = '''#include <strf/to_string.hpp>
using namespace strf; using CT = %(C)s;
extern "C" { void ext_handle(const CT* s, long n, long pos); void ext_repl(destination<CT>&); int ext_replsize();
  bool rec_string(void*, const CT*, const CT*); bool rec_arg(void*, long); }
struct CS { using code_unit = CT; void write_replacement_char(destination<CT>& d) const { ext_repl(d); } int replacement_char_size() const { return ext_replsize(); } };
struct EH { using category = tr_error_notifier_c; void handle(const CT* s, std::ptrdiff_t n, CS, std::ptrdiff_t p) const { ext_handle(s, n, p); } };
struct REC { long num; bool account_string(const CT* b, const CT* e) { return rec_string(this, b, e); } bool account_arg(std::ptrdiff_t i) { return rec_arg(this, i); } std::ptrdiff_t num_args() const { return num; } };
struct RU { long v; const CT* p; };
extern "C" RU f_ruint(const CT* b, const CT* e, long lim) { auto r = detail::read_uint<CT>(b, e, lim); return {r.value, r.it}; }
extern "C" const CT* f_find(const CT* b, unsigned long n, CT c) { return detail::str_find<CT>(b, n, c); }
extern "C" void f_write(const CT* b, const CT* e, const detail::polymorphic_printer<CT>* const* a, long num, destination<CT>& d) { detail::tr_string_write(b, e, a, num, d, CS{}, EH{}); }
extern "C" long f_size(const CT* b, const CT* e, const premeasurements<size_presence::yes, width_presence::no>* a, long num, long inv) { return detail::tr_string_size(a, num, b, e, inv); }
extern "C" { void rec_text(const CT*, const CT*); void rec_ref(long); int ext_width(int, const CT*, const CT*); }
struct WC { using category = width_calculator_c; template <class CS_> width_t str_width(CS_, width_t lim, const CT* b, const CT* e) const { return width_t::from_underlying(ext_width(lim.underlying_value(), b, e)); } };
template <class P> struct BOTH { P p; auto account_string(const CT* b, const CT* e) -> decltype(p.account_string(b, e)) { rec_text(b, e); return p.account_string(b, e); }
  auto account_arg(std::ptrdiff_t i) -> decltype(p.account_arg(i)) { rec_ref(i); return p.account_arg(i); } std::ptrdiff_t num_args() const { return p.num_args(); } };
extern "C" long f_presize(const CT* b, const CT* e, const long* s, long num, int inv) { BOTH<detail::tr_pre_size<CT>> r{{s, num, inv}}; detail::tr_do_premeasurements(r, b, e); return r.p.accumulated_ssize(); }
extern "C" int f_prewidth(const CT* b, const CT* e, const width_t* w, long num, int lim) { BOTH<detail::tr_pre_width<CT, CS, WC>> r{{w, num, width_t::from_underlying(lim), WC{}, CS{}}}; detail::tr_do_premeasurements(r, b, e); return r.p.accumulated_width().underlying_value(); }
struct SW { long size; long width; };
extern "C" SW f_presw(const CT* b, const CT* e, const long* s, const width_t* w, long num, int lim) { BOTH<detail::tr_pre_size_and_width<CT, CS, WC>> r{{s, w, num, width_t::from_underlying(lim), WC{}, CS{}}}; detail::tr_do_premeasurements(r, b, e); return {r.p.accumulated_ssize(), r.p.accumulated_width().underlying_value()}; }
extern "C" void f_pre(const CT* b, const CT* e, long num, REC& r) { detail::tr_do_premeasurements(r, b, e); }
'''
NOINLINE = [r"8str_findI", r"9read_uintI"]
LIM = 1 << 48
TEXT, BRACE, SKIP = 0, 1, 2
LB, RB, MI = 0x7B, 0x7D, 0x2D


class Syntax:
    """ghost functions of the position i in the tr-string: M mode (text, after an opening brace, skipping to the closing brace),
    O units printed before i, A non-positional references and E references before i; of a reference e: EvArg its argument (-1: none),
    EvOut the place of the output where it is printed, EvPos the place of its opening brace.  Num(i): the number whose digits
    begin at i"""
    NAMES = "M O T A E EvArg EvOut EvPos Num Out S".split()

    def __init__(self, n, num, rsize, src):
        I = z3.IntSort()
        for x in self.NAMES:
            setattr(self, x, z3.Function(x, I, I))
        self.n, self.num, self.R, self.src = n, num, rsize, src
        self.LEN, self.EFIN = z3.Int("LEN"), z3.Int("EFIN")

    def size(self, k):
        return z3.If(z3.And(k >= 0, k < self.num), self.S(k), self.R)

    def event(self, i, k):
        """a reference to argument k; i: the position after the brace"""
        e = self.E(i)
        return z3.And(self.EvArg(e) == z3.If(k < self.num, k, -1), self.EvOut(e) == self.O(i), self.EvPos(e) == i - 1,
                      z3.Implies(z3.And(k >= 0, k < self.num), self.S(k) >= 0))

    def digit(self, c):
        return z3.And(c >= 0x30, c <= 0x39)

    def step(self, i):
        """meaning of the unit at i"""
        c, M, O, A, E, j = self.src(i), self.M(i), self.O(i), self.A(i), self.E(i), i + 1
        lb, rb, dg = c == LB, c == RB, self.digit(c)
        ref = z3.And(M == BRACE, c != LB, c != MI)
        k = z3.If(dg, self.Num(i), A)
        lit = z3.Or(z3.And(M == TEXT, c != LB), z3.And(M == BRACE, lb))
        return z3.And(M >= 0, M <= 2, O >= 0, A >= 0, E >= 0, self.Num(i) >= 0, self.R >= 0,
                      self.M(j) == z3.If(M == TEXT, z3.If(lb, BRACE, TEXT), z3.If(M == BRACE, z3.If(z3.Or(lb, rb), TEXT, SKIP), z3.If(rb, TEXT, SKIP))),
                      self.O(j) == O + z3.If(lit, 1, z3.If(ref, self.size(k), 0)),
                      self.T(j) == self.T(i) + z3.If(lit, 1, 0),
                      self.A(j) == A + z3.If(z3.And(ref, z3.Not(dg)), 1, 0),
                      self.E(j) == E + z3.If(ref, 1, 0),
                      z3.Implies(ref, self.event(i, k)),
                      z3.Implies(lit, self.Out(O) == c))

    def bounds(self, i):
        return z3.And(self.O(i) >= 0, self.O(i) <= self.LEN, self.A(i) >= 0, self.A(i) <= i, self.E(i) >= 0, self.E(i) <= self.EFIN, self.M(i) >= 0, self.M(i) <= 2)

    def start(self):
        return z3.And(self.M(0) == TEXT, self.O(0) == 0, self.T(0) == 0, self.A(0) == 0, self.E(0) == 0)

    def end(self):
        """a brace at the end of the string is a non-positional reference"""
        b = self.M(self.n) == BRACE
        return z3.And(z3.Implies(b, self.event(self.n, self.A(self.n))),
                      self.EFIN == self.E(self.n) + z3.If(b, 1, 0),
                      self.LEN == self.O(self.n) + z3.If(b, self.size(self.A(self.n)), 0))

    def run(self, mode, a, b, at=None):
        """[a, b) holds no delimiter ('{' in text, '}' when skipping); at: a position of the output"""
        same = z3.And(self.M(b) == mode, self.A(b) == self.A(a), self.E(b) == self.E(a), self.O(b) == self.O(a) + (b - a if mode == TEXT else 0),
                      self.T(b) == self.T(a) + (b - a if mode == TEXT else 0))
        if mode == TEXT and at is not None:
            r = at - self.O(a)
            same = z3.And(same, z3.Implies(z3.And(r >= 0, r < b - a), self.Out(at) == self.src(a + r)))
        return z3.Implies(self.M(a) == mode, same)

    # induction proofs of the facts used above
    def lemmas(self):
        a, b, i, at = z3.Ints("la lb li lat")
        base = z3.And(0 <= a, a <= b, b < self.n)
        for mode, dl in ((TEXT, LB), (SKIP, RB)):
            yield "run(%d): base" % mode, [self.M(a) == mode], self.run(mode, a, a, at)
            yield ("run(%d): step" % mode, [base, self.run(mode, a, b, at), self.src(b) != dl, self.step(b)], self.run(mode, a, b + 1, at))
        nn = self.n >= 0
        up = lambda j: z3.And(self.O(j) >= 0, self.A(j) >= 0, self.A(j) <= j, self.E(j) >= 0, self.M(j) >= 0, self.M(j) <= 2)
        sz = [self.R >= 0]
        yield "bounds: base, upward", [nn, self.start()], up(z3.IntVal(0))
        yield "bounds: step, upward", [0 <= i, i < self.n, up(i), self.step(i)] + sz, up(i + 1)
        dn = lambda j: z3.And(self.O(j) <= self.LEN, self.E(j) <= self.EFIN)
        yield "bounds: base, downward", [nn, self.end()] + sz, dn(self.n)
        yield "bounds: step, downward", [0 <= i, i < self.n, dn(i + 1), self.step(i)] + sz, dn(i)
        # the value of a run of digits does not decrease
        V, e = z3.Function("V", z3.IntSort(), z3.IntSort()), z3.Int("le")
        yield "value: base", [], V(e) <= V(e)
        yield "value: step", [a >= 1, a < e, self.digit(self.src(a)), V(a + 1) == 10 * V(a) + self.src(a) - 48, V(a) >= 0, V(a + 1) <= V(e)], V(a) <= V(e)
        yield "value: not negative", [self.digit(self.src(a)), V(a) >= 0, V(a + 1) == 10 * V(a) + self.src(a) - 48], V(a + 1) >= 0


class Tr(FnSpec):
    def __init__(self, what, unit):
        FnSpec.__init__(self, None, None)
        self.what, self.u = what, unit

    def setup(self, ex, st, fname):
        self.fname = fname
        D, add, u = ex.dom, ex.solver.add, self.u
        n, num = self.var(ex, "n", 64), self.var(ex, "num", 64)
        add(n >= 0, n <= LIM, num >= 0, num <= 1 << 30)
        D.setb(n, 0, LIM)
        D.setb(num, 0, 1 << 30)
        rs = z3.Int("replsize")
        add(rs >= 0, rs <= 8)
        D.setb(rs, 0, 8)
        self.sb = ex.new_buf(st, "tr-string", u, n, ro=True)
        self.st0 = st
        Y = self.Y = Syntax(n, num, rs, lambda i: D.U(ex.buf_read(st, self.sb, i), 8 * u)[0])
        add(Y.start(), Y.end(), Y.bounds(z3.IntVal(0)), Y.bounds(n), Y.LEN <= 1 << 60)
        D.setb(Y.LEN, 0, 1 << 60)
        self.seen = set()
        self.sb.onread = lambda ex, st, i: self.at(ex, i64(i))
        ex.contracts["re:8str_findI"] = self.c_find
        ex.contracts["re:9read_uintI"] = self.c_uint
        ex.contracts["ext_replsize"] = lambda ex, st, ins, a: rs
        st.ghost.update(ev=z3.IntVal(0), hd=z3.IntVal(0))
        b, e = Ptr(self.sb, 0), Ptr(self.sb, n)
        if self.what == "write":
            def out(k):
                v = Y.Out(k)
                add(v >= 0, v < 1 << (8 * u))
                return D.setb(v, 0, (1 << (8 * u)) - 1)
            self.out = out
            S = self.stream = Stream(u, 1, Y.LEN, out)
            k0 = S.k0
            d = S.setup(ex, st)
            args = Obj("args", "virt", 8, None, True)
            prn = Obj("printers", "virt", 8, None, True)
            vt = Obj("vtable", "const", 1, 32, True)
            f = Ptr(Obj("vf_print_to", "func", 1, 1, True))
            vt.tag = {0: (8, f), 8: (8, f), 16: (8, f)}
            vt.tag = {0: (8, Ptr(Obj("vf_dtor", "func", 1, 1, True))), 8: (8, Ptr(Obj("vf_dtor", "func", 1, 1, True))), 16: (8, f)}

            def elem(ex, st, p, size, ty):
                ex.oblige(st, bool(size == 8 and p.b == 0), "load", "a pointer of the array")
                ex.oblige(st, z3.And(i64(p.i) >= 0, i64(p.i) < num), "load-in-bounds", "array of printers")
                return Ptr(prn, p.i)
            args.onread = elem

            def vtab(ex, st, p, size, ty):
                ex.oblige(st, bool(size == 8 and p.b == 0), "load", "the virtual table of a printer")
                return Ptr(vt)
            prn.onread = vtab
            self.prn = prn
            ex.contracts["vf_print_to"] = self.c_print
            ex.contracts["ext_repl"] = self.c_repl
            ex.contracts["ext_handle"] = self.c_handle
            return ex.start(st, fname, [b, e, Ptr(args), num, d])
        if self.what == "size":
            a = Obj("args_pre", "virt", 8, None, True)

            def pre(ex, st, p, size, ty):
                ex.oblige(st, bool(size == 8 and p.b == 0), "load", "the size of an argument")
                i = i64(p.i)
                ex.oblige(st, z3.And(i >= 0, i < num), "load-in-bounds", "array of sizes")
                add(Y.S(i) >= 0, Y.S(i) <= 1 << 60)
                return D.setb(Y.S(i), 0, 1 << 60)
            a.onread = pre
            return ex.start(st, fname, [b, e, Ptr(a), num, rs])
        if self.what != "pre":
            return self.setup_both(ex, st, fname, b, e, n, num, rs)
        st.ghost.update(w=z3.IntVal(0), stop=z3.IntVal(0))
        self.rec = ex.new_cell(st, "pre", 8)
        st.mem[self.rec.id] = {0: (8, num)}
        ex.contracts["rec_string"] = self.c_rstr
        ex.contracts["rec_arg"] = self.c_rarg
        ex.start(st, fname, [b, e, num, Ptr(self.rec)])

    def setup_both(self, ex, st, fname, b, e, n, num, rs):
        """the premeasurements of the library: t: units of text accounted; tot: the width of what was accounted"""
        D, add, Y = ex.dom, ex.solver.add, self.Y
        st.ghost.update(t=z3.IntVal(0), tot=z3.IntVal(0))
        self.Wd = z3.Function("Wd", z3.IntSort(), z3.IntSort())

        def array(name, f, size, hi):
            o = Obj(name, "virt", size, None, True)

            def read(ex, st, p, sz, ty):
                ex.oblige(st, bool(sz == size and p.b == 0), "load", "measure of an argument")
                i = i64(p.i)
                ex.oblige(st, z3.And(i >= 0, i < num), "load-in-bounds", "array of measures")
                add(f(i) >= 0, f(i) <= hi)
                return D.setb(f(i), 0, hi)
            o.onread = read
            return Ptr(o)
        self.limit = lim = self.var(ex, "limit", 32)
        add(lim >= 0, lim < 1 << 31)
        D.setb(lim, 0, (1 << 31) - 1)
        sizes, widths = array("sizes", Y.S, 8, 1 << 60), array("widths", self.Wd, 4, (1 << 31) - 1)
        self.last = None
        ex.contracts["rec_text"], ex.contracts["rec_ref"], ex.contracts["ext_width"] = self.c_text, self.c_ref, self.c_width
        ex.start(st, fname, {"presize": [b, e, sizes, num, rs], "prewidth": [b, e, widths, num, lim], "presw": [b, e, sizes, widths, num, lim]}[self.what])

    def c_text(self, ex, st, ins, a):
        w, Y = "pre(account_string)", self.Y
        p, q = self.ptr(ex, st, a[0], w), self.ptr(ex, st, a[1], w)
        ex.oblige(st, z3.And(p <= q, Y.T(p) == i64(st.ghost["t"])), w, "the text that follows")
        ex.oblige(st, Y.T(q) == Y.T(p) + q - p, w, "only text")
        st.ghost["t"] = z3.simplify(Y.T(q))
        self.last = (p, q)

    def c_ref(self, ex, st, ins, a):
        w, D, Y = "pre(account_arg)", ex.dom, self.Y
        k = D.S(ex.mat(a[0]), 64)[0] if not is_c(a[0]) else z3.IntVal(a[0])
        ex.oblige(st, k >= 0, w, "index")
        ev = self.ref(ex, st, z3.If(k < Y.num, k, -1), w)
        st.ghost["ev"] = z3.simplify(ev + 1)
        ex.solver.add(z3.Implies(z3.And(k >= 0, k < Y.num), z3.And(self.Wd(k) >= 0, self.Wd(k) < 1 << 31)))
        st.ghost["tot"] = z3.simplify(i64(st.ghost["tot"]) + z3.If(k < Y.num, self.Wd(k), 65536))

    def c_width(self, ex, st, ins, a):
        """str_width: the width of the string, or, if this reaches the limit, any width that reaches it"""
        w, D = "pre(str_width)", ex.dom
        lim = D.S(ex.mat(a[0]), 32)[0] if not is_c(a[0]) else z3.IntVal(a[0])
        p, q = self.ptr(ex, st, a[1], w), self.ptr(ex, st, a[2], w)
        ex.oblige(st, z3.And(p == self.last[0], q == self.last[1]) if self.last else False, w, "the string accounted")
        r, t = D.setb(ex.fresh("width", 32), 0, (1 << 31) - 1), z3.Int("true_width!%d" % next(ex.nfresh))
        ex.solver.add(r >= 0, r < 1 << 31, t >= 0, z3.Or(r == t, z3.And(r >= lim, t >= lim)))
        st.ghost["tot"] = z3.simplify(i64(st.ghost["tot"]) + t)
        return r

    def width_ok(self, v, tot):
        return z3.And(v >= 0, z3.Or(v == z3.If(tot < 1 << 31, tot, (1 << 31) - 1), z3.And(v >= self.limit, tot >= self.limit)))

    def at(self, ex, i):
        i = z3.simplify(i)
        if i.get_id() in self.seen:
            return
        self.seen.add(i.get_id())
        j = z3.simplify(i + 1)
        ex.solver.add(z3.Implies(z3.And(i >= 0, i < self.Y.n), z3.And(self.Y.step(i), self.Y.bounds(i), self.Y.bounds(j))))
        self.keep = getattr(self, "keep", []) + [i]

    def ptr(self, ex, st, p, w):
        ok = isinstance(p, Ptr) and p.o is self.sb and p.b == 0
        ex.oblige(st, bool(ok), w, "pointer into the tr-string")
        if not ok:
            raise Unsupported("pointer")
        ex.oblige(st, z3.And(i64(p.i) >= 0, i64(p.i) <= self.Y.n), w, "inside the tr-string")
        return i64(p.i)

    def model_inputs(self, ex, model):
        g = lambda t, d=0: (lambda r: r.as_long() if z3.is_int_value(r) else d)(model.eval(t, model_completion=True))
        n = g(self.Y.n)
        return dict(n=n, num=g(self.Y.num), repl=g(self.Y.R), limit=g(self.limit) if hasattr(self, "limit") else (1 << 31) - 1,
                    text=[g(self.Y.src(z3.IntVal(i))) % (1 << 8 * self.u) for i in range(min(n, 48))])

    def c_find(self, ex, st, ins, a):
        w, D, Y = "pre(str_find)", ex.dom, self.Y
        p = self.ptr(ex, st, a[0], w)
        cnt = ex.mat(a[1])
        n = D.S(cnt, 64)[0] if not is_c(cnt) else z3.IntVal(cnt)
        ex.oblige(st, z3.And(n >= 0, p + n <= Y.n), w, "range")
        ch = ex.load(st, a[2], __import__("llir").INT(8 * self.u))
        if not is_c(ch) or int(ch) not in (LB, RB):
            raise Unsupported("character searched")
        mode = TEXT if int(ch) == LB else SKIP
        r, e = D.setb(ex.fresh("found", 64), 0, LIM), z3.simplify(p + n)
        none = z3.Bool("none!%d" % next(ex.nfresh))
        k0 = z3.Int("k0")
        ex.solver.add(z3.If(none, z3.And(Y.run(mode, p, e, k0), r == e),
                            z3.And(r >= p, r < e, Y.run(mode, p, r, k0), Y.src(r) == int(ch))), Y.bounds(r))
        self.at(ex, r)
        return self.fork([(none, lambda: Ptr(NULL)), (z3.Not(none), lambda: Ptr(self.sb, r))])

    def fork(self, xs):
        raise Fork(xs)

    def c_uint(self, ex, st, ins, a):
        w, D, Y = "pre(read_uint)", ex.dom, self.Y
        p, e = self.ptr(ex, st, a[0], w), self.ptr(ex, st, a[1], w)
        lim = D.S(ex.mat(a[2]), 64)[0] if not is_c(a[2]) else z3.IntVal(a[2])
        ex.oblige(st, z3.And(e == Y.n, p < e), w, "range")
        ex.oblige(st, Y.digit(Y.src(p)), w, "a digit")
        ex.oblige(st, lim == Y.num, w, "the limit is the number of arguments")
        v, q = D.setb(ex.fresh("value", 64), 0, 1 << 32), D.setb(ex.fresh("after", 64), 0, LIM)
        p1 = z3.simplify(p + 1)
        ex.solver.add(v >= 0, v <= 1 << 32, q > p, q <= e, z3.If(Y.Num(p) < lim, v == Y.Num(p), v >= lim), Y.run(SKIP, p1, q))
        self.at(ex, q)
        return [v, Ptr(self.sb, q)]

    def ref(self, ex, st, k, w):
        """the next reference, to argument k (-1: none)"""
        Y, ev = self.Y, i64(st.ghost["ev"])
        ex.oblige(st, ev < Y.EFIN, w, "there is one more reference")
        ex.oblige(st, i64(st.ghost["hd"]) == 0, w, "the previous error is notified")
        ex.oblige(st, Y.EvArg(ev) == k, w, "the argument that the tr-string refers to")
        return ev

    def put(self, ex, st, n, w, ev):
        Y, S = self.Y, self.stream
        c = st.mem[S.cell.id]
        p, e, g = S.fields(ex, st, w)
        P = S.pos(st, p.i)
        ex.oblige(st, z3.Implies(g, P == Y.EvOut(ev)), w, "printed at its place")
        T.append(S, ex, st, n, lambda k: self.out(z3.simplify(P + k)), w)
        st.ghost["ev"] = z3.simplify(ev + 1)

    def c_print(self, ex, st, ins, a):
        w = "pre(print_to)"
        ok = isinstance(a[0], Ptr) and a[0].o is self.prn and isinstance(a[1], Ptr) and a[1].o is self.stream.cell
        ex.oblige(st, bool(ok), w, "printer and destination")
        k = i64(a[0].i)
        ev = self.ref(ex, st, k, w)
        self.put(ex, st, self.Y.S(k), w, ev)

    def c_repl(self, ex, st, ins, a):
        w = "pre(write_replacement_char)"
        ex.oblige(st, bool(isinstance(a[0], Ptr) and a[0].o is self.stream.cell), w, "destination")
        ev = self.ref(ex, st, -1, w)
        self.put(ex, st, self.Y.R, w, ev)
        st.ghost["hd"] = z3.IntVal(1)

    def c_handle(self, ex, st, ins, a):
        w, D, Y = "pre(handle)", ex.dom, self.Y
        S = lambda x: D.S(ex.mat(x), 64)[0] if not is_c(x) else z3.IntVal(x)
        ex.oblige(st, self.ptr(ex, st, a[0], w) == 0, w, "the tr-string")
        ex.oblige(st, S(a[1]) == Y.n, w, "its length")
        ex.oblige(st, i64(st.ghost["hd"]) == 1, w, "called once for an invalid reference")
        ex.oblige(st, S(a[2]) == Y.EvPos(i64(st.ghost["ev"]) - 1), w, "position of the brace")
        st.ghost["hd"] = z3.IntVal(0)

    def stopped(self, ex, st, w):
        ex.oblige(st, i64(st.ghost["stop"]) == 0, w, "not told to stop")
        b = z3.Bool("stop!%d" % next(ex.nfresh))
        st.ghost["stop"] = z3.If(b, 1, 0)
        return b

    def c_rstr(self, ex, st, ins, a):
        w, Y = "pre(account_string)", self.Y
        p, q = self.ptr(ex, st, a[1], w), self.ptr(ex, st, a[2], w)
        ex.oblige(st, bool(isinstance(a[0], Ptr) and a[0].o is self.rec), w, "premeasurements")
        ex.oblige(st, z3.And(p <= q, i64(st.ghost["ev"]) <= Y.EFIN), w, "range")
        wo, k0 = i64(st.ghost["w"]), z3.Int("k0")
        ex.oblige(st, z3.Implies(z3.And(k0 >= wo, k0 < wo + q - p), Y.Out(k0) == Y.src(p + k0 - wo)), w, "the text that follows")
        st.ghost["w"] = z3.simplify(wo + q - p)
        return self.stopped(ex, st, w)

    def c_rarg(self, ex, st, ins, a):
        w, D, Y = "pre(account_arg)", ex.dom, self.Y
        ex.oblige(st, bool(isinstance(a[0], Ptr) and a[0].o is self.rec), w, "premeasurements")
        k = D.S(ex.mat(a[1]), 64)[0] if not is_c(a[1]) else z3.IntVal(a[1])
        ex.oblige(st, k >= 0, w, "index")
        ev = self.ref(ex, st, z3.If(k < Y.num, k, -1), w)
        ex.oblige(st, Y.EvOut(ev) == i64(st.ghost["w"]), w, "at its place")
        st.ghost["ev"] = z3.simplify(ev + 1)
        st.ghost["w"] = z3.simplify(i64(st.ghost["w"]) + Y.size(k))
        return self.stopped(ex, st, w)

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        Y, D = self.Y, ex.dom
        G = lambda v, x: i64(v[("ghost", x)])
        wd = {k: (t.w if k[0] == "phi" and t is not None and t.k == "int" else 8 * k[3] if k[0] == "cell" else 64) for k, _, t in vs}
        iv = lambda v, x: D.S(ex.mat(v[x]), wd[x])[0] if not is_c(v[x]) else z3.IntVal(v[x])
        src = [q for q, x in hv.items() if isinstance(x, Ptr) and x.o is self.sb]
        for q in src:
            self.at(ex, i64(hv[q].i))
            at = lambda v, q=q: i64(v[q].i)
            nm = "_".join(map(str, q))
            yield "0<=%s<=n" % nm, lambda v, at=at: z3.And(at(v) >= 0, at(v) <= Y.n)
            if isinstance(entry[q], Ptr):
                yield "%s>=on entry" % nm, lambda v, at=at, e=i64(entry[q].i): at(v) >= e
            for m in (TEXT, BRACE, SKIP):
                yield "mode(%s)==%d" % (nm, m), lambda v, at=at, m=m: Y.M(at(v)) == m
            yield "E(%s)==references" % nm, lambda v, at=at: Y.E(at(v)) == G(v, "ev")
            yield "bounds(%s)" % nm, lambda v, at=at: Y.bounds(at(v))
            if self.what == "write":
                pk, gk = ("cell", self.stream.cell.id, 8, 8), ("cell", self.stream.cell.id, 24, 1)
                if pk in hv and gk in hv:
                    yield "good=>O(%s)==pos" % nm, lambda v, at=at: z3.Implies(v[gk] if z3.is_expr(v[gk]) else z3.BoolVal(bool(v[gk])), Y.O(at(v)) == i64(v[pk].i) - G(v, "sh"))
            if self.what.startswith("pre") and self.what != "pre":
                yield "T(%s)==t" % nm, lambda v, at=at: Y.T(at(v)) == G(v, "t")
                yield "tot>=0", lambda v: G(v, "tot") >= 0
            if self.what == "pre":
                yield "O(%s)==w" % nm, lambda v, at=at: Y.O(at(v)) == G(v, "w")
            for x, t in hv.items():
                if x[0] != "ghost" and ((z3.is_expr(t) and z3.is_int(t)) or is_c(t)) and x != q:
                    f = lambda v, x=x: iv(v, x)
                    xn = "_".join(map(str, x))
                    yield "%s==A(%s)" % (xn, nm), lambda v, at=at, f=f: f(v) == Y.A(at(v))
                    yield "%s==min(A(%s),num)" % (xn, nm), lambda v, at=at, f=f: f(v) == z3.If(Y.A(at(v)) < Y.num, Y.A(at(v)), Y.num)
                    if self.what in ("prewidth", "presw"):
                        yield "%s: width" % xn, lambda v, f=f: self.width_ok(f(v), G(v, "tot"))
                    if self.what in ("size", "presize", "presw"):
                        yield "%s==O(%s)" % (xn, nm), lambda v, at=at, f=f: f(v) == Y.O(at(v))
        yield "notified", lambda v: G(v, "hd") == 0
        if self.what == "pre":
            yield "not stopped", lambda v: G(v, "stop") == 0
        if self.what == "write":
            yield from self.stream.cands(ex, st, hv, entry, fr)

    def head_axioms(self, ex, st, fr, hv):
        return []

    def on_return(self, ex, st, ret):
        Y, w = self.Y, "post(%s)" % self.what
        ob = lambda c, m: ex.oblige(st, c, w, m)
        if self.what == "size":
            return ob(ex.dom.S(ex.mat(ret), 64)[0] == Y.LEN, "the size of the output")
        done = i64(st.ghost["ev"]) == Y.EFIN
        if self.what in ("presize", "presw"):
            ob(ex.dom.S(ex.mat(ret[0] if self.what == "presw" else ret), 64)[0] == Y.LEN, "the size of the output")
        if self.what in ("prewidth", "presw"):
            v = ex.dom.S(ex.mat(ret[1]), 64)[0] if self.what == "presw" else ex.dom.S(ex.mat(ret), 32)[0]
            ob(self.width_ok(v, i64(st.ghost["tot"])), "the width of the pieces and arguments, or the limit or more")
        if self.what.startswith("pre") and self.what != "pre":
            done = z3.And(done, i64(st.ghost["t"]) == Y.T(Y.n))
            return ob(z3.Or(done, v >= self.limit) if self.what == "prewidth" else done, "all pieces and arguments are accounted")
        if self.what == "pre":
            return ob(z3.Or(i64(st.ghost["stop"]) == 1, z3.And(done, i64(st.ghost["w"]) == Y.LEN)), "all pieces and arguments are accounted")
        ob(done, "all references are printed")
        ob(i64(st.ghost["hd"]) == 0, "errors are notified")
        self.stream.final(ex, st)


def ruint(u):
    """read_uint: V(j): value of the digits before position j"""
    def args(ex, st, sp):
        D, add = ex.dom, ex.solver.add
        n, lim = sp.var(ex, "n", 64), sp.var(ex, "lim", 64)
        add(n >= 1, n <= LIM, lim >= 0, lim <= 1 << 30)
        D.setb(n, 0, LIM)
        D.setb(lim, 0, 1 << 30)
        sp.sb = ex.new_buf(st, "digits", u, n, ro=True)
        sp.c = lambda i: D.U(ex.buf_read(st, sp.sb, i), 8 * u)[0]
        sp.V = z3.Function("V", z3.IntSort(), z3.IntSort())
        sp.e = D.setb(z3.Int("run_end"), 1, LIM)
        dg = lambda i: z3.And(sp.c(i) >= 48, sp.c(i) <= 57)
        sp.dg = dg
        add(sp.V(0) == 0, dg(z3.IntVal(0)), sp.e >= 1, sp.e <= n, z3.Implies(sp.e < n, z3.Not(dg(sp.e))))
        sp.seen = {}

        def at(i):
            i = z3.simplify(i64(i))
            if i.get_id() in sp.seen:
                return
            sp.seen[i.get_id()] = i
            j = z3.simplify(i + 1)
            # inside the run: digits; the value so far, which does not exceed the final one
            add(z3.Implies(z3.And(i >= 0, i < sp.e), z3.And(dg(i), sp.V(j) == 10 * sp.V(i) + sp.c(i) - 48, sp.V(i) >= 0, sp.V(j) <= sp.V(sp.e), sp.V(j) >= 0)))
        sp.at = at
        at(0)
        sp.sb.onread = lambda ex, st, i: at(i)
        return [Ptr(sp.sb, 0), Ptr(sp.sb, n), lim]

    def cands(ex, st, fr, hdr, vs, entry, hv, sp):
        for q, x in hv.items():
            if isinstance(x, Ptr) and x.o is sp.sb:
                sp.at(x.i)
                at = lambda v, q=q: i64(v[q].i)
                yield "1<=it<=end", lambda v, at=at: z3.And(at(v) >= 1, at(v) <= sp.e)
                for y, t in hv.items():
                    if y[0] != "ghost" and ((z3.is_expr(t) and z3.is_int(t)) or is_c(t)) and y != q:
                        f = lambda v, y=y: ex.dom.S(ex.mat(v[y]), 64)[0]
                        yield "value==V(it)", lambda v, at=at, f=f: f(v) == sp.V(at(v))
                        yield "value small", lambda v, f=f: z3.And(f(v) >= 0, z3.Or(f(v) <= 9, f(v) < sp.vars["lim"]))

    def post(ex, st, r, sp):
        ob = lambda c, m: ex.oblige(st, c, "post(read_uint)", m)
        v, p = r
        v = ex.dom.S(ex.mat(v), 64)[0]
        ok = isinstance(p, Ptr) and p.o is sp.sb and p.b == 0
        ob(bool(ok), "pointer")
        if ok:
            N = sp.V(sp.e)
            ob(z3.And(i64(p.i) >= 1, i64(p.i) <= sp.e), "after some of the digits")
            ob(z3.If(N < sp.vars["lim"], v == N, v >= sp.vars["lim"]), "the number, or the limit or more")
            ob(v >= 0, "not negative")
    return FnSpec(args, post, cands=cands)


def find(u):
    """str_find: the first occurrence; k0: any position"""
    def args(ex, st, sp):
        D, add = ex.dom, ex.solver.add
        n = sp.var(ex, "n", 64)
        add(n >= 0, n <= LIM)
        D.setb(n, 0, LIM)
        sp.sb = ex.new_buf(st, "string", u, n, ro=True)
        sp.c = lambda i: D.U(ex.buf_read(st, sp.sb, i), 8 * u)[0]
        ch = sp.var(ex, "ch", 8 * u)
        sp.k0 = D.setb(z3.Int("k0"), 0, LIM)
        add(sp.k0 >= 0, sp.k0 <= LIM)
        sp.ch = D.U(ch, 8 * u)[0]

        def memchr(ex, st, ins, a):
            w = "pre(memchr)"
            p = a[0]
            ex.oblige(st, bool(isinstance(p, Ptr) and p.o is sp.sb and p.b == 0), w, "pointer")
            i, m = i64(p.i), D.S(ex.mat(a[2]), 64)[0] if not is_c(a[2]) else z3.IntVal(a[2])
            ex.oblige(st, z3.And(i >= 0, m >= 0, i + m <= n), w, "range")
            c = D.U(ex.mat(a[1]), 32)[0] if not is_c(a[1]) else z3.IntVal(a[1])
            if u == 1:
                c = c % 256
            r, none = D.setb(ex.fresh("found", 64), 0, LIM), z3.Bool("none!%d" % next(ex.nfresh))
            clear = lambda e: z3.Implies(z3.And(sp.k0 >= i, sp.k0 < e), sp.c(sp.k0) != c)
            add(z3.If(none, clear(i + m), z3.And(r >= i, r < i + m, sp.c(r) == c, clear(r))))
            raise Fork([(none, lambda: Ptr(NULL)), (z3.Not(none), lambda: Ptr(sp.sb, r))])
        ex.contracts["memchr"] = ex.contracts["wmemchr"] = memchr
        return [Ptr(sp.sb, 0), n, ch]

    def cands(ex, st, fr, hdr, vs, entry, hv, sp):
        n = sp.vars["n"]
        for q, x in hv.items():
            if z3.is_expr(x) and z3.is_int(x):
                f = lambda v, q=q: ex.dom.S(ex.mat(v[q]), 64)[0] if not is_c(v[q]) else z3.IntVal(v[q])
                yield "index", lambda v, f=f: z3.And(f(v) >= 0, f(v) <= n)
                yield "not found", lambda v, f=f: z3.Implies(sp.k0 < f(v), sp.c(sp.k0) != sp.ch)
                for y, z in hv.items():
                    if isinstance(z, Ptr) and z.o is sp.sb:
                        yield "pointer at index", lambda v, f=f, y=y: i64(v[y].i) == f(v)
                        yield "pointer + index", lambda v, f=f, y=y: i64(v[y].i) + f(v) == n
            if isinstance(x, Ptr) and x.o is sp.sb:
                yield "pointer", lambda v, q=q: z3.And(i64(v[q].i) >= 0, i64(v[q].i) <= n)
                yield "not found before", lambda v, q=q: z3.Implies(sp.k0 < i64(v[q].i), sp.c(sp.k0) != sp.ch)

    def post(ex, st, r, sp):
        ob = lambda c, m: ex.oblige(st, c, "post(str_find)", m)
        if isinstance(r, Ptr) and r.o is NULL:
            return ob(z3.Implies(sp.k0 < sp.vars["n"], sp.c(sp.k0) != sp.ch), "null: no occurrence")
        ok = isinstance(r, Ptr) and r.o is sp.sb and r.b == 0
        ob(bool(ok), "pointer")
        if ok:
            i = i64(r.i)
            ob(z3.And(i >= 0, i < sp.vars["n"]), "in the string")
            ob(sp.c(i) == sp.ch, "the character searched")
            ob(z3.Implies(sp.k0 < i, sp.c(sp.k0) != sp.ch), "the first")
    return FnSpec(args, post, cands=cands)


def units(tier):
    us = []
    for c, C, u in TYPES:
        fns = ["f_find", "f_ruint", "f_write", "f_size", "f_pre", "f_presize", "f_prewidth", "f_presw"]
        ts = [Task("str_find<%s>" % C, "f_find", lambda u=u: find(u), "lin"),
              Task("read_uint<%s>" % C, "f_ruint", lambda u=u: ruint(u), "lin"),
              Task("tr_string_write<%s>" % C, "f_write", lambda u=u: Tr("write", u), "lin"),
              Task("tr_string_size<%s>" % C, "f_size", lambda u=u: Tr("size", u), "lin"),
              Task("tr_do_premeasurements<%s>" % C, "f_pre", lambda u=u: Tr("pre", u), "lin"),
              Task("tr_pre_size<%s>" % C, "f_presize", lambda u=u: Tr("presize", u), "lin"),
              Task("tr_pre_width<%s>" % C, "f_prewidth", lambda u=u: Tr("prewidth", u), "lin"),
              Task("tr_pre_size_and_width<%s>" % C, "f_presw", lambda u=u: Tr("presw", u), "lin")]
        for t in ts:
            t.native = ("trstr.cpp|-DCT=" + C, [])
        us.append(Unit("tr_" + c, HEAD.replace("%(C)s", C), fns, ts, noinline=NOINLINE))
    return us


def extra(tier):
    n, num, r = z3.Ints("n num r")
    src = z3.Function("SRC", z3.IntSort(), z3.IntSort())
    Y = Syntax(n, num, r, src)
    tot, bad = 0, []
    for nm, pre, post in Y.lemmas():
        s = z3.Solver()
        s.add(*pre)
        s.add(z3.Not(post))
        tot += 1
        if s.check() != z3.unsat:
            bad.append(nm)
    return dict(obligations=tot, discharged=tot - len(bad), coverage={"lemmas on tr-string scans": tot}, violations=[dict(property="C15", function="lemma " + b, input=None, summary="lemma not proved") for b in bad])


def replay_args(task, m):
    return ["--replay", str(m["num"]), str(m["repl"]), str(m["limit"])] + [str(c) for c in m["text"]] if "text" in m else None


TRUST = ["memchr and wmemchr (called by std::char_traits::find) find the first occurrence, if any",
         "contract of the arguments' printers, of the charset's write_replacement_char and of str_width (documented interface)",
         "contract of destination's virtual functions (documented interface)"]
ASSUME = ["tr-string of at most 2^48 units, at most 2^30 arguments, total size at most 2^60"]
LEVEL = "proof"
