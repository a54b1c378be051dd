"""C08: buffered destinations (strings, C files, streambufs) deliver everything exactly once, in order"""
import z3
from spec_utf import I64
from exec import Ptr, UNDEF, NULL, Obj, BaseSpec, BufMem, PDiff, PInt, simp, PathEnd, Unsupported
from dom import is_c
from driver import Task, Unit
from props.c07 import HEAD as HIST, HistSpec

PRE = '''
#include <string>
#include <streambuf>
extern "C" { void vf_s_append(void*, const void*, unsigned long); void vf_s_appendr(void*, const void*, const void*); void vf_s_ctor(void*); void vf_s_ctor2(void*, const void*, unsigned long);
 void vf_s_move(void*, void*); void vf_s_dtor(void*); void vf_s_fill(void*, unsigned long, unsigned); void vf_s_ctorfill(void*, unsigned long, unsigned); void* vf_s_data(const void*); unsigned long vf_s_size(const void*);
 void vf_s_resize(void*, unsigned long); void vf_s_reserve(void*, unsigned long); long vf_sputn(void*, const void*, long);
 void vf_begin(void*); void vf_fin(long, bool); void vf_sfin(void*); void vf_end(bool); }
struct VfT { typedef int int_type; };
namespace std {
// contract-only string: every member is known to the verifier by its contract
template <class C, class A> class basic_string<C, VfT, A> { long h[4];
 public:
  typedef C* iterator; typedef const C* const_iterator; typedef unsigned long size_type; typedef C value_type; typedef A allocator_type;
  basic_string() { vf_s_ctor(this); }
  basic_string(const C* p, size_type n) { vf_s_ctor2(this, p, n); }
  basic_string(size_type n, C c) { vf_s_ctorfill(this, n, (unsigned)c); }
  basic_string(basic_string&& o) noexcept { vf_s_move(this, &o); }
  basic_string(const basic_string&) = delete;
  ~basic_string() { vf_s_dtor(this); }
  basic_string& append(const C* p, size_type n) { vf_s_append(this, p, n); return *this; }
  basic_string& append(const C* p, const C* e) { vf_s_appendr(this, p, e); return *this; }
  basic_string& append(size_type n, C c) { vf_s_fill(this, n, (unsigned)c); return *this; }
  C* data() { return (C*)vf_s_data(this); } const C* data() const { return (const C*)vf_s_data(this); }
  C* begin() { return (C*)vf_s_data(this); } const C* begin() const { return (const C*)vf_s_data(this); }
  C* end() { return (C*)vf_s_data(this) + vf_s_size(this); }
  C& operator[](size_type i) { return data()[i]; }
  size_type size() const { return vf_s_size(this); } size_type length() const { return vf_s_size(this); } bool empty() const { return size() == 0; }
  void resize(size_type n) { vf_s_resize(this, n); } void resize(size_type n, C) { vf_s_resize(this, n); }
  void reserve(size_type n) { vf_s_reserve(this, n); }
  void clear() { vf_s_resize(this, 0); }
};
template <class C> class basic_streambuf<C, VfT> { long h[8]; public: long sputn(const C* p, long n) { return vf_sputn(this, p, n); } };
}
#include <strf/to_string.hpp>
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
'''
SRC = '''
using str_%(n)s = std::basic_string<%(C)s, VfT, std::allocator<%(C)s>>;
using sb_%(n)s = std::basic_streambuf<%(C)s, VfT>;
extern "C" void f_append_%(n)s(str_%(n)s& s) { basic_string_appender<%(C)s, VfT> d(s); vf_begin(&d); history<%(C)s>(d); d.finish(); vf_fin(-1, true); vf_end(d.good()); }
extern "C" void f_append2_%(n)s(str_%(n)s& s, unsigned long n) { { basic_string_appender<%(C)s, VfT> d(s, n); vf_begin(&d); history<%(C)s>(d); } vf_end(false); }
extern "C" void f_maker_%(n)s() { { basic_string_maker<%(C)s, VfT> d; vf_begin(&d); history<%(C)s>(d); { str_%(n)s r = d.finish(); vf_sfin(&r); } } vf_end(false); }
extern "C" void f_maker2_%(n)s() { { basic_string_maker<%(C)s, VfT> d; vf_begin(&d); history<%(C)s>(d); } vf_end(false); }
extern "C" void f_sized_%(n)s(unsigned long n) { { basic_sized_string_maker<%(C)s, VfT> d(n); vf_begin(&d); history<%(C)s>(d); { str_%(n)s r = d.finish(); vf_sfin(&r); } } vf_end(false); }
extern "C" void f_cfile_%(n)s(FILE* f) { { narrow_cfile_writer<%(C)s, %(B)d> d(f); vf_begin(&d); history<%(C)s>(d); auto r = d.finish(); vf_fin((long)r.count, r.success); } vf_end(false); }
extern "C" void f_cfile2_%(n)s(FILE* f) { { narrow_cfile_writer<%(C)s, %(B)d> d(f); vf_begin(&d); history<%(C)s>(d); } vf_end(false); }
extern "C" void f_sbuf_%(n)s(sb_%(n)s& b) { { basic_streambuf_writer<%(C)s, VfT> d(b); vf_begin(&d); history<%(C)s>(d); auto r = d.finish(); vf_fin(r.count, r.success); } vf_end(false); }
extern "C" void f_sbuf2_%(n)s(sb_%(n)s& b) { { basic_streambuf_writer<%(C)s, VfT> d(&b); vf_begin(&d); history<%(C)s>(d); } vf_end(false); }
'''
WIDE = '''
extern "C" void f_wcfile_w(FILE* f) { { wide_cfile_writer d(f); vf_begin(&d); history<wchar_t>(d); auto r = d.finish(); vf_fin((long)r.count, r.success); } vf_end(false); }
extern "C" void f_wcfile2_w(FILE* f) { { wide_cfile_writer d(f); vf_begin(&d); history<wchar_t>(d); } vf_end(false); }
'''
i64 = lambda x: I64(x) if is_c(x) else x
tob = lambda x: x if z3.is_expr(x) and z3.is_bool(x) else (z3.BoolVal(bool(x)) if is_c(x) else x != 0)
BIG = 1 << 60


class SinkSpec(BaseSpec):
    """ghost: W units passed by the client, DL units handed to the sink, ok: no write failed so far"""
    sub_arrays = 16

    def __init__(self, fn, unit):
        self.fn, self.u = fn, unit
        self.isstr = fn in ("append", "append2", "maker", "maker2", "sized")
        self.dobj = None

    def setup(self, ex, st, fname):
        self.k0 = z3.Int("k0")
        ex.solver.add(self.k0 >= 0)
        self.S = z3.Function("Stream", z3.IntSort(), z3.BitVecSort(8 * self.u))
        st.ghost.update(W=0, DL=0, ok=z3.BoolVal(True), alive=z3.BoolVal(False), fin=z3.BoolVal(False), ralive=z3.BoolVal(False))
        for f in ("more", "op", "len", "count", "fill", "data", "char", "recycle", "need", "ensure", "check", "begin", "fin", "sfin", "end", "sputn",
                  "s_append", "s_appendr", "s_ctor", "s_ctor2", "s_move", "s_dtor", "s_fill", "s_ctorfill", "s_data", "s_size", "s_resize", "s_reserve"):
            ex.contracts["vf_" + f] = getattr(self, "c_" + f)
        ex.contracts["fwrite"] = self.c_fwrite
        ex.contracts["fputwc"] = self.c_fputwc
        a = []
        if self.fn in ("append", "append2"):
            self.ext = Ptr(ex.new_cell(st, "string", 32))
            a = [self.ext] + ([ex.fresh("n", 64)] if self.fn == "append2" else [])
        elif self.fn == "sized":
            n = z3.Int("size")
            ex.solver.add(n >= 0, n <= BIG)
            ex.dom.setb(n, 0, BIG)
            a = [n]
            self.so = Obj("string-storage", "buf", self.u, None)
            self.so.stream = self
            st.objs[self.so.id] = self.so
            st.ghost.update(wlo=0, whi=0, sh=0, kv=z3.BitVec("kv0", 8 * self.u), gsize=0)
        elif "cfile" in self.fn or "sbuf" in self.fn:
            self.ext = Ptr(ex.new_cell(st, "file", 256))
            a = [self.ext]
        ex.start(st, fname, a)

    g = HistSpec.g
    c_more, c_op, c_len, c_need, c_count = HistSpec.c_more, HistSpec.c_op, HistSpec.c_len, HistSpec.c_need, HistSpec.c_count

    # ---------------------------------------------------------------- client side
    def grow(self, ex, st, n):
        W = z3.simplify(self.g(st, "W") + n)
        st.ghost["W"] = W
        ex.solver.add(W <= BIG)      # the whole output fits in the address space

    def c_data(self, ex, st, ins, a):
        b = ex.new_buf(st, "data", self.u, a[0], ro=True)
        W = self.g(st, "W")
        S = self.S

        class Base:
            def read(s, i):
                return S(z3.simplify(W + i64(i)))
        st.mem[b.id] = BufMem(Base())
        self.grow(ex, st, i64(a[0]))
        return Ptr(b, 0)

    def c_fill(self, ex, st, ins, a):
        p, m = a
        ok = isinstance(p, Ptr) and p.o.kind == "buf" and p.o.unit == self.u and p.b == 0
        ex.oblige(st, ok, "buffer-valid", "buffer_ptr() is in the buffer")
        ex.oblige(st, ex.bnd_range(st, p.o, p.i, m), "buffer-valid", "[buffer_ptr(), buffer_ptr()+buffer_sspace()) is writable")
        W = self.g(st, "W")
        ex.buf_write_range(st, p.o, p.i, m, lambda rel, W=W: self.S(z3.simplify(W + i64(rel))))
        self.grow(ex, st, i64(m))
        return None

    def c_char(self, ex, st, ins, a):
        W = self.g(st, "W")
        c = self.S(W)
        self.grow(ex, st, 1)
        return z3.ZeroExt(32 - 8 * self.u, c) if self.u < 4 else c

    def c_recycle(self, ex, st, ins, a):
        return None

    c_ensure = c_recycle

    def c_begin(self, ex, st, ins, a):
        self.dobj = a[0].o
        return None

    def c_check(self, ex, st, ins, a):
        gd, p, e, rec = a
        gd = tob(gd)
        ob = lambda c, m: ex.oblige(st, c, "class-invariant", m)
        ob(gd == st.ghost["ok"], "good() is false exactly after a failed write")
        ok = all(isinstance(x, Ptr) and x.o.kind == "buf" and x.o.unit == self.u and x.b == 0 for x in (p, e)) and p.o is e.o
        ob(ok, "buffer pointers valid")
        P, E = i64(p.i), i64(e.i)
        ob(ex.bnd_range(st, p.o, p.i, z3.simplify(E - P)), "[buffer_ptr, buffer_end) lies in the buffer")
        if self.fn == "sized":
            ob(P - self.g(st, "sh") == self.g(st, "W"), "buffer_ptr is the end of the output so far")
            ob(E - self.g(st, "sh") <= self.g(st, "gsize"), "buffer_end is not behind the end of the string")
        ob(z3.Implies(tob(rec), E - P >= 64), "recycle leaves at least 64 units of space")
        return None

    # ---------------------------------------------------------------- sink side
    def deliver(self, ex, st, p, n, w, mayfail):
        """n units from p go to the sink"""
        ob = lambda c, m: ex.oblige(st, c, w, m)
        ob(z3.And(st.ghost["ok"], z3.Not(st.ghost["fin"])), "nothing is written after a failed write or after finish()")
        N = i64(ex.mat(n))
        ob(N >= 0, "count is not negative")
        if isinstance(p, Ptr) and p.o.kind == "buf" and p.b == 0 and p.o.unit == self.u:
            ob(ex.bnd_range(st, p.o, p.i, N), "source range readable")
            DL, W = self.g(st, "DL"), self.g(st, "W")
            ob(DL + N <= W, "not more than the output so far")
            rel = z3.simplify(self.k0 - DL)
            v = ex.buf_read(st, p.o, z3.simplify(i64(p.i) + rel))
            ob(z3.Implies(z3.And(rel >= 0, rel < N), v == self.S(self.k0)), "exactly the next units of the output")
        else:
            ob(N == 0, "data pointer")
        ex.flush(st)
        c = N
        if mayfail:
            c = ex.fresh("written", 64)
            ex.solver.add(c >= 0, c <= N)
            ex.dom.setb(c, 0, BIG)
            st.ghost["ok"] = z3.simplify(z3.And(st.ghost["ok"], c == N))
        st.ghost["DL"] = z3.simplify(self.g(st, "DL") + c)
        return c

    def c_fwrite(self, ex, st, ins, a):
        w = "pre(fwrite)"
        ex.oblige(st, isinstance(a[3], Ptr) and a[3].o is self.ext.o, w, "the file")
        ex.oblige(st, simp(i64(ex.mat(a[1])) == self.u), w, "element size")
        return self.deliver(ex, st, a[0], a[2], w, True)

    def c_fputwc(self, ex, st, ins, a):
        w = "pre(fputwc)"
        ex.oblige(st, isinstance(a[1], Ptr) and a[1].o is self.ext.o, w, "the file")
        ob = lambda c, m: ex.oblige(st, c, w, m)
        ob(z3.And(st.ghost["ok"], z3.Not(st.ghost["fin"])), "nothing is written after a failed write or after finish()")
        DL = self.g(st, "DL")
        ob(DL < self.g(st, "W"), "not more than the output so far")
        ob(z3.Implies(self.k0 == DL, ex.dom.lift(a[0], 32) == self.S(self.k0)), "exactly the next unit of the output")
        ex.flush(st)
        f = z3.Bool("fail!%d" % next(ex.nfresh))
        r = ex.fresh("fputwc", 32)
        ex.solver.add(f == (r == z3.BitVecVal(0xFFFFFFFF, 32)))
        st.ghost["ok"] = z3.simplify(z3.And(st.ghost["ok"], z3.Not(f)))
        st.ghost["DL"] = z3.simplify(z3.If(f, DL, DL + 1))
        return r

    def c_sputn(self, ex, st, ins, a):
        ex.oblige(st, isinstance(a[0], Ptr) and a[0].o is self.ext.o, "pre(sputn)", "the streambuf")
        return self.deliver(ex, st, a[1], a[2], "pre(sputn)", True)

    # strings: the member string of the maker ("alive"), the result ("ralive"), or the user's string
    def role(self, p):
        if self.fn in ("append", "append2"):
            return "user" if p.o is self.ext.o else "other"
        if self.dobj is None or p.o is self.dobj or any(p.o is s[2] for s in self.dobj.subs):
            return "member"
        return "result"

    def need(self, ex, st, p, w):
        r = self.role(p)
        ex.oblige(st, r != "other", w, "the user's string")
        if r == "member":
            ex.oblige(st, st.ghost["alive"], w, "the string object is alive")
        if r == "result":
            ex.oblige(st, st.ghost["ralive"], w, "the string object is alive")
        return r

    def born(self, ex, st, p, w):
        k = {"member": "alive", "result": "ralive"}.get(self.role(p))
        ex.oblige(st, k is not None, w, "which string")
        ex.oblige(st, z3.Not(st.ghost[k]), w, "constructed once")
        st.ghost[k] = z3.BoolVal(True)
        return k

    def c_s_append(self, ex, st, ins, a):
        r = self.need(ex, st, a[0], "pre(string::append)")
        if r == "result" or self.fn == "sized":
            raise Unsupported("append to the result")
        self.deliver(ex, st, a[1], a[2], "pre(string::append)", False)
        return None

    def c_s_appendr(self, ex, st, ins, a):
        p, e = a[1], a[2]
        w = "pre(string::append)"
        ex.oblige(st, isinstance(p, Ptr) and isinstance(e, Ptr) and p.o is e.o, w, "one range")
        return self.c_s_append(ex, st, ins, [a[0], p, z3.simplify(i64(e.i) - i64(p.i))])

    def c_s_ctor(self, ex, st, ins, a):
        k = self.born(ex, st, a[0], "pre(string())")
        if k == "alive":
            ex.oblige(st, self.g(st, "DL") == 0, "pre(string())", "nothing is lost")
        else:
            st.ghost["rlen"] = 0
        return None

    def c_s_ctor2(self, ex, st, ins, a):
        w = "pre(string(ptr,count))"
        k = self.born(ex, st, a[0], w)
        ex.oblige(st, self.g(st, "DL") == 0, w, "nothing is lost")
        self.deliver(ex, st, a[1], a[2], w, False)
        if k == "ralive":
            st.ghost["rlen"] = st.ghost["DL"]
        return None

    def c_s_move(self, ex, st, ins, a):
        w = "pre(string(string&&))"
        self.need(ex, st, a[1], w)
        self.born(ex, st, a[0], w)
        st.ghost["rlen"] = st.ghost["gsize"] if self.fn == "sized" else st.ghost["DL"]
        return None

    def c_s_dtor(self, ex, st, ins, a):
        r = self.need(ex, st, a[0], "pre(~string)")
        if r == "user":
            ex.oblige(st, False, "pre(~string)", "the user's string is not destroyed")
        st.ghost["alive" if r == "member" else "ralive"] = z3.BoolVal(False)
        return None

    def c_s_reserve(self, ex, st, ins, a):
        self.need(ex, st, a[0], "pre(string::reserve)")
        if self.fn == "sized":
            self.realloc(ex, st)
        return None

    # -- the sized maker writes directly into the string
    def realloc(self, ex, st):
        lo = ex.fresh("mem", 64)
        ex.solver.add(lo > self.g(st, "whi"), lo <= 1 << 61)
        ex.dom.setb(lo, -(1 << 61), 1 << 61)
        hi = z3.simplify(lo + self.g(st, "gsize"))
        ex.dom.setb(hi, -(1 << 61), 1 << 62)
        st.ghost.update(wlo=lo, whi=hi, sh=lo)

    def c_s_ctorfill(self, ex, st, ins, a):
        w = "pre(string(count,ch))"
        if self.fn != "sized":
            raise Unsupported("string(count, ch)")
        st.ghost["alive"] = z3.BoolVal(True)
        st.ghost["gsize"] = i64(ex.mat(a[1]))
        self.realloc(ex, st)
        return None

    def c_s_fill(self, ex, st, ins, a):
        self.need(ex, st, a[0], "pre(string::append)")
        if self.fn != "sized":
            raise Unsupported("append(count, ch)")
        n = i64(ex.mat(a[1]))
        ex.oblige(st, n >= 0, "pre(string::append)", "count")
        ex.flush(st)
        old = self.g(st, "gsize")
        ex.solver.add(n <= BIG, old + n <= 2 * BIG)      # memory is finite
        st.ghost["gsize"] = z3.simplify(old + n)
        ch = ex.dom.lift(a[2], 32)
        ch = z3.Extract(8 * self.u - 1, 0, ch) if self.u < 4 else ch
        st.ghost["kv"] = z3.simplify(z3.If(z3.And(self.k0 >= old, self.k0 < old + n), ch, st.ghost["kv"]))
        self.realloc(ex, st)
        return None

    def c_s_data(self, ex, st, ins, a):
        if self.fn != "sized":
            raise Unsupported("string::data")
        self.need(ex, st, a[0], "pre(string::data)")
        return Ptr(self.so, st.ghost["wlo"])

    def c_s_size(self, ex, st, ins, a):
        self.need(ex, st, a[0], "pre(string::size)")
        if self.fn != "sized":
            raise Unsupported("string::size")
        return st.ghost["gsize"]

    def c_s_resize(self, ex, st, ins, a):
        w = "pre(string::resize)"
        self.need(ex, st, a[0], w)
        if self.fn != "sized":
            raise Unsupported("string::resize")
        n = i64(ex.mat(a[1]))
        ex.oblige(st, n >= 0, w, "size")
        old = self.g(st, "gsize")
        z = z3.BitVecVal(0, 8 * self.u)
        st.ghost["kv"] = z3.simplify(z3.If(self.k0 >= old, z, st.ghost["kv"]))
        st.ghost["gsize"] = n
        self.realloc(ex, st)
        return None

    # stream-style memory of the string's storage
    def pos(self, st, i):
        return z3.simplify(i64(i) - self.g(st, "sh"))

    def write(self, ex, st, o, i, v):
        v = ex.dom.lift(v, 8 * self.u)
        st.ghost["kv"] = z3.simplify(z3.If(self.pos(st, i) == self.k0, v, st.ghost["kv"]))

    def write_range(self, ex, st, o, i, n, fn):
        rel = z3.simplify(self.k0 - self.pos(st, i))
        hit = z3.simplify(z3.And(rel >= 0, rel < i64(n)))
        if not z3.is_false(hit):
            st.ghost["kv"] = z3.simplify(z3.If(hit, ex.dom.lift(fn(rel), 8 * self.u), st.ghost["kv"]))

    # ---------------------------------------------------------------- results
    def c_fin(self, ex, st, ins, a):
        w = "post(finish)"
        st.ghost["fin"] = z3.BoolVal(True)
        if not self.isstr:
            ex.oblige(st, i64(ex.mat(a[0])) == self.g(st, "DL"), w, "count is the number of units written")
            ex.oblige(st, tob(a[1]) == st.ghost["ok"], w, "success iff every write succeeded")
        ex.oblige(st, z3.Implies(st.ghost["ok"], self.g(st, "DL") == self.g(st, "W")), w, "everything was delivered")
        return None

    def c_sfin(self, ex, st, ins, a):
        w = "post(finish)"
        ex.oblige(st, self.role(a[0]) == "result", w, "result object")
        ex.oblige(st, st.ghost["ralive"], w, "result constructed")
        ex.oblige(st, i64(st.ghost.get("rlen", -1)) == self.g(st, "W"), w, "the string has exactly the length of the output")
        if self.fn == "sized":
            ex.oblige(st, z3.Implies(self.k0 < self.g(st, "W"), st.ghost["kv"] == self.S(self.k0)), w, "the string is the output")
        st.ghost["fin"] = z3.BoolVal(True)
        return None

    def c_end(self, ex, st, ins, a):
        w = "post(destructor)"
        st.ghost["done"] = z3.BoolVal(True)
        ex.oblige(st, z3.Not(st.ghost["alive"]), w, "no string object is leaked")
        if self.fn != "maker2":
            ex.oblige(st, z3.Implies(st.ghost["ok"], self.g(st, "DL") == self.g(st, "W")) if self.fn != "sized" else z3.BoolVal(True), w,
                      "everything was delivered")
        return None

    def on_return(self, ex, st, ret):
        ex.oblige(st, "done" in st.ghost, "post(destructor)", "end was reached")

    def unroll(self, ex, st, fname, hdr):
        return None

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        S, k0 = self.S, self.k0
        gh = lambda v, n: i64(v[("ghost", n)])
        okf = lambda v: tob(v[("ghost", "ok")])
        bools = [k for k, v in hv.items() if k[0] != "ghost" and z3.is_expr(v) and (z3.is_bool(v) or (z3.is_bv(v) and v.size() == 8))]
        ints = [k for k, v in hv.items() if k[0] != "ghost" and (isinstance(v, PDiff) or (z3.is_expr(v) and z3.is_int(v)))]
        ptrs = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o.kind == "buf" and v.o.unit == self.u]
        nm = lambda k: "_".join(map(str, k[1:]))
        gb = lambda v, n: tob(v[("ghost", n)])
        yield ("DL>=0", lambda v: gh(v, "DL") >= 0)
        yield ("W>=0", lambda v: gh(v, "W") >= 0)
        yield ("DL<=W", lambda v: gh(v, "DL") <= gh(v, "W"))
        if ("ghost", "ok") in hv:
            yield ("ok", okf)
        yield ("not fin", lambda v: z3.Not(gb(v, "fin")))
        yield ("not ralive", lambda v: z3.Not(gb(v, "ralive")))
        yield ("alive", lambda v: gb(v, "alive"))
        yield ("not alive", lambda v: z3.Not(gb(v, "alive")))
        yield ("not alive => DL==0", lambda v: z3.Implies(z3.Not(gb(v, "alive")), gh(v, "DL") == 0))
        for k in bools:
            yield ("%s==ok" % nm(k), lambda v, k=k: tob(v[k]) == okf(v))
            yield ("%s==alive" % nm(k), lambda v, k=k: tob(v[k]) == gb(v, "alive"))
            yield (nm(k), lambda v, k=k: tob(v[k]))
            yield ("not " + nm(k), lambda v, k=k: z3.Not(tob(v[k])))
            if z3.is_bv(hv[k]):
                yield ("%s is a bool" % nm(k), lambda v, k=k: z3.BoolVal(v[k] in (0, 1)) if is_c(v[k]) else z3.ULE(v[k], 1))
        iv = lambda v, k: i64(v[k].i) if isinstance(v[k], PDiff) else i64(v[k])
        for k in ints:
            yield ("%s==DL" % nm(k), lambda v, k=k: iv(v, k) == gh(v, "DL"))
            yield ("%s==DL-entry" % nm(k), lambda v, k=k: iv(v, k) - iv(entry, k) == gh(v, "DL") - gh(entry, "DL"))
            yield ("%s>=0" % nm(k), lambda v, k=k: iv(v, k) >= 0)
            for n, f in fr.env.items():
                if z3.is_expr(f) and z3.is_int(f) and ("phi", n) not in hv:
                    yield ("%s<=%%%s" % (nm(k), n), lambda v, k=k, f=f: iv(v, k) <= f)
            for k2 in ints:
                if k2 < k:
                    yield ("%s+%s==entry" % (nm(k), nm(k2)), lambda v, k=k, k2=k2: iv(v, k) + iv(v, k2) == iv(entry, k) + iv(entry, k2))
        for k in ptrs:
            ix = lambda v, k=k: i64(v[k].i)
            for x in ints:
                yield ("%s+%s==entry" % (nm(k), nm(x)), lambda v, k=k, x=x: ix(v, k) - i64(entry[k].i) == iv(entry, x) - iv(v, x))
                yield ("%s-%s==entry" % (nm(k), nm(x)), lambda v, k=k, x=x: ix(v, k) - i64(entry[k].i) == iv(v, x) - iv(entry, x))
            if hv[k].o.stream is self:
                yield ("pos(%s)==W" % nm(k), lambda v, k=k: ix(v, k) - gh(v, "sh") == gh(v, "W"))
                yield ("pos(%s)==size" % nm(k), lambda v, k=k: ix(v, k) - gh(v, "sh") == gh(v, "gsize"))
                yield ("0<=pos(%s)<=size" % nm(k), lambda v, k=k: z3.And(ix(v, k) - gh(v, "sh") >= 0, ix(v, k) - gh(v, "sh") <= gh(v, "gsize")))
                yield ("forall k<pos(%s): string[k]==Out(k)" % nm(k), lambda v, k=k: z3.Implies(z3.And(k0 < ix(v, k) - gh(v, "sh"), k0 < gh(v, "W")), v[("ghost", "kv")] == S(k0)))
                for k2 in ptrs:
                    if k2 != k:
                        yield ("%s<=%s" % (nm(k), nm(k2)), lambda v, k=k, k2=k2: ix(v, k) <= ix(v, k2))
                for x in ints:
                    yield ("pos(%s)+%s==W" % (nm(k), nm(x)), lambda v, k=k, x=x: ix(v, k) - gh(v, "sh") + iv(v, x) == gh(v, "W"))
                continue
            yield ("ok=>%s==W-DL" % nm(k), lambda v, k=k: z3.Implies(okf(v), ix(v, k) == gh(v, "W") - gh(v, "DL")))
            yield ("0<=%s<=size" % nm(k), lambda v, k=k: z3.And(ix(v, k) >= 0, ix(v, k) <= i64(hv[k].o.size)))
            yield ("%s==size" % nm(k), lambda v, k=k: ix(v, k) == i64(hv[k].o.size))
            yield ("%s==0" % nm(k), lambda v, k=k: ix(v, k) == 0)
        if ("ghost", "wlo") in hv:
            yield ("whi-wlo==size", lambda v: gh(v, "whi") - gh(v, "wlo") == gh(v, "gsize"))
            yield ("sh==wlo", lambda v: gh(v, "sh") == gh(v, "wlo"))
            yield ("W<=size", lambda v: gh(v, "W") <= gh(v, "gsize"))
            yield ("size<=2^61", lambda v: gh(v, "gsize") <= 2 * BIG)
            yield ("size>=1", lambda v: gh(v, "gsize") >= 1)
            yield ("forall k<W: string[k]==Out(k)", lambda v: z3.Implies(k0 < gh(v, "W"), v[("ghost", "kv")] == S(k0)))
        for bk in [k for k in hv if k[0] == "buf" and st.objs[k[1]].unit == self.u and st.objs[k[1]].name.endswith(".array")]:
            def content(v, bk=bk):
                tmp = st.copy()
                tmp.mem[bk[1]] = v[bk]
                o = st.objs[bk[1]]
                return z3.Implies(z3.And(okf(v), gh(v, "DL") <= k0, k0 < gh(v, "W")),
                                  ex.buf_read(tmp, o, z3.simplify(k0 - gh(v, "DL"))) == S(k0))
            yield ("ok=>buffer holds Out[DL,W)", content)

    def model_inputs(self, ex, model):
        return {}


CTS = [("char", 1, "8"), ("char8_t", 1, "u8"), ("char16_t", 2, "16"), ("char32_t", 4, "32"), ("wchar_t", 4, "w")]


def units(tier):
    us = []
    for C, u, n in CTS:
        pub, ts = [], []
        for f in ("append", "append2", "maker", "maker2", "sized", "cfile", "cfile2", "sbuf", "sbuf2") + (("wcfile", "wcfile2") if n == "w" else ()):
            pub.append("f_%s_%s" % (f, n))
            ts.append(Task("%s<%s>" % (f, C), pub[-1], lambda f=f, u=u: SinkSpec(f, u), "hyb", native=("bufdst.cpp", [n, f]), check_termination=False))
        us.append(Unit("bufdst_" + n, PRE + HIST + SRC % dict(C=C, n=n, B=64 if n != "8" else 100) + (WIDE if n == "w" else ""), pub, ts))
    return us


TRUST = ["contracts of std::basic_string (append, constructors, reserve, resize, data), std::basic_streambuf::sputn, std::fwrite, std::fputwc",
         "the client of the destination follows the documented protocol (fills at most buffer_space() units, then advances)"]
ASSUME = ["no exception is thrown (compiled with -fno-exceptions)", "lengths <= 2^60"]
