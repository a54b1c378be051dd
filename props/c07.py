"""C07: fixed-size destinations (cstr, array, discarder) under every history of operations"""
import z3
from spec_utf import I64
from exec import Ptr, UNDEF, NULL, Obj, BaseSpec, BufMem, PDiff, PInt, simp, PathEnd
from dom import is_c
from driver import Task, Unit

HEAD = '''
#include <strf/destination.hpp>
#include <strf/output_buffer_functions.hpp>
using namespace strf;
extern "C" { bool vf_more(); int vf_op(); long vf_len(); long vf_count(long); void vf_fill(void*, long); const void* vf_data(long);
 unsigned vf_char(void*, void*); void vf_recycle(); void vf_ensure(void*, void*, long); long vf_need(); void vf_check(bool, void*, void*, bool); void vf_result(void*, bool); }
template <class C, class D> static inline void history(D& d) {
  while (vf_more()) {
    bool rec = false;
    switch (vf_op()) {
      case 0: { long n = vf_len(); const C* s = (const C*)vf_data(n); d.write(s, n); break; }
      case 1: { C* p = d.buffer_ptr(); long m = vf_count(d.buffer_sspace()); vf_fill(p, m); d.advance_to(p + m); break; }
      case 2: vf_recycle(); d.recycle(); rec = true; break;
      case 3: vf_recycle(); d.flush(); rec = true; break;
      case 4: { C c = (C)vf_char(d.buffer_ptr(), d.buffer_end()); strf::put<C>(d, c); break; }
      case 5: { long s = vf_need(); vf_ensure(d.buffer_ptr(), d.buffer_end(), s); d.ensure(s); break; }
      default: { C* p = d.buffer_ptr(); long m = vf_count(d.buffer_sspace()); vf_fill(p, m); d.advance(m); break; }
    }
    vf_check(d.good(), d.buffer_ptr(), d.buffer_end(), rec);
  }
}
'''
SRC = '''
extern "C" void f_cstr_%(n)s(%(C)s* p, long n) { basic_cstr_destination<%(C)s> d(p, n); vf_check(d.good(), d.buffer_ptr(), d.buffer_end(), false); history<%(C)s>(d); auto r = d.finish(); vf_result(r.ptr, r.truncated); }
extern "C" void f_cstr2_%(n)s(%(C)s* p, long n) { basic_cstr_destination<%(C)s> d(p, p + n); history<%(C)s>(d); auto r = d.finish(); vf_result(r.ptr, r.truncated); }
extern "C" void f_cstr3_%(n)s(%(C)s* p, long n) { basic_cstr_destination<%(C)s> d(typename basic_cstr_destination<%(C)s>::range{p, p + n}); history<%(C)s>(d); auto r = d.finish(); vf_result(r.ptr, r.truncated); }
extern "C" void f_cstr4_%(n)s(%(C)s (*p)[5]) { basic_cstr_destination<%(C)s> d(*p); history<%(C)s>(d); auto r = d.finish(); vf_result(r.ptr, r.truncated); }
extern "C" void f_array_%(n)s(%(C)s* p, long n) { array_destination<%(C)s> d(p, n); vf_check(d.good(), d.buffer_ptr(), d.buffer_end(), false); history<%(C)s>(d); auto r = d.finish(); vf_result(r.ptr, r.truncated); }
extern "C" void f_array2_%(n)s(%(C)s* p, long n) { array_destination<%(C)s> d(p, p + n); history<%(C)s>(d); auto r = d.finish(); vf_result(r.ptr, r.truncated); }
extern "C" void f_array3_%(n)s(%(C)s* p, long n) { array_destination<%(C)s> d(typename array_destination<%(C)s>::range{p, p + n}); history<%(C)s>(d); auto r = d.finish(); vf_result(r.ptr, r.truncated); }
extern "C" void f_array4_%(n)s(%(C)s (*p)[5]) { array_destination<%(C)s> d(*p); history<%(C)s>(d); auto r = d.finish(); vf_result(r.ptr, r.truncated); }
extern "C" void f_disc_%(n)s() { discarder<%(C)s> d; vf_check(d.good(), d.buffer_ptr(), d.buffer_end(), false); history<%(C)s>(d); }
'''
G = 1 << 61          # index of the garbage buffer in the joint address space
GS = 64
i64 = lambda x: I64(x) if is_c(x) else x


class HistSpec(BaseSpec):
    """ghost: W units passed by the client so far, sgood (specified state), D delivered units once bad"""

    def __init__(self, kind, unit, fixed=None):
        self.kind, self.u, self.fixed = kind, unit, fixed
        self.nullidx = -(1 << 50)

    # joint memory object: [0,n) the caller's array, [G,G+64) the library's garbage buffer
    def bnd(self, ex, st, o, i):
        i = i64(i)
        return simp(z3.Or(z3.And(i >= 0, i < self.n), z3.And(i >= G, i < G + GS)))

    def bnd_range(self, ex, st, o, i, k):
        i, k = i64(i), i64(k)
        return simp(z3.And(k >= 0, z3.Or(z3.And(i >= 0, i + k <= self.n), z3.And(i >= G, i + k <= G + GS), k == 0)))

    def global_ptr(self, ex, name):
        if "garbage_buff" in name:
            return Ptr(self.o, G)
        return None

    def setup(self, ex, st, fname):
        sol = ex.solver
        self.n = z3.Int("n") if not self.fixed else z3.IntVal(self.fixed)
        if not self.fixed:
            sol.add(self.n >= (1 if self.kind == "cstr" else 0), self.n <= 1 << 60)
            ex.dom.setb(self.n, 0, 1 << 60)
        self.cap = self.n - 1 if self.kind == "cstr" else self.n
        if self.kind == "disc":
            self.cap = z3.IntVal(0)
        self.k0 = z3.Int("k0")
        sol.add(self.k0 >= 0)
        self.S = z3.Function("Stream", z3.IntSort(), z3.BitVecSort(8 * self.u))
        self.o = ex.new_buf(st, "array", self.u, None)
        self.o.stream = self
        st.ghost.update(W=0, sgood=z3.BoolVal(self.kind != "disc"), D=0)
        for f in ("more", "op", "len", "count", "fill", "data", "char", "recycle", "need", "ensure", "check", "result"):
            ex.contracts["vf_" + f] = getattr(self, "c_" + f)
        args = {"disc": [], }.get(self.kind, [Ptr(self.o, 0), self.n])
        ex.start(st, fname, args)

    def g(self, st, n):
        return i64(st.ghost[n])

    def c_more(self, ex, st, ins, a):
        return ex.fresh("more", 1)

    def c_op(self, ex, st, ins, a):
        return ex.fresh("op", 32)

    def c_len(self, ex, st, ins, a):
        n = ex.fresh("len", 64)
        ex.solver.add(n >= 0, n <= 1 << 60)
        ex.dom.setb(n, 0, 1 << 60)
        return n

    def c_need(self, ex, st, ins, a):
        n = ex.fresh("need", 64)
        ex.solver.add(n >= 0, n <= 64)
        ex.dom.setb(n, 0, 64)
        return n

    def c_count(self, ex, st, ins, a):
        lim = i64(ex.mat(a[0]))
        ex.oblige(st, lim >= 0, "buffer-space", "buffer_sspace() is not negative")
        n = ex.fresh("count", 64)
        ex.solver.add(n >= 0, n <= lim)
        ex.dom.setb(n, 0, 1 << 62)
        return n

    def upd(self, st, ok, dW, Dbad):
        """the client passes dW more units; ok: they fit; Dbad: delivered length if they do not"""
        W, s, D = self.g(st, "W"), st.ghost["sgood"], self.g(st, "D")
        s2 = simp(z3.And(s, ok))
        s2 = s2 if z3.is_expr(s2) else z3.BoolVal(s2)
        st.ghost["D"] = z3.simplify(z3.If(z3.And(s, z3.Not(ok)), Dbad, D))
        st.ghost["W"] = z3.simplify(W + dW)
        st.ghost["sgood"] = s2

    def c_data(self, ex, st, ins, a):
        n = a[0]
        b = ex.new_buf(st, "data", self.u, n, ro=True)
        W = self.g(st, "W")

        class Base:
            def __init__(s, S):
                s.S = S

            def read(s, i):
                return s.S(z3.simplify(W + i64(i)))
        st.mem[b.id] = BufMem(Base(self.S))
        N = i64(n)
        self.upd(st, W + N <= self.cap, N, self.cap)
        return Ptr(b, 0)

    def c_fill(self, ex, st, ins, a):
        p, m = a
        ok = isinstance(p, Ptr) and p.o is self.o and p.b == 0
        ex.oblige(st, ok, "buffer-valid", "buffer_ptr() is in the destination or the discard buffer")
        ex.oblige(st, self.bnd_range(ex, st, self.o, p.i, m), "buffer-valid", "[buffer_ptr(), buffer_ptr()+buffer_sspace()) is writable")
        W = self.g(st, "W")
        ex.oblige(st, z3.Implies(st.ghost["sgood"], z3.And(i64(p.i) == W, W + i64(m) <= self.cap)), "buffer-valid",
                  "while good the buffer continues the caller's array")
        # while bad nothing of the caller's array may be offered again
        ex.oblige(st, z3.Implies(z3.And(z3.Not(st.ghost["sgood"]), i64(m) > 0), i64(p.i) >= G), "buffer-valid",
                  "while bad the buffer is the discard buffer")
        ex.buf_write_range(st, self.o, p.i, m, lambda rel, W=W: self.S(z3.simplify(W + i64(rel))))
        self.upd(st, z3.BoolVal(True), i64(m), z3.IntVal(0))
        return None

    def c_char(self, ex, st, ins, a):
        W = self.g(st, "W")
        c = self.S(W)
        self.upd(st, W + 1 <= self.cap, 1, W)
        return z3.ZeroExt(32 - 8 * self.u, c) if self.u < 4 else c

    def c_recycle(self, ex, st, ins, a):
        self.upd(st, z3.BoolVal(False), 0, self.g(st, "W"))
        return None

    def c_ensure(self, ex, st, ins, a):
        W = self.g(st, "W")
        # without room for n more units the destination is recycled (turns bad)
        self.upd(st, W + i64(ex.mat(a[2])) <= self.cap, 0, W)
        return None

    def c_check(self, ex, st, ins, a):
        gd, p, e, rec = a
        gd = gd if z3.is_expr(gd) else z3.BoolVal(bool(gd))
        ob = lambda c, m: ex.oblige(st, c, "class-invariant", m)
        ob(gd == st.ghost["sgood"], "good() is false exactly after an overflow or recycle")
        ok = all(isinstance(x, Ptr) and x.o is self.o and x.b == 0 for x in (p, e))
        ob(ok, "buffer pointers valid")
        P, E = i64(p.i), i64(e.i)
        ob(z3.Implies(st.ghost["sgood"], z3.And(P == self.g(st, "W"), E == self.cap)), "while good: the rest of the array")
        ob(z3.Implies(z3.Not(st.ghost["sgood"]), z3.And(P >= G, P <= E, E == G + GS)), "while bad: the discard buffer")
        r = rec if z3.is_expr(rec) else z3.BoolVal(bool(rec))
        ob(z3.Implies(r, E - P >= 64), "recycle leaves at least 64 units of space")
        return None

    def c_result(self, ex, st, ins, a):
        p, t = a
        st.ghost["done"] = z3.BoolVal(True)
        t = t if z3.is_expr(t) else z3.BoolVal(bool(t))
        s, W, D = st.ghost["sgood"], self.g(st, "W"), self.g(st, "D")
        ob = lambda c, m: ex.oblige(st, c, "post(finish)", m)
        ob(t == z3.Not(s), "truncated iff something was dropped")
        ok = isinstance(p, Ptr) and p.o is self.o and p.b == 0
        ob(ok, "result pointer in the array")
        L = z3.If(s, W, D)
        ob(i64(p.i) == L, "result pointer is the end of the delivered units")
        ob(z3.And(L >= 0, L <= self.cap), "not more than the capacity")
        v = ex.buf_read(st, self.o, self.k0)
        ob(z3.Implies(self.k0 < L, v == self.S(self.k0)), "the array starts with the first units of the output")
        if self.kind == "cstr":
            v = ex.buf_read(st, self.o, z3.simplify(L))
            ob(v == 0, "null terminator after the last unit")
        return None

    def on_return(self, ex, st, ret):
        if self.kind != "disc":
            ex.oblige(st, "done" in st.ghost, "post(finish)", "finish was reached")

    def unstable_havoc(self, ex, st, key, v, ty):
        if isinstance(v, Ptr) and (v.o is NULL or v.o is self.o):
            return Ptr(self.o, ex.fresh("u_%s" % "_".join(map(str, key[1:])), 64), 0)
        return None

    def unroll(self, ex, st, fname, hdr):
        return None

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        S = self.S
        ptrs = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is self.o]
        bools = [k for k, v in hv.items() if k[0] != "ghost" and z3.is_expr(v) and (z3.is_bool(v) or (z3.is_bv(v) and v.size() == 8))]
        gh = lambda v, n: i64(v[("ghost", n)])
        sg = lambda v: v[("ghost", "sgood")]
        ix = lambda v, k: i64(self.nullidx) if v[k].o is NULL else i64(v[k].i)
        nm = lambda k: "_".join(map(str, k[1:]))
        tb = lambda x: x if z3.is_expr(x) and z3.is_bool(x) else (z3.BoolVal(bool(x)) if is_c(x) else x != 0)
        for k in bools:
            yield ("%s==good" % nm(k), lambda v, k=k: tb(v[k]) == sg(v))
            if z3.is_bv(hv[k]):
                yield ("%s is a bool" % nm(k), lambda v, k=k: z3.BoolVal(v[k] in (0, 1)) if is_c(v[k]) else z3.ULE(v[k], 1))
        yield ("W>=0", lambda v: gh(v, "W") >= 0)
        yield ("bad=>0<=D<=cap", lambda v: z3.Implies(z3.Not(sg(v)), z3.And(gh(v, "D") >= 0, gh(v, "D") <= self.cap)))
        yield ("good=>W<=cap", lambda v: z3.Implies(sg(v), gh(v, "W") <= self.cap))
        for c, gl in ((sg, "good"), (lambda v: z3.Not(sg(v)), "bad")):
            for k in ptrs:
                for lab, f in (("==W", lambda v, k: ix(v, k) == gh(v, "W")), ("==cap", lambda v, k: ix(v, k) == self.cap), ("==n", lambda v, k: ix(v, k) == self.n),
                               ("==D", lambda v, k: ix(v, k) == gh(v, "D")), ("==0", lambda v, k: ix(v, k) == 0),
                               ("in discard buffer", lambda v, k: z3.And(ix(v, k) >= G, ix(v, k) <= G + GS)),
                               ("==discard end", lambda v, k: ix(v, k) == G + GS), ("==discard begin", lambda v, k: ix(v, k) == G)):
                    yield ("%s=>%s%s" % (gl, nm(k), lab), lambda v, k=k, f=f, c=c: z3.Implies(c(v), f(v, k)))
        bk = ("buf", self.o.id)
        if bk in hv:
            def content(v):
                tmp = st.copy()
                tmp.mem[self.o.id] = v[bk]
                L = z3.If(sg(v), gh(v, "W"), gh(v, "D"))
                return z3.Implies(self.k0 < L, ex.buf_read(tmp, self.o, self.k0) == S(self.k0))
            yield ("array starts with the output", content)

    def model_inputs(self, ex, model):
        return dict(n=model.eval(self.n, model_completion=True).as_long())


CTS = [("char", 1, "8"), ("char8_t", 1, "u8"), ("char16_t", 2, "16"), ("char32_t", 4, "32"), ("wchar_t", 4, "w")]


def units(tier):
    us = []
    for C, u, n in CTS:
        pub, ts = [], []
        for f, kind, fixed in (("cstr", "cstr", None), ("cstr2", "cstr", None), ("cstr3", "cstr", None), ("cstr4", "cstr", 5),
                               ("array", "array", None), ("array2", "array", None), ("array3", "array", None), ("array4", "array", 5), ("disc", "disc", None)):
            pub.append("f_%s_%s" % (f, n))
            ts.append(Task("%s<%s>" % (f, C), pub[-1], lambda kind=kind, u=u, fixed=fixed: HistSpec(kind, u, fixed), "hyb",
                           native=("dest.cpp", [n, f]), check_termination=False))
        us.append(Unit("dest_" + n, HEAD + SRC % dict(C=C, n=n), pub, ts))
    return us


TRUST = ["the client of the destination follows the documented protocol (fills at most buffer_space() units, then advances)"]
ASSUME = ["0 <= array size <= 2^60 (>= 1 for cstr destinations)"]
