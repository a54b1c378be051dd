"""Contract of the single-byte transcoders: every unit is one step producing one unit.

For each source unit u = src[i]:
    bad(u)     it is an invalid sequence          (reported through invalid_sequence)
    unsup(u)   it is valid but has no equivalent  (reported through unsupported_codepoint)
    out(u)     the unit written for it
"""
import z3
from dom import is_c
from exec import BaseSpec, Ptr, UNDEF, PDiff, simp
from spec_utf import bv64, BV
from spec_fn import FnSpec


class SbSpec(BaseSpec):
    def __init__(self, table, direction, kind, su, du, install, strict_hi=0xDFFF, nmax=None):
        self.T, self.dir, self.kind, self.su, self.du = table, direction, kind, su, du
        self.size_only, self.unsafe = kind.endswith("size"), kind.startswith("unsafe")
        self.install, self.strict_hi, self.nmax = install, strict_hi, nmax

    def setup(self, ex, st, fname):
        sol = ex.solver
        n, m = self.n, self.m = z3.Int("n"), z3.Int("m")
        sol.add(n >= 0, n <= 1 << 60, m >= 0, m <= 1 << 60)
        ex.dom.setb(n, 0, 1 << 60)
        ex.dom.setb(m, 0, 1 << 60)
        if self.nmax is not None:
            sol.add(n <= self.nmax)
        self.flags = z3.BitVec("flags", 32)
        self.strict = self.flags & 1 == 0
        self.stop_inv, self.stop_uns = self.flags & 2 != 0, self.flags & 4 != 0
        self.k0, self.k1 = z3.Int("k0"), z3.Int("k1")
        sol.add(self.k0 >= 0, self.k1 >= 0)
        self.src = ex.new_buf(st, "src", self.su // 8, n, ro=True)
        self.sfn = st.mem[self.src.id].base
        self.outc = ex.new_cell(st, "out", 24)
        self.usenotif = z3.Bool("has_notifier")
        self.ENC = z3.Function("ENC", z3.BitVecSort(32), z3.BitVecSort(32))
        self.DEC = z3.Function("DEC", z3.BitVecSort(8), z3.BitVecSort(32))
        self.bound_ax = set()
        self.install(ex, self)
        for k in (self.k0, self.k1, z3.IntVal(0)):
            self.inst(ex, k)
        src, srce = Ptr(self.src, 0), Ptr(self.src, n)
        if self.size_only:
            args = [src, srce, m, self.flags, Ptr(self.outc)]
        else:
            self.dst = ex.new_buf(st, "dst", self.du // 8, m)
            args = [src, srce, Ptr(self.dst, 0), Ptr(self.dst, m), self.usenotif, self.flags, Ptr(self.outc)]
            ex.contracts["vf_notify_invalid"] = self.c_inv
            ex.contracts["vf_notify_unsupported"] = self.c_uns
            st.ghost.update(rep=z3.BoolVal(False), last=z3.IntVal(-1), cur=z3.IntVal(0))
        ex.start(st, fname, args)

    # -- the specification
    def u(self, i):
        return self.sfn(bv64(i))

    def bad(self, i):
        if self.unsafe:
            return z3.BoolVal(False)
        u = self.u(i)
        if self.dir == "from32":
            # with the known deviation (strict_hi 0xFFFF) the size functions also reject U+FFFD, which transcode accepts
            unk = z3.BoolVal(True) if self.size_only and self.strict_hi == 0xFFFF else z3.Not(self.T.supported(u))
            return z3.Or(z3.UGE(u, 0x110000), z3.And(self.strict, z3.UGE(u, 0xD800), z3.ULE(u, self.strict_hi), unk))
        return z3.Not(self.T.valid(u))

    def unsup(self, i):
        if self.dir != "from32":
            return z3.BoolVal(False)
        return z3.And(z3.Not(self.bad(i)), z3.Not(self.T.supported(self.u(i))))

    def err(self, i):
        return z3.Or(self.bad(i), self.unsup(i))

    def stops(self, i):
        return z3.Or(z3.And(self.stop_inv, self.bad(i)), z3.And(self.stop_uns, self.unsup(i)))

    def out(self, i):
        u = self.u(i)
        if self.dir == "from32":
            return z3.If(self.T.supported(u), z3.Extract(7, 0, self.ENC(u)), BV(0x3F, 8))
        if self.dir == "to32":
            return self.DEC(u)
        return u if self.unsafe else z3.If(self.T.valid(u), u, BV(0x3F, 8))

    def inst(self, ex, i):
        """facts about one unit: contracts of encode / decode; valid input for the unchecked functions"""
        i = bv64(i)
        u = self.u(i)
        al = []
        if self.dir == "from32":
            al.append(z3.If(self.T.supported(u), z3.ULT(self.ENC(u), 0x100), z3.UGE(self.ENC(u), 0x100)))
            if self.unsafe:
                al.append(z3.ULT(u, 0x110000))
        else:
            al.append((self.DEC(u) == 0xFFFD) == z3.Not(self.T.valid(u)))
            if self.unsafe:
                al.append(self.T.valid(u))
        c = z3.And(al)
        # an assumption about units inside the source only
        ex.solver.add(z3.Implies(z3.And(i >= 0, i < self.n), c))

    def head_axioms(self, ex, st, fr, hv):
        for k, v in hv.items():
            if isinstance(v, Ptr) and v.o is self.src and not is_c(v.i):
                self.inst(ex, v.i)
        return []

    # -- notifier
    def report(self, ex, st, i, what):
        w = "pre(notifier.%s)" % what
        ex.oblige(st, st.ghost["last"] < i, w, "each error is reported once, in order")
        st.ghost["last"] = i
        st.ghost["rep"] = simp(z3.Or(st.ghost["rep"], self.k1 == i))

    def c_inv(self, ex, st, ins, a):
        usz, name, p, cnt = a
        w = "pre(notifier.invalid_sequence)"
        ok = isinstance(p, Ptr) and p.o is self.src and p.b == 0
        ex.oblige(st, ok, w, "sequence pointer points into the source")
        i = bv64(p.i)
        ex.oblige(st, ex.dom.cmp("eq", 32, usz, self.su // 8), w, "unit size")
        ex.oblige(st, bv64(ex.mat(cnt)) == 1, w, "one unit")
        ex.oblige(st, z3.And(0 <= i, i < self.n, self.bad(i)), w, "called only on an invalid sequence")
        self.report(ex, st, i, "invalid_sequence")
        return None

    def c_uns(self, ex, st, ins, a):
        w = "pre(notifier.unsupported_codepoint)"
        # the position is the first one not yet processed: find it through the current source pointer
        i = self.cursor(st)
        if i is None:
            ex.oblige(st, False, w, "no source position in reach")
            return None
        cp = BV(a[1], 32) if is_c(a[1]) else a[1]
        ex.oblige(st, z3.And(0 <= i, i < self.n, self.unsup(i), cp == self.u(i)), w, "called with an unsupported code point of the source")
        self.report(ex, st, i, "unsupported_codepoint")
        return None

    def cursor(self, st):
        """the source position being processed: the only symbolic source pointer among the loop variables"""
        c = []
        for fr in st.frames:
            for r, v in fr.env.items():
                if isinstance(v, Ptr) and v.o is self.src and v.b == 0:
                    if r in self.phis.get(fr.f.name, ()):
                        c.append(bv64(v.i))
        return c[-1] if c else None

    phis = {}

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        n, m = self.n, self.m
        sp = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is self.src]
        self.phis = dict(self.phis)
        self.phis[fr.f.name] = set(k[1] for k in sp if k[0] == "phi") | set(self.phis.get(fr.f.name, ()))
        dp = [] if self.size_only else [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is self.dst]
        ints = [k for k, v in hv.items() if k[0] != "ghost" and ((z3.is_expr(v) and z3.is_int(v)) or isinstance(v, PDiff))]
        iv = lambda v, k: bv64(v[k].i) if isinstance(v[k], Ptr) else bv64(ex.mat(v[k]))
        nm = lambda k: "%" + "_".join(map(str, k[1:]))
        bufk = ("buf", self.dst.id) if not self.size_only else None
        for p in sp + ints:
            yield ("0<=%s<=n" % nm(p), lambda v, p=p: z3.And(iv(v, p) >= 0, iv(v, p) <= n))
            yield ("%s<n" % nm(p), lambda v, p=p: iv(v, p) < n)
            yield ("%s<=m" % nm(p), lambda v, p=p: iv(v, p) <= m)
            for q in dp + ints:
                if p != q:
                    yield ("%s==%s" % (nm(p), nm(q)), lambda v, p=p, q=q: iv(v, p) == iv(v, q))
            yield ("forall k<%s: not stop(k)" % nm(p), lambda v, p=p: z3.Implies(self.k1 < iv(v, p), z3.Not(self.stops(self.k1))))
            if ("ghost", "rep") in hv:
                yield ("last<%s" % nm(p), lambda v, p=p: v[("ghost", "last")] < iv(v, p))
                yield ("forall k<%s: err(k)=>reported(k)" % nm(p), lambda v, p=p: z3.Implies(
                    z3.And(self.usenotif, self.k1 < iv(v, p), self.err(self.k1)), v[("ghost", "rep")]))
        for q in dp:
            yield ("0<=%s<=m" % nm(q), lambda v, q=q: z3.And(iv(v, q) >= 0, iv(v, q) <= m))

            def content(v, q=q):
                tmp = st.copy()
                tmp.mem[self.dst.id] = v[bufk]
                return z3.Implies(self.k0 < iv(v, q), ex.buf_read(tmp, self.dst, self.k0) == self.out(self.k0))
            yield ("forall k<%s: dst[k]==out(src[k])" % nm(q), content)

    def on_return(self, ex, st, ret):
        cells = st.mem[self.outc.id]
        g = lambda off, sz: cells.get(off, (0, None))[1] if cells.get(off, (0, None))[0] == sz else None
        if self.size_only:
            j, sp, rs = g(0, 8), g(8, 8), g(16, 4)
            ok = j is not None
            j = bv64(ex.mat(j)) if ok else None
        else:
            sp, dq, rs = g(0, 8), g(8, 8), g(16, 4)
            ok = isinstance(dq, Ptr) and dq.o is self.dst and dq.b == 0
            j = bv64(dq.i) if ok else None
        ok = ok and isinstance(sp, Ptr) and sp.o is self.src and sp.b == 0 and rs is not None
        ex.oblige(st, ok, "post(result)", "result pointers point into source and destination")
        if not ok:
            return
        n, m = self.n, self.m
        i = bv64(sp.i)
        self.inst(ex, i)
        r = BV(rs, 32) if is_c(rs) else rs
        fi = z3.And(i < n, self.stops(i))
        ex.oblige(st, z3.And(i >= 0, i <= n, j == i), "post(dst_ptr)", "one unit per unit consumed")
        ex.oblige(st, j <= m, "post(limit)", "within the destination size/limit")
        ex.oblige(st, z3.Implies(self.k1 < i, z3.Not(self.stops(self.k1))), "post(src_ptr)", "nothing before src_ptr stops the transcoding")
        ex.oblige(st, z3.Or(z3.And(r == 0, i == n), z3.And(r == 1, i < n, z3.Not(fi), i == m),
                            z3.And(r == 2, i < n, self.stop_uns, self.unsup(i)), z3.And(r == 3, i < n, self.stop_inv, self.bad(i))),
                  "post(stop_reason)", "stop reason is the specified one")
        if not self.size_only:
            ex.oblige(st, z3.Implies(self.k0 < j, ex.buf_read(st, self.dst, self.k0) == self.out(self.k0)),
                      "post(content)", "every output unit is the specified one")
            ex.oblige(st, z3.Implies(z3.And(self.usenotif, z3.Or(self.k1 < i, z3.And(self.k1 == i, fi)), self.err(self.k1)), st.ghost["rep"]),
                      "post(reports)", "every error consumed or stopped at has been reported")

    def model_inputs(self, ex, model):
        ev = lambda e: model.eval(e, model_completion=True).as_long()
        n = ev(self.n)
        return dict(n=n, m=ev(self.m), flags=ev(self.flags), src=[ev(self.sfn(z3.IntVal(k))) for k in range(min(n, 64))], k0=ev(self.k0))
