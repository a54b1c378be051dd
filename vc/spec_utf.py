"""Specification of UTF transcoding (the mathematical side of properties C01-C03).

`Step` describes, for a source of n code units, the decoding step at unit offset i:
    dl(i)   how many units the step consumes          (1..4)
    ok(i)   the step is a valid sequence
    cp(i)   its code point (U+FFFD when invalid)
following the Unicode "maximal subpart" practice that the strf documentation prescribes.
B (boundary), F (output offset) and Out (output unit at an offset) are defined by recursion
over the steps; the axioms given to the solver are instances of that definition.
"""
import z3
from dom import is_c
from exec import BaseSpec, Ptr, UNDEF, PDiff, PInt, BufMem, Skip, NULL, simp

BV = z3.BitVecVal
W = 64


def bv64(x):
    return I64(x) if is_c(x) else x


def I64(x):
    return z3.IntVal(x - (1 << 64) if x >> 63 else x)


class Step:
    def __init__(self, enc, src, n, lax):
        """enc: 8/16/32; src: idx->unit BV; n BV64; lax Bool"""
        self.enc, self.src, self.n, self.lax = enc, src, n, lax
        self.cache = {}

    def at(self, i):
        key = i.get_id() if z3.is_expr(i) else ("c", i)
        r = self.cache.get(key)
        if r is None:
            r = self._mk(bv64(i))
            self.cache[key] = r + (i,)
        return r[:3]

    def unit(self, i, k):
        return self.src(z3.simplify(i + k))

    def _mk(self, i):
        n = self.n
        has = lambda k: (i + k) < n      # signed, no overflow (n <= 2^60)
        lax = self.lax
        if self.enc == 32:
            u = self.unit(i, 0)
            ok = z3.And(z3.ULT(u, 0x110000), z3.Or(lax, z3.Not(z3.LShR(u, 11) == 0x1B)))
            return (z3.IntVal(1), ok, z3.If(ok, u, BV(0xFFFD, 32)))
        if self.enc == 16:
            u = z3.ZeroExt(16, self.unit(i, 0))
            v = z3.ZeroExt(16, self.unit(i, 1))
            sur = z3.LShR(u, 11) == 0x1B
            pair = z3.And(z3.LShR(u, 10) == 0x36, has(1), z3.LShR(v, 10) == 0x37)
            ok = z3.Or(z3.Not(sur), pair, lax)
            cp = z3.If(pair, 0x10000 + ((u & 0x3FF) << 10) + (v & 0x3FF), z3.If(ok, u, BV(0xFFFD, 32)))
            return (z3.If(pair, z3.IntVal(2), z3.IntVal(1)), ok, cp)
        b = [z3.ZeroExt(24, self.unit(i, k)) for k in range(4)]
        rng = lambda x, lo, hi: z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
        cont = lambda x: rng(x, 0x80, 0xBF)
        h1, h2, h3 = has(1), has(2), has(3)
        b0 = b[0]
        one = z3.ULT(b0, 0x80)
        lead2 = rng(b0, 0xC2, 0xDF)
        lead3 = rng(b0, 0xE0, 0xEF)
        lead4 = rng(b0, 0xF0, 0xF4)
        two = z3.And(lead2, h1, cont(b[1]))
        sec3 = z3.And(h1, cont(b[1]), z3.Implies(b0 == 0xE0, z3.UGE(b[1], 0xA0)),
                      z3.Implies(z3.And(b0 == 0xED, z3.Not(lax)), z3.ULE(b[1], 0x9F)))
        three = z3.And(lead3, sec3, h2, cont(b[2]))
        sec4 = z3.And(h1, cont(b[1]), z3.Implies(b0 == 0xF0, z3.UGE(b[1], 0x90)),
                      z3.Implies(b0 == 0xF4, z3.ULE(b[1], 0x8F)))
        thd4 = z3.And(lead4, sec4, h2, cont(b[2]))
        four = z3.And(thd4, h3, cont(b[3]))
        m = lambda x: x & 0x3F
        c2 = ((b0 & 0x1F) << 6) | m(b[1])
        c3 = ((b0 & 0x0F) << 12) | (m(b[1]) << 6) | m(b[2])
        c4 = ((b0 & 0x07) << 18) | (m(b[1]) << 12) | (m(b[2]) << 6) | m(b[3])
        ok = z3.Or(one, two, three, four)
        cp = z3.If(one, b0, z3.If(two, c2, z3.If(three, c3, z3.If(four, c4, BV(0xFFFD, 32)))))
        dl = z3.If(four, z3.IntVal(4), z3.If(z3.Or(three, thd4), z3.IntVal(3),
                   z3.If(z3.Or(two, z3.And(lead3, sec3), z3.And(lead4, sec4)), z3.IntVal(2), z3.IntVal(1))))
        return (dl, ok, cp)


def enc_len(enc, cp):
    if enc == 32:
        return z3.IntVal(1)
    if enc == 16:
        return z3.If(z3.UGE(cp, 0x10000), z3.IntVal(2), z3.IntVal(1))
    return z3.If(z3.ULT(cp, 0x80), z3.IntVal(1), z3.If(z3.ULT(cp, 0x800), z3.IntVal(2),
                 z3.If(z3.ULT(cp, 0x10000), z3.IntVal(3), z3.IntVal(4))))


def enc_units(enc, cp):
    """list of unit expressions by position (valid up to enc_len)"""
    if enc == 32:
        return [cp]
    if enc == 16:
        big = z3.UGE(cp, 0x10000)
        x = cp - 0x10000
        e = lambda v: z3.Extract(15, 0, v)
        return [z3.If(big, e(0xD800 + z3.LShR(x, 10)), e(cp)), e(0xDC00 + (x & 0x3FF))]
    e = lambda v: z3.Extract(7, 0, v)
    c = lambda sh: e(0x80 | (z3.LShR(cp, sh) & 0x3F))
    l1, l2, l3 = z3.ULT(cp, 0x80), z3.ULT(cp, 0x800), z3.ULT(cp, 0x10000)
    return [z3.If(l1, e(cp), z3.If(l2, e(0xC0 | z3.LShR(cp, 6)), z3.If(l3, e(0xE0 | z3.LShR(cp, 12)),
                                                                          e(0xF0 | z3.LShR(cp, 18))))),
            z3.If(l2, c(0), z3.If(l3, c(6), c(12))),
            z3.If(l3, c(0), c(6)),
            c(0)]


KMAX = {(8, 8): 3, (8, 16): 1, (8, 32): 1, (16, 8): 3, (16, 16): 1, (16, 32): 1, (32, 8): 4, (32, 16): 2,
        (32, 32): 1}


class TransSpec(BaseSpec):
    """contract of transcode / transcode_size / unsafe_* for one pair"""

    def __init__(self, s_enc, d_enc, kind, depth=0, nmax=None):
        self.s_enc, self.d_enc, self.kind = s_enc, d_enc, kind
        self.size_only = kind.endswith("size")
        self.unsafe = kind.startswith("unsafe")
        self.depth = depth
        self.identity = s_enc == d_enc
        self.perbyte = self.unsafe and s_enc == 8 and d_enc == 32
        self.DLMAX = {8: 4, 16: 2, 32: 1}[s_enc]
        self.nmax = nmax            # bounded mode: n <= nmax and loops unrolled

    # -- construction of the initial symbolic state
    def setup(self, ex, st, fname):
        sol = ex.solver
        n = self.n = z3.Int("n")
        m = self.m = z3.Int("m")
        big = z3.IntVal(1 << 60)
        sol.add(n >= 0, n <= big, m >= 0, m <= big)
        ex.dom.setb(n, 0, 1 << 60)
        ex.dom.setb(m, 0, 1 << 60)
        if self.nmax is not None:
            sol.add(n <= self.nmax)
        self.flags = self.mk_flags()
        self.k0 = z3.Int("k0")
        sol.add(self.k0 >= 0)
        su, du = self.s_enc // 8, self.d_enc // 8
        self.src = ex.new_buf(st, "src", su, n, ro=True)
        self.sfn = st.mem[self.src.id].base
        self.out = ex.new_cell(st, "out", 24)
        lax = self.flags & 1 != 0
        self.stop = z3.BoolVal(False) if self.unsafe else (self.flags & 2 != 0)
        self.lax = lax
        self.step = Step(self.s_enc, lambda i: self.sfn(i), n, lax)
        if self.nmax is None:
            self.B = z3.Function("B", z3.IntSort(), z3.BoolSort())
            self.F = z3.Function("F", z3.IntSort(), z3.IntSort())
            self.Out = z3.Function("Out", z3.IntSort(), z3.BitVecSort(self.d_enc))
            sol.add(self.B(z3.IntVal(0)), self.F(z3.IntVal(0)) == 0)
            self.K = KMAX[(self.s_enc, self.d_enc)]
            # no step stops (valid input, or no stop flag): the steps reach exactly the end
            sol.add(z3.Or(self.stop, self.B(n)))
            # when does the output of an identity pair have the length of its input?
            self.idcond = z3.BoolVal(True) if self.s_enc != 8 or self.unsafe else self.stop
            self.NB = z3.Function("NB", z3.IntSort(), z3.IntSort())
            if self.perbyte:
                sol.add(self.NB(z3.IntVal(0)) == 0)
            self.lemmas(ex, st)
            pts = [z3.IntVal(0)]
            pts.append(n)
            if self.identity and (self.size_only or self.unsafe):
                    pts += [z3.simplify(m - d) for d in range(self.DLMAX)]
            for p in pts:
                for a in self.inst(p, back=self.identity and (self.size_only or self.unsafe)):
                    sol.add(a)
        src, srce = Ptr(self.src, 0), Ptr(self.src, n)
        self.usenotif = z3.Bool("has_notifier")
        self.start_call(ex, st, fname, src, srce)

    def mk_flags(self):
        return z3.BitVec("flags", 32)

    def start_call(self, ex, st, fname, src, srce):
        n, m, du = self.n, self.m, self.d_enc // 8
        if self.size_only:
            args = [src, srce, m, self.flags, Ptr(self.out)]
        else:
            self.dst = ex.new_buf(st, "dst", du, m)
            args = [src, srce, Ptr(self.dst, 0), Ptr(self.dst, m), self.usenotif, self.flags, Ptr(self.out)]
            ex.contracts["vf_notify_invalid"] = self.c_notify
            ex.contracts["vf_notify_unsupported"] = self.c_unsup
            if self.nmax is None and not self.unsafe:
                # k1: an arbitrary position; rep: it has been reported; last: position of the last report
                self.k1 = z3.Int("k1")
                ex.solver.add(self.k1 >= 0)
                st.ghost.update(rep=z3.BoolVal(False), last=z3.IntVal(-1))
        ex.start(st, fname, args)

    def c_notify(self, ex, st, ins, a):
        usz, name, p, cnt = a
        ok = isinstance(p, Ptr) and p.o is self.src and p.b == 0
        ex.oblige(st, ok, "pre(notifier.invalid_sequence)", "sequence pointer points into the source")
        ex.oblige(st, ex.dom.cmp("eq", 32, usz, self.s_enc // 8), "pre(notifier.invalid_sequence)", "unit size")
        if self.nmax is None:
            i = bv64(p.i)
            dl, okk, cp = self.step.at(i)
            ex.oblige(st, z3.And(self.B(i), i < self.n, z3.Not(okk)), "pre(notifier.invalid_sequence)",
                      "called exactly on an invalid sequence")
            if not self.unsafe:
                ex.oblige(st, st.ghost["last"] < i, "pre(notifier.invalid_sequence)", "each invalid sequence is reported once, in order")
                st.ghost["last"] = i
                st.ghost["rep"] = simp(z3.Or(st.ghost["rep"], self.k1 == i))
            ex.oblige(st, dl == bv64(ex.mat(cnt)), "pre(notifier.invalid_sequence)", "sequence length")
        if self.unsafe:
            ex.oblige(st, False, "pre(notifier.invalid_sequence)", "valid input is never reported")
        return None

    def c_unsup(self, ex, st, ins, a):
        ex.oblige(st, False, "pre(notifier.unsupported_codepoint)", "UTF targets support every code point")
        return None

    # -- lemmas about the specification functions, discharged before they are used
    def lemmas(self, ex, st):
        """every axiom used below beyond the recursive definitions is an induction over the steps;
        its step case is an obligation here (the induction schema itself is the only meta argument)"""
        n = self.n
        i = z3.Int("li")
        ex.solver.push()
        ex.solver.add(i >= 0, i < n)
        dl, ok, cp = self.step.at(i)
        el = enc_len(self.d_enc, cp)
        ob = lambda c, nm: ex.oblige(st, c, "lemma(%s)" % nm, nm, where="specification")
        ob(z3.And(dl >= 1, dl <= n - i), "a step consumes between 1 unit and the rest of the input")
        ob(z3.And(el >= 1, el <= self.K * dl), "a step produces at most K units per unit")
        if self.identity:
            ex.solver.add(z3.Or(ok, z3.Not(self.stop)), self.idcond)
            if self.unsafe:
                ex.solver.add(ok)
            ob(dl == el, "identity pair: a step produces as many units as it consumes")
            if not self.size_only and self.unsafe:
                for m, e in enumerate(enc_units(self.d_enc, cp)):
                    ob(z3.Implies(dl > m, e == self.sfn(i + m)), "identity pair: a valid step copies its units")
        if self.unsafe:
            ob(dl <= self.DLMAX, "a step is at most %d units long" % self.DLMAX)
        ex.flush(st)
        ex.solver.pop()

    def tile(self, p):
        """every position lies in exactly one step (steps tile the valid input)"""
        al = []
        for d in range(self.DLMAX):
            q = z3.simplify(p - d)
            dl, ok, cp = self.step.at(q)
            al.append(z3.And(q >= 0, self.B(q), dl > d))
        return [z3.Implies(z3.And(p >= 0, p < self.n, z3.Not(self.stop)), z3.Or(al))]

    # -- axioms
    def inst(self, i, back=False):
        n, B, F = self.n, self.B, self.F
        i = bv64(i)
        out = []
        terms = [i]
        for d in range(1, self.depth + 1):
            terms.append(z3.simplify(i + d))
        for t in terms:
            dl, ok, cp = self.step.at(t)
            el = enc_len(self.d_enc, cp)
            out.append(z3.Implies(B(t), z3.And(t >= 0, t <= n, F(t) >= 0, F(t) <= self.K * t)))
            go = z3.And(B(t), t < n, z3.Or(ok, z3.Not(self.stop)))
            nx = t + dl
            concl = [B(nx), F(nx) == F(t) + el, nx <= n, F(nx) <= self.K * nx]
            if not self.size_only:
                for m, e in enumerate(enc_units(self.d_enc, cp)):
                    concl.append(z3.Implies(el > m, self.Out(F(t) + m) == e))
            out.append(z3.Implies(go, z3.And(concl)))
            for k in range(1, self.DLMAX):
                # positions inside a step are not boundaries
                out.append(z3.Implies(z3.And(go, dl > k), z3.Not(B(z3.simplify(t + k)))))
            if self.unsafe:
                out.append(z3.Implies(z3.And(B(t), t < n), ok))
                for k in range(1, self.DLMAX):
                    out.append(z3.Implies(z3.And(B(t), t < n, dl > k), z3.Not(B(z3.simplify(t + k)))))
            if self.identity:
                out.append(z3.Implies(z3.And(B(t), self.idcond), F(t) == t))
                out.append(z3.Implies(z3.And(go, self.idcond), F(nx) == nx))
                if self.unsafe and not self.size_only:
                    out.append(z3.Implies(z3.And(B(t), self.k0 < t), self.Out(self.k0) == self.sfn(self.k0)))
            if self.perbyte:
                NB = self.NB
                out.append(NB(t + 1) == NB(t) + z3.If(B(t), z3.IntVal(1), z3.IntVal(0)))
                out.append(z3.Implies(t >= 0, z3.And(NB(t) >= 0, NB(t) <= t)))
                out.append(z3.Implies(B(t), NB(t) == F(t)))
        if self.perbyte or back:
            out += self.tile(i)
            for d in range(1, self.DLMAX):
                q = z3.simplify(i - d)
                dl, ok, cp = self.step.at(q)
                if self.unsafe:
                    out.append(z3.Implies(z3.And(q >= 0, q < n, B(q)), ok))
                go = z3.And(q >= 0, q < n, B(q), z3.Or(ok, z3.Not(self.stop)))
                for k in range(1, self.DLMAX):
                    out.append(z3.Implies(z3.And(go, dl > k), z3.Not(B(z3.simplify(q + k)))))
                out.append(z3.Implies(go,
                                      z3.And(B(q + dl), F(q + dl) == F(q) + enc_len(self.d_enc, cp), q + dl <= n)))
                if self.identity:
                    out.append(z3.Implies(z3.And(q >= 0, B(q), self.idcond), F(q) == q))
        return out

    def head_axioms(self, ex, st, fr, hv):
        if self.nmax is not None:
            return []
        out = []
        for k, v in hv.items():
            if isinstance(v, Ptr) and v.o is self.src and not is_c(v.i):
                out += self.inst(v.i)
        return out

    def unroll(self, ex, st, fname, hdr):
        if self.identity and self.unsafe:
            return 5          # only the back-scan inside one sequence; more is an obligation
        return None

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        n, B, F, m = self.n, self.B, self.F, self.m
        sp = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is self.src]
        dp = [] if self.size_only else [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is self.dst]
        ints = [k for k, v in hv.items() if (z3.is_expr(v) and z3.is_int(v)) or isinstance(v, PDiff)]
        iv = lambda v, k: bv64(ex.mat(v[k])) if not isinstance(v[k], Ptr) else bv64(v[k].i)
        bufk = ("buf", self.dst.id) if not self.size_only else None
        nm = lambda k: "%" + "_".join(map(str, k[1:]))
        for p in sp:
            yield ("0<=%s<=n" % nm(p), lambda v, p=p: z3.And(iv(v, p) >= 0, iv(v, p) <= n))
            yield ("%s<n" % nm(p), lambda v, p=p: iv(v, p) < n)
            if self.identity:
                yield ("%s<=m" % nm(p), lambda v, p=p: iv(v, p) <= m)
            for c in (0, 1, 2, -1):
                yield ("Boundary(%s-%d)" % (nm(p), c), lambda v, p=p, c=c: B(z3.simplify(iv(v, p) - c)))
                for q in dp + ints:
                    yield ("%s==OutLen(%s-%d)" % (nm(q), nm(p), c),
                           lambda v, p=p, q=q, c=c: iv(v, q) == F(z3.simplify(iv(v, p) - c)))
            for q in ints:
                if self.perbyte:
                    yield ("%s==Count(%s)" % (nm(q), nm(p)), lambda v, p=p, q=q: iv(v, q) == self.NB(iv(v, p)))
                yield ("%s==limit-OutLen(%s)" % (nm(q), nm(p)),
                       lambda v, p=p, q=q: iv(v, q) == m - F(iv(v, p)))
                yield ("%s==n-%s" % (nm(q), nm(p)), lambda v, p=p, q=q: iv(v, q) == n - iv(v, p))
        for q in dp + ints:
            yield ("0<=%s<=m" % nm(q), lambda v, q=q: z3.And(iv(v, q) >= 0, iv(v, q) <= m))
            yield ("%s<m" % nm(q), lambda v, q=q: iv(v, q) < m)
        if ("ghost", "rep") in hv:
            ok1 = self.step.at(self.k1)[1]
            for p in sp:
                yield ("last-reported<%s" % nm(p), lambda v, p=p: v[("ghost", "last")] < iv(v, p))
                yield ("forall k<%s: invalid(k)=>reported(k)" % nm(p), lambda v, p=p: z3.Implies(
                    z3.And(self.usenotif, B(self.k1), self.k1 < iv(v, p), z3.Not(ok1)), v[("ghost", "rep")]))
        for q in dp:
            def content(v, q=q):
                tmp = st.copy()
                tmp.mem[self.dst.id] = v[bufk]
                return z3.Implies(self.k0 < iv(v, q), ex.buf_read(tmp, self.dst, self.k0) == self.Out(self.k0))
            yield ("forall k<%s: dst[k]==Out(k)" % nm(q), content)

    # -- postcondition
    def on_return(self, ex, st, ret):
        cells = st.mem[self.out.id]
        g = lambda off, sz: cells.get(off, (0, None))[1] if cells.get(off, (0, None))[0] == sz else None
        if self.size_only:
            j, sp, rs = g(0, 8), g(8, 8), g(16, 4)
            if j is None:
                ex.oblige(st, False, "post(size)", "no result")
                return
            j = bv64(ex.mat(j))
        else:
            sp, dq, rs = g(0, 8), g(8, 8), g(16, 4)
            ok = isinstance(dq, Ptr) and dq.o is self.dst and dq.b == 0
            ex.oblige(st, ok, "post(dst_ptr)", "dst_ptr points into the destination")
            if not ok:
                return
            j = bv64(dq.i)
        ok = isinstance(sp, Ptr) and sp.o is self.src and sp.b == 0
        ex.oblige(st, ok, "post(src_ptr)", "src_ptr points into the source")
        if not ok or rs is None:
            ex.oblige(st, False, "post(reason)", "no stop reason")
            return
        i = bv64(sp.i)
        r = BV(rs, 32) if is_c(rs) else rs
        if self.nmax is not None:
            return self.bounded_post(ex, st, i, j, r)
        n, B, F, m = self.n, self.B, self.F, self.m
        dl, okk, cp = self.step.at(i)
        el = enc_len(self.d_enc, cp)
        inv_stop = z3.And(self.stop, z3.Not(okk))
        ex.oblige(st, B(i), "post(src_ptr)", "src_ptr is a sequence boundary reached by the specification")
        ex.oblige(st, j == F(i), "post(size)" if self.size_only else "post(dst_ptr)",
                  "output length equals the specified length of the consumed input")
        ex.oblige(st, z3.And(j >= 0, j <= m), "post(limit)", "within the destination size/limit")
        ex.oblige(st, z3.Or(
            z3.And(r == 0, i == n),
            z3.And(r == 1, i < n, z3.Not(inv_stop), F(i) + el > m),
            z3.And(r == 3, i < n, inv_stop)), "post(stop_reason)", "stop reason is the specified one")
        if "rep" in st.ghost:
            ex.oblige(st, z3.Implies(z3.And(self.usenotif, B(self.k1), z3.Or(self.k1 < i, z3.And(self.k1 == i, inv_stop, i < n)),
                                            z3.Not(self.step.at(self.k1)[1])), st.ghost["rep"]),
                      "post(reports)", "every invalid sequence consumed or stopped at has been reported to the notifier")
        if not self.size_only:
            ex.oblige(st, z3.Implies(self.k0 < j, ex.buf_read(st, self.dst, self.k0) == self.Out(self.k0)),
                      "post(content)", "every output unit is the specified one")

    def bounded_post(self, ex, st, i, j, r):
        """unrolled specification for n <= nmax"""
        n, m = self.n, self.m
        pos, o = z3.IntVal(0), z3.IntVal(0)
        done = z3.BoolVal(False)
        ri, rj, rr = z3.IntVal(0), z3.IntVal(0), BV(0, 32)
        kcont = z3.BitVecVal(0, self.d_enc)
        valid_all = z3.BoolVal(True)
        for _ in range(self.nmax + 1):
            dl, okk, cp = self.step.at(pos)
            el = enc_len(self.d_enc, cp)
            fin = pos == n
            inv = z3.And(z3.Not(fin), self.stop, z3.Not(okk))
            nosp = z3.And(z3.Not(fin), z3.Not(inv), o + el > m)
            stopc = z3.Or(fin, inv, nosp)
            first = z3.And(z3.Not(done), stopc)
            ri, rj = z3.If(first, pos, ri), z3.If(first, o, rj)
            rr = z3.If(first, z3.If(fin, BV(0, 32), z3.If(inv, BV(3, 32), BV(1, 32))), rr)
            done = z3.simplify(z3.Or(done, stopc))
            for q, e in enumerate(enc_units(self.d_enc, cp)):
                kcont = z3.If(z3.And(z3.Not(done), el > q, self.k0 == o + q), e, kcont)
            if self.unsafe:
                valid_all = z3.And(valid_all, z3.Or(done, okk, fin))
                valid_all = z3.And(valid_all, z3.Implies(z3.And(nosp, z3.Not(fin)), okk))
            pos, o = z3.simplify(z3.If(done, pos, pos + dl)), z3.simplify(z3.If(done, o, o + el))
        pre = valid_all if self.unsafe else z3.BoolVal(True)
        if self.unsafe:
            # the whole input must be valid, also after a stop for lack of space
            pos = z3.IntVal(0)
            for _ in range(self.nmax):
                dl, okk, cp = self.step.at(pos)
                pre = z3.And(pre, z3.Or(pos >= n, okk))
                pos = z3.simplify(z3.If(pos >= n, pos, pos + dl))
        ex.oblige(st, z3.Implies(pre, z3.And(i == ri, j == rj, r == rr)), "post(result)", "bounded")
        if not self.size_only:
            ex.oblige(st, z3.Implies(z3.And(pre, self.k0 < j), ex.buf_read(st, self.dst, self.k0) == kcont),
                      "post(content)", "bounded")

    def model_inputs(self, ex, model):
        ev = lambda e: model.eval(e, model_completion=True).as_long()
        n = ev(self.n)
        return dict(n=n, m=ev(self.m), flags=ev(self.flags),
                    src=[ev(self.sfn(z3.IntVal(k))) for k in range(min(n, 64))], k0=ev(self.k0))


class CountSpec(TransSpec):
    """count_codepoints (strict decoding steps) / count_codepoints_fast (valid input)"""

    def __init__(self, enc, fast, nmax=None):
        super().__init__(enc, 32, "unsafe_transcode_size" if fast else "transcode_size", nmax=nmax)
        self.fast = fast

    def mk_flags(self):
        return z3.BitVecVal(0, 32)

    def start_call(self, ex, st, fname, src, srce):
        ex.start(st, fname, [src, srce, self.m, Ptr(self.out)])

    def on_return(self, ex, st, ret):
        cells = st.mem[self.out.id]
        g = lambda off, sz: cells.get(off, (0, None))[1] if cells.get(off, (0, None))[0] == sz else None
        c, sp = g(0, 8), g(8, 8)
        ok = isinstance(sp, Ptr) and sp.o is self.src and sp.b == 0 and c is not None
        ex.oblige(st, ok, "post(ptr)", "ptr points into the source")
        if not ok:
            return
        i, j = bv64(sp.i), bv64(ex.mat(c))
        n, m = self.n, self.m
        if self.nmax is not None:
            return self.bounded_count(ex, st, i, j)
        ex.oblige(st, z3.And(self.B(i), i >= 0, i <= n), "post(ptr)", "ptr is a boundary between code points")
        ex.oblige(st, j == self.F(i), "post(count)", "count is the number of code points before ptr")
        ex.oblige(st, z3.And(j <= m, z3.Or(i == n, j == m)), "post(limit)", "count reaches the end or the limit")

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        yield from super().candidates(ex, st, fr, hdr, vs, entry, hv)
        # relations with values that do not change in this loop
        sp = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is self.src]
        seen = set()
        for p in sp:
            yield ("%%%s>=entry" % p[1], lambda v, p=p: bv64(v[p].i) >= bv64(entry[p].i))
        for r, e in fr.env.items():
            if ("phi", r) in hv or not (z3.is_expr(e) and z3.is_int(e)) or e.get_id() in seen or len(seen) > 6:
                continue
            seen.add(e.get_id())
            for p in sp:
                f = self.NB if self.perbyte else self.F
                yield ("%%%s==Count(%%%s)" % (r, p[1]), lambda v, p=p, e=e, f=f: f(bv64(v[p].i)) == e)

    def bounded_count(self, ex, st, i, j):
        n, m = self.n, self.m
        pos, o = z3.IntVal(0), z3.IntVal(0)
        pre = z3.BoolVal(True)
        q = z3.IntVal(0)
        for _ in range(self.nmax + 1):
            dl, okk, cp = self.step.at(pos)
            go = z3.And(pos < n, o < m)
            pos, o = z3.simplify(z3.If(go, pos + dl, pos)), z3.simplify(z3.If(go, o + 1, o))
        for _ in range(self.nmax):
            dl, okk, cp = self.step.at(q)
            pre = z3.And(pre, z3.Or(q >= n, okk))
            q = z3.simplify(z3.If(q >= n, q, q + dl))
        if not self.fast:
            pre = z3.BoolVal(True)
        ex.oblige(st, z3.Implies(pre, z3.And(i == pos, j == o)), "post(result)", "bounded")
