"""Contract of a destination (strf::output_buffer) seen from the library code that writes into it.

The destination object is an arbitrary implementation of the documented interface: recycle() and
do_write() are known by contract only.  The delivered stream is described by ghost state:

    wlo, whi   current buffer window (index range of the abstract object `strm`)
    sh         index - sh = position in the delivered stream.  Every recycle jumps to a fresh window
               (strictly after the previous one), so stale pointers are detected
    kv         the value stored so far at the (arbitrary, fixed) stream position k0
    good       last value returned by the destination's own recycle / do_write

The postcondition "the delivered stream is exactly Spec(0..len)" is checked at every recycle (the
prefix delivered so far is a prefix of the specification) and at return (it is all of it, unless the
destination turned bad).
"""
import z3
from dom import is_c
from exec import Obj, Ptr, UNDEF, PDiff, PInt, BufMem, Unsupported, simp
from spec_utf import I64


def i64(x):
    return I64(x) if is_c(x) else x


class Stream:
    def __init__(self, unit, minspace, length, value, factors=(1,), k0=None):
        """length: Int term; value: fn(k:Int)->BV unit term"""
        self.u, self.minspace, self.length, self.value = unit, minspace, length, value
        self.factors = tuple(factors)
        self.marks = ()          # positions of the specified output between segments, for loop invariants
        self.k0 = k0 if k0 is not None else z3.Int("k0")

    def setup(self, ex, st, good=None):
        sol = ex.solver
        self.o = Obj("destination-buffer", "buf", self.u, None)
        self.o.stream = self
        st.objs[self.o.id] = self.o
        fr = lambda nm: Obj(nm, "func", 1, 1, True)
        self.vt = Obj("vtable", "const", 1, 32, True)
        self.vt.tag = {0: (8, Ptr(fr("vf_dtor"))), 8: (8, Ptr(fr("vf_dtor"))), 16: (8, Ptr(fr("vf_recycle"))),
                       24: (8, Ptr(fr("vf_do_write")))}
        self.cell = ex.new_cell(st, "dst-object", 32)
        sp = z3.Int("space0")
        sol.add(sp >= 0, sp <= 1 << 60, self.k0 >= 0)
        ex.dom.setb(sp, 0, 1 << 60)
        self.good0 = z3.Bool("good0") if good is None else z3.BoolVal(good)
        st.mem[self.cell.id] = {0: (8, Ptr(self.vt)), 8: (8, Ptr(self.o, 0)), 16: (8, Ptr(self.o, sp)),
                                24: (1, self.good0)}
        st.ghost.update(wlo=0, whi=sp, sh=0, kv=z3.Int("kv0") if ex.dom.name == "lin" else z3.BitVec("kv0", 8 * self.u), good=self.good0)
        ex.contracts["vf_recycle"] = self.c_recycle
        ex.contracts["vf_do_write"] = self.c_do_write
        return Ptr(self.cell)

    # -- memory
    def unit(self, ex, v):
        """a unit as a term (unsigned value in the all-integer domain)"""
        return ex.dom.U(v, 8 * self.u)[0] if ex.dom.name == "lin" else ex.dom.lift(v, 8 * self.u)

    def pos(self, st, i):
        return z3.simplify(i64(i) - i64(st.ghost["sh"]))

    def write(self, ex, st, o, i, v):
        v = self.unit(ex, v)
        st.ghost["kv"] = z3.simplify(z3.If(self.pos(st, i) == self.k0, v, st.ghost["kv"]))

    def write_range(self, ex, st, o, i, n, fn):
        p = self.pos(st, i)
        n = i64(n)
        rel = z3.simplify(self.k0 - p)
        hit = z3.simplify(z3.And(rel >= 0, rel < n))
        if z3.is_false(hit):
            return
        v = self.unit(ex, fn(rel))
        st.ghost["kv"] = z3.simplify(z3.If(hit, v, st.ghost["kv"]))

    # -- contracts of the virtual functions
    def fields(self, ex, st, where):
        c = st.mem[self.cell.id]
        p, e, g = c.get(8, (0, None))[1], c.get(16, (0, None))[1], c.get(24, (0, None))[1]
        ok = isinstance(p, Ptr) and p.o is self.o and p.b == 0 and isinstance(e, Ptr) and e.o is self.o
        ex.oblige(st, ok, where, "buffer pointers belong to the destination buffer")
        if is_c(g):
            g = z3.BoolVal(bool(int(g) & 1))
        elif z3.is_bv(g) or z3.is_int(g):
            g = g != 0
        return p, e, g

    def prefix(self, ex, st, p, g, where):
        P = self.pos(st, p.i)
        ex.oblige(st, z3.And(i64(st.ghost["wlo"]) <= i64(p.i), i64(p.i) <= i64(st.ghost["whi"])), where,
                  "buffer_ptr inside the current buffer")
        ex.oblige(st, z3.Implies(g, P <= self.length), where, "not more than the specified output is delivered")
        ex.oblige(st, z3.Implies(z3.And(g, self.k0 < P, self.k0 < self.length), st.ghost["kv"] == self.value(self.k0)), where,
                  "every delivered unit is the specified one")
        return P

    def newwin(self, ex, st, P, good):
        lo, sp = ex.fresh("win", 64), ex.fresh("space", 64)
        ex.solver.add(lo > i64(st.ghost["whi"]), lo <= 1 << 61, sp >= self.minspace, sp <= 1 << 60)
        g2 = z3.Bool("good!%d" % next(ex.nfresh))
        ex.solver.add(z3.Implies(g2, good))
        ex.dom.setb(lo, -(1 << 61), 1 << 61)
        hi = z3.simplify(lo + sp)
        ex.dom.setb(hi, -(1 << 61), (1 << 61) + (1 << 60))
        st.ghost.update(wlo=lo, whi=hi, sh=z3.simplify(lo - P), good=g2)
        c = dict(st.mem[self.cell.id])
        c[8], c[16], c[24] = (8, Ptr(self.o, lo)), (8, Ptr(self.o, hi)), (1, g2)
        st.mem[self.cell.id] = c

    def c_recycle(self, ex, st, ins, a):
        w = "pre(recycle)"
        ex.oblige(st, isinstance(a[0], Ptr) and a[0].o is self.cell, w, "called on the destination")
        p, e, g = self.fields(ex, st, w)
        P = self.prefix(ex, st, p, g, w)
        ex.oblige(st, g == st.ghost["good"], w, "good() changes only by the destination itself")
        ex.flush(st)
        self.newwin(ex, st, P, g)
        return None

    def c_do_write(self, ex, st, ins, a):
        w = "pre(do_write)"
        ex.oblige(st, isinstance(a[0], Ptr) and a[0].o is self.cell, w, "called on the destination")
        p, e, g = self.fields(ex, st, w)
        data, n = a[1], ex.mat(a[2])
        ex.oblige(st, isinstance(data, Ptr) and data.o.kind in ("buf", "const", "cell") and data.b == 0, w, "data pointer")
        P = self.pos(st, p.i)
        N = i64(n)
        ex.oblige(st, N >= 0, w, "count")
        if data.o.kind == "buf":
            ex.oblige(st, ex.bnd_range(st, data.o, data.i, n), w, "data range readable")
            rel = z3.simplify(self.k0 - P)
            v = ex.buf_read(st, data.o, z3.simplify(i64(data.i) + rel))
            st.ghost["kv"] = z3.If(z3.And(rel >= 0, rel < N), self.unit(ex, v), st.ghost["kv"])
        else:
            raise Unsupported("do_write from " + data.o.kind)
        ex.oblige(st, z3.And(i64(st.ghost["wlo"]) <= i64(p.i), i64(p.i) <= i64(st.ghost["whi"])), w,
                  "buffer_ptr inside the current buffer")
        P2 = z3.simplify(P + N)
        ex.oblige(st, z3.Implies(g, P2 <= self.length), w, "not more than the specified output is delivered")
        ex.oblige(st, z3.Implies(z3.And(g, self.k0 < P2, self.k0 < self.length), st.ghost["kv"] == self.value(self.k0)), w,
                  "every delivered unit is the specified one")
        ex.flush(st)
        self.newwin(ex, st, P2, g)
        return None

    def final(self, ex, st, done=None):
        """postcondition at return"""
        w = "post(output)"
        p, e, g = self.fields(ex, st, w)
        P = self.prefix(ex, st, p, g, w)
        ex.oblige(st, i64(e.i) == i64(st.ghost["whi"]), w, "buffer_end unchanged")
        ex.oblige(st, g == st.ghost["good"], w, "good() changes only by the destination itself")
        ex.oblige(st, z3.Implies(g, P == self.length), w, "the complete output is delivered (unless the destination is bad)")

    # -- loop-invariant candidates
    def cands(self, ex, st, hv, entry, fr=None):
        ptrs = [k for k, v in hv.items() if isinstance(v, Ptr) and v.o is self.o]
        ints = [k for k, v in hv.items() if k[0] != "ghost" and not isinstance(v, (Ptr, PInt, BufMem, tuple)) and v is not UNDEF
                and not (z3.is_expr(v) and (z3.is_bool(v)))]
        G = lambda v, n: i64(v[("ghost", n)])
        gk = ("cell", self.cell.id, 24, 1)
        pk, ek = ("cell", self.cell.id, 8, 8), ("cell", self.cell.id, 16, 8)
        good = lambda v: v[gk] if z3.is_expr(v[gk]) else z3.BoolVal(bool(v[gk]))
        nm = lambda k: "%" + "_".join(map(str, k[1:]))
        idx = lambda v, k: i64(v[k].i)
        pos = lambda v, k: idx(v, k) - G(v, "sh")
        iv = lambda v, k: i64(ex.mat(v[k])) if not isinstance(v[k], PDiff) else i64(v[k].i)
        i64only = []
        for k in ints:
            v = hv[k]
            if isinstance(v, PDiff) or (z3.is_expr(v) and z3.is_int(v)):
                i64only.append(k)
        if ek in hv and isinstance(hv[ek], Ptr):
            yield ("buffer_end==whi", lambda v: idx(v, ek) == G(v, "whi"))
        if gk in hv:
            yield ("good==good_dst", lambda v: good(v) == v[("ghost", "good")])
            yield ("good", lambda v: good(v))
        for q in ptrs:
            if q == ek:
                continue
            yield ("wlo<=%s<=whi" % nm(q), lambda v, q=q: z3.And(G(v, "wlo") <= idx(v, q), idx(v, q) <= G(v, "whi")))
            yield ("0<=pos(%s)" % nm(q), lambda v, q=q: pos(v, q) >= 0)
            for gd, gl in ((lambda v: z3.BoolVal(True), ""), (good, "good=>")):
                if gl and gk not in hv:
                    continue
                for mi, M in enumerate([self.length] + list(self.marks)):
                    yield (gl + "pos(%s)<=%s" % (nm(q), "mark%d" % mi if mi else "len"), lambda v, q=q, gd=gd, M=M: z3.Implies(gd(v), pos(v, q) <= M))
                yield (gl + "forall k<pos(%s): out[k]==Spec(k)" % nm(q),
                       lambda v, q=q, gd=gd: z3.Implies(z3.And(gd(v), self.k0 < pos(v, q), self.k0 < self.length),
                                                        v[("ghost", "kv")] == self.value(self.k0)))
                for x in i64only:
                    for L in self.factors:
                        for mi, M in enumerate([self.length] + list(self.marks)):
                            yield (gl + "pos(%s)+%d*%s==%s" % (nm(q), L, nm(x), "mark%d" % mi if mi else "len"),
                                   lambda v, q=q, x=x, L=L, gd=gd, M=M: z3.Implies(gd(v), pos(v, q) + L * iv(v, x) == M))
            if pk in hv and q != pk:
                yield ("%s==buffer_ptr" % nm(q), lambda v, q=q: idx(v, q) == idx(v, pk))
                yield ("%s>=buffer_ptr" % nm(q), lambda v, q=q: idx(v, q) >= idx(v, pk))
            for x in i64only:
                for L in self.factors:
                    yield ("%s+%d*%s<=whi" % (nm(q), L, nm(x)), lambda v, q=q, x=x, L=L: idx(v, q) + L * iv(v, x) <= G(v, "whi"))
                    for sg in (1, -1):
                        yield ("%s-entry==%d*(%s-entry)" % (nm(q), sg * L, nm(x)),
                               lambda v, q=q, x=x, L=L, sg=sg: idx(v, q) - idx(entry, q) == sg * L * (iv(v, x) - iv(entry, x)))
        # a fixed base pointer indexed by a loop counter
        bases = {}
        if fr is not None:
            for r, b in fr.env.items():
                if ("phi", r) not in hv and isinstance(b, Ptr) and b.o is self.o and b.b == 0:
                    i = i64(b.i)
                    bases.setdefault(i.get_id(), (r, i))
        for r, b in list(bases.values())[-6:]:
            for x in i64only:
                if x[0] != "phi":
                    continue
                yield ("good=>forall k<pos(%%%s)+%s: out[k]==Spec(k)" % (r, nm(x)),
                       lambda v, b=b, x=x: z3.Implies(z3.And(good(v) if gk in v else True, self.k0 < b - G(v, "sh") + iv(v, x), self.k0 < self.length),
                                                      v[("ghost", "kv")] == self.value(self.k0)))
        for x in i64only:
            yield ("%s>=0" % nm(x), lambda v, x=x: iv(v, x) >= 0)
            yield ("%s<=entry" % nm(x), lambda v, x=x: iv(v, x) <= iv(entry, x))
