"""C12: transcoding through UTF-32, and into destinations, delivers what one transcoding of the whole source would"""
import itertools
import re
import z3
from exec import Obj, Ptr, Unsupported, UNDEF, PDiff
from dom import is_c
from driver import Task, Unit
from spec_fn import FnSpec
from spec_dst import Stream, i64

CH = {"c": ("char", 1), "u": ("char8_t", 1), "s": ("char16_t", 2), "i": ("char32_t", 4), "w": ("wchar_t", 4)}
COMPLETED, NOSPACE, UNSUPP, INVALID = 0, 1, 2, 3
EMAX = 1 << 50
HEAD = "#include <strf/to_string.hpp>\nusing namespace strf;\n"


class ChainSpec(FnSpec):
    """Ghost description of a transcoding in steps 0..KG (one step = one source sequence = one code point):
         B(k)  source units consumed by the first k steps        U(j)  the j-th output unit
         E(k)  output units written by the first k steps
       The decoder stops at step KG because of RG (end of the source or invalid sequence); the encoder at
       step KH <= KG (KH < KG: unsupported code point)."""

    def __init__(self, kind, s, d):
        FnSpec.__init__(self, None, None)
        self.kind, self.cs, self.cd, self.su, self.u = kind, s, d, CH[s][1], CH[d][1]
        self.dst = kind in ("tdst", "ddst")
        self.size = kind in ("dsize", "usize")
        self.two = kind != "tdst"

    # ---- ghost functions
    def bE(self, ex, k):
        e = self.E(k)
        return ex.dom.setb(e, 0, EMAX)

    def bB(self, ex, k):
        b = self.B(k)
        return ex.dom.setb(b, 0, 1 << 48)

    def facts(self, ex, k):
        """k is between 0 and KG"""
        ex.solver.add(self.B(k) >= 0, self.B(k) <= self.n, self.E(k) >= 0, self.E(k) <= EMAX, k >= 0, k <= self.KG)
        return k

    def mono(self, ex, a, b):
        """a <= b are steps"""
        ex.solver.add(self.B(a) <= self.B(b), self.E(a) <= self.E(b), z3.Implies(a == b, z3.And(self.B(a) == self.B(b), self.E(a) == self.E(b))))

    def setup(self, ex, st, fname):
        self.fname, D, add = fname, ex.dom, ex.solver.add
        self.B, self.E = z3.Function("B", z3.IntSort(), z3.IntSort()), z3.Function("E", z3.IntSort(), z3.IntSort())
        UF = z3.Function("OUT", z3.IntSort(), z3.IntSort())
        n = self.n = self.var(ex, "n", 64)
        self.KG, self.KH, self.RG = z3.Int("KG"), z3.Int("KH"), z3.Int("RG")
        add(n >= 0, n <= 1 << 48, self.KG >= 0, self.KG <= n, self.KH >= 0, self.KH <= self.KG, z3.Or(self.RG == COMPLETED, self.RG == INVALID))
        if not self.two:
            add(self.KH == self.KG)
            self.RG1 = z3.Int("RG1")
            add(z3.Or(self.RG1 == COMPLETED, self.RG1 == INVALID, self.RG1 == UNSUPP))
            D.setb(self.RG1, 0, 3)
        D.setb(n, 0, 1 << 48)
        for t in (self.KG, self.KH):
            D.setb(t, 0, 1 << 48)
        D.setb(self.RG, 0, 3)
        add(self.B(0) == 0, self.E(0) == 0)
        for t in (self.KG, self.KH):
            self.facts(ex, t)
        self.mono(ex, self.KH, self.KG)

        def value(k):
            v = UF(k)
            add(v >= 0, v < 1 << (8 * self.u))
            return D.setb(v, 0, (1 << (8 * self.u)) - 1)
        self.U = value
        self.s = Stream(self.u, 64, self.E(self.KH), value)
        d = self.s.setup(ex, st, None if self.dst else True)
        st.ghost.update(k=0, kb=0, km=0)
        self.sbuf = ex.new_buf(st, "src", self.su, n, ro=True)
        self.nt = ex.new_cell(st, "notifier", 8)
        self.flags = self.var(ex, "flags", 32)
        self.out = ex.new_cell(st, "out", 24)
        f = lambda nm: Ptr(Obj(nm, "func", 1, 1, True))
        ex.contracts["to_u32"] = self.c_dec
        ex.contracts["from_u32"] = self.c_enc
        ex.contracts["tr_func"] = self.c_tr
        ex.contracts["size_func"] = self.c_size
        src, end = Ptr(self.sbuf, 0), Ptr(self.sbuf, n)
        o = Ptr(self.out)
        sp = st.ghost["whi"]
        self.sp = sp
        if self.kind == "tdst":
            a = [o, f("tr_func"), src, end, d, Ptr(self.nt), self.flags]
        elif self.kind == "ddst":
            a = [o, f("to_u32"), f("from_u32"), src, end, d, Ptr(self.nt), self.flags]
        elif self.kind == "dbuf":
            a = [o, f("to_u32"), f("from_u32"), src, end, Ptr(self.s.o, 0), Ptr(self.s.o, sp), Ptr(self.nt), self.flags]
        else:
            lim = self.lim = self.var(ex, "limit", 64)
            add(lim >= 0)
            D.setb(lim, 0, (1 << 63) - 1)
            a = [o, f("to_u32"), f("size_func"), src, end, lim, self.flags]
        ex.start(st, fname, a)

    def put(self, ex, st, p, fields):
        if not isinstance(p, Ptr) or p.o.kind != "cell" or not is_c(p.i):
            raise Unsupported("result pointer")
        c = dict(st.mem[p.o.id])
        for off, sz, v in fields:
            c[p.i + off] = (sz, v)
        st.mem[p.o.id] = c

    # ---- contracts of the functions given
    def src_args(self, ex, st, w, a, e, k):
        ok = isinstance(a, Ptr) and a.o is self.sbuf and a.b == 0 and isinstance(e, Ptr) and e.o is self.sbuf and e.b == 0
        ex.oblige(st, ok, w, "source pointers")
        ex.oblige(st, i64(a.i) == self.B(i64(k)), w, "continues where the last call stopped")
        ex.oblige(st, i64(e.i) == self.n, w, "end of the source")

    def nf(self, ex, st, w, nt, fl, null=False):
        if null:
            ex.oblige(st, is_c(nt) or (isinstance(nt, Ptr) and nt.o.kind == "null"), w, "nothing is notified when calculating the size")
        else:
            ex.oblige(st, isinstance(nt, Ptr) and nt.o is self.nt, w, "the error notifier")
        ex.oblige(st, ex.dom.U(ex.mat(fl), 32)[0] == ex.dom.U(self.flags, 32)[0], w, "flags")

    def step(self, ex, st, nm, k, lim):
        k2 = ex.fresh(nm, 64)
        ex.solver.add(k2 >= k, k2 <= lim)
        ex.dom.setb(k2, 0, 1 << 48)
        self.facts(ex, k2)
        self.mono(ex, i64(k), k2)
        self.mono(ex, k2, lim)
        self.bE(ex, k2)
        self.bB(ex, k2)
        return k2

    def reason(self, ex, conds):
        r = ex.fresh("reason", 32)
        ex.solver.add(r >= 0, r <= 3, *[z3.Implies(c, r == v) for c, v in conds])
        return ex.dom.setb(r, 0, 3)

    def dst_args(self, ex, st, w, p, e):
        ok = isinstance(p, Ptr) and p.o is self.s.o and p.b == 0 and isinstance(e, Ptr) and e.o is self.s.o and e.b == 0
        ex.oblige(st, ok, w, "destination pointers")
        pi, ei = i64(p.i), i64(e.i)
        ex.oblige(st, z3.And(i64(st.ghost["wlo"]) <= pi, pi <= ei, ei <= i64(st.ghost["whi"])), w, "the destination range is inside the buffer")
        return pi, ei

    def write(self, ex, st, w, p, k, k2):
        """units E(k)..E(k2) are written at p"""
        E0 = self.E(k)
        ex.oblige(st, z3.Implies(st.ghost["good"], self.s.pos(st, p.i) == E0), w, "written where the last call stopped")
        ex.buf_write_range(st, p.o, p.i, self.E(k2) - E0, lambda rel: self.U(z3.simplify(E0 + rel)))

    def c_tr(self, ex, st, ins, a):
        w = "pre(transcode function)"
        k = i64(st.ghost["k"])
        self.src_args(ex, st, w, a[1], a[2], k)
        pi, ei = self.dst_args(ex, st, w, a[3], a[4])
        self.nf(ex, st, w, a[5], a[6])
        k2 = self.step(ex, st, "k", k, self.KH)
        ex.solver.add(self.E(k2) - self.E(k) <= ei - pi)
        self.write(ex, st, w, a[3], k, k2)
        st.ghost["k"] = k2
        r = self.reason(ex, [(k2 == self.KH, self.RG1), (k2 < self.KH, NOSPACE)])
        self.put(ex, st, a[0], ((0, 8, Ptr(self.sbuf, self.bB(ex, k2))), (8, 8, Ptr(self.s.o, z3.simplify(pi + self.E(k2) - self.E(k)))), (16, 4, r)))

    def c_dec(self, ex, st, ins, a):
        w = "pre(to_u32)"
        k = i64(st.ghost["k"])
        self.src_args(ex, st, w, a[1], a[2], k)
        ex.oblige(st, k == i64(st.ghost["kb"]) + i64(st.ghost["km"]), w, "everything decoded has been encoded")
        self.nf(ex, st, w, a[5], a[6], self.size)
        p, e = a[3], a[4]
        ok = isinstance(p, Ptr) and isinstance(e, Ptr) and p.o.kind == "cell" and p.o is e.o and is_c(p.i) and is_c(e.i) and p.i == 0 and 0 < e.i <= (p.o.size or 0)
        ex.oblige(st, bool(ok), w, "the pivot buffer")
        if not ok:
            raise Unsupported("pivot buffer")
        self.pivot = p.o
        k2 = self.step(ex, st, "kdec", k, self.KG)
        m = e.i // 4
        ex.solver.add(k2 - k <= m, z3.Implies(k2 < self.KG, k2 - k == m))
        st.ghost["kb"], st.ghost["km"] = k, z3.simplify(k2 - k)
        ex.dom.setb(st.ghost["km"], 0, m)
        st.mem[p.o.id] = {o: (sz, UNDEF) for o, (sz, v) in st.mem[p.o.id].items()}
        r = self.reason(ex, [(k2 == self.KG, self.RG), (k2 < self.KG, NOSPACE)])
        pe = ex.dom.setb(z3.simplify(4 * (k2 - k)), 0, 4 * m)
        self.put(ex, st, a[0], ((0, 8, Ptr(self.sbuf, self.bB(ex, k2))), (8, 8, Ptr(p.o, pe)), (16, 4, r)))

    def pivot_args(self, ex, st, w, p, e):
        kb, km, k = [i64(st.ghost[x]) for x in ("kb", "km", "k")]
        ok = isinstance(p, Ptr) and isinstance(e, Ptr) and p.o is e.o and p.o is getattr(self, "pivot", None)
        ex.oblige(st, bool(ok), w, "the pivot buffer")
        if not ok:
            raise Unsupported("pivot buffer")
        ex.oblige(st, z3.And(i64(p.i) == 4 * (k - kb), i64(e.i) == 4 * km), w, "the code points decoded and not encoded yet")
        lim = ex.fresh("kstop", 64)
        ex.solver.add(lim == z3.If(self.KH < kb + km, self.KH, kb + km))
        ex.dom.setb(lim, 0, 1 << 48)
        self.facts(ex, lim)
        self.mono(ex, k, lim)
        self.mono(ex, lim, self.KH)
        k2 = self.step(ex, st, "kenc", k, lim)
        return k, k2, kb, km, lim

    def c_enc(self, ex, st, ins, a):
        w = "pre(from_u32)"
        pi, ei = self.dst_args(ex, st, w, a[3], a[4])
        self.nf(ex, st, w, a[5], a[6])
        k, k2, kb, km, lim = self.pivot_args(ex, st, w, a[1], a[2])
        ex.solver.add(self.E(k2) - self.E(k) <= ei - pi)
        self.write(ex, st, w, a[3], k, k2)
        st.ghost["k"] = k2
        r = self.reason(ex, [(k2 == kb + km, COMPLETED), (z3.And(k2 == lim, lim < kb + km), UNSUPP), (k2 < lim, NOSPACE)])
        pe = ex.dom.setb(z3.simplify(4 * (k2 - kb)), 0, 4096)
        self.put(ex, st, a[0], ((0, 8, Ptr(a[1].o, pe)), (8, 8, Ptr(self.s.o, z3.simplify(pi + self.E(k2) - self.E(k)))), (16, 4, r)))

    def c_size(self, ex, st, ins, a):
        w = "pre(size function)"
        lim = ex.dom.S(ex.mat(a[3]), 64)[0]
        k, k2, kb, km, stop = self.pivot_args(ex, st, w, a[1], a[2])
        ex.oblige(st, lim == self.lim - self.E(k), w, "the limit is what remains of the limit")
        ex.oblige(st, ex.dom.U(ex.mat(a[4]), 32)[0] == ex.dom.U(self.flags, 32)[0], w, "flags")
        sz = ex.dom.setb(z3.simplify(self.E(k2) - self.E(k)), 0, EMAX)
        ex.solver.add(sz <= lim)
        st.ghost["k"] = k2
        r = self.reason(ex, [(k2 == kb + km, COMPLETED), (z3.And(k2 == stop, stop < kb + km), UNSUPP), (k2 < stop, NOSPACE)])
        pe = ex.dom.setb(z3.simplify(4 * (k2 - kb)), 0, 4096)
        self.put(ex, st, a[0], ((0, 8, sz), (8, 8, Ptr(a[1].o, pe)), (16, 4, r)))

    # ---- loop invariants
    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        G = lambda v, n: i64(v[("ghost", n)])
        iv = lambda v, x: i64(ex.mat(v[x])) if not isinstance(v[x], PDiff) else i64(v[x].i)
        yield ("0<=k<=KH", lambda v: z3.And(G(v, "k") >= 0, G(v, "k") <= self.KH))
        yield ("kb<=k", lambda v: z3.And(G(v, "kb") >= 0, G(v, "kb") <= G(v, "k"), self.B(G(v, "kb")) <= self.n, self.B(G(v, "kb")) >= 0, self.E(G(v, "k")) >= 0, self.E(G(v, "k")) <= EMAX))
        yield ("E(k)<=E(KH)", lambda v: self.E(G(v, "k")) <= self.E(self.KH))
        yield ("kb+km<=KG", lambda v: z3.And(G(v, "kb") + G(v, "km") <= self.KG, G(v, "km") >= 0))
        yield ("k<=kb+km", lambda v: G(v, "k") <= G(v, "kb") + G(v, "km"))
        yield ("k==kb+km", lambda v: G(v, "k") == G(v, "kb") + G(v, "km"))
        for q, x in hv.items():
            if isinstance(x, Ptr) and x.o is self.sbuf:
                yield ("src==B(k)", lambda v, q=q: i64(v[q].i) == self.B(G(v, "k")))
                yield ("src==B(kb)", lambda v, q=q: i64(v[q].i) == self.B(G(v, "kb")))
            elif isinstance(x, Ptr) and x.o is self.s.o:
                yield ("dst==E(k)", lambda v, q=q: z3.Implies(v[("ghost", "good")], i64(v[q].i) - G(v, "sh") == self.E(G(v, "k"))))
            elif isinstance(x, Ptr) and x.o is getattr(self, "pivot", 0):
                yield ("pivot==k-kb", lambda v, q=q: i64(v[q].i) == 4 * (G(v, "k") - G(v, "kb")))
            elif q[0] != "ghost" and ((z3.is_expr(x) and z3.is_int(x)) or isinstance(x, PDiff)):
                yield ("count==E(k)", lambda v, q=q: iv(v, q) == self.E(G(v, "k")))
                if self.size:
                    yield ("limit==limit0-E(k)", lambda v, q=q: iv(v, q) == self.lim - self.E(G(v, "k")))
        yield from self.s.cands(ex, st, hv, entry, fr)

    def on_return(self, ex, st, ret):
        ob = lambda c, m: ex.oblige(st, c, "post(result)", m)
        o = st.mem[self.out.id]
        f0, f1, f2, f3 = [o.get(x, (0, None))[1] for x in (0, 8, 16, 20)]
        if not self.two:
            f2, f3 = 0, f2
        ob(all(x is not None and x is not UNDEF for x in (f0, f1, f2, f3)), "written")
        k, kb = i64(st.ghost["k"]), i64(st.ghost["kb"])
        r = i64(ex.dom.U(ex.mat(f3), 32)[0])
        src = f0 if self.kind == "dbuf" else f1
        ob(isinstance(src, Ptr) and src.o is self.sbuf and src.b == 0, "source pointer")
        dist = i64(ex.dom.S(ex.mat(f2), 32)[0])
        R = self.RG if self.two else self.RG1
        # all steps done: the reason is the decoder's; the position is the end or the stopping sequence
        full = z3.And(k == self.KH, self.KH == self.KG)
        if self.two:
            ob(z3.Or(z3.And(dist == 0, i64(src.i) == self.B(k)), z3.And(i64(src.i) == self.B(kb), dist == k - kb)),
               "the source position is that of the last sequence delivered")
        else:
            ob(i64(src.i) == self.B(k), "the source position is that of the last sequence delivered")
        if self.kind == "dbuf":
            d = f1
            ob(isinstance(d, Ptr) and d.o is self.s.o and d.b == 0, "destination pointer")
            ob(i64(d.i) == self.E(k), "the end of the output")
            ob(z3.Implies(z3.And(self.s.k0 < self.E(k)), st.ghost["kv"] == self.U(self.s.k0)), "every unit is the specified one")
        else:
            ob(i64(ex.dom.S(ex.mat(f0), 64)[0]) == self.E(k), "the count is the number of units")
        if self.dst:
            g = st.ghost["good"]
            ob(z3.Implies(g, k == self.KH), "everything is delivered, unless the destination is bad")
            ob(z3.Implies(z3.And(g, full), r == R), "stop reason")
            ob(z3.Implies(z3.And(g, self.KH < self.KG), r == UNSUPP), "stop reason (unsupported)")
            ob(z3.Implies(z3.Not(g), z3.Or(r == NOSPACE, z3.And(full, r == R), z3.And(k == self.KH, self.KH < self.KG, r == UNSUPP))), "stop reason (destination bad)")
            self.s.final(ex, st)
        else:
            ob(z3.Implies(r == NOSPACE, k < self.KH), "insufficient space only if something is left")
            ob(z3.Implies(z3.And(k < self.KH), r == NOSPACE), "stops early only for lack of space")
            ob(z3.Implies(z3.And(k == self.KH, self.KH < self.KG), r == UNSUPP), "stop reason (unsupported)")
            ob(z3.Implies(full, r == R), "stop reason")
            if self.size:
                ob(self.E(k) <= self.lim, "the size is not above the limit")


# ---- the functions of the API that take charsets: which transcoders are called, and with what
CS = {"u8": ("utf8_t<char>", "c", "c", 73728838), "u16": ("utf16_t<char16_t>", "s", "Ds", 70896392), "u32": ("utf32_t<char32_t>", "i", "Di", 1740538018),
      "i3": ("iso_8859_3_t<char>", "c", "c", "impl_iso_8859_3"), "w52": ("windows_1252_t<char>", "c", "c", "impl_windows_1252"), "uw": ("utf_t<wchar_t>", "w", "w", 1740538018)}


def parse_transcoder(name):
    m = re.search(r"static_transcoderI(c|Du|Ds|Di|w)(c|Du|Ds|Di|w)LNS_10charset_idE(\d+)ELS\w*_(\d+)EE\d+(unsafe_)?transcode(_size)?E", name)
    if m:
        return (m.group(1), int(m.group(3))), (m.group(2), int(m.group(4))), bool(m.group(5)), bool(m.group(6))
    m = re.search(r"single_byte_charset_to_(utf32|itself)I(c|Du)(Di|c|Du|w)NS0_\d+(impl_\w+?)E+\d+(unsafe_)?transcode(_size)?E", name)
    if m:
        s = (m.group(2), m.group(4))
        return s, (s if m.group(1) == "itself" else (m.group(3), 1740538018)), bool(m.group(5)), bool(m.group(6))
    m = re.search(r"utf32_to_single_byte_charsetI(Di|w)(c|Du)NS0_\d+(impl_\w+?)E+\d+(unsafe_)?transcode(_size)?E", name)
    if m:
        return (m.group(1), 1740538018), (m.group(2), m.group(3)), bool(m.group(4)), bool(m.group(5))
    m = re.search(r"bypass_unsafe_transcodeI(Di|w)(Di|w)E", name)       # UTF-32 to UTF-32: a copy
    if m:
        return (m.group(1), 1740538018), (m.group(2), 1740538018), True, False
    return None


class ApiSpec(FnSpec):
    """one call of the right transcoder (or of the decode-encode loop with the right two) on the arguments given, whose result is the result"""

    def __init__(self, kind, unsafe, sc, dc):
        FnSpec.__init__(self, None, None)
        self.kind, self.unsafe, self.sc, self.dc = kind, unsafe, sc, dc

    def setup(self, ex, st, fname):
        self.fname, D = fname, ex.dom
        n, m, lim, self.flags = self.var(ex, "n", 64), self.var(ex, "m", 64), self.var(ex, "limit", 64), self.var(ex, "flags", 32)
        for t, lo, hi in ((n, 0, 1 << 48), (m, 0, 1 << 48), (lim, -(1 << 63), (1 << 63) - 1)):
            ex.solver.add(t >= lo, t <= hi)
            D.setb(t, lo, hi)
        self.n, self.m, self.lim = n, m, lim
        self.sbuf = ex.new_buf(st, "src", CH[CS[self.sc][1]][1], n, ro=True)
        self.nt = ex.new_cell(st, "notifier", 8)
        self.out = ex.new_cell(st, "out", 24)
        self.dobj = ex.new_cell(st, "dst-object", 32)
        self.dbuf = ex.new_buf(st, "dst", CH[CS[self.dc][1]][1], m)
        st.ghost["calls"] = 0
        ex.contracts["re:^_ZN4strf9transcodeI"] = self.c_tdst
        ex.contracts["re:^_ZN4strf(13decode_encode|20unsafe_decode_encode)I"] = self.c_de
        ex.contracts["re:^_ZN4strf(18decode_encode_size|25unsafe_decode_encode_size)I"] = self.c_des
        ex.contracts["re:(9transcodeE|16unsafe_transcodeE)"] = self.c_direct
        ex.contracts["re:bypass_unsafe_transcodeI"] = self.c_direct
        ex.contracts["re:(14transcode_sizeE|21unsafe_transcode_sizeE)"] = self.c_dsize
        s, e, o = Ptr(self.sbuf, 0), Ptr(self.sbuf, n), Ptr(self.out)
        if self.kind == "buf":
            a = [o, s, e, Ptr(self.dbuf, 0), Ptr(self.dbuf, m), Ptr(self.nt), self.flags]
        elif self.kind == "dst":
            a = [o, s, e, Ptr(self.dobj), Ptr(self.nt), self.flags]
        else:
            a = [o, s, e, lim, self.flags]
        ex.start(st, fname, a)

    def once(self, ex, st, w):
        ex.oblige(st, i64(st.ghost["calls"]) == 0, w, "called once")
        st.ghost["calls"] = 1

    def srcs(self, ex, st, w, a, e):
        ok = isinstance(a, Ptr) and a.o is self.sbuf and a.b == 0 and isinstance(e, Ptr) and e.o is self.sbuf and e.b == 0
        ex.oblige(st, ok, w, "source pointers")
        ex.oblige(st, z3.And(i64(a.i) == 0, i64(e.i) == self.n), w, "the source given")

    def dsts(self, ex, st, w, a, e):
        ok = isinstance(a, Ptr) and a.o is self.dbuf and a.b == 0 and isinstance(e, Ptr) and e.o is self.dbuf and e.b == 0
        ex.oblige(st, ok, w, "destination pointers")
        ex.oblige(st, z3.And(i64(a.i) == 0, i64(e.i) == self.m), w, "the destination given")

    def dst(self, ex, st, w, d):
        ex.oblige(st, isinstance(d, Ptr) and d.o is self.dobj and d.i == 0, w, "the destination given")

    def nf(self, ex, st, w, nt, fl):
        if nt is not None:
            ex.oblige(st, isinstance(nt, Ptr) and nt.o is self.nt, w, "the error notifier given")
        ex.oblige(st, ex.dom.U(ex.mat(fl), 32)[0] == ex.dom.U(self.flags, 32)[0], w, "the flags given")

    def limit(self, ex, st, w, l):
        ex.oblige(st, ex.dom.S(ex.mat(l), 64)[0] == self.lim, w, "the limit given")

    def name(self, ex, st, v):
        if isinstance(v, Ptr) and v.o.kind == "func":
            return v.o.name
        raise Unsupported("function pointer")

    def func(self, ex, st, w, name, src, dst, size, dec=False):
        g = parse_transcoder(name)
        if g is None:
            raise Unsupported("transcoder " + name)
        ex.oblige(st, g[0] == src and g[1] == dst, w, "the transcoder is the one of the charsets: %s" % (g[:2],))
        ex.oblige(st, g[3] == size, w, "kind of function")
        if dec and not self.unsafe:
            ex.oblige(st, not g[2], w, "not the unsafe version")
        return g

    def ids(self):
        S, D = CS[self.sc], CS[self.dc]
        return (S[2], S[3]), (D[2], D[3]), ("Di", 1740538018)

    def res(self, ex, st, p, direct, size):
        """fresh results"""
        r0, r1, dist, rs = [ex.fresh(x, 64) for x in ("r0", "r1", "u32dist", "reason")]
        D = ex.dom
        ex.solver.add(r0 >= 0, r0 <= 1 << 48, r1 >= 0, r1 <= self.n, dist >= 0, dist <= 64, rs >= 0, rs <= 3)
        for t, h in ((r0, 1 << 48), (r1, 1 << 48), (dist, 64), (rs, 3)):
            D.setb(t, 0, h)
        if direct:
            dist = 0
        if size:
            f = [(0, 8, r0), (8, 8, Ptr(self.sbuf, r1))]
        else:
            ex.solver.add(r0 <= self.m)
            f = [(0, 8, Ptr(self.sbuf, r1)), (8, 8, Ptr(self.dbuf, r0))]
        f += [(16, 4, rs)] if direct else [(16, 4, dist), (20, 4, rs)]
        c = dict(st.mem[p.o.id])
        for off, sz, v in f:
            c[p.i + off] = (sz, v)
        st.mem[p.o.id] = c
        st.ghost.update(r0=r0, r1=r1, dist=dist, rs=rs)

    def callee(self, st, ins):
        return ins.a[0][1] if ins.a[0][0] != "reg" else st.frames[-1].env[ins.a[0][1]].o.name

    def c_direct(self, ex, st, ins, a):
        w = "pre(transcoder)"
        self.once(ex, st, w)
        S, D, U = self.ids()
        self.func(ex, st, w, self.callee(st, ins), S, D, False, True)
        self.srcs(ex, st, w, a[1], a[2])
        self.dsts(ex, st, w, a[3], a[4])
        self.nf(ex, st, w, a[5], a[6])
        self.res(ex, st, a[0], True, False)

    def c_dsize(self, ex, st, ins, a):
        w = "pre(size function)"
        self.once(ex, st, w)
        S, D, U = self.ids()
        self.func(ex, st, w, self.callee(st, ins), S, D, True, True)
        self.srcs(ex, st, w, a[1], a[2])
        self.limit(ex, st, w, a[3])
        self.nf(ex, st, w, None, a[4])
        self.res(ex, st, a[0], True, True)

    def c_tdst(self, ex, st, ins, a):
        w = "pre(transcode to destination)"
        self.once(ex, st, w)
        S, D, U = self.ids()
        self.func(ex, st, w, self.name(ex, st, a[1]), S, D, False, True)
        self.srcs(ex, st, w, a[2], a[3])
        self.dst(ex, st, w, a[4])
        self.nf(ex, st, w, a[5], a[6])
        self.res(ex, st, a[0], True, True)

    def c_de(self, ex, st, ins, a):
        w = "pre(decode_encode)"
        self.once(ex, st, w)
        S, D, U = self.ids()
        self.func(ex, st, w, self.name(ex, st, a[1]), S, U, False, True)
        self.func(ex, st, w, self.name(ex, st, a[2]), U, D, False)
        self.srcs(ex, st, w, a[3], a[4])
        if self.kind == "buf":
            self.dsts(ex, st, w, a[5], a[6])
            self.nf(ex, st, w, a[7], a[8])
        else:
            self.dst(ex, st, w, a[5])
            self.nf(ex, st, w, a[6], a[7])
        self.res(ex, st, a[0], False, self.kind != "buf")

    def c_des(self, ex, st, ins, a):
        w = "pre(decode_encode_size)"
        self.once(ex, st, w)
        S, D, U = self.ids()
        self.func(ex, st, w, self.name(ex, st, a[1]), S, U, False, True)
        self.func(ex, st, w, self.name(ex, st, a[2]), U, D, True)
        self.srcs(ex, st, w, a[3], a[4])
        self.limit(ex, st, w, a[5])
        self.nf(ex, st, w, None, a[6])
        self.res(ex, st, a[0], False, True)

    def on_return(self, ex, st, ret):
        ob = lambda c, m: ex.oblige(st, c, "post(result)", m)
        ob(i64(st.ghost["calls"]) == 1, "transcoded exactly once")
        if "r0" not in st.ghost:
            return
        o, G = st.mem[self.out.id], st.ghost
        f = [o.get(x, (0, None))[1] for x in (0, 8, 16, 20)]
        ob(all(x is not None and x is not UNDEF for x in f), "written")
        src = f[0] if self.kind == "buf" else f[1]
        ob(isinstance(src, Ptr) and src.o is self.sbuf and src.b == 0, "source pointer")
        ob(i64(src.i) == G["r1"], "the source position is the one returned")
        if self.kind == "buf":
            ob(isinstance(f[1], Ptr) and f[1].o is self.dbuf and f[1].b == 0, "destination pointer")
            ob(i64(f[1].i) == G["r0"], "the destination position is the one returned")
        else:
            ob(i64(ex.dom.S(ex.mat(f[0]), 64)[0]) == G["r0"], "the count is the one returned")
        ob(i64(ex.dom.S(ex.mat(f[2]), 32)[0]) == G["dist"], "u32dist")
        ob(i64(ex.dom.U(ex.mat(f[3]), 32)[0]) == G["rs"], "the stop reason is the one returned")


API_N = [r"^_ZN4strf9transcodeI.*PFNS_16transcode_result", r"^_ZN4strf(13decode_encode|20unsafe_decode_encode|18decode_encode_size|25unsafe_decode_encode_size)I.*PFNS_",
         r"(static_transcoder|single_byte_charset_to|utf32_to_single_byte).*\d(unsafe_)?transcode(_size)?E", r"bypass_unsafe_transcodeI"]
API = {"buf": ('extern "C" void %(fn)s(decode_encode_result<%(S)s, %(D)s>* o, const %(S)s* s, const %(S)s* e, %(D)s* d, %(D)s* de, transcoding_error_notifier* n, transcode_flags fl) { *o = %(f)s(%(C)ss, e, d, de, n, fl); }\n'),
       "dst": ('extern "C" void %(fn)s(decode_encode_size_result<%(S)s>* o, const %(S)s* s, const %(S)s* e, destination<%(D)s>& d, transcoding_error_notifier* n, transcode_flags fl) { *o = %(f)s(%(C)ss, e, d, n, fl); }\n'),
       "size": ('extern "C" void %(fn)s(decode_encode_size_result<%(S)s>* o, const %(S)s* s, const %(S)s* e, long lim, transcode_flags fl) { *o = %(f)s(%(C)ss, e, lim, fl); }\n')}


def nat(sex, dex, S, D, kind, uns, f, dr):
    g = lambda x: "strf::" + x
    return ("chain.cpp|-DSEX=%s|-DDEX=%s|-DSCH=%s|-DDCH=%s|-DKIND=%d|-DUNS=%d|-DFN=%s|-DDIR=%d" % (g(sex), g(dex), S, D, kind, uns, f, dr), [])


def api_units(tier):
    us = []
    th = tier == "thorough"
    prs = [("u8", "u16"), ("u8", "i3"), ("i3", "u8"), ("i3", "i3"), ("i3", "w52"), ("u32", "i3"), ("i3", "u32"), ("u16", "u16")]
    if th:
        prs = list(itertools.product(("u8", "u16", "u32", "i3", "w52"), repeat=2)) + [("uw", "u8"), ("i3", "uw"), ("uw", "i3"), ("u16", "uw")]
    for kind in API:
        for unsafe in (False, True):
            for de in (False, True):
                fns, tasks = "", []
                for s, d in prs:
                    for ds, dd in list(itertools.product((False, True), repeat=2)) + [("t", "t")]:
                        name = ("unsafe_" if unsafe else "") + ("decode_encode" if de else "transcode") + ("_size" if kind == "size" else "")
                        if unsafe and de and kind == "dst":
                            continue
                        c = lambda x, dyn: CS[x][0] + "{}" + (".to_dynamic()" if dyn else "")
                        tt = ds == "t"
                        fn = "f_%s_%s_%s_%s%s" % (kind, name, s, d, "t" if tt else "%d%d" % (ds, dd))
                        tn = lambda x, whole: CS[x][0] if whole else CS[x][0].split("<")[0]
                        S, Dn = CH[CS[s][1]][0], CH[CS[d][1]][0]
                        f = "strf::" + name + ("<%s, %s>" % (tn(s, False), tn(d, kind == "size")) if tt else "")
                        fns += API[kind] % dict(fn=fn, S=S, D=Dn, f=f, C="" if tt else "%s, %s, " % (c(s, ds), c(d, dd)))
                        var = " (template arguments)" if tt else ""
                        tasks.append(Task("%s (%s) %s%s to %s%s%s" % (name, kind, s, " dynamic" if ds is True else "", d, " dynamic" if dd is True else "", var), fn,
                                          (lambda kind=kind, unsafe=unsafe, s=s, d=d: ApiSpec(kind, unsafe, s, d)), dom="lin",
                                          native=nat(c(s, ds is True), c(d, dd is True), S, Dn, {"buf": 0, "dst": 1, "size": 2}[kind], unsafe, f, 3 if tt else 0)))
                if tasks:
                    us.append(Unit("api_%s%s%s" % (kind, "_unsafe" if unsafe else "", "_de" if de else ""), HEAD + fns, [t.fn for t in tasks], tasks, noinline=API_N))
    return us


SRCA = "const %(S)s* s, const %(S)s* e"
W = {
    "tdst": 'extern "C" void %(fn)s(transcode_size_result<%(S)s>* o, transcode_f<%(S)s, %(D)s> f, ' + SRCA + ', destination<%(D)s>& d, transcoding_error_notifier* n, transcode_flags fl) { *o = transcode(f, s, e, d, n, fl); }\n',
    "ddst": 'extern "C" void %(fn)s(decode_encode_size_result<%(S)s>* o, transcode_f<%(S)s, char32_t> f, transcode_f<char32_t, %(D)s> g, ' + SRCA + ', destination<%(D)s>& d, transcoding_error_notifier* n, transcode_flags fl) { *o = decode_encode(f, g, s, e, d, n, fl); }\n',
    "dbuf": 'extern "C" void %(fn)s(decode_encode_result<%(S)s, %(D)s>* o, transcode_f<%(S)s, char32_t> f, transcode_f<char32_t, %(D)s> g, ' + SRCA + ', %(D)s* d, %(D)s* de, transcoding_error_notifier* n, transcode_flags fl) { *o = decode_encode(f, g, s, e, d, de, n, fl); }\n',
    "ubuf": 'extern "C" void %(fn)s(decode_encode_result<%(S)s, %(D)s>* o, transcode_f<%(S)s, char32_t> f, transcode_f<char32_t, %(D)s> g, ' + SRCA + ', %(D)s* d, %(D)s* de, transcoding_error_notifier* n, transcode_flags fl) { *o = unsafe_decode_encode(f, g, s, e, d, de, n, fl); }\n',
    "dsize": 'extern "C" void %(fn)s(decode_encode_size_result<%(S)s>* o, transcode_f<%(S)s, char32_t> f, transcode_size_f<char32_t> g, ' + SRCA + ', long lim, transcode_flags fl) { *o = decode_encode_size(f, g, s, e, lim, fl); }\n',
    "usize": 'extern "C" void %(fn)s(decode_encode_size_result<%(S)s>* o, transcode_f<%(S)s, char32_t> f, transcode_size_f<char32_t> g, ' + SRCA + ', long lim, transcode_flags fl) { *o = unsafe_decode_encode_size(f, g, s, e, lim, fl); }\n',
}


def units(tier):
    us = []
    for kind in W:
        ps = [("c", "s"), ("s", "c")] if not kind.endswith("size") else [("c", "c"), ("s", "s")]
        if tier == "thorough":
            ps = list(itertools.product("csi", "csi")) + [("w", "u"), ("u", "w")] if not kind.endswith("size") else [(c, c) for c in "csiwu"]
        fns, tasks = "", []
        for s, d in ps:
            fn = "f_%s_%s%s" % (kind, s, d)
            fns += W[kind] % dict(fn=fn, S=CH[s][0], D=CH[d][0])
            tasks.append(Task("%s %s->%s" % (kind, CH[s][0], CH[d][0]), fn, (lambda kind=kind, s=s, d=d: ChainSpec({"ubuf": "dbuf"}.get(kind, kind), s, d)), dom="lin",
                              native=nat(X[s], X[d if not kind.endswith("size") else "c"], CH[s][0], CH[d if not kind.endswith("size") else "c"][0],
                                         {"tdst": 1, "ddst": 1, "dbuf": 0, "ubuf": 0, "dsize": 2, "usize": 2}[kind], kind[0] == "u",
                                         "strf::" + {"tdst": "transcode", "ddst": "decode_encode", "dbuf": "decode_encode", "ubuf": "unsafe_decode_encode",
                                                     "dsize": "decode_encode_size", "usize": "unsafe_decode_encode_size"}[kind], 2 if kind == "tdst" else 1)))
        us.append(Unit("chain_" + kind, HEAD + fns, sorted({t.fn for t in tasks}), tasks))
    return us + api_units(tier)


X = {"c": "utf8_t<char>{}", "u": "utf8_t<char8_t>{}", "s": "utf16_t<char16_t>{}", "i": "utf32_t<char32_t>{}", "w": "utf_t<wchar_t>{}"}


def replay_args(task, m):
    g = lambda k: str(int(m.get(k, 0)))
    return ["--replay", g("n"), g("m" if "m" in m else "limit"), g("flags")]


TRUST = ["contract of a transcoder function (proved by C01 to C03, C05, C06 for the library's): it writes the output of a whole number of source sequences, as many as fit, and says where it stopped and why",
         "a decoder to UTF-32 writes one code point per source sequence",
         "contract of destination's virtual functions (documented interface)"]
ASSUME = ["source length at most 2^48 units, output at most 2^50",
          "charsets represented by UTF-8, UTF-16, UTF-32, ISO-8859-3 and windows-1252, static and dynamic (the functions are generic over charsets)"]
LEVEL = "proof"
