"""C11: strings, characters and booleans are printed with their alignment, precision and transcoding"""
import itertools
import re
import z3
from exec import Ptr, Unsupported, UNDEF
from dom import is_c
from driver import Task, Unit
from spec_fn import FnSpec
from spec_dst import Stream, i64
import spec_txt as T

CH = {"c": ("char", 1), "u": ("char8_t", 1), "s": ("char16_t", 2), "i": ("char32_t", 4), "w": ("wchar_t", 4)}
MANG = {"c": "c", "u": "Du", "s": "Ds", "i": "Di", "w": "w"}
IDS = {1: 73728838, 2: 70896392, 4: 1740538018}     # charset_id of UTF-8, UTF-16, UTF-32
IMAX = (1 << 31) - 1
SMAX = (1 << 63) - 1

HEAD = "#include <strf/to_string.hpp>\nusing namespace strf;\n"
AL = ".set_alignment_format(alignment_format{fill, width_t::from_underlying(width), (text_alignment)al})"
P = ".p(width_t::from_underlying(prec))"
SV = "detail::simple_string_view<%(S)s>(s, n)"
PRE = "transcoding_error_notifier_ptr(nt)"
SIG = "destination<%(D)s>& d, const %(S)s* s, long n, int prec, int width, int al, char32_t fill, char32_t ch, bool bv, unsigned short lc, transcoding_error_notifier* nt, long* out"
BODY = ('extern "C" void %(fn)s(' + SIG + ')'
        '{ %(M)s pre; auto p = make_printer<%(D)s>(&pre, %(pack)s, %(E)s); %(O)s p(d); }\n')
OUT = "out[0] = (long)pre.accumulated_size(); out[1] = pre.accumulated_width().underlying_value();"
NOINLINE = T.NOINLINE + [r"9str_widthI", r"17str_width_and_posI", r"10char_widthI", r"^_ZN4strf9transcodeI", r"^_ZN4strf13decode_encodeI",
                         r"14transcode_sizeE", r"21unsafe_transcode_sizeE", r"^_ZN4strf18decode_encode_sizeI", r"^_ZN4strf25unsafe_decode_encode_sizeI",
                         r"11encode_charE"]


class Kind:
    """text: 's' string; precision and alignment; how the source is transcoded (None, 'x' safe, 'u' unsafe); 'd': through UTF-32"""

    def __init__(self, name, expr, src, prec=False, ali=False, tr=None, pack="pack(%s)" % PRE):
        self.name, self.expr, self.src, self.prec, self.ali, self.tr, self.pack = name, expr, src, prec, ali, tr, pack


def kinds():
    o = []
    for p, a in itertools.product((False, True), (False, True)):
        sfx = (P if p else "") + (AL if a else "")
        nm = ("p" if p else "") + ("a" if a else "")
        f = "fmt(%s)" % SV if sfx else SV
        o.append(Kind("s" + nm, f + sfx, "str", p, a))
        o.append(Kind("m" + nm, "transcode(%s)" % SV + sfx, "str", p, a))                       # same charset
        o.append(Kind("x" + nm, "transcode(%s)" % SV + sfx, "str", p, a, "x"))
        o.append(Kind("u" + nm, "unsafe_transcode(%s)" % SV + sfx, "str", p, a, "u"))
        o.append(Kind("z" + nm, "sani(%s)" % SV + sfx, "str", p, a, "x"))
        o.append(Kind("d" + nm, "transcode(%s, iso_8859_3<%%(S)s>)" % SV + sfx, "str", p, a, "x"))
        o.append(Kind("du" + nm, "unsafe_transcode(%s, iso_8859_3<%%(S)s>)" % SV + sfx, "str", p, a, "u"))
    o.append(Kind("c", "(%(D)s)ch", "chr"))
    o.append(Kind("ca", "multi((%(D)s)ch, n)" + AL, "chr", ali=True))
    o.append(Kind("k", "ch", "c32"))
    o.append(Kind("ka", "multi(ch, n)" + AL, "c32", ali=True))
    o.append(Kind("b", "bv", "bool", pack="pack((lettercase)lc)"))
    o.append(Kind("ba", "fmt(bv)" + AL, "bool", ali=True, pack="pack((lettercase)lc)"))
    return o


def parse_transcoder(name):
    """(source charset, destination charset, unsafe, size?) of a transcoder function, from its name"""
    m = re.search(r"static_transcoderI(c|Du|Ds|Di|w)(c|Du|Ds|Di|w)LNS_10charset_idE(\d+)ELS\w*_(\d+)EE\d+(unsafe_)?transcode(_size)?E", name)
    if m:
        return (m.group(1), int(m.group(3))), (m.group(2), int(m.group(4))), bool(m.group(5)), bool(m.group(6))
    m = re.search(r"single_byte_charset_to_(utf32|itself)I(c|Du)(Di|c|Du|w)NS0_\d+(impl_\w+?)E+\d+(unsafe_)?transcode(_size)?E", name)
    if m:
        s = (m.group(2), m.group(4))
        return s, (s if m.group(1) == "itself" else (m.group(3), IDS[4])), bool(m.group(5)), bool(m.group(6))
    m = re.search(r"utf32_to_single_byte_charsetI(Di|w)(c|Du)NS0_\d+(impl_\w+?)E+\d+(unsafe_)?transcode(_size)?E", name)
    if m:
        return (m.group(1), IDS[4]), (m.group(2), m.group(3)), bool(m.group(4)), bool(m.group(5))
    raise Unsupported("transcoder " + name)


class TextSpec(FnSpec):
    def __init__(self, kind, s, d, pm, case):
        FnSpec.__init__(self, None, None)
        self.kind, self.cs, self.cd, self.pm, self.case = kind, s, d, pm, case
        self.su, self.u = CH[s][1], CH[d][1]

    def setup(self, ex, st, fname):
        self.fname, K, D, Z = fname, self.kind, ex.dom, z3.IntVal
        V = {}
        for n, w in (("n", 64), ("prec", 32), ("width", 32), ("al", 32), ("fill", 32), ("ch", 32), ("bv", 1), ("lc", 16)):
            V[n] = self.var(ex, n, w)
        n, prec, width, al, fill, ch, bv, lc = [V[k] for k in ("n", "prec", "width", "al", "fill", "ch", "bv", "lc")]
        add = ex.solver.add
        for t, lo, hi in ((n, 0, 1 << 48), (prec, -(1 << 31), IMAX), (width, -(1 << 31), IMAX), (al, 0, 2), (fill, 0, (1 << 32) - 1),
                          (ch, 0, (1 << 32) - 1), (lc, 0, 65535)):
            add(t >= lo, t <= hi)
            D.setb(t, lo, hi)
        add(z3.Or(lc == 0, lc == 0x20, lc == 0x2020, lc == 0x0020))
        ca, cw, cf, cb = self.case
        a_al, a_bv, a_lc = al, bv, lc
        if cw is not None:
            add(lc == cw)
            lc = a_lc = Z(cw)
        if ca is not None:
            add(al == ca)
            al = a_al = Z(ca)
        self.sbuf = ex.new_buf(st, "src", self.su, n, ro=True)
        self.nt = ex.new_cell(st, "notifier", 8)
        F = T.Fill(ex, fill, self.u)
        segs, one = [], 65536
        # the content: segments, width
        if K.src == "str":
            self.full = T.name(ex, "strw", z3.Int("strw0"), 0, IMAX)
            add(self.full >= 0, self.full <= IMAX)
            if K.prec:
                self.L = z3.Int("preclen")
                add(self.L >= 0, self.L <= n, z3.Implies(prec > 0, self.full <= prec), z3.Implies(prec <= 0, self.full == 0))
                D.setb(self.L, 0, 1 << 48)
            else:
                self.L = n
            W = self.full
            if K.tr:
                TL, TU = z3.Int("translen"), z3.Function("TRANSU", z3.IntSort(), z3.IntSort())
                add(TL >= 0, TL <= 1 << 50)
                D.setb(TL, 0, 1 << 50)

                def tunit(k):
                    v = TU(k)
                    add(v >= 0, v < 1 << (8 * self.u))
                    return D.setb(v, 0, (1 << (8 * self.u)) - 1)
                self.tr = (TL, tunit)
                body = self.tr
            else:
                body = (self.L, lambda k: D.U(ex.buf_read(st, self.sbuf, k), 8 * self.su)[0])
        elif K.src in ("chr", "c32"):
            cw_ = cb * one                       # width of the character: case distinction
            self.cw = cw_
            cnt = n if K.ali else Z(1)
            W = z3.If(cnt * cw_ > IMAX, Z(IMAX), cnt * cw_) if K.ali else Z(cw_)
            W = T.name(ex, "contentw", W, 0, IMAX)
            if K.src == "chr":
                u = ch % (1 << (8 * self.u)) if self.u < 4 else ch
                if self.u < 4:
                    q, r = z3.Int("chq"), z3.Int("chr")
                    add(ch == q * (1 << (8 * self.u)) + r, r >= 0, r < 1 << (8 * self.u))
                    D.setdiv(ch, 1 << (8 * self.u), q, 0, 1 << (32 - 8 * self.u), r)
                    u = r
                body = (cnt, lambda k: u)
                self.chu = u
            else:
                F.size(ch)
                body = F.seg(cnt, ch)
        else:
            t = z3.BoolVal(cb)
            add(bv == t)
            a_bv = t
            txt = "TRUE" if cb else "FALSE"

            def bunit(k):
                r = Z(0)
                for i, c in reversed(list(enumerate(txt))):
                    low = lc == 0x2020 if i == 0 else z3.Or(lc == 0x20, lc == 0x2020)
                    r = z3.If(k == i, z3.If(low, Z(ord(c) + 32), Z(ord(c))), r)
                return D.setb(r, 0, 127)
            body = (Z(len(txt)), bunit)
            W = Z(len(txt) * one)
        self.W = W
        # the fill
        fc = Z(0)
        if K.ali:
            if K.src == "bool":
                # boolean: the format width is rounded first
                w0, wf = z3.Int("W0"), z3.Int("wf")
                add(width == one * w0 + wf, wf >= 0, wf < one, width >= 0 if cf else width < 0)
                D.setb(width, *((0, IMAX) if cf else (-(1 << 31), -1)))
                D.setdiv(width, one, w0, *((0, 32767) if cf else (-32768, -1)), wf)
                R = z3.If(z3.Or(wf > 32768, z3.And(wf == 32768, width < 0)), w0 + 1, w0)
                x = R - len(txt)
                fcv = z3.If(x > 0, x, Z(0))
            else:
                diff = z3.simplify(width - W)
                d0, df = z3.Int("D0"), z3.Int("df")
                add(diff == one * d0 + df, df >= 0, df < one)
                if cf:
                    add(width > W)
                    D.setb(diff, 1, IMAX)
                    D.setdiv(diff, one, d0, 0, 32767, df)
                    fcv = z3.If(df > 32768, d0 + 1, d0)
                else:
                    add(width <= W)
                    D.setdiv(diff, one, d0, -65536, 0, df)
                    fcv = Z(0)
            fc = T.name(ex, "fillcount", fcv, 0, 32768)
        left = z3.simplify(z3.If(al == 0, Z(0), z3.If(al == 1, fc, fc / 2)))
        if K.ali:
            left = T.name(ex, "left", left, 0, 32768)
            right = T.name(ex, "right", fc - left, 0, 32768)
            segs = [F.seg(left), body, F.seg(right)]
        else:
            segs = [body]
        self.text = T.Text(segs)
        add(self.text.length >= 0)
        tot = W + fc * one
        if K.src == "bool":
            tot = z3.If(fc > 0, W + fc * one, W)
        self.total = z3.If(tot > IMAX, Z(IMAX), tot)
        self.s = Stream(self.u, 64, self.text.length, self.text.value)
        if K.ali:
            self.s.marks = (segs[0][0] + segs[1][0],)
        d = self.s.setup(ex, st)
        T.install(ex, self.s, F)
        self.F = F
        for rx, h in ((r"9str_widthI", self.c_width), (r"17str_width_and_posI", self.c_prec), (r"10char_widthI", self.c_cw),
                      (r"^_ZN4strf9transcodeI", self.c_trans), (r"^_ZN4strf13decode_encodeI", self.c_dec),
                      (r"21unsafe_transcode_sizeE", self.c_tsize), (r"14transcode_sizeE", self.c_tsize),
                      (r"^_ZN4strf18decode_encode_sizeI", self.c_dsize), (r"^_ZN4strf25unsafe_decode_encode_sizeI", self.c_dsize),
                      (r"11encode_charE", self.c_echar)):
            ex.contracts["re:" + rx] = h
        self.out = ex.new_cell(st, "out", 16)
        ex.start(st, fname, [d, Ptr(self.sbuf, 0), n, prec, width, a_al, fill, ch, a_bv, a_lc, Ptr(self.nt), Ptr(self.out)])

    # ---- contracts of callees
    def callee(self, st, ins):
        return ins.a[0][1] if ins.a[0][0] != "reg" else st.frames[-1].env[ins.a[0][1]].o.name

    def rng(self, ex, st, w, p, e, L):
        ok = isinstance(p, Ptr) and p.o is self.sbuf and p.b == 0 and isinstance(e, Ptr) and e.o is self.sbuf and e.b == 0
        ex.oblige(st, ok, w, "source pointers")
        ex.oblige(st, z3.And(i64(p.i) == 0, i64(e.i) == L), w, "the source range is the one to be printed")

    def charset_arg(self, ex, st, ins, w):
        want = self.src_id()
        nm = self.callee(st, ins)
        m = re.search(r"static_charsetI(c|Du|Ds|Di|w)LNS_10charset_idE(\d+)EE", nm)
        if not m:
            raise Unsupported("width calculator " + nm)
        ok = (m.group(1), int(m.group(2))) == want
        ex.oblige(st, bool(ok), w, "the width is calculated in the charset of the source")

    def src_id(self):
        k = self.kind
        if k.src == "c32":
            return ("Di", IDS[4])
        if k.name[0] == "d":
            return (MANG[self.cs], 3472925699)
        return (MANG[self.cs], IDS[self.su])

    def c_width(self, ex, st, ins, a):
        w = "pre(str_width)"
        self.charset_arg(ex, st, ins, w)
        self.rng(ex, st, w, a[-2], a[-1], self.L)
        lim = ex.dom.S(ex.mat(a[-3]), 32)[0]
        if self.kind.ali:
            ex.oblige(st, lim >= self.vars["width"], w, "the limit is not below the format width")
        if self.pm:
            ex.oblige(st, lim >= IMAX, w, "the limit is not below the remaining width")
        return self.full

    def c_prec(self, ex, st, ins, a):
        w = "pre(str_width_and_pos)"
        self.charset_arg(ex, st, ins, w)
        self.rng(ex, st, w, a[-2], a[-1], self.vars["n"])
        ex.oblige(st, ex.dom.S(ex.mat(a[-3]), 32)[0] == self.vars["prec"], w, "the limit is the precision")
        ex.oblige(st, bool(self.kind.prec), w, "the format has a precision")
        return [self.full, Ptr(self.sbuf, self.L)]

    def c_cw(self, ex, st, ins, a):
        w = "pre(char_width)"
        c = ex.dom.U(ex.mat(a[-1]), 8 * self.su if self.kind.src == "chr" else 32)[0]
        want = self.chu if self.kind.src == "chr" else self.vars["ch"]
        ex.oblige(st, c == want, w, "the character")
        self.charset_arg(ex, st, ins, w)
        return ex.dom.setb(z3.IntVal(self.cw), self.cw, self.cw) if False else self.cw

    def expect(self, ex, st, w, name, src, dst, unsafe, size):
        got = parse_transcoder(name)
        ex.oblige(st, got[0] == src and got[1] == dst, w, "the transcoder is the one of the charsets")
        ex.oblige(st, got[2] == unsafe, w, "the transcoder is %s" % ("unsafe" if unsafe else "safe"))
        ex.oblige(st, got[3] == size, w, "kind of function")

    def ids(self):
        k = self.kind
        d = (MANG[self.cd], IDS[self.u])
        if k.name[0] == "d":
            return (MANG[self.cs], "impl_iso_8859_3"), d
        return self.src_id(), d

    def fname_of(self, v):
        if not (isinstance(v, Ptr) and v.o.kind == "func"):
            raise Unsupported("function pointer")
        return v.o.name

    def null(self, v):
        return is_c(v) or (isinstance(v, Ptr) and v.o.kind == "null")

    def put(self, ex, st, p, fields):
        if not isinstance(p, Ptr) or p.o.kind != "cell":
            raise Unsupported("result pointer")
        c = dict(st.mem[p.o.id])
        for off, sz, v in fields:
            c[p.i + off if is_c(p.i) else off] = (sz, v)
        st.mem[p.o.id] = c

    def c_tsize(self, ex, st, ins, a):
        w = "pre(transcode_size)"
        s, d = self.ids()
        self.expect(ex, st, w, self.callee(st, ins), s, d, self.kind.tr == "u", True)
        self.rng(ex, st, w, a[1], a[2], self.L)
        ex.oblige(st, ex.dom.S(ex.mat(a[3]), 64)[0] >= self.tr[0], w, "the limit does not cut the size")
        ex.oblige(st, ex.dom.U(ex.mat(a[4]), 32)[0] == 0, w, "flags as when transcoding")
        self.put(ex, st, a[0], ((0, 8, self.tr[0]), (8, 8, a[2]), (16, 4, 0)))

    def c_trans(self, ex, st, ins, a):
        w = "pre(transcode)"
        s, d = self.ids()
        self.expect(ex, st, w, self.fname_of(a[1]), s, d, self.kind.tr == "u", False)
        self.rng(ex, st, w, a[2], a[3], self.L)
        self.common(ex, st, w, a[4], a[5], a[6])
        T.append(self.s, ex, st, self.tr[0], self.tr[1], w)
        self.put(ex, st, a[0], ((0, 8, self.tr[0]), (8, 8, a[3]), (16, 4, 0)))

    def common(self, ex, st, w, dst, nt, fl):
        ex.oblige(st, isinstance(dst, Ptr) and dst.o is self.s.cell, w, "destination")
        ex.oblige(st, isinstance(nt, Ptr) and nt.o is self.nt, w, "the error notifier of the facets pack")
        ex.oblige(st, ex.dom.U(ex.mat(fl), 32)[0] == 0, w, "flags")

    def c_dec(self, ex, st, ins, a):
        w = "pre(decode_encode)"
        s, d = self.ids()
        self.expect(ex, st, w, self.fname_of(a[1]), s, ("Di", IDS[4]), self.kind.tr == "u", False)
        self.expect(ex, st, w, self.fname_of(a[2]), ("Di", IDS[4]), d, True, False)
        self.rng(ex, st, w, a[3], a[4], self.L)
        self.common(ex, st, w, a[5], a[6], a[7])
        T.append(self.s, ex, st, self.tr[0], self.tr[1], w)
        self.put(ex, st, a[0], ((0, 8, self.tr[0]), (8, 8, a[4]), (16, 4, 0), (20, 4, 0)))

    def c_dsize(self, ex, st, ins, a):
        w = "pre(decode_encode_size)"
        s, d = self.ids()
        self.expect(ex, st, w, self.fname_of(a[1]), s, ("Di", IDS[4]), self.kind.tr == "u", False)
        self.expect(ex, st, w, self.fname_of(a[2]), ("Di", IDS[4]), d, True, True)
        self.rng(ex, st, w, a[3], a[4], self.L)
        ex.oblige(st, ex.dom.S(ex.mat(a[5]), 64)[0] >= self.tr[0], w, "the limit does not cut the size")
        if len(a) > 6:
            ex.oblige(st, ex.dom.U(ex.mat(a[6]), 32)[0] == 0, w, "flags as when transcoding")
        self.put(ex, st, a[0], ((0, 8, self.tr[0]), (8, 8, a[4]), (16, 4, 0), (20, 4, 0)))

    def c_echar(self, ex, st, ins, a):
        w = "pre(encode_char)"
        ch = ex.dom.U(ex.mat(a[1]), 32)[0]
        p = a[0]
        ok = isinstance(p, Ptr) and p.o is self.s.o and p.b == 0
        ex.oblige(st, ok, w, "output pointer")
        e = self.F.size(ch)
        ex.oblige(st, ex.bnd_range(st, p.o, p.i, e), w, "space for the character")
        _, unit = self.F.seg(z3.IntVal(1), ch)
        ex.buf_write_range(st, p.o, p.i, e, unit)
        return Ptr(p.o, ex.padd(p.i, e))

    def candidates(self, ex, st, fr, hdr, vs, entry, hv):
        yield from self.s.cands(ex, st, hv, entry, fr)

    def on_return(self, ex, st, ret):
        self.s.final(ex, st)
        if not self.pm:
            return
        ob = lambda c, m: ex.oblige(st, c, "post(premeasurements)", m)
        o = st.mem[self.out.id]
        sz, wd = o.get(0, (0, None))[1], o.get(8, (0, None))[1]
        ob(sz is not None and wd is not None, "written")
        ob(i64(ex.dom.S(ex.mat(sz), 64)[0]) == self.text.length, "the calculated size is the number of units written")
        ob(i64(ex.dom.S(ex.mat(wd), 64)[0]) == self.total, "the calculated width is the width of the text")


def cases(k):
    ca = (0, 1, 2) if k.ali else (None,)
    cf = (False, True) if k.ali else (None,)
    cb = {"chr": (1, 2), "c32": (1, 2), "bool": (False, True), "str": (None,)}[k.src]
    cw = (0, 0x20, 0x2020) if k.src == "bool" else (None,)
    for c in itertools.product(ca, cw, cf, cb):
        nm = [{None: "", 0: "left", 1: "right", 2: "center"}[c[0]], {None: "", False: "nofill" if k.src != "bool" else "width<0", True: "fill" if k.src != "bool" else "width>=0"}[c[2]],
              {"chr": "width%s", "c32": "width%s", "bool": "%s", "str": ""}[k.src] % ((c[3],) if k.src != "str" else ()),
              {None: "", 0: "UPPER", 0x20: "Mixed", 0x2020: "lower"}[c[1]]]
        nm = [x for x in nm if x]
        yield c, " [%s]" % ", ".join(nm) if nm else ""


def pairs(k, tier):
    b = k.name.rstrip("pa")
    th = tier == "thorough"
    if b == "s" or b == "m":
        return [(c, c) for c in ("csiwu" if th else "csi")]
    if b in "xu":
        return [("c", "s"), ("s", "c"), ("i", "c"), ("c", "i")] + ([("c", "w"), ("w", "c"), ("s", "i"), ("i", "s"), ("w", "s"), ("u", "s")] if th else [])
    if b == "z":
        return [("c", "c"), ("s", "s")] + ([("i", "i"), ("w", "w"), ("u", "u")] if th else [])
    if b in ("d", "du"):
        return [("c", "c"), ("c", "s")] + ([("c", "i")] if th and False else [])
    if b == "k":
        return [("i", c) for c in ("csw" if th else "cs")]
    return [(c, c) for c in ("csiwu" if th else "csi")]


def units(tier):
    us = []
    for k in kinds():
        fns, tasks = "", []
        for s, d in pairs(k, tier):
            for pm in (True, False):
                if not pm and (s, d) != pairs(k, tier)[0]:
                    continue
                fn = "f_%s_%s%s%s" % (k.name, s, d, "" if pm else "_n")
                S, Dn = CH[s][0], CH[d][0]
                fns += BODY % dict(fn=fn, S=S, D=Dn, M="full_premeasurements" if pm else "no_premeasurements", pack=k.pack,
                                   E=k.expr % dict(S=S, D=Dn), O=OUT if pm else "")
                nat = ("text.cpp|-DSCH=%s|-DDCH=%s|-DSRC=%d|-DHASP=%d|-DHASA=%d|-DTR=%d" % (S, Dn, {"str": 0, "chr": 1, "c32": 2, "bool": 3}[k.src], k.prec, k.ali, TR.get(k.name.rstrip("pa"), 0)), [])
                for case, cn in cases(k):
                    tasks.append(Task("print%s %s %s to %s%s" % ("" if pm else " (not premeasured)", k.name, S, Dn, cn), fn,
                                      (lambda k=k, s=s, d=d, pm=pm, case=case: TextSpec(k, s, d, pm, case)), dom="lin", native=nat))
        us.append(Unit("t" + k.name, HEAD + fns, sorted({t.fn for t in tasks}), tasks, noinline=NOINLINE))
    return us


TR = {"s": 0, "x": 1, "u": 2, "z": 3, "d": 4, "du": 5, "m": 6}


def replay_args(task, m):
    if "prec" not in m:
        return None
    g = lambda k: str(int(m.get(k, 0)))
    return ["--replay"] + [g(k) for k in ("n", "prec", "width", "al", "fill", "ch", "bv", "lc")]


TRUST = ["contract of the width calculator: a width in 0..2^31-1, at most the precision, and a prefix of the source, for the range, charset and limit given to it (checked at each call; C13 proves it for the library's calculators)",
         "contract of the transcoder functions of the two charsets (C01, C02, C05, C06; the functions that chain them: C12): the units they write depend only on the source range, and the size function gives their number; each call is checked for function, source range, destination, notifier and flags",
         "contract of encode_fill, encode_char and encoded_char_size (C04 for the UTF charsets)",
         "contract of destination's virtual functions (documented interface)"]
ASSUME = ["string length at most 2^48 units, transcoded length at most 2^50",
          "the count of multi() is not negative; alignment and lettercase are enumerators",
          "single-byte charsets represented by ISO-8859-3 (generic code, same template)"]
LEVEL = "proof"
