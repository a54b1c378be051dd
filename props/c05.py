"""C05: single-byte charsets: tables and code-point level operations"""
import z3
import sbtab
from spec_utf import I64, bv64
from spec_fn import FnSpec
from spec_dst import Stream
from exec import Ptr, UNDEF, simp
from dom import is_c
from driver import Task, Unit

HEAD = "#include <strf/to_string.hpp>\nusing namespace strf;\n"
SRC = '''
extern "C" void f_count_%(n)s(const %(C)s* s, const %(C)s* e, std::ptrdiff_t m, count_codepoints_result<%(C)s>* o){ %(X)s *o = x.count_codepoints(s,e,m);}
extern "C" void f_countfast_%(n)s(const %(C)s* s, const %(C)s* e, std::ptrdiff_t m, count_codepoints_result<%(C)s>* o){ %(X)s *o = x.count_codepoints_fast(s,e,m);}
extern "C" %(C)s* f_encode_%(n)s(%(C)s* d, char32_t c){ %(X)s return x.encode_char(d,c);}
extern "C" int f_size_%(n)s(char32_t c){ %(X)s return (int)x.encoded_char_size(c);}
extern "C" int f_validate_%(n)s(char32_t c){ %(X)s return x.validate(c);}
extern "C" char32_t f_decode_%(n)s(%(C)s c){ %(X)s return x.decode_unit(c);}
extern "C" char32_t f_repl_%(n)s(){ %(X)s return x.replacement_char();}
extern "C" int f_replsize_%(n)s(){ %(X)s return (int)x.replacement_char_size();}
extern "C" void f_fill_%(n)s(transcode_dst<%(C)s>& d, std::ptrdiff_t m, char32_t c){ %(X)s x.encode_fill(d,m,c);}
extern "C" void f_wrepl_%(n)s(transcode_dst<%(C)s>& d){ %(X)s x.write_replacement_char(d);}
'''
IMPL = '''
extern "C" bool f_valid_%(n)s(std::uint8_t b){ return detail::impl_%(cs)s::is_valid(b);}
extern "C" char32_t f_idecode_%(n)s(std::uint8_t b){ return detail::impl_%(cs)s::decode(b);}
extern "C" unsigned f_iencode_%(n)s(char32_t c){ return detail::impl_%(cs)s::encode(c);}
'''


def v32(r):
    return z3.BitVecVal(r, 32) if is_c(r) else r


def scalar(cs, what):
    T = sbtab.Table(cs)

    def args(ex, st, sp):
        if what in ("repl", "replsize"):
            return []
        if what in ("decode", "idecode", "valid"):
            return [sp.var(ex, "ch", 8)]
        ch = sp.var(ex, "ch", 32)
        if what in ("encode", "validate"):
            install(ex, cs, T, ENC=z3.Function("ENC", z3.BitVecSort(32), z3.BitVecSort(32)))
        if what == "encode":
            sp.dst = ex.new_buf(st, "dst", 1, 1)
            return [Ptr(sp.dst, 0), ch]
        return [ch]

    def post(ex, st, r, sp):
        ob = lambda c, m: ex.oblige(st, c, "post(%s)" % what, m)
        ch = sp.vars.get("ch")
        if what == "repl":
            ob(simp(v32(r) == 0x3F), "'?'")
        elif what in ("replsize", "size"):
            ob(simp(v32(r) == 1), "one unit")
        elif what == "validate":
            ob(simp(v32(r) == z3.If(T.supported(ch), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32))), "1 or -1")
        elif what in ("decode", "idecode"):
            ob(simp(v32(r) == T.decode(ch)), "code point of the byte")
        elif what == "valid":
            b = r if z3.is_expr(r) and z3.is_bool(r) else (z3.BoolVal(bool(int(r) & 1)) if is_c(r) else z3.Extract(0, 0, r) == 1)
            ob(simp(b == T.valid(ch)), "byte is part of the charset")
        elif what == "iencode":
            r = v32(r)
            ob(z3.If(T.supported(ch), r == z3.ZeroExt(24, T.encode(ch)), z3.UGE(r, 0x100)), "byte of the character, or >= 0x100")
        elif what == "encode":
            ok = isinstance(r, Ptr) and r.o is sp.dst and r.b == 0
            ob(ok, "returns a pointer into the destination")
            if ok:
                ob(simp(I64(r.i) == 1 if is_c(r.i) else r.i == 1), "returns dst + 1")
                ob(ex.dom.lift(ex.buf_read(st, sp.dst, 0), 8) == T.encode(ch), "byte of the character, or '?'")
    # table searches have a constant trip count: all iterations are explored
    sp = FnSpec(args, post, unroll=12)
    sp.fork_select = what == "iencode"
    return sp


def filler(cs, one=False):
    T = sbtab.Table(cs)

    def args(ex, st, sp):
        if one:
            ch, cnt = z3.BitVecVal(0xFFFD, 32), z3.IntVal(1)
        else:
            ch, cnt = sp.var(ex, "ch", 32), sp.var(ex, "count", 64)
            ex.solver.add(cnt >= 0, cnt <= 1 << 58)
            ex.dom.setb(cnt, 0, 1 << 58)
        enc = T.encode(ch)
        if not one:
            # the byte is fixed once: a variable defined by the table
            install(ex, cs, T, ENC=z3.Function("ENC", z3.BitVecSort(32), z3.BitVecSort(32)))
            enc = z3.BitVec("enc", 8)
            ex.solver.add(enc == T.encode(ch))
        sp.S = Stream(1, 8, cnt, lambda k: enc)
        d = sp.S.setup(ex, st)
        return [d] if one else [d, cnt, ch]

    def post(ex, st, r, sp):
        sp.S.final(ex, st)
    return FnSpec(args, post, cands=lambda ex, st, fr, hdr, vs, entry, hv, sp: sp.S.cands(ex, st, hv, entry, fr))


def counter():
    def args(ex, st, sp):
        n, m = sp.var(ex, "n", 64), sp.var(ex, "m", 64)
        ex.solver.add(n >= 0, n <= 1 << 60, m >= 0)
        ex.dom.setb(n, 0, 1 << 60)
        sp.src = ex.new_buf(st, "src", 1, n, ro=True)
        sp.outc = ex.new_cell(st, "out", 16)
        sp.n, sp.m = n, m
        return [Ptr(sp.src, 0), Ptr(sp.src, n), m, Ptr(sp.outc)]

    def post(ex, st, r, sp):
        cells = st.mem[sp.outc.id]
        c, p = cells.get(0, (0, None))[1], cells.get(8, (0, None))[1]
        ok = c is not None and isinstance(p, Ptr) and p.o is sp.src and p.b == 0
        ex.oblige(st, ok, "post(count)", "result written; pointer into the source")
        if ok:
            want = z3.If(sp.m < sp.n, sp.m, sp.n)
            ex.oblige(st, bv64(ex.mat(c)) == want, "post(count)", "count is min(length, max_count)")
            ex.oblige(st, bv64(p.i) == want, "post(count)", "position is the end of the counted units")
    return FnSpec(args, post)


def install(ex, cs, T, ENC=None, DEC=None, on=None):
    """contracts of impl_<cs>::encode / decode / is_valid (discharged by the tasks iencode, idecode, valid)"""
    def c_enc(ex, st, ins, a):
        c = v32(a[0])
        r = ENC(c)
        ex.solver.add(z3.If(T.supported(c), r == z3.ZeroExt(24, T.encode(c)), z3.UGE(r, 0x100)))
        return r

    def c_dec(ex, st, ins, a):
        b = z3.BitVecVal(a[0], 8) if is_c(a[0]) else a[0]
        return DEC(b)

    def c_valid(ex, st, ins, a):
        b = z3.BitVecVal(a[0], 8) if is_c(a[0]) else a[0]
        return T.valid(b)
    if ENC is not None:
        ex.contracts[r"re:impl_%s6encodeE" % cs] = c_enc
    if DEC is not None:
        ex.contracts[r"re:impl_%s6decodeE" % cs] = c_dec
    ex.contracts[r"re:impl_%s8is_validE" % cs] = c_valid


NOINL = [r"impl_\w+?(6encodeEDi|6decodeEh|8is_validEh)$"]
TABLE = [("valid", False), ("idecode", False), ("iencode", False)]


def table_unit():
    src, pub, ts = HEAD, [], []
    for cs in sbtab.NAMES:
        src += IMPL % dict(n=cs, cs=cs)
        for w, _ in TABLE:
            pub.append("f_%s_%s" % (w, cs))
            ts.append(Task("%s<%s>" % (w, cs), pub[-1], lambda cs=cs, w=w: scalar(cs, w), "hyb", native=("sbcs.cpp", [cs, w]), opts=dict(weight=3 if w == "iencode" else 1)))
    return Unit("sb_tables", src, pub, ts)


def units(tier):
    us = [table_unit()]
    for C, cn in (("char", "8"), ("char8_t", "u8")):
        for dyn in (False, True):
            src, pub, ts = HEAD, [], []
            for cs in sbtab.NAMES:
                n = "%s_%s" % (cs, cn)
                X = "static_charset<%s,csid_%s> x;" % (C, cs)
                if dyn:
                    X = "static_charset<%s,csid_%s> x0; dynamic_charset<%s> x{x0.to_dynamic()};" % (C, cs, C)
                src += SRC % dict(C=C, n=n, X=X)
                d = "dynamic " if dyn else ""

                def add(fn, mk, w=1, **kw):
                    pub.append("f_%s_%s" % (fn, n))
                    ts.append(Task("%s%s<%s,%s>" % (d, fn, C, cs), pub[-1], mk, "hyb", native=("sbcs.cpp", [cs, ("d" if dyn else "") + fn, cn]), opts=dict(weight=w), **kw))
                for w in ("encode", "size", "validate", "decode", "repl", "replsize"):
                    add(w, lambda cs=cs, w=w: scalar(cs, w))
                for w in ("count", "countfast"):
                    add(w, counter)
                add("wrepl", lambda cs=cs: filler(cs, True))
                add("fill", lambda cs=cs: filler(cs))
            us.append(Unit("sb_%s%s" % (cn, "_dyn" if dyn else ""), src, pub, ts, noinline=NOINL))
    return us


def replay_args(task, m):
    if not task.native or task.native[0] != "sbcs.cpp":
        return None
    if "n" in m:
        return ["--replay", "0", str(min(m["m"], 4096)), str(m["n"])] if m["n"] <= 4096 else None
    return ["--replay", "%x" % m.get("ch", 0), str(min(m.get("count", 0), 2000)), "0"]


TRUST = ["oracle tables: Python's codecs (generated from the Unicode consortium's mapping files), plus Microsoft's best-fit assignments for bytes those leave undefined",
         "encode / decode / is_valid of the table implementations by contract inside the other operations (the contracts are the proved tasks valid, idecode, iencode)",
         "destination's virtual recycle by contract (at least min_space_after_recycle units)"]
ASSUME = []
