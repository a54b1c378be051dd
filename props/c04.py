"""C04: code-point level operations of the UTF charsets"""
import z3
import spec_utf
from spec_utf import CountSpec, enc_len, enc_units, I64
from spec_fn import FnSpec
from spec_dst import Stream
from exec import Ptr, UNDEF, simp
from dom import is_c
from driver import Task, Unit

HEAD = "#include <strf/to_string.hpp>\nusing namespace strf;\n"
CTS = [("char", 8, "8"), ("char8_t", 8, "u8"), ("char16_t", 16, "16"), ("char32_t", 32, "32"), ("wchar_t", 32, "w")]
SRC = '''
extern "C" void f_count_%(n)s(const %(C)s* s, const %(C)s* e, std::ptrdiff_t m, count_codepoints_result<%(C)s>* o){ *o = %(X)s::count_codepoints(s,e,m);}
extern "C" void f_countfast_%(n)s(const %(C)s* s, const %(C)s* e, std::ptrdiff_t m, count_codepoints_result<%(C)s>* o){ *o = %(X)s::count_codepoints_fast(s,e,m);}
extern "C" %(C)s* f_encode_%(n)s(%(C)s* d, char32_t c){ return %(X)s::encode_char(d,c);}
extern "C" int f_size_%(n)s(char32_t c){ return (int)%(X)s::encoded_char_size(c);}
extern "C" int f_validate_%(n)s(char32_t c){ return %(X)s::validate(c);}
extern "C" char32_t f_decode_%(n)s(%(C)s c){ return %(X)s::decode_unit(c);}
extern "C" char32_t f_repl_%(n)s(){ return %(X)s::replacement_char();}
extern "C" int f_replsize_%(n)s(){ return (int)%(X)s::replacement_char_size();}
extern "C" void f_fill_%(n)s(transcode_dst<%(C)s>& d, std::ptrdiff_t m, char32_t c){ %(X)s::encode_fill(d,m,c);}
extern "C" void f_wrepl_%(n)s(transcode_dst<%(C)s>& d){ %(X)s::write_replacement_char(d);}
// the same operations through the type-erased charset
extern "C" void f_dcount_%(n)s(const %(C)s* s, const %(C)s* e, std::ptrdiff_t m, count_codepoints_result<%(C)s>* o){ dynamic_charset<%(C)s> x{%(X)s::to_dynamic()}; *o = x.count_codepoints(s,e,m);}
extern "C" void f_dcountfast_%(n)s(const %(C)s* s, const %(C)s* e, std::ptrdiff_t m, count_codepoints_result<%(C)s>* o){ dynamic_charset<%(C)s> x{%(X)s::to_dynamic()}; *o = x.count_codepoints_fast(s,e,m);}
extern "C" %(C)s* f_dencode_%(n)s(%(C)s* d, char32_t c){ dynamic_charset<%(C)s> x{%(X)s::to_dynamic()}; return x.encode_char(d,c);}
extern "C" int f_dsize_%(n)s(char32_t c){ dynamic_charset<%(C)s> x{%(X)s::to_dynamic()}; return (int)x.encoded_char_size(c);}
extern "C" int f_dvalidate_%(n)s(char32_t c){ dynamic_charset<%(C)s> x{%(X)s::to_dynamic()}; return x.validate(c);}
extern "C" char32_t f_ddecode_%(n)s(%(C)s c){ dynamic_charset<%(C)s> x{%(X)s::to_dynamic()}; return x.decode_unit(c);}
extern "C" char32_t f_drepl_%(n)s(){ dynamic_charset<%(C)s> x{%(X)s::to_dynamic()}; return x.replacement_char();}
extern "C" int f_dreplsize_%(n)s(){ dynamic_charset<%(C)s> x{%(X)s::to_dynamic()}; return (int)x.replacement_char_size();}
extern "C" void f_dwrepl_%(n)s(transcode_dst<%(C)s>& d){ dynamic_charset<%(C)s> x{%(X)s::to_dynamic()}; x.write_replacement_char(d);}
'''


def norm(enc, ch):
    """what can be encoded: above 0x10FFFF only UTF-32"""
    return ch if enc == 32 else z3.If(z3.UGE(ch, 0x110000), z3.BitVecVal(0xFFFD, 32), ch)


def v32(r):
    return z3.BitVecVal(r, 32) if is_c(r) else r


def scalar(enc, what):
    def args(ex, st, sp):
        if what in ("repl", "replsize"):
            return []
        if what == "decode":
            return [sp.var(ex, "ch", enc)]
        ch = sp.var(ex, "ch", 32)
        if what == "encode":
            n = z3.Int("n")
            ex.solver.add(n == enc_len(enc, norm(enc, ch)))
            sp.dst = ex.new_buf(st, "dst", enc // 8, n)
            return [Ptr(sp.dst, 0), ch]
        return [ch]

    def post(ex, st, r, sp):
        ob = lambda c, m: ex.oblige(st, c, "post(%s)" % what, m)
        ch = sp.vars.get("ch")
        if what == "repl":
            ob(simp(v32(r) == 0xFFFD), "U+FFFD")
        elif what == "replsize":
            ob(simp(v32(r) == (3 if enc == 8 else 1)), "size of U+FFFD")
        elif what == "size":
            ob(simp(z3.BV2Int(v32(r)) == enc_len(enc, norm(enc, ch))), "number of units encode_char writes")
        elif what == "validate":
            bad = z3.Or(z3.UGE(ch, 0x110000), z3.LShR(ch, 11) == 0x1B)
            ob(simp(v32(r) == z3.If(bad, z3.BitVecVal(-1, 32), z3.Int2BV(enc_len(enc, ch), 32))), "-1 or encoded size")
        elif what == "decode":
            u = z3.ZeroExt(32 - enc, ch) if enc < 32 else ch
            want = z3.If(z3.ULT(u, 0x80), u, z3.BitVecVal(0xFFFD, 32)) if enc == 8 else u
            ob(simp(v32(r) == want), "code point of a single unit")
        elif what == "encode":
            c = norm(enc, ch)
            ok = isinstance(r, Ptr) and r.o is sp.dst and r.b == 0
            ob(ok, "returns a pointer into the destination")
            if ok:
                el = enc_len(enc, c)
                i = I64(r.i) if is_c(r.i) else r.i
                ob(simp(i == el), "returns dst + encoded size")
                for k, e in enumerate(enc_units(enc, c)):
                    ob(z3.Implies(el > k, ex.dom.lift(ex.buf_read(st, sp.dst, k), enc) == e), "unit %d" % k)
    return FnSpec(args, post)


def filler(enc, lo, hi, one=False, rng=None):
    """encode_fill(dst, count, ch) for lo <= ch < hi ; one: write_replacement_char"""
    def args(ex, st, sp):
        if one:
            ch, cnt = z3.BitVecVal(0xFFFD, 32), z3.IntVal(1)
        else:
            ch, cnt = sp.var(ex, "ch", 32), sp.var(ex, "count", 64)
            ex.solver.add(cnt >= 0, cnt <= 1 << 58)
            if lo:
                ex.solver.add(z3.UGE(ch, lo))
            if hi:
                ex.solver.add(z3.ULT(ch, hi))
            ex.dom.setb(cnt, 0, 1 << 58)
        c = norm(enc, ch)
        L = z3.simplify(enc_len(enc, z3.BitVecVal((lo or 0) if (lo or 0) < 0x110000 or enc == 32 else 0xFFFD, 32))).as_long() if not one else (3 if enc == 8 else 1)
        us = enc_units(enc, c)[:L]
        ex.solver.add(enc_len(enc, c) == L)
        k0 = z3.Int("k0")
        qq, rr = z3.Int("k0_seq"), z3.Int("k0_off")
        ex.solver.add(k0 == qq * L + rr, rr >= 0, rr < L)

        def val(k):
            v = us[0]
            for j in range(1, L):
                v = z3.If(rr == j, us[j], v)
            return v
        sp.S = Stream(enc // 8, 8, cnt * L, val, factors=sorted({1, L}), k0=k0)
        d = sp.S.setup(ex, st)
        return [d] if one else [d, cnt, ch]

    def post(ex, st, r, sp):
        sp.S.final(ex, st)
    return FnSpec(args, post, cands=lambda ex, st, fr, hdr, vs, entry, hv, sp: sp.S.cands(ex, st, hv, entry, fr))


def units(tier):
    us = []
    for C, enc, n in CTS:
        X = "static_charset<%s,csid_utf%d>" % (C, enc)
        src = HEAD + SRC % dict(C=C, n=n, X=X)
        pub, ts = [], []
        nat = ("utfcs.cpp", [n])

        def add(fn, mk, dom="hyb", bounded=None, **kw):
            pub.append("f_%s_%s" % (fn, n))
            ts.append(Task("%s<%s>" % (kw.pop("label", fn), C), "f_%s_%s" % (fn, n), mk, dom, native=("utfcs.cpp", [n, fn]), bounded=bounded, **kw))
        for p in ("", "d"):
            add(p + "count", lambda enc=enc: CountSpec(enc, False), bounded=lambda enc=enc: (CountSpec(enc, False, 5), 7))
            add(p + "countfast", lambda enc=enc: CountSpec(enc, True), bounded=lambda enc=enc: (CountSpec(enc, True, 5), 7))
            for w in ("encode", "size", "validate", "decode", "repl", "replsize"):
                add(p + w, lambda enc=enc, w=w: scalar(enc, w), "hyb")
            add(p + "wrepl", lambda enc=enc: filler(enc, 0, 0, True))
        R = {8: [(0, 0x80), (0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000), (0x110000, 0)],
             16: [(0, 0x10000), (0x10000, 0x110000), (0x110000, 0)], 32: [(0, 0)]}[enc]
        for lo, hi in R:
            add("fill", lambda enc=enc, lo=lo, hi=hi: filler(enc, lo, hi), label="fill[%x,%x)" % (lo, hi))
        us.append(Unit("utfcs_" + n, src, sorted(set(pub)), ts))
    return us


def replay_args(task, m):
    if "src" in m:
        if m["n"] > 64:
            return None
        return ["--replay", "0", str(m["m"]), ",".join("%x" % x for x in m["src"][:m["n"]])]
    return ["--replay", "%x" % m.get("ch", 0), str(min(m.get("count", 0), 300)), ""]


TRUST = ["induction over decoding steps (meta-level schema; every step case is a discharged lemma obligation)",
         "contract of strf::output_buffer's virtual functions recycle/do_write (documented interface; the library's own implementations are checked in C07)"]
ASSUME = ["0 <= max_count, count <= 2^58; begin <= end"]
