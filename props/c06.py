"""C06: transcoders of the single-byte charsets"""
import z3
import sbtab
from dom import is_c
from spec_sb import SbSpec
from props import c05
from props.utf_common import HEAD, BODY, KINDNO
from driver import Task, Unit

KF = "surrogate-range"
KINDS = ["transcode", "transcode_size", "unsafe_transcode", "unsafe_transcode_size"]
# direction -> [(src type, dst type, su, du)]
DIRS = {"to32": [("char", "char32_t", 8, 32), ("char", "wchar_t", 8, 32), ("char8_t", "char32_t", 8, 32)],
        "from32": [("char32_t", "char", 32, 8), ("wchar_t", "char", 32, 8), ("char32_t", "char8_t", 32, 8)],
        "self": [("char", "char", 8, 8), ("char8_t", "char", 8, 8)]}
SHORT = {"char": "8", "char8_t": "u8", "char32_t": "32", "wchar_t": "w"}


def installer(cs, T, direction):
    def go(ex, sp):
        c05.install(ex, cs, T, ENC=sp.ENC if direction == "from32" else None, DEC=sp.DEC if direction != "from32" else None)
    return go


def units(tier):
    us = [c05.table_unit()]
    for kind in KINDS:
        for dr, types in DIRS.items():
            src, pub, ts = HEAD, [], []
            for S, D, su, du in types:
                for cs in sbtab.NAMES:
                    sc, dc = {"to32": ("csid_" + cs, "csid_utf32"), "from32": ("csid_utf32", "csid_" + cs), "self": ("csid_" + cs,) * 2}[dr]
                    n = "%s_%s_%s_%s" % (kind, cs, SHORT[S], SHORT[D])
                    src += BODY[kind] % dict(n=n, S=S, D=D, SC=sc, DC=dc)
                    pub.append("f_" + n)
                    T = sbtab.Table(cs)
                    mk = lambda T=T, dr=dr, kind=kind, su=su, du=du, cs=cs, hi=0xDFFF: SbSpec(T, dr, kind, su, du, installer(cs, T, dr), strict_hi=hi)
                    kw = {}
                    if dr == "from32" and kind in ("transcode", "transcode_size"):
                        # the tree deviates (known finding): U+E000..U+FFFF count as surrogates
                        kw = dict(known=KF, alts=[(None, mk)])
                        mk = lambda mk=mk: mk(hi=0xFFFF)
                    ts.append(Task("%s<%s %s,%s>" % (kind, cs, S, D) if dr != "from32" else "%s<%s,%s %s>" % (kind, S, cs, D), "f_" + n, mk, "hyb",
                                   native=("sbtrans.cpp", [cs, SHORT[S], SHORT[D], str(KINDNO[kind])]), **kw))
            us.append(Unit("sbt_%s_%s" % (kind, dr), src, pub, ts, noinline=c05.NOINL))
    return us


def replay_args(task, m):
    if task.native and task.native[0] == "sbcs.cpp":
        return c05.replay_args(task, m)
    if m["n"] > 64:
        return None
    return ["--replay", str(m["flags"] & 7), str(min(m["m"], 4096)), ",".join("%x" % x for x in m["src"][:m["n"]])]


TRUST = c05.TRUST
ASSUME = []
