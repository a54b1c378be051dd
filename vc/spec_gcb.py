"""Extended grapheme clusters (UAX #29, rules GB1-GB999) and the documented widths, written from the rules.

A string of code points is segmented by the boundary relation below.  `step(g, k)` gives, for the part of the
history the rules look at (class of the last code point; whether the last run of regional indicators is odd;
whether the text ends in ExtPict Extend* or ExtPict Extend* ZWJ) and the class of the next code point, whether there
is a boundary between them and the new history."""
import bisect
import itertools
import os
import subprocess
import z3
import build

KS = ["Other", "CR", "LF", "Control", "Extend", "ZWJ", "SpacingMark", "Prepend", "RI", "ExtPict", "L", "V", "T", "LV", "LVT"]
WIDE = [(0x1100, 0x115F), (0x2329, 0x232A), (0x2E80, 0x303E), (0x3040, 0xA4CF), (0xAC00, 0xD7A3), (0xF900, 0xFAFF),
        (0xFE10, 0xFE19), (0xFE30, 0xFE6F), (0xFF00, 0xFF60), (0xFFE0, 0xFFE6), (0x1F300, 0x1F64F), (0x1F900, 0x1F9FF),
        (0x20000, 0x2FFFD), (0x30000, 0x3FFFD)]       # docs/ref_width.adoc
MAXCP = 0x110000


def step(g, k):
    last, f = g
    brk = True                                                              # GB1, GB999
    if last == "CR" and k == "LF":
        brk = False                                                         # GB3
    elif last in ("CR", "LF", "Control", "sot") or k in ("CR", "LF", "Control"):
        brk = True                                                          # GB1, GB4, GB5
    elif last == "L" and k in ("L", "V", "LV", "LVT"):
        brk = False                                                         # GB6
    elif last in ("LV", "V") and k in ("V", "T"):
        brk = False                                                         # GB7
    elif last in ("LVT", "T") and k == "T":
        brk = False                                                         # GB8
    elif k in ("Extend", "ZWJ", "SpacingMark"):
        brk = False                                                         # GB9, GB9a
    elif last == "Prepend":
        brk = False                                                         # GB9b
    elif last == "ZWJ" and f and k == "ExtPict":
        brk = False                                                         # GB11
    elif last == "RI" and f and k == "RI":
        brk = False                                                         # GB12, GB13
    f2 = 0
    if k == "RI":
        f2 = 0 if last == "RI" and f else 1
    elif k == "ExtPict":
        f2 = 1
    elif k in ("Extend", "ZWJ"):
        f2 = 1 if f and last in ("ExtPict", "Extend") else 0
    return brk, (k, f2)


def _states():
    st, out = [("sot", 0)], []
    while st:
        g = st.pop()
        if g in out:
            continue
        out.append(g)
        st += [step(g, k)[1] for k in KS]
    return out


GS = _states()


def table():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "gcb13.txt")
    iv = [(int(a, 16), b) for a, b in (ln.split() for ln in open(p))]
    return iv


TAB = table()
STARTS = [a for a, b in TAB]


def cls(c):
    return TAB[bisect.bisect_right(STARTS, c) - 1][1] if c < MAXCP else "Other"


def width(c):
    return 2 if any(a <= c <= b for a, b in WIDE) else 1


def cuts():
    """points where the class or the width changes"""
    s = set(STARTS) | {a for a, b in WIDE} | {b + 1 for a, b in WIDE}
    s = {c for c in s if not 0xAC00 < c <= 0xD7A3}          # LV / LVT alternate: decided by a formula
    return sorted(s)


CUTS = cuts()


def ranges(n):
    """n ranges of code points with about the same number of intervals"""
    xs = [CUTS[i * len(CUTS) // n] for i in range(n)] + [1 << 32]
    return list(zip(xs, xs[1:]))


def classify(ch, lo, hi):
    """(class index, width) of the 32-bit vector ch, lo <= ch < hi, as z3 terms"""
    xs = [lo] + [c for c in CUTS if lo < c < hi]

    def leaf(c):
        if c == 0xAC00:
            return (z3.If(z3.URem(ch - 0xAC00, 28) == 0, z3.IntVal(KS.index("LV")), z3.IntVal(KS.index("LVT"))), z3.BitVecVal(2 << 16, 32))
        return z3.IntVal(KS.index(cls(c))), z3.BitVecVal(width(c) << 16, 32)

    def tree(part, a, b):
        if b - a == 1:
            return leaf(xs[a])[part]
        m = (a + b) // 2
        x, y = tree(part, a, m), tree(part, m, b)
        return x if x.eq(y) else z3.If(z3.ULT(ch, xs[m]), x, y)
    return tree(0, 0, len(xs)), tree(1, 0, len(xs))


def delta(g, k):
    """(boundary, next state) as z3 terms of the state and class indices"""
    nb, nx = [], z3.IntVal(0)
    for ki, kk in enumerate(KS):
        res = [step(s, kk) for s in GS]
        no = [i for i, r in enumerate(res) if not r[0]]
        if no:
            nb.append(z3.And(k == ki, z3.Or([g == i for i in no])))
        tg = sorted({GS.index(r[1]) for r in res})
        t = z3.IntVal(tg[0])
        for o in tg[1:]:
            t = z3.If(z3.Or([g == i for i, r in enumerate(res) if GS.index(r[1]) == o]), z3.IntVal(o), t)
        nx = z3.If(k == ki, t, nx)
    return z3.Not(z3.Or(nb)), nx


_REL = '''
#include <strf/to_string.hpp>
#include <cstdio>
#include <set>
#include <vector>
static const int NK = %d, NG = %d;
static const char32_t rep[NK] = {%s};
static const int dl[NG][NK] = {%s};
int main(){
  std::set<std::pair<unsigned,int>> seen; std::vector<std::pair<unsigned,int>> todo{{0u,%d}};
  while(!todo.empty() && seen.size() < 400){ auto p = todo.back(); todo.pop_back(); if(!seen.insert(p).second) continue;
    std::printf("%%u %%d\\n", p.first, p.second);
    for(int k=0;k<NK;++k){ char32_t c = rep[k];
      auto r = strf::detail::std_width_calc_func(&c, &c+1, strf::width_t(1000), p.first, true);
      todo.push_back({r.state, dl[p.second][k]}); } } }
'''


def relation():
    """pairs (state of the implementation, specification state) reached from the start, found by running the code on
    one representative per class; only a candidate: the proof establishes that it is preserved"""
    d = build.work_dir()
    out = os.path.join(d, "gcbrel.txt")
    if not os.path.exists(out):
        reps = [next(a for a, b in TAB if b == k) for k in KS]
        src = _REL % (len(KS), len(GS), ",".join("0x%x" % r for r in reps), ",".join(
            "{" + ",".join(str(GS.index(step(g, k)[1])) for k in KS) + "}" for g in GS), GS.index(("sot", 0)))
        cpp, exe = [os.path.join(d, "gcbrel%d%s" % (os.getpid(), x)) for x in (".cpp", "")]
        open(cpp, "w").write(src)
        txt = ""
        try:
            build.sh(["g++", "-std=c++17", "-O0", "-w", "-I", build.REPO + "/include", cpp, "-o", exe])
            txt = subprocess.run([exe], stdout=subprocess.PIPE, text=True, timeout=20).stdout
        except (build.BuildError, subprocess.TimeoutExpired):
            pass
        open(out + ".%d" % os.getpid(), "w").write(txt)
        os.replace(out + ".%d" % os.getpid(), out)
    rel = [tuple(map(int, ln.split())) for ln in open(out)]
    return rel if 0 < len(rel) < 300 else [(0, GS.index(("sot", 0)))]
