"""Compile a harness against /repo's current headers and return the parsed IR module."""
import os
import re
import subprocess
import tempfile
import hashlib
import llir

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


def work_dir():
    d = os.environ.get("VERIF_WORK")
    if not d:
        d = tempfile.mkdtemp(prefix="strfvc.")
        os.environ["VERIF_WORK"] = d
    os.makedirs(d, exist_ok=True)
    return d


CLANG_FLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-fno-rtti",
               "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-fno-threadsafe-statics",
               "-fno-strict-aliasing", "-ffp-contract=off", "-w"]
PASSES_A = "internalize,globaldce,function(sroa,early-cse,simplifycfg)"
PASSES_B = ("cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,adce,simplifycfg),globaldce")


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout


def compile_ir(src_text, name, public, noinline=(), extra=(), repo=None, want_raw=False):
    """returns llir.Module; `public`: extern "C" entry points; `noinline`: regexes (mangled names)"""
    d = work_dir()
    repo = repo or REPO
    cpp = os.path.join(d, name + ".cpp")
    ll = os.path.join(d, name + ".ll")
    ll2 = os.path.join(d, name + ".2.ll")
    open(cpp, "w").write(src_text)
    sh(["clang++"] + CLANG_FLAGS + list(extra) + ["-I", repo + "/include", "-I", HERE + "/harness",
                                                  "-S", "-emit-llvm", cpp, "-o", ll])
    txt = open(ll).read()
    # attributes that only say how to optimise are dropped (they would block inlining / add nothing)
    txt = re.sub(r"^(attributes #\d+ = \{) ?(.*)\}$",
                 lambda m: m.group(1) + " " + " ".join(
                     w for w in m.group(2).split() if w not in ("noinline", "optnone", "optsize", "minsize")) + " }",
                 txt, flags=re.M)
    keep = []
    if noinline:
        pats = [re.compile(p) for p in noinline]

        def mark(m):
            ln = m.group(0)
            nm = re.search(r"@(\"[^\"]*\"|[-a-zA-Z$._0-9]+)\(", ln).group(1).strip('"')
            if any(p.search(nm) for p in pats):
                keep.append(nm)
                ln = re.sub(r"\) (.*?)(#\d+)", r") \1noinline \2", ln, count=1) if re.search(r"#\d+", ln) else ln
                return ln
            return ln
        txt = re.sub(r"^define .*$", mark, txt, flags=re.M)
    open(ll, "w").write(txt)
    api = ",".join(list(public) + keep)
    sh(["opt", "-S", "-passes=" + PASSES_A + "," + PASSES_B, "-internalize-public-api-list=" + api,
        "-inline-threshold=1000000", ll, "-o", ll2])
    t2 = open(ll2).read()
    for f in (cpp, ll):
        os.unlink(f)
    m = llir.Module(t2)
    m.text = t2
    m.sha = hashlib.sha256(t2.encode()).hexdigest()
    os.unlink(ll2)
    m.kept = keep
    return m
