"""Harness shared by the UTF transcoding properties (C01, C02, C03)."""
import spec_utf
from driver import Task, Unit

HEAD = '''
#include <strf/to_string.hpp>
using namespace strf;
extern "C" void vf_notify_invalid(int, const char*, const void*, std::ptrdiff_t);
extern "C" void vf_notify_unsupported(const char*, unsigned);
struct vf_notifier : strf::transcoding_error_notifier {
  void invalid_sequence(int a, const char* b, const void* c, std::ptrdiff_t d) override { vf_notify_invalid(a,b,c,d);}
  void unsupported_codepoint(const char* a, unsigned b) override { vf_notify_unsupported(a,b);}
};
'''
BODY = {
    "transcode": 'extern "C" void f_%(n)s(const %(S)s* s, const %(S)s* se, %(D)s* d, %(D)s* de, bool nt, int fl, transcode_result<%(S)s,%(D)s>* out)'
                 '{ vf_notifier N; *out = static_transcoder<%(S)s,%(D)s,%(SC)s,%(DC)s>::transcode(s,se,d,de,nt?&N:nullptr,(transcode_flags)fl);}\n',
    "unsafe_transcode": 'extern "C" void f_%(n)s(const %(S)s* s, const %(S)s* se, %(D)s* d, %(D)s* de, bool nt, int fl, transcode_result<%(S)s,%(D)s>* out)'
                        '{ vf_notifier N; *out = static_transcoder<%(S)s,%(D)s,%(SC)s,%(DC)s>::unsafe_transcode(s,se,d,de,nt?&N:nullptr,(transcode_flags)fl);}\n',
    "transcode_size": 'extern "C" void f_%(n)s(const %(S)s* s, const %(S)s* se, std::ptrdiff_t m, int fl, transcode_size_result<%(S)s>* out)'
                      '{ *out = static_transcoder<%(S)s,%(D)s,%(SC)s,%(DC)s>::transcode_size(s,se,m,(transcode_flags)fl);}\n',
    "unsafe_transcode_size": 'extern "C" void f_%(n)s(const %(S)s* s, const %(S)s* se, std::ptrdiff_t m, int fl, transcode_size_result<%(S)s>* out)'
                             '{ *out = static_transcoder<%(S)s,%(D)s,%(SC)s,%(DC)s>::unsafe_transcode_size(s,se,m,(transcode_flags)fl);}\n',
}
KINDNO = {"transcode": 0, "transcode_size": 1, "unsafe_transcode": 2, "unsafe_transcode_size": 3}
CT = {"8": ("char", 8), "16": ("char16_t", 16), "32": ("char32_t", 32), "w": ("wchar_t", 32), "u8": ("char8_t", 8)}
# name -> (source type, destination type)
PAIRS = [(a, b) for a in ("8", "16", "32") for b in ("8", "16", "32")] + \
        [("u8", "w"), ("16", "w"), ("32", "w"), ("w", "u8"), ("w", "16"), ("w", "32"), ("w", "w")]
NATIVE = {("u8", "w"): "8_w", ("w", "u8"): "w_8"}


def units(kinds, tier):
    us = []
    for kind in kinds:
        src, pub, tasks = HEAD, [], []
        for a, b in PAIRS:
            S, se = CT[a]
            D, de = CT[b]
            n = "%s_%s_%s" % (kind, a, b)
            src += BODY[kind] % dict(n=n, S=S, D=D, SC="csid_utf%d" % se, DC="csid_utf%d" % de)
            pub.append("f_" + n)
            pn = NATIVE.get((a, b), "%s_%s" % (a, b))
            mk = lambda se=se, de=de, kind=kind: spec_utf.TransSpec(se, de, kind)
            bd = lambda se=se, de=de, kind=kind: (spec_utf.TransSpec(se, de, kind, nmax=4), 6)
            tasks.append(Task("%s<%s,%s>" % (kind, S, D), "f_" + n, mk, "hyb", deadline=150,
                              native=("utf.cpp", [pn, str(KINDNO[kind])]), bounded=bd))
        us.append(Unit("utf_" + kind, src, pub, tasks))
    return us


def replay_args(task, m):
    if m["n"] > 64:
        return None
    src = m["src"][:m["n"]]
    return ["--replay", str(m["flags"] & 3), str(min(m["m"], 4096)), ",".join("%x" % x for x in src)]


TRUST = ["induction over decoding steps (meta-level schema; every step case is a discharged lemma obligation)"]
