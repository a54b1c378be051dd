// Native oracle for C17: ranges.  First argument: <mode>_<range> (range_cases.inc is generated by props/c17.py)
#include "parts.hpp"
struct OPI { long id; P<1> operator()(const Q& q) const { return {q.v}; } };
struct RG { using const_iterator = const Q*; const Q* b; const Q* e; const Q* begin() const { return b; } const Q* end() const { return e; } };
static const Q *mb, *me; static const CT* ms; static long ml, mo;
static void ext_made(const Q* b, const Q* e, const CT* s, long l, long o) { mb = b; me = e; ms = s; ml = l; mo = o; }
template <class I> void made(const range_p<I>& r) { ext_made(r.begin, r.end, nullptr, -1, -1); }
template <class I> void made(const separated_range_p<I, CT>& r) { ext_made(r.begin, r.end, r.sep_begin, r.sep_len, -1); }
template <class I> void made(const transformed_range_p<I, OPI>& r) { ext_made(r.begin, r.end, nullptr, -1, r.op.id); }
template <class I> void made(const separated_transformed_range_p<I, CT, OPI>& r) { ext_made(r.begin, r.end, r.sep_begin, r.sep_len, r.op.id); }
template <class... F> void made(const value_and_format<F...>& x) { made(x.value()); }
struct in { std::vector<long> v; int sep; long f; ll width, lim; int cap; };
static bool one(const in& a, std::string& why)
{
    char t[600]; long f = a.f, c = 31, h = 32; int width = (int)a.width, lim = (int)a.lim; long len = a.sep;
    std::vector<P<0>> pv; std::vector<Q> qv; for (long v : a.v) { pv.push_back({v}); qv.push_back({v}); }
    const P<0>*b = pv.data(), *e = b + pv.size(); const Q *qb = qv.data(), *qe = qb + qv.size(); bool ok = true;
    if (name.compare(0, 4, "made") == 0 && qv.size() < 5) { qv.resize(5); qb = qv.data(); qe = qb + 5; }
    str S; for (int k = 0; k < a.sep; ++k) S += (CT)('a' + k % 26); const CT* sep = S.data();
    cap_ = (std::size_t)a.cap; log_ = {}; badw = badc = false; nat::test_dst<CT> d(cap_, {64, 67});
    std::string mode, nm; SZ m{0, 0}; int issep = 0, elem = 0;
#include "range_cases.inc"
    if (mode.empty()) { why = "no such function"; return false; }
    if (mode == "made") {
        if (!ok || (issep && (ms != sep || ml != len)) || (elem && mo != 77)) { snprintf(t, 600, "the range made has %d elements, a separator of %ld units, function %ld; specified: those given, %ld units, 77", (int)(me - mb), ml, mo, len); why = t; return false; }
        return true;
    }
    str want; ll W = 0; bool first = true;
    for (long v : a.v) {
        if (!first && issep) { want += S; W += (ll)a.sep * 65536; }
        first = false; long x = elem == 1 ? v * 3 + 1 : v, fx = f + (elem == 2 ? width : 0);
        want += text(elem, x, fx); W += wid(elem, x, fx);
    }
    if (badc) { why = "not the width calculator or the charset given"; return false; }
    if (mode.compare(0, 7, "measure") == 0) {
        ll sz = mode == "measure_width" ? 0 : (ll)want.size(), ww = mode == "measure_size" ? 0 : W < lim ? W : lim;
        if (m.s != sz || m.w != ww) { snprintf(t, 600, "measured size %ld, width %ld/65536; specified %lld, %lld", m.s, m.w, sz, ww); why = t; return false; }
        return true;
    }
    str got = d.finish();
    if (got != want) { snprintf(t, 600, "printed '%s' (%d), specified '%s' (%d)", show(got).c_str(), (int)got.size(), show(want).c_str(), (int)want.size()); why = t; return false; }
    return true;
}
static bool test(const in& a)
{
    std::string why; auto sh = [&] { printf("FAIL %s elements=", name.c_str()); for (long v : a.v) printf("%ld,", v); printf(" separator=%d f=%ld width=%lld lim=%lld cap=%d :: %s\n", a.sep, a.f, a.width, a.lim, a.cap, why.empty() ? nat::why().c_str() : why.c_str()); };
    nat::watch w(sh);
    if (!one(a, why)) { sh(); return false; }
    return true;
}
int main(int argc, char** argv)
{
    nat::init(); name = argv[1];
    if (!strcmp(argv[2], "--replay")) {
        for (int n = 0; n < 6; ++n) for (int s = 0; s < 40; s = s * 2 + 1) for (int cap = 0; cap < 80; cap += 9)
            for (ll lim : {0LL, 65536LL, 655360LL, (ll)INT32_MAX, atoll(argv[3])}) {
                in a{}; for (int k = 0; k < n; ++k) a.v.push_back(k * 3 + 1); a.sep = s; a.f = 5; a.width = 3 * 65536; a.lim = lim; a.cap = cap;
                if (!test(a)) return 1;
            }
        return 0;
    }
    std::mt19937_64 g((unsigned)atoi(argv[3])); double secs = atof(argv[4]); auto t0 = std::chrono::steady_clock::now(); ll cnt = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        in a{}; for (unsigned n = g() % 4 == 0 ? g() % 40 : g() % 5; n--;) a.v.push_back(g() % 5 == 0 ? 7 : (long)(g() % 1000));
        a.sep = (int)(g() % 3 == 0 ? 0 : g() % 3 == 0 ? g() % 80 : g() % 5); a.f = (long)(g() % 50); a.width = (ll)(g() % 10000000); if (g() % 10 == 0) a.width = -(ll)(g() % 99999);
        a.lim = g() % 3 == 0 ? INT32_MAX : (ll)(g() % 4 == 0 ? g() % INT32_MAX : g() % 3000000); if (g() % 20 == 0) a.lim = 0;
        a.cap = (int)(g() % 90);
        if (!test(a)) return 1;
        ++cnt;
    }
    printf("OK cases=%lld\n", cnt); return 0;
}
