// Native oracle for C11: prints one string / character / bool through a destination with scripted buffers and
// compares with a text computed independently.  -DSCH=<source char type> -DDCH=<destination char type>
// -DSRC=<0 string, 1 char, 2 char32_t, 3 bool> -DHASP=<0|1> -DHASA=<0|1> -DTR=<0 none/same, 1 transcode, 2 unsafe, 3 sani, 4 iso, 5 iso unsafe, 6 same charset>
#include <strf/to_string.hpp>
#include "nat.hpp"
#include "dst.hpp"
#include <random>
#include <chrono>
#include <vector>
#include <string>
using namespace strf;
typedef long long ll;
struct in { ll n, prec, width, al, fill, ch, bv, lc, cap; std::vector<char32_t> txt; };
constexpr char32_t BAD = 0x200000;
template <class C> void enc(std::basic_string<C>& o, char32_t c)
{
    if (c == BAD || (sizeof(C) != 4 && c > 0x10FFFF)) c = 0xFFFD;
    if (sizeof(C) == 4) o += (C)c;
    else if (sizeof(C) == 2) { if (c < 0x10000) o += (C)c; else { o += (C)(0xD7C0 + (c >> 10)); o += (C)(0xDC00 + (c & 0x3FF)); } }
    else if (c < 0x80) o += (C)c;
    else if (c < 0x800) { o += (C)(0xC0 | c >> 6); o += (C)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (C)(0xE0 | c >> 12); o += (C)(0x80 | (c >> 6 & 63)); o += (C)(0x80 | (c & 63)); }
    else { o += (C)(0xF0 | c >> 18); o += (C)(0x80 | (c >> 12 & 63)); o += (C)(0x80 | (c >> 6 & 63)); o += (C)(0x80 | (c & 63)); }
}
static bool wide(char32_t c) { return (c >= 0x4E00 && c < 0x5000) || (c >= 0x1F600 && c < 0x1F640); }
static constexpr bool iso = TR == 4 || TR == 5;
template <class C> void encs(std::basic_string<C>& o, char32_t c)
{
    if (iso) o += (C)c;
    else if (c == BAD) o += sizeof(C) == 1 ? (C)0xFF : sizeof(C) == 2 ? (C)0xDC01 : (C)0x110000;
    else enc(o, c);
}
struct notifier : transcoding_error_notifier {
    int calls = 0;
    void invalid_sequence(int, const char*, const void*, std::ptrdiff_t) override { ++calls; }
    void unsupported_codepoint(const char*, unsigned) override { ++calls; }
};
static ll roundw(ll d) { ll f = d >> 16, r = d & 65535; return r > 32768 ? f + 1 : f; }
static std::basic_string<DCH> want(const in& a, ll& W, int& bad, ll sw)
{
    std::basic_string<DCH> body; bad = 0; ll w = 0;
#if SRC == 0
    std::size_t k = 0; (void)sw;
    for (; k < a.txt.size(); ++k) { ll c = wide(a.txt[k]) ? 2 : 1; if (HASP && w + c * 65536 > a.prec) break; w += c * 65536; if (w > 0x7FFFFFFF) w = 0x7FFFFFFF; }
    for (std::size_t i = 0; i < k; ++i) { if (a.txt[i] == BAD) ++bad; enc(body, a.txt[i]); }
#elif SRC == 1
    ll n = HASA ? a.n : 1;
    for (ll i = 0; i < n; ++i) body += (DCH)a.ch;
    w = n * sw;
#elif SRC == 2
    ll n = HASA ? a.n : 1; for (ll i = 0; i < n; ++i) enc(body, (char32_t)a.ch);
    w = n * sw;
#else
    const char* s = a.bv ? "TRUE" : "FALSE"; for (int i = 0; s[i]; ++i) body += (DCH)(i == 0 ? (a.lc == 0x2020 ? s[i] + 32 : s[i]) : (a.lc ? s[i] + 32 : s[i]));
    w = (ll)body.size() * 65536;
#endif
    if (w > 0x7FFFFFFF) w = 0x7FFFFFFF;
    ll fc = 0;
    if (HASA) {
        if (SRC == 3) { ll wd = (int)a.width; ll r = wd >= 0 ? roundw(wd) : -((-wd + 32767) >> 16); fc = r - w / 65536; if (fc < 0) fc = 0; }
        else if ((int)a.width > w) fc = roundw((int)a.width - w);
    }
    ll l = a.al == 0 ? 0 : a.al == 1 ? fc : fc / 2; std::basic_string<DCH> o;
    for (ll i = 0; i < l; ++i) enc(o, (char32_t)a.fill);
    o += body;
    for (ll i = 0; i < fc - l; ++i) enc(o, (char32_t)a.fill);
    W = w + fc * 65536; if (W > 0x7FFFFFFF) W = 0x7FFFFFFF; return o;
}
#if HASA
#define AL .set_alignment_format(alignment_format{(char32_t)a.fill, width_t::from_underlying((int)a.width), (text_alignment)a.al})
#else
#define AL
#endif
#if HASP
#define PR .p(width_t::from_underlying((int)a.prec))
#else
#define PR
#endif
template <class P> static auto mk(const in& a, P& pre, const SCH* s, std::size_t len, notifier& n)
{
#if SRC == 0
    detail::simple_string_view<SCH> sv(s, len); auto fp = pack(transcoding_error_notifier_ptr(&n));
#if TR == 0
#if HASA || HASP
    return make_printer<DCH>(&pre, fp, fmt(sv) PR AL);
#else
    return make_printer<DCH>(&pre, fp, sv);
#endif
#elif TR == 1 || TR == 6
    return make_printer<DCH>(&pre, fp, transcode(sv) PR AL);
#elif TR == 2
    return make_printer<DCH>(&pre, fp, unsafe_transcode(sv) PR AL);
#elif TR == 3
    return make_printer<DCH>(&pre, fp, sani(sv) PR AL);
#elif TR == 4
    return make_printer<DCH>(&pre, fp, transcode(sv, iso_8859_3<SCH>) PR AL);
#else
    return make_printer<DCH>(&pre, fp, unsafe_transcode(sv, iso_8859_3<SCH>) PR AL);
#endif
#elif SRC == 1
    (void)s; (void)len; (void)n;
#if HASA
    return make_printer<DCH>(&pre, pack(), multi((DCH)a.ch, a.n) AL);
#else
    return make_printer<DCH>(&pre, pack(), (DCH)a.ch);
#endif
#elif SRC == 2
    (void)s; (void)len; (void)n;
#if HASA
    return make_printer<DCH>(&pre, pack(), multi((char32_t)a.ch, a.n) AL);
#else
    return make_printer<DCH>(&pre, pack(), (char32_t)a.ch);
#endif
#else
    (void)s; (void)len; (void)n; auto lcp = pack((lettercase)a.lc);
#if HASA
    return make_printer<DCH>(&pre, lcp, fmt((bool)a.bv) AL);
#else
    return make_printer<DCH>(&pre, lcp, (bool)a.bv);
#endif
#endif
}
template <class C> static std::string show(const std::basic_string<C>& o) { std::string s; char t[16]; for (auto c : o) if (s.size() < 70) { if (c > 31 && c < 127) s += (char)c; else { snprintf(t, 16, "<%X>", (unsigned)c & (sizeof(C) == 1 ? 0xFFu : 0xFFFFFFFFu)); s += t; } } return s; }
static bool one(const in& a, std::string& why)
{
    std::basic_string<SCH> src; for (auto c : a.txt) encs(src, c);
    ll W, sw = 65536; int bad; char t[500];
    if (SRC == 1 || SRC == 2) sw = wide((char32_t)a.ch) && !(SRC == 1 && sizeof(DCH) < 4 && a.ch > 0xFFFF) ? 131072 : 65536;
    if (SRC == 1 && sizeof(DCH) == 1) sw = 65536;
    auto w = want(a, W, bad, sw);
    SCH* p0 = (SCH*)malloc((src.size() ? src.size() : 1) * sizeof(SCH)); // exact size: reading past the end is seen
     if (!src.empty()) memcpy(p0, src.data(), src.size() * sizeof(SCH)); struct fr { SCH* p; ~fr() { free(p); } } fr_{p0};
    auto run = [&](auto&& pre, bool measured) -> bool {
        notifier n; auto pr = mk(a, pre, p0, src.size(), n);
        if (measured) {
            if ((ll)pre.accumulated_size() != (ll)w.size()) { snprintf(t, 500, "size is %lld, specified %lld", (ll)pre.accumulated_size(), (ll)w.size()); why = t; return false; }
            if (pre.accumulated_width().underlying_value() != W) { snprintf(t, 500, "width is %lld/65536, specified %lld", (ll)pre.accumulated_width().underlying_value(), W); why = t; return false; }
        }
        nat::test_dst<DCH> d((std::size_t)a.cap, {64, 65, 70});
        pr(d); auto o = d.finish();
        if (!d.err.empty()) { why = d.err; return false; }
        if (o != w) { snprintf(t, 500, "printed '%s' (%d units), specified '%s' (%d)", show(o).c_str(), (int)o.size(), show(w).c_str(), (int)w.size()); why = t; return false; }
        if (SRC == 0 && (TR == 1 || TR == 3) && n.calls < bad)   // one that does not fit in the buffer is notified again after recycle()
            { snprintf(t, 500, "%d transcoding errors notified, %d invalid sequences", n.calls, bad); why = t; return false; }
        return true;
    };
    return run(full_premeasurements{}, true) && run(no_premeasurements{}, false);
}
static bool test(const in& a)
{
    std::string why; auto sh = [&] { std::basic_string<SCH> src; for (auto c : a.txt) encs(src, c);
        printf("FAIL n=%lld prec=%lld width=%lld al=%lld fill=%lld ch=%lld bv=%lld lc=%lld cap=%lld text='%s' (%d units) :: %s\n", a.n, a.prec, a.width, a.al, a.fill, a.ch, a.bv, a.lc, a.cap, show(src).c_str(), (int)src.size(), why.empty() ? nat::why().c_str() : why.c_str()); };
    nat::watch w(sh);
    if (!one(a, why)) { sh(); return false; }
    return true;
}
int main(int argc, char** argv)
{
    nat::init();
    if (!strcmp(argv[1], "--replay")) {
        in a; ll* q = &a.n; for (int i = 0; i < 8; ++i) q[i] = argv[2 + i][0] == '-' ? strtoll(argv[2 + i], 0, 10) : (ll)strtoull(argv[2 + i], 0, 10);
        if (a.n > 5000) a.n = 5000;
        if (a.fill >= 0xD800 && a.fill < 0xE000) a.fill = 0x2F;
        if (a.ch >= 0xD800 && a.ch < 0xE000) return 0;
        if (SRC == 1 && a.ch > (sizeof(DCH) == 1 ? 127 : 0xFFFF)) a.ch = '+';
        if ((a.ch > 0x7F && a.ch < 0xA0) || a.ch > 0x24FF) return 0;
        for (ll i = 0; i < a.n && SRC == 0; ++i) a.txt.push_back((char32_t)('a' + i % 26));
        for (ll cap = 0; cap < 400; cap += cap < 20 ? 1 : 13) { a.cap = cap; if (!test(a)) return 1; }
        return 0;
    }
    std::mt19937_64 g((unsigned)atoi(argv[2])); double secs = atof(argv[3]); auto t0 = std::chrono::steady_clock::now(); ll c = 0;
    static const ll fills[] = {' ', '*', 0xE9, 0x20AC, 0x1F600, 0x10FFFF, 0x110000, 0xFFFD}; static const ll lcs[] = {0, 0x20, 0x2020};
    static const char32_t cps[] = {'a', 'Z', '0', 0xE9, 0x4E00, 0x1F600, 0x20AC, '~', BAD}; static const char32_t icps[] = {'a', 'Z', 0xC1, 0xE9, '0'};
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        in a; a.n = (ll)(g() % 6 == 0 ? g() % 400 : g() % 20); if (g() % 8 == 0) a.n = (ll)(g() % 3);
        a.al = (ll)(g() % 3); a.fill = fills[g() % 8]; a.lc = lcs[g() % 3]; a.bv = (ll)(g() % 2);
        auto wd = [&]() -> ll { return g() % 6 == 0 ? (ll)(int)g() : (ll)((int)((g() % 60) << 16) + (g() % 2 ? (int)(g() % 5) + 32766 : 0)); };
        a.width = wd(); a.prec = wd(); if (a.width > (400 << 16) && g() % 50) a.width %= 400 << 16;
        if (g() % 4 == 0) a.width = ((a.n + (ll)(g() % 5) - 2) << 16) + (ll)(g() % 3 ? 0 : g() % 65536);
        if (g() % 200 == 0) { a.n = 32760 + (ll)(g() % 20); }
        a.ch = (SRC == 1 && sizeof(DCH) == 1) ? (ll)(32 + g() % 90) : (ll)(SRC == 1 && sizeof(DCH) == 2 ? cps[g() % 5] : cps[g() % 8]);
        bool pure = g() % 3 == 0; bool safe = TR == 1 || TR == 3;
        for (ll i = 0; i < a.n && SRC == 0; ++i) a.txt.push_back(iso ? icps[g() % 5] : pure ? U'x' : cps[g() % (safe ? 9 : 8)]);
        a.cap = (ll)(g() % 3 == 0 ? g() % 100 : g() % 20);
        if (!test(a)) return 1;
        ++c;
    }
    printf("OK cases=%lld\n", c); return 0;
}
