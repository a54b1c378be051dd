// Native oracle for C13: widths of strings against the rules of UAX #29 and the documented widths, written from the rules.
#include <strf/to_string.hpp>
#include "nat.hpp"
#include <random>
#include <chrono>
#include <vector>
#include <algorithm>
using namespace strf;
typedef long long ll;
enum K { Other, CR, LF, Control, Extend, ZWJ, SpacingMark, Prepend, RI, ExtPict, L, V, T, LV, LVT, sot };
static const struct row { char32_t c; int k; } tab[] = {
#include "gcb13.inc"
};
static const int NT = sizeof(tab) / sizeof(*tab);
static int cls(char32_t c) { if (c >= 0x110000) return Other; int a = 0, b = NT; while (b - a > 1) { int m = (a + b) / 2; (tab[m].c <= c ? a : b) = m; } return tab[a].k; }
static int wid(char32_t c)
{
    static const char32_t w[][2] = {{0x1100,0x115F},{0x2329,0x232A},{0x2E80,0x303E},{0x3040,0xA4CF},{0xAC00,0xD7A3},{0xF900,0xFAFF},{0xFE10,0xFE19},{0xFE30,0xFE6F},
        {0xFF00,0xFF60},{0xFFE0,0xFFE6},{0x1F300,0x1F64F},{0x1F900,0x1F9FF},{0x20000,0x2FFFD},{0x30000,0x3FFFD}};
    for (auto& r : w) if (r[0] <= c && c <= r[1]) return 2;
    return 1;
}
struct hist { int last = sot; bool f = false;
    bool next(int k) { // returns: boundary before k
        bool b = true;
        if (last == CR && k == LF) b = false;
        else if (last == CR || last == LF || last == Control || last == sot || k == CR || k == LF || k == Control) b = true;
        else if (last == L && (k == L || k == V || k == LV || k == LVT)) b = false;
        else if ((last == LV || last == V) && (k == V || k == T)) b = false;
        else if ((last == LVT || last == T) && k == T) b = false;
        else if (k == Extend || k == ZWJ || k == SpacingMark || last == Prepend) b = false;
        else if (last == ZWJ && f && k == ExtPict) b = false;
        else if (last == RI && f && k == RI) b = false;
        f = k == RI ? !(last == RI && f) : k == ExtPict ? true : (k == Extend || k == ZWJ) ? f && (last == ExtPict || last == Extend) : false;
        last = k; return b; } };
struct pref { ll w; size_t cp; };            // width of, and number of code points in, the greatest part within the limit
static pref refstd(const std::vector<char32_t>& s, ll lim)
{
    hist h; ll w = 0;
    for (size_t i = 0; i < s.size(); ++i) if (h.next(cls(s[i]))) { ll x = (ll)wid(s[i]) << 16; if (w + x > lim) return {w, i}; w += x; }
    return {w, s.size()};
}
static std::string show(const std::vector<char32_t>& v) { std::string r; char b[16]; for (auto c : v) { snprintf(b, 16, "%x,", (unsigned)c); r += b; if (r.size() > 900) break; } return r; }
static std::mt19937 g;
static char32_t rc()
{
    switch (g() % 12) {
    case 0: return (char32_t)(g() % 0x80);
    case 1: return (char32_t)(g() % 0x110000);
    case 2: return 0xAC00 + g() % 0x2BA4;
    case 3: { static const char32_t x[] = {0x200D, 0x1F600, 0x1F469, 0x1F466, 0x300, 0x1F1E6, 0x1F1E7, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x600, 0x903, '\r', '\n', 'a'}; return x[g() % 17]; }
    case 4: case 5: return 0x1F1E6 + g() % 26;
    default: { int k = g() % 15; for (int t = 0; t < 400; ++t) { int i = g() % NT; if (tab[i].k == k) { char32_t e = i + 1 < NT ? tab[i + 1].c : 0x110000; return tab[i].c + (g() % 2 ? 0 : g() % (e - tab[i].c)); } } return 'a'; } }
}
// one call of std_width_calc_func after the code points of `pre`
static bool calc(const std::vector<char32_t>& pre, const std::vector<char32_t>& s, int w, bool pos)
{
    nat::watch wt([&] { printf("FAIL pre=%s s=%s w=%d pos=%d :: %s\n", show(pre).c_str(), show(s).c_str(), w, pos, nat::why().c_str()); });
    unsigned st = detail::std_width_calc_func(pre.data(), pre.data() + pre.size(), width_t::max(), 0, true).state;
    auto r = detail::std_width_calc_func(s.data(), s.data() + s.size(), width_t::from_underlying(w), st, pos);
    hist h; for (auto c : pre) h.next(cls(c));
    ll a = 0; size_t i = 0; bool full = false;
    for (; i < s.size(); ++i) if (h.next(cls(s[i]))) { ll x = (ll)wid(s[i]) << 16; if (pos ? a + x > w : a + x >= w) { full = true; break; } a += x; }
    bool ok;
    if (!pos && full) ok = r.ptr == nullptr ? r.remaining_width.underlying_value() == 0 : false;
    else ok = r.ptr == s.data() + i && r.remaining_width.underlying_value() == w - a;
    if (!ok) printf("FAIL pre=%s s=%s w=%d pos=%d :: ptr %lld remaining %d, specified %lld %lld%s\n", show(pre).c_str(), show(s).c_str(), w, pos, r.ptr ? (ll)(r.ptr - s.data()) : -1, r.remaining_width.underlying_value(), (ll)i, w - a, full ? " (full)" : "");
    return ok;
}
template <class C> static void units(C*, std::vector<C>& o, char32_t c, bool utf)
{
    if (!utf) { o.push_back((C)c); return; }
    if (sizeof(C) == 4) o.push_back((C)c);
    else if (sizeof(C) == 2) { if (c >= 0x10000) { o.push_back((C)(0xD800 + ((c - 0x10000) >> 10))); o.push_back((C)(0xDC00 + (c & 0x3FF))); } else o.push_back((C)c); }
    else if (c < 0x80) o.push_back((C)c);
    else if (c < 0x800) { o.push_back((C)(0xC0 | c >> 6)); o.push_back((C)(0x80 | (c & 63))); }
    else if (c < 0x10000) { o.push_back((C)(0xE0 | c >> 12)); o.push_back((C)(0x80 | (c >> 6 & 63))); o.push_back((C)(0x80 | (c & 63))); }
    else { o.push_back((C)(0xF0 | c >> 18)); o.push_back((C)(0x80 | (c >> 12 & 63))); o.push_back((C)(0x80 | (c >> 6 & 63))); o.push_back((C)(0x80 | (c & 63))); }
}
template <class CS> struct T1 {
    using C = typename CS::code_unit;
    template <class W> static bool str(const W& wc, const std::string& k, bool pos, const std::vector<C>& s, int w, bool valid)
    {
        nat::watch wt([&] { std::string b; for (auto c : s) { char x[16]; snprintf(x, 16, "%x,", (unsigned)(typename std::make_unsigned<C>::type)c); b += x; if (b.size() > 900) break; } printf("FAIL s=%s w=%d :: %s\n", b.c_str(), w, nat::why().c_str()); });
        CS cs{}; std::vector<char32_t> u; std::vector<size_t> at;      // code points, and where each starts
        if (k != "fast") { const C* p = s.data(); const C* e = p + s.size(); while (p != e) { char32_t c[1]; auto r = cs.to_u32().transcode(p, e, c, c + 1, nullptr, transcode_flags::none); at.push_back(p - s.data()); u.push_back(*c); p = r.src_ptr; } }
        else for (size_t i = 0; i < s.size(); ++i) { u.push_back('a'); at.push_back(i); }
        at.push_back(s.size());
        ll lim = w > 0 ? w : 0, want; size_t wp = 0;
        if (k == "std") { pref r = refstd(u, pos ? lim : (ll)1 << 60); want = pos ? r.w : std::min(r.w, lim); wp = at[r.cp]; }
        else if (k == "fast" && !pos) want = std::min((ll)u.size() << 16, lim);
        else { ll q = pos ? lim >> 16 : (lim + 65535) >> 16; ll c = std::min(q, (ll)u.size()); want = std::min(c << 16, (ll)INT32_MAX); wp = at[c]; }
        ll got; ll gp = 0;
        if (pos) { auto r = wc.str_width_and_pos(cs, width_t::from_underlying(w), s.data(), s.data() + s.size()); got = r.width.underlying_value(); gp = r.ptr - s.data(); }
        else got = wc.str_width(cs, width_t::from_underlying(w), s.data(), s.data() + s.size()).underlying_value();
        if (got == want && (!pos || gp == (ll)wp)) return true;
        nat::why() = ""; std::string b; for (auto c : s) { char x[16]; snprintf(x, 16, "%x,", (unsigned)(typename std::make_unsigned<C>::type)c); b += x; if (b.size() > 900) break; }
        printf("FAIL s=%s w=%d :: width %lld, pos %lld; specified %lld, %lld\n", b.c_str(), w, got, gp, want, (ll)wp); return false;
    }
    template <class W> static bool chr(const W& wc, const std::string& k, C ch)
    {
        char32_t c = (typename std::make_unsigned<C>::type)ch; if (sizeof(C) < 4) c = CS{}.decode_unit(ch);
        int want = k == "std" ? wid(c) << 16 : 1 << 16, got = wc.char_width(CS{}, ch).underlying_value();
        if (want != got) printf("FAIL ch=%x :: width %d, specified %d\n", (unsigned)(typename std::make_unsigned<C>::type)ch, got, want);
        return want == got;
    }
    template <class W> static int run(const W& wc, const std::string& f, const std::string& k, char** argv, bool utf)
    {
        if (!strcmp(argv[0], "--replay")) return chr(wc, k, (C)strtoull(argv[1], 0, 16)) ? 0 : 1;
        g.seed((unsigned)atoi(argv[1])); double secs = atof(argv[2]); auto t0 = std::chrono::steady_clock::now(); ll n = 0;
        if (f == "char") for (ll c = 0; c < (sizeof(C) == 1 ? 256 : sizeof(C) == 2 ? 65536 : 0x110100); ++c, ++n) if (!chr(wc, k, (C)c)) return 1;
        if (f != "char") while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
            std::vector<C> s; int m = g() % 4 == 0 ? g() % 140 : g() % 4 == 0 ? 30 + g() % 6 : g() % 9; bool valid = k == "u32f" || g() % 3;
            if (k != "std" && n % 50 == 7) { s.assign(32760 + g() % 20, (C)'x'); }
            else for (int i = 0; i < m; ++i) { if (valid) { char32_t c = utf ? rc() : g() % 0x80; if (c >> 11 == 0x1B) c = 'b'; units((C*)nullptr, s, c, utf); } else s.push_back((C)(sizeof(C) == 4 ? rc() : g())); }
            int cps = (int)s.size(); int w = g() % 3 ? (int)(((cps ? g() % (2 * cps + 2) : g() % 3) << 16) + (g() % 3 ? 0 : g() % 3 - 1)) : (int)g();
            if (s.size() > 32000 && g() % 2) w = INT32_MAX - (int)(g() % 70000);
            if (!str(wc, k, f == "pos", s, w, valid)) return 1; ++n; }
        printf("OK cases=%lld\n", n); return 0;
    }
    static int all(const std::string& f, const std::string& k, char** argv, bool utf = true)
    {
        if (k == "std") return run(std_width_calc_t{}, f, k, argv, utf);
        if (k == "fast") return run(fast_width_t{}, f, k, argv, utf);
        if (k == "u32f") return run(width_as_fast_u32len_t{}, f, k, argv, utf);
        return run(width_as_u32len_t{}, f, k, argv, utf);
    }
};
int main(int argc, char** argv)
{
    nat::init(); std::string f = argv[1];
    if (f == "calc") {
        if (!strcmp(argv[2], "--replay")) return 2;
        static const std::vector<char32_t> pre[] = {{}, {'a'}, {'\r'}, {'\n'}, {0x300}, {0x200D}, {0x903}, {0x600}, {0x1F1E6}, {0x1F1E6, 0x1F1E7}, {0x1F600}, {0x1F600, 0x300}, {0x1F600, 0x300, 0x200D}, {0x1F600, 0x200D}, {0x1100}, {0x1161}, {0x11A8}, {0xAC00}, {0xAC01}};
        g.seed((unsigned)atoi(argv[3])); double secs = atof(argv[4]); auto t0 = std::chrono::steady_clock::now(); ll n = 0;
        auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
        auto four = [&](const std::vector<char32_t>& p, const std::vector<char32_t>& s) { int w = (1 + g() % 5) << 15; n += 2; return calc(p, s, w, true) && calc(p, s, w, false); };
        for (int i = 0; i < NT; ++i) for (auto& p : pre) for (int d = -1; d <= 1; ++d) if (!four(p, {(char32_t)(tab[i].c + d < 0x110000 ? tab[i].c + d : 0), 0x200D, 0x1F600})) return 1;
        for (char32_t c = 0; c < 0x110000; ++c) { if ((c & 0xFFF) == 0 && el() > 200) break; if (!four(pre[c % 19], {c, 'a'}) || !calc({}, {c}, 3 << 16, true)) return 1; }
        while (el() < secs) { std::vector<char32_t> p, s; for (int i = g() % 4; i-- > 0;) p.push_back(rc()); for (int i = g() % 40; i-- > 0;) s.push_back(rc()); if (!calc(p, s, g() % 3 ? (int)(g() % 40) << 15 : (int)(g() & 0x7FFFFFFF), g() % 2)) return 1; ++n; }
        printf("OK cases=%lld\n", n); return 0;
    }
    std::string k = argv[2], cs = argv[3]; char** a = argv + 4;
    if (cs == "char" || cs == "utf8") return T1<utf8_t<char>>::all(f, k, a);
    if (cs == "char8") return T1<utf8_t<char8_t>>::all(f, k, a);
    if (cs == "char16" || cs == "utf16") return T1<utf16_t<char16_t>>::all(f, k, a);
    if (cs == "char32" || cs == "utf32") return T1<utf32_t<char32_t>>::all(f, k, a);
    if (cs == "wchar") return T1<utf_t<wchar_t>>::all(f, k, a);
    return T1<windows_1252_t<char>>::all(f, k, a, false);
}
