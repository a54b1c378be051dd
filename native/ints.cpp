// Native oracle for C10: prints one integer through a destination with scripted buffers and compares with
// a text computed independently.  -DKIND=<A|B|C|CA|D|E> -DBASE=<2|8|10|16>
#include <strf/to_string.hpp>
#include "nat.hpp"
#include "dst.hpp"
#include <random>
#include <chrono>
#include <vector>
#include <string>
using namespace strf;
typedef long long ll;
#define KA 0
#define KB 1
#define KC 2
#define KCA 3
#define KD 4
#define KE 5
#define CAT(a, b) CAT2(a, b)
#define CAT2(a, b) a##b
constexpr int K = CAT(K, KIND);
struct in { ll v, prec, pad0, sign, base, width, al, fill, lc, cap; };
static std::string u8(char32_t c) { std::string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
template <class C> void enc(std::basic_string<C>& o, char32_t c)
{
    if (sizeof(C) == 4) { o += (C)c; return; }
    if (c > 0x10FFFF) c = 0xFFFD;
    if (sizeof(C) == 1) for (char b : u8(c)) o += (C)b;
    else if (c < 0x10000) o += (C)c;
    else { o += (C)(0xD7C0 + (c >> 10)); o += (C)(0xDC00 + (c & 0x3FF)); }
}
template <class T, class C> struct run_ {
    static std::basic_string<C> want(const in& a, ll& chars)
    {
        constexpr bool sg = std::is_signed<T>::value; T v = (T)a.v;
        bool full = K == KD || K == KE, ali = K == KB || K == KCA || K == KE, def = K <= KB;
        ll sign = def ? 0 : a.sign, base = def ? 0 : a.base, prec = full ? a.prec : 0, pad0 = full ? a.pad0 : 0; char32_t fill = ali ? (char32_t)a.fill : U' ';
        unsigned long long x = (typename std::make_unsigned<T>::type)v; bool neg = false;
        if (BASE == 10 && sg && v < 0) { neg = true; x = 0ull - (unsigned long long)(ll)v; }
        std::string d; { auto y = x; do { int k = (int)(y % BASE); d.insert(d.begin(), (char)(k < 10 ? '0' + k : (a.lc == 0x2020 ? 'a' : 'A') + k - 10)); y /= BASE; } while (y); }
        std::string p; bool fs = false;
        if (BASE == 10) { if (neg) p = "-"; else if (sg && sign == '+') p = "+"; else if (sg && sign == ' ') fs = true; }
        else if (base && BASE == 8) { if (x) p = "0"; }
        else if (base) { p = BASE == 16 ? (a.lc ? "0x" : "0X") : (a.lc ? "0b" : "0B"); }
        ll z = prec - (ll)d.size() - (BASE == 8 ? (ll)p.size() : 0), z2 = pad0 - (ll)(d.size() + p.size() + fs); if (z2 > z) z = z2; if (z < 0) z = 0;
        ll content = (ll)(d.size() + p.size() + fs) + z, fc = 0;
        if (ali) { double w = (double)(int)a.width / 65536.0; ll r = (ll)(w < 0 ? -(ll)(-w + 0.49999) : (ll)(w + 0.49999)); if (r > content) fc = r - content; }
        ll l = a.al == 0 ? 0 : a.al == 1 ? fc : fc / 2; std::basic_string<C> o;
        for (ll i = 0; i < l + fs; ++i) enc(o, fill);
        for (char ch : p) o += (C)ch;
        o.append((std::size_t)z, (C)'0'); for (char ch : d) o += (C)ch;
        for (ll i = 0; i < fc - l; ++i) enc(o, fill);
        chars = content + fc; return o;
    }
    template <class P> static auto mk(const in& a, P& pre)
    {
        T v = (T)a.v; auto lcp = pack((lettercase)a.lc); alignment_format af{(char32_t)a.fill, width_t::from_underlying((int)a.width), (text_alignment)a.al};
        auto s = (showsign)a.sign; bool b = a.base != 0;
        if constexpr (K == KA) return make_printer<C>(&pre, lcp, v);
        else if constexpr (K == KB) return make_printer<C>(&pre, lcp, fmt(v).set_alignment_format(af));
        else if constexpr (K == KC) return make_printer<C>(&pre, lcp, fmt(v).set_int_format(int_format_no_pad0_nor_punct<BASE>{s, b}));
        else if constexpr (K == KCA) return make_printer<C>(&pre, lcp, fmt(v).set_int_format(int_format_no_pad0_nor_punct<BASE>{s, b}).set_alignment_format(af));
        else if constexpr (K == KD) return make_printer<C>(&pre, lcp, fmt(v).set_int_format(int_format_static_base_and_punct<BASE, false>{(int)a.prec, (int)a.pad0, s, b}));
        else return make_printer<C>(&pre, lcp, fmt(v).set_int_format(int_format_static_base_and_punct<BASE, false>{(int)a.prec, (int)a.pad0, s, b}).set_alignment_format(af));
    }
    static bool one(const in& a, std::string& why)
    {
        ll chars; auto w = want(a, chars); char t[300];
        full_premeasurements pre; auto p = mk(a, pre);
        if ((ll)pre.accumulated_size() != (ll)w.size()) { snprintf(t, 300, "size is %lld, specified %lld", (ll)pre.accumulated_size(), (ll)w.size()); why = t; return false; }
        ll ww = chars > 32767 ? 0x7FFFFFFF : chars * 65536;
        if (pre.accumulated_width().underlying_value() != ww) { snprintf(t, 300, "width is %lld/65536, specified %lld", (ll)pre.accumulated_width().underlying_value(), ww); why = t; return false; }
        nat::test_dst<C> d((std::size_t)a.cap, {64, 65, 70});
        p(d); auto o = d.finish();
        if (!d.err.empty()) { why = d.err; return false; }
        if (o != w) { std::string s, x; for (auto c : o) { if (s.size() < 60) s += c > 31 && c < 127 ? (char)c : '?'; } for (auto c : w) if (x.size() < 60) x += c > 31 && c < 127 ? (char)c : '?';
            snprintf(t, 300, "printed '%s' (%d), specified '%s' (%d)", s.c_str(), (int)o.size(), x.c_str(), (int)w.size()); why = t; return false; }
        return true;
    }
    static bool test(in a)
    {
        std::string why; auto show = [&] { printf("FAIL v=%lld prec=%lld pad0=%lld sign=%lld base=%lld width=%lld al=%lld fill=%lld lc=%lld cap=%lld :: %s\n", a.v, a.prec, a.pad0, a.sign, a.base, a.width, a.al, a.fill, a.lc, a.cap, why.empty() ? nat::why().c_str() : why.c_str()); };
        nat::watch w(show);
        if (!one(a, why)) { show(); return false; }
        return true;
    }
    static int go(int argc, char** argv)
    {
        if (!strcmp(argv[3], "--replay")) {
            in a; ll* q = &a.v; for (int i = 0; i < 9; ++i) q[i] = (ll)strtoull(argv[4 + i], 0, 10) , q[i] = argv[4 + i][0] == '-' ? strtoll(argv[4 + i], 0, 10) : q[i];
            if (a.prec > 100000 || a.pad0 > 100000) return 0;
            if (a.fill >= 0xD800 && a.fill < 0xE000) a.fill = 0x2F;
            for (ll cap = 0; cap < 400; ++cap) { a.cap = cap; if (!test(a)) return 1; }
            return 0;
        }
        std::mt19937_64 g((unsigned)atoi(argv[4])); double secs = atof(argv[5]); auto t0 = std::chrono::steady_clock::now(); ll c = 0;
        static const ll fills[] = {' ', '*', 0xE9, 0x20AC, 0x1F600, 0x10FFFF, 0x110000, 0xFFFD}; static const ll sg[] = {0, '+', ' '}; static const ll lcs[] = {0, 0x20, 0x2020};
        while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
            in a; int sh = (int)(g() % 64); a.v = (ll)(g() >> sh); if (g() % 3 == 0) a.v = (ll)(0ull - (unsigned long long)a.v); if (g() % 4 == 0) { unsigned long long p = 1; for (int i = (int)(g() % (BASE == 10 ? 20 : 64)); i > 0; --i) p *= BASE == 10 ? 10 : 2; a.v = (ll)(p - g() % 2); }
            if (g() % 9 == 0) a.v = 0; if (g() % 9 == 0) a.v = (ll)std::numeric_limits<T>::min() ; if (g() % 9 == 0) a.v = (ll)std::numeric_limits<T>::max();
            a.prec = (ll)(g() % 4 == 0 ? g() % 80 : g() % 24) - 1; a.pad0 = (ll)(g() % 4 == 0 ? g() % 80 : g() % 24) - 1; a.sign = sg[g() % 3]; a.base = (ll)(g() % 2);
            a.width = g() % 3 == 0 ? (ll)(int)(g()) : (ll)((int)((g() % 90) << 16) + (g() % 2 ? (int)(g() % 5) + 32766 : 0)); a.al = (ll)(g() % 3); a.fill = fills[g() % 8]; a.lc = lcs[g() % 3];
            a.cap = (ll)(g() % 3 == 0 ? g() % 100 : g() % 20);
            if (a.width > (400 << 16) && g() % 50) a.width %= 400 << 16;
            if (!test(a)) return 1;
            ++c;
        }
        printf("OK cases=%lld\n", c); return 0;
    }
};
template <class C> int go2(int argc, char** argv)
{
    switch (argv[1][0]) {
    case 'a': return run_<signed char, C>::go(argc, argv); case 's': return run_<short, C>::go(argc, argv);
    case 'i': return run_<int, C>::go(argc, argv); case 'l': return run_<long, C>::go(argc, argv);
    case 'h': return run_<unsigned char, C>::go(argc, argv); case 't': return run_<unsigned short, C>::go(argc, argv);
    case 'j': return run_<unsigned, C>::go(argc, argv); default: return run_<unsigned long, C>::go(argc, argv);
    }
}
int main(int argc, char** argv)
{
    nat::init(); char c = argv[2][0];
    return c == 'c' ? go2<char>(argc, argv) : c == 's' ? go2<char16_t>(argc, argv) : c == 'i' ? go2<char32_t>(argc, argv) : go2<wchar_t>(argc, argv);
}
