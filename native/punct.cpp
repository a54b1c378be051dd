// Native oracle for C14: digit groupings (KIND=G), writers of grouped digits (KIND=W), printers of punctuated
// integers (KIND=P, Q: aligned, R: dynamic base).  -DKIND=<G|W|P|Q|R> -DBASE=<2|8|10|16>
#include <strf/to_string.hpp>
#include "nat.hpp"
#include "dst.hpp"
#include <random>
#include <cstdarg>
#include <chrono>
#include <vector>
#include <string>
#ifndef BASE
#define BASE 10
#endif
using namespace strf;
typedef long long ll;
typedef unsigned long long ull;
#define KG 0
#define KW 1
#define KP 2
#define KQ 3
#define KR 4
#define KF 5
#define CAT(a, b) CAT2(a, b)
#define CAT2(a, b) a##b
constexpr int K = CAT(K, KIND);
// ---- reference: groups, least significant first; rep: the last one is repeated
struct grp { std::vector<int> g; bool rep = false; };
static grp norm(grp a) { if (a.g.empty()) a.rep = false; return a; }
static digits_grouping real(const grp& a)
{ digits_grouping_creator c; for (int x : a.g) c.push_high(x); return a.rep ? c.finish() : c.finish_no_more_sep(); }
// word: representation, 5 bits per group under a marker (2: repeated, 3: not)
static unsigned word(const grp& a) { unsigned w = a.rep ? 2u : 3u; for (std::size_t i = a.g.size(); i-- > 0;) w = w << 5 | (unsigned)a.g[i]; return w; }
static digits_grouping raw(unsigned w) { digits_grouping r; memcpy((void*)&r, &w, 4); return r; }
static bool decode(unsigned w, grp& a)
{ a = {}; while (w > 3) { int x = (int)(w & 31); if (!x || a.g.size() == 6) return false; a.g.push_back(x); w >>= 5; } if (w != 2 && w != 3) return false; a.rep = w == 2; return !(a.rep && a.g.empty()); }
static std::vector<int> bounds(const grp& a, int n) // numbers of digits to the right of each separator
{ std::vector<int> r; int s = 0; std::size_t i = 0; if (a.g.empty()) return r; for (;;) { if (i >= a.g.size() && !a.rep) break; s += a.g[i < a.g.size() ? i : a.g.size() - 1]; ++i; if (s >= n) break; r.push_back(s); } return r; }
template <class S, class U> S grouped(const std::string& d, const grp& a, const U& sep)
{ auto b = bounds(a, (int)d.size()); S o; for (std::size_t i = 0; i < d.size(); ++i) { int right = (int)(d.size() - i); if (i) for (int x : b) if (x == right) o += sep; o += (typename S::value_type)d[i]; } return o; }
static std::string digits(ull x, int base, ll lc)
{ std::string d; do { int k = (int)(x % (unsigned)base); d.insert(d.begin(), (char)(k < 10 ? '0' + k : (lc == 0x2020 ? 'a' : 'A') + k - 10)); x /= (unsigned)base; } while (x); return d; }
static std::string u8(char32_t c) { std::string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
template <class C> void enc(std::basic_string<C>& o, char32_t c)
{
    if (sizeof(C) == 4) { o += (C)c; return; }
    if (c > 0x10FFFF) c = 0xFFFD;
    if (sizeof(C) == 1) for (char b : u8(c)) o += (C)b;
    else if (c < 0x10000) o += (C)c;
    else { o += (C)(0xD7C0 + (c >> 10)); o += (C)(0xDC00 + (c & 0x3FF)); }
}
static bool sep_ok(char32_t c) { return c < 0x110000 && !(c >= 0xD800 && c < 0xE000); }
static std::string desc(const grp& a) { std::string s = "("; for (int x : a.g) s += std::to_string(x) + ","; return s + (a.rep ? "repeat)" : "-1)"); }
template <class S> std::string show(const S& o) { std::string s; for (auto c : o) if (s.size() < 90) s += c > 31 && c < 127 ? (char)c : '?'; return s; }
typedef std::mt19937_64 rng;
static grp rgrp(rng& r) { grp a; int k = (int)(r() % 7), mx = r() % 3 == 0 ? 31 : r() % 2 ? 4 : 8; for (int i = 0; i < k; ++i) a.g.push_back(r() % 4 == 0 && i ? a.g.back() : 1 + (int)(r() % (unsigned)mx)); a.rep = k && r() % 3; return a; }
static ull rval(rng& r) { ull x = r() >> (r() % 64); if (r() % 3 == 0) { ull p = 1; for (int i = (int)(r() % (BASE == 10 ? 20 : BASE == 2 ? 64 : BASE == 8 ? 22 : 16)); i > 0; --i) p *= BASE; x = p - r() % 2; } return r() % 40 == 0 ? ~0ull : x; }
static std::vector<grp> samples()
{
    std::vector<grp> v; v.push_back({}); int s[] = {1, 2, 3, 4, 7, 31};
    for (bool rep : {false, true}) for (int a : s) { v.push_back({{a}, rep}); for (int b : s) { v.push_back({{a, b}, rep}); v.push_back({{a, b, 2}, rep}); } }
    for (bool rep : {false, true}) { v.push_back({{1, 2, 3, 4}, rep}); v.push_back({{3, 1, 1, 2, 5}, rep}); v.push_back({{1, 1, 1, 1, 1, 1}, rep}); v.push_back({{2, 1, 3, 1, 2, 4}, rep}); v.push_back({{31, 31, 31, 31, 31, 31}, rep}); }
    return v;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ KIND=G
static std::string op, ty; static bool last;
static bool failed(const char* f, ...) { char t[400]; va_list a; va_start(a, f); vsnprintf(t, 400, f, a); va_end(a); printf("FAIL %s\n", t); return false; }
template <std::size_t... I> static digits_grouping list_(const std::vector<int>& g, std::index_sequence<I...>) { return last ? digits_grouping(g[I]..., -1) : digits_grouping(g[I]...); }
static digits_grouping list(const std::vector<int>& g)
{
    switch (g.size()) { case 1: return list_(g, std::make_index_sequence<1>()); case 2: return list_(g, std::make_index_sequence<2>()); case 3: return list_(g, std::make_index_sequence<3>());
    case 4: return list_(g, std::make_index_sequence<4>()); case 5: return list_(g, std::make_index_sequence<5>()); default: return list_(g, std::make_index_sequence<6>()); }
}
static unsigned W(digits_grouping g) { unsigned r; memcpy(&r, &g, 4); return r; }
static unsigned merged(std::vector<int> v, bool rep)
{
    bool ok = v.size() >= 1 && v.size() <= 6; for (int x : v) if (x < 1 || x > 31) ok = false;
    if (!ok) return 3; if (rep) while (v.size() > 1 && v[v.size() - 1] == v[v.size() - 2]) v.pop_back();
    return word({v, rep});
}
static bool g_grouping(const std::string& what, const grp& a, int n)
{
    std::string id = what + " " + desc(a) + " n=" + std::to_string(n); digits_grouping g = raw(word(a));
    nat::watch w([&] { failed("%s :: %s", id.c_str(), nat::why().c_str()); });
    auto b = bounds(a, n);
    if (what == "seps") { int r = g.separators_count(n); if (r != (int)b.size()) return failed("%s :: separators_count is %d, specified %d", id.c_str(), r, (int)b.size()); }
    else if (what == "any") { bool r = g.any_separator(n); if (r != !b.empty()) return failed("%s :: any_separator is %d", id.c_str(), r); }
    else if (what == "dist") {
        if (n < 1) return true;
        auto d = g.distribute(n); std::vector<int> q; unsigned lo; memcpy(&lo, &d.low_groups, 4);
        std::size_t used = b.size() < a.g.size() ? b.size() : a.g.size(); unsigned wl = 0; for (std::size_t i = 0; i < used; ++i) wl = wl << 5 | (unsigned)a.g[i];
        int hi = n - (b.empty() ? 0 : b.back()), mid = a.rep && b.size() >= a.g.size() ? (int)(b.size() - a.g.size()) + 1 : 0;
        if (lo != wl || d.highest_group != hi || d.middle_groups_count != mid) return failed("%s :: distribute is {%x, %d, %d}, specified {%x, %d, %d}", id.c_str(), lo, d.middle_groups_count, d.highest_group, wl, mid, hi);
    } else {
        if (op != "ended" && a.g.empty()) return true;
        auto it = g.get_iterator(); ll r = 0, x = 0;
        if (op == "current") { r = it.current(); x = a.g[0]; }
        else if (op == "advance") { it.advance(); unsigned u; memcpy(&u, &it, 4); r = u; x = word({std::vector<int>(a.g.begin() + 1, a.g.end()), a.rep}); }
        else if (op == "is_last") { r = it.is_last(); x = a.g.size() == 1; }
        else if (op == "shall_repeat_current") { r = it.shall_repeat_current(); x = a.g.size() == 1 && a.rep; }
        else if (op == "is_final") { r = it.is_final(); x = a.g.size() == 1 && !a.rep; }
        else { r = it.ended(); x = a.g.empty(); }
        if (r != x) return failed("%s %s :: is %lld, specified %lld", id.c_str(), op.c_str(), r, x);
    }
    return true;
}
static bool g_build(const std::string& what, const std::vector<int>& v)
{
    std::string id = what + " (" ; for (int x : v) id += std::to_string(x) + ","; id += ") " + op + (last ? " -1" : "");
    nat::watch w([&] { failed("%s :: %s", id.c_str(), nat::why().c_str()); });
    unsigned r, x;
    if (what == "cr") {
        digits_grouping_creator c; for (int y : v) if (ty == "int") c.push_high(y); else c.push_high((unsigned)y);
        r = W(op == "finish" ? c.finish() : c.finish_no_more_sep()); x = merged(v, op == "finish");
    } else if (what == "str") { // the terminator is the last element
        std::vector<char> s(v.begin(), v.end()); std::vector<int> g(v.begin(), v.end() - 1);
        r = W(digits_grouping(s.data()));
        x = merged(g, v.back() == 0);
    } else { for (int y : v) if (y < 1 || y > 31) return true; if (v.empty() || v.size() > 6) return true; r = W(list(v)); x = word({v, !last}); }
    if (r != x) return failed("%s :: representation is %x, specified %x", id.c_str(), r, x);
    return true;
}
static int go_g(int argc, char** argv)
{
    std::string what = argv[1]; int i = 2; if (what == "it") op = argv[i++]; if (what == "cr") { op = argv[i++]; ty = argv[i++]; } if (what == "list1") last = true;
    bool build = what == "cr" || what == "str" || what[0] == 'l';
    if (!strcmp(argv[i], "--replay")) {
        std::vector<int> v; for (++i; i < argc; ++i) v.push_back((int)strtoll(argv[i], 0, 10));
        if (build) return what == "str" ? 0 : !g_build(what, v);
        if (v.size() < 2) return 0;
        grp a; a.g.assign(v.begin() + 2, v.end()); a.rep = v[1] == 2; for (int x : a.g) if (x < 1 || x > 31) return 0;
        return !g_grouping(what, a, v[0]);
    }
    rng r((unsigned)atoi(argv[i + 1])); double end = now() + atof(argv[i + 2]); ll c = 0;
    for (const grp& a : samples()) if (!build) for (int n = 0; n < 70; ++n) if (!g_grouping(what, a, n)) return 1;
    while (now() < end) {
        ++c;
        if (!build) { grp a = rgrp(r); int n = r() % 9 == 0 ? (int)(r() & 0x7fffffff) : (int)(r() % 80); if (!a.g.empty() && n > 4000000) n %= 4000000; if (!g_grouping(what, a, n)) return 1; continue; }
        std::vector<int> v; int k = (int)(r() % 9), mx = r() % 2 ? 4 : 31; for (int j = 0; j < k; ++j) v.push_back(r() % 3 == 0 && j ? v.back() : 1 + (int)(r() % (unsigned)mx));
        if (what == "str") { if (k && r() % 9 == 0) v[r() % (unsigned)k] = 32 + (int)(r() % 96); v.push_back(r() % 2 ? 0 : r() % 2 ? -1 : -(int)(r() % 128) - 1); }
        else if (what == "cr" && k && r() % 4 == 0) v[r() % (unsigned)k] = (int)(r() % 3 == 0 ? r() : r() % 40) - 2;
        if (!g_build(what, v)) return 1;
    }
    printf("OK cases=%lld\n", c); return 0;
}

// ------------------------------------------------------------------ KIND=F
template <class F> static bool f_facet(int i, F x, unsigned g, unsigned s, unsigned d)
{ unsigned r[] = {W(x.grouping()), (unsigned)x.thousands_sep(), (unsigned)x.decimal_point()}, w[] = {g, s, d}; for (int j = 0; j < 3; ++j) if (r[j] != w[j]) return failed("facet %d of base %d :: value %d is %x, specified %x", i, BASE, j, r[j], w[j]); return true; }
static bool f_one(int i, unsigned g, unsigned s, unsigned d)
{
    typedef numpunct<BASE> N; typedef no_grouping<BASE> O; typedef default_numpunct<BASE> D; digits_grouping q = raw(g);
    switch (i) {
    case 0: return f_facet(i, N(q).thousands_sep(s).decimal_point(d), g, s, d);
    case 1: { N x; x.grouping(q); x.thousands_sep(s); x.decimal_point(d); return f_facet(i, x, g, s, d); }
    case 2: return f_facet(i, N{}.decimal_point(d).grouping(q), g, ',', d);
    case 3: return f_facet(i, N{}, 3, ',', '.'); case 4: return f_facet(i, D{}, 3, ',', '.'); case 5: return f_facet(i, (N)D{}, 3, ',', '.');
    case 6: return f_facet(i, O{}, 3, ',', '.'); case 7: return f_facet(i, O{}.decimal_point(d), 3, ',', d);
    case 8: { O x; x.decimal_point(d); return f_facet(i, x, 3, ',', d); }
    default: return f_facet(i, (N)O{}.decimal_point(d), 3, ',', d);
    }
}
static int go_f(int argc, char** argv)
{
    if (argv[1][0] == 'l') { // numpunct<B>(g0, g1, ...)
        rng r(1); last = !strcmp(argv[1], "list1");
        for (int c = 0; c < 20000; ++c) {
            std::vector<int> v; int k = 1 + (int)(r() % 6); for (int j = 0; j < k; ++j) v.push_back(1 + (int)(r() % 31));
            if (!strcmp(argv[2], "--replay")) { v.clear(); for (int i = 3; i < argc; ++i) v.push_back(atoi(argv[i])); for (int x : v) if (x < 1 || x > 31) return 0; if (v.empty() || v.size() > 6) return 0; }
            v.resize(6, 1); k = argc > 3 && !strcmp(argv[2], "--replay") ? argc - 3 : k; v.resize((std::size_t)k);
            unsigned x = 0; typedef numpunct<BASE> N; int* g = v.data();
#define NP(...) x = W(last ? N(__VA_ARGS__, -1).grouping() : N(__VA_ARGS__).grouping())
            switch (k) { case 1: NP(g[0]); break; case 2: NP(g[0], g[1]); break; case 3: NP(g[0], g[1], g[2]); break; case 4: NP(g[0], g[1], g[2], g[3]); break; case 5: NP(g[0], g[1], g[2], g[3], g[4]); break; default: NP(g[0], g[1], g[2], g[3], g[4], g[5]); }
            if (x != word({v, !last})) { failed("numpunct<%d>%s :: representation is %x, specified %x", BASE, desc({v, !last}).c_str(), x, word({v, !last})); return 1; }
        }
        return 0;
    }
    for (auto& a : samples()) for (unsigned s : {0u, 44u, 0x2019u, 0x10FFFFu, 0xFFFFFFFFu}) for (unsigned d : {0u, 46u, 0x66Bu, 0x110000u}) if (!f_one(atoi(argv[1]), word(a), s, d)) return 1;
    printf("OK\n"); return 0;
}

// ------------------------------------------------------------------ KIND=W
template <class C> bool w_one(const std::string& what, ull x, ll lc, const grp& a, char32_t sep, std::size_t cap)
{
    char id[300]; snprintf(id, 300, "%s base %d x=%llu lc=%lld grouping=%s sep=%x space=%d", what.c_str(), BASE, x, lc, desc(a).c_str(), (unsigned)sep, (int)cap);
    nat::watch w([&] { failed("%s :: %s", id, nat::why().c_str()); });
    std::string d = digits(x, BASE, lc); auto b = bounds(a, (int)d.size()); typedef std::basic_string<C> S;
    if (what == "copy") {
        std::vector<unsigned char> s(cap + 1); for (std::size_t i = 0; i < cap; ++i) s[i] = (unsigned char)(x >> (i % 8 * 8));
        C* o = (C*)malloc(sizeof(C) * (cap + 1)); o[cap] = (C)77; detail::copy_n(s.data(), cap, o);
        for (std::size_t i = 0; i < cap; ++i) if (o[i] != (C)s[i]) return failed("%s :: element %d differs", id, (int)i);
        bool ok = o[cap] == (C)77; free(o); return ok ? true : failed("%s :: written behind the end", id);
    }
    if (b.empty()) return true; // the writers are only used if there is a separator
    if (BASE == 2 && x < 2) return true;
    if (what == "lsep") {
        if constexpr (BASE != 2) {
            C u = (C)sep; S want = grouped<S>(d, a, S(1, u)); C* o = (C*)malloc(sizeof(C) * (want.size() + 1)); o[want.size()] = (C)77;
            detail::intdigits_backwards_writer<BASE == 2 ? 10 : BASE>::write_txtdigits_backwards_little_sep(o + want.size(), x, real(a).get_iterator(), u, (lettercase)lc);
            S got(o, want.size()); bool ok = o[want.size()] == (C)77; free(o);
            if (got != want || !ok) return failed("%s :: written '%s', specified '%s'", id, show(got).c_str(), show(want).c_str());
        }
        return true;
    }
    nat::test_dst<C> dst(cap, {64, 65, 70}); S want;
    if (what == "little") { C u = (C)sep; want = grouped<S>(d, a, S(1, u)); detail::intdigits_writer<BASE>::write_little_sep(dst, x, real(a), (int)d.size(), (int)b.size(), u, (lettercase)lc); }
    else {
        if (!sep_ok(sep)) return true;
        S s; enc(s, sep); if (s.size() < 2) return true; want = grouped<S>(d, a, s); auto cs = utf_t<C>{};
        detail::intdigits_writer<BASE>::write_big_sep(dst, cs.encode_char_func(), x, real(a), sep, (int)s.size(), (int)d.size(), (lettercase)lc);
    }
    S got = dst.finish();
    if (!dst.err.empty()) return failed("%s :: %s", id, dst.err.c_str());
    if (got != want) return failed("%s :: printed '%s', specified '%s'", id, show(got).c_str(), show(want).c_str());
    return true;
}
static const char32_t seps_[] = {',', 0xB7, 0x2019, 0x10FFFF, 0x1F600, '.', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000};
template <class C> int go_w(char** argv)
{
    std::string what = argv[1];
    if (!strcmp(argv[3], "--replay")) {
        ull x = strtoull(argv[4], 0, 10); ll lc = atoll(argv[5]); char32_t sep = (char32_t)strtoull(argv[6], 0, 10);
        for (auto& a : samples()) for (char32_t s : {sep, U'\xB7', U'\x2019', U'\x10FFFF'}) for (std::size_t cap = 0; cap < 140; cap += what == "copy" || what == "lsep" ? 139 : 1) if (!w_one<C>(what, x, lc, a, s, cap)) return 1;
        return 0;
    }
    rng r((unsigned)atoi(argv[4])); double end = now() + atof(argv[5]); ll c = 0; static const ll lcs[] = {0, 0x20, 0x2020};
    for (; now() < end; ++c) if (!w_one<C>(what, rval(r), lcs[r() % 3], rgrp(r), seps_[r() % 12], (std::size_t)(r() % 3 == 0 ? r() % 200 : r() % 70))) return 1;
    printf("OK cases=%lld\n", c); return 0;
}

// ------------------------------------------------------------------ KIND=P, Q, R
struct in { ll v, prec, pad0, sign, base, width, al, fill, lc, g, sep, fbase, punct, cap; grp a; };
template <class T, class C> struct run_ {
    typedef std::basic_string<C> S;
    static S want(const in& a, ll& chars)
    {
        constexpr bool sg = std::is_signed<T>::value; T v = (T)a.v; bool ali = K != KP; int B = K == KR ? (a.fbase == 2 || a.fbase == 8 || a.fbase == 16 ? (int)a.fbase : 10) : BASE;
        char32_t fill = ali ? (char32_t)a.fill : U' ';
        ull x = (typename std::make_unsigned<T>::type)v; bool neg = false;
        if (B == 10 && sg && v < 0) { neg = true; x = 0ull - (ull)(ll)v; }
        std::string d = digits(x, B, a.lc); grp g = K == KR && !a.punct ? grp{} : a.a; if (!sep_ok((char32_t)a.sep)) g = grp{};
        S s; if (sep_ok((char32_t)a.sep)) enc(s, (char32_t)a.sep);
        S t = grouped<S>(d, g, s); ll ns = (ll)bounds(g, (int)d.size()).size();
        std::string p; bool fs = false;
        if (B == 10) { if (neg) p = "-"; else if (sg && a.sign == '+') p = "+"; else if (sg && a.sign == ' ') fs = true; }
        else if (a.base && B == 8) { if (x) p = "0"; }
        else if (a.base) { p = B == 16 ? (a.lc ? "0x" : "0X") : (a.lc ? "0b" : "0B"); }
        ll z = a.prec - (ll)d.size() - (B == 8 ? (ll)p.size() : 0), z2 = a.pad0 - (ll)(d.size() + p.size() + fs) - ns; if (z2 > z) z = z2; if (z < 0) z = 0;
        ll content = (ll)(d.size() + p.size() + fs) + ns + z, fc = 0;
        if (ali) { double w = (double)(int)a.width / 65536.0; ll r = (ll)(w < 0 ? -(ll)(-w + 0.49999) : (ll)(w + 0.49999)); if (r > content) fc = r - content; }
        ll l = a.al == 0 ? 0 : a.al == 1 ? fc : fc / 2; S o;
        for (ll i = 0; i < l + fs; ++i) enc(o, fill);
        for (char ch : p) o += (C)ch;
        o.append((std::size_t)z, (C)'0'); o += t;
        for (ll i = 0; i < fc - l; ++i) enc(o, fill);
        chars = content + fc; return o;
    }
    template <class P> static auto mk(const in& a, P& pre)
    {
        T v = (T)a.v; alignment_format af{(char32_t)a.fill, width_t::from_underlying((int)a.width), (text_alignment)a.al};
        auto s = (showsign)a.sign; bool b = a.base != 0; char32_t sep = (char32_t)a.sep; auto g = real(a.a);
        if constexpr (K == KR) {
            grp o{{1}, true}; auto og = real(o); int fb = (int)a.fbase; if (fb != 2 && fb != 8 && fb != 16) fb = 10; auto G = [&](int x) { return x == fb ? g : og; }; auto SP = [&](int x) { return x == fb ? sep : U'~'; };
            return make_printer<C>(&pre, pack((lettercase)a.lc, numpunct<10>(G(10)).thousands_sep(SP(10)), numpunct<16>(G(16)).thousands_sep(SP(16)), numpunct<8>(G(8)).thousands_sep(SP(8)), numpunct<2>(G(2)).thousands_sep(SP(2))),
                fmt(v).set_alignment_format(af).set_int_format(int_format_full_dynamic{(int)a.fbase, (int)a.prec, (int)a.pad0, s, b, a.punct != 0}));
        } else {
            auto fp = pack((lettercase)a.lc, numpunct<BASE>(g).thousands_sep(sep)); int_format_static_base_and_punct<BASE, true> f{(int)a.prec, (int)a.pad0, s, b};
            if constexpr (K == KP) return make_printer<C>(&pre, fp, fmt(v).set_int_format(f)); else return make_printer<C>(&pre, fp, fmt(v).set_int_format(f).set_alignment_format(af));
        }
    }
    static bool one(const in& a, std::string& why)
    {
        ll chars; auto w = want(a, chars); char t[400];
        full_premeasurements pre; auto p = mk(a, pre);
        if ((ll)pre.accumulated_size() != (ll)w.size()) { snprintf(t, 400, "size is %lld, specified %lld", (ll)pre.accumulated_size(), (ll)w.size()); why = t; return false; }
        ll ww = chars > 32767 ? 0x7FFFFFFF : chars * 65536;
        if (pre.accumulated_width().underlying_value() != ww) { snprintf(t, 400, "width is %lld/65536, specified %lld", (ll)pre.accumulated_width().underlying_value(), ww); why = t; return false; }
        no_premeasurements np; auto p2 = mk(a, np);
        for (int i = 0; i < 2; ++i) {
            nat::test_dst<C> d((std::size_t)a.cap, {64, 65, 70});
            if (i) p2(d); else p(d);
            auto o = d.finish();
            if (!d.err.empty()) { why = d.err; return false; }
            if (o != w) { snprintf(t, 400, "printed '%s' (%d), specified '%s' (%d)", show(o).c_str(), (int)o.size(), show(w).c_str(), (int)w.size()); why = t; return false; }
        }
        return true;
    }
    static bool test(in a)
    {
        std::string why; auto sh = [&] { printf("FAIL v=%lld prec=%lld pad0=%lld sign=%lld base=%lld width=%lld al=%lld fill=%lld lc=%lld grouping=%s sep=%lld format_base=%lld punct=%lld cap=%lld :: %s\n", a.v, a.prec, a.pad0, a.sign, a.base, a.width, a.al, a.fill, a.lc, desc(a.a).c_str(), a.sep, a.fbase, a.punct, a.cap, why.empty() ? nat::why().c_str() : why.c_str()); };
        nat::watch w(sh);
        if (!one(a, why)) { sh(); return false; }
        return true;
    }
    static int go(int argc, char** argv)
    {
        if (!strcmp(argv[3], "--replay")) {
            in a; ll* q = &a.v; for (int i = 0; i < 13; ++i) q[i] = 4 + i < argc ? (argv[4 + i][0] == '-' ? strtoll(argv[4 + i], 0, 10) : (ll)strtoull(argv[4 + i], 0, 10)) : 0;
            if (a.prec > 100000 || a.pad0 > 100000) return 0;
            if (a.fill >= 0xD800 && a.fill < 0xE000) a.fill = 0x2F;
            if (K != KR) { a.fbase = BASE; a.punct = 1; }
            auto all = samples(); grp g0; if (decode((unsigned)a.g, g0)) all.insert(all.begin(), norm(g0)); ll sep0 = a.sep;
            for (auto& g : all) for (ll sp : {sep0, (ll)',', 0xB7ll, 0x2019ll, 0x10FFFFll, 0x110000ll}) for (ll cap : {0, 30, 64, 100}) { a.a = g; a.sep = sp; a.cap = cap; if (!test(a)) return 1; }
            return 0;
        }
        rng g((unsigned)atoi(argv[4])); double end = now() + atof(argv[5]); ll c = 0;
        static const ll fills[] = {' ', '*', 0xE9, 0x20AC, 0x1F600, 0x10FFFF, 0x110000, 0xFFFD}; static const ll sg[] = {0, '+', ' '}; static const ll lcs[] = {0, 0x20, 0x2020};
        static const ll sp[] = {',', ',', 0xB7, 0x2019, 0x1F600, 0x10FFFF, 0x110000, 0xD800, 0xFFFFFFFF, 0x7F, 0x80, '.'};
        for (; now() < end; ++c) {
            in a; a.v = (ll)rval(g); if (g() % 3 == 0) a.v = (ll)(0ull - (ull)a.v);
            if (g() % 9 == 0) a.v = 0; if (g() % 9 == 0) a.v = (ll)std::numeric_limits<T>::min(); if (g() % 9 == 0) a.v = (ll)std::numeric_limits<T>::max();
            a.prec = (ll)(g() % 4 == 0 ? g() % 80 : g() % 24) - 1; a.pad0 = (ll)(g() % 4 == 0 ? g() % 80 : g() % 30) - 1; a.sign = sg[g() % 3]; a.base = (ll)(g() % 2);
            a.width = g() % 3 == 0 ? (ll)(int)(g()) : (ll)((int)((g() % 90) << 16) + (g() % 2 ? (int)(g() % 5) + 32766 : 0)); a.al = (ll)(g() % 3); a.fill = fills[g() % 8]; a.lc = lcs[g() % 3];
            a.cap = (ll)(g() % 3 == 0 ? g() % 100 : g() % 20);
            if (a.width > (400 << 16) && g() % 50) a.width %= 400 << 16;
            a.a = rgrp(g); a.sep = sp[g() % 12]; a.punct = g() % 4 != 0; a.fbase = BASE; if (K == KR && BASE == 10 && g() % 2) a.fbase = (ll)(int)g(); if (K == KR && BASE == 10 && (a.fbase == 2 || a.fbase == 8 || a.fbase == 16)) a.fbase = 0;
            if (!test(a)) return 1;
        }
        printf("OK cases=%lld\n", c); return 0;
    }
};
template <class C> int go2(int argc, char** argv)
{
    if constexpr (K == KW) return go_w<C>(argv);
    else switch (argv[1][0]) {
    case 'a': return run_<signed char, C>::go(argc, argv); case 's': return run_<short, C>::go(argc, argv);
    case 'i': return run_<int, C>::go(argc, argv); case 'l': return run_<long, C>::go(argc, argv);
    case 'h': return run_<unsigned char, C>::go(argc, argv); case 't': return run_<unsigned short, C>::go(argc, argv);
    case 'j': return run_<unsigned, C>::go(argc, argv); default: return run_<unsigned long, C>::go(argc, argv);
    }
}
int main(int argc, char** argv)
{
    nat::init();
    if constexpr (K == KG) return go_g(argc, argv);
    else if constexpr (K == KF) return go_f(argc, argv);
    else { char c = argv[2][0]; return c == 'c' ? go2<char>(argc, argv) : c == 's' ? go2<char16_t>(argc, argv) : c == 'i' ? go2<char32_t>(argc, argv) : go2<wchar_t>(argc, argv); }
}
