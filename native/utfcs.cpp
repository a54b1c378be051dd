// Native oracle for C04 (UTF charset operations on code points)
#include <strf/to_string.hpp>
#include "nat.hpp"
#include "dst.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <chrono>
#include <random>
#include "utf_ref.hpp"
using namespace strf;
static char buf[300];
static std::string& why = nat::why();
template <class S> u32 unit_of(S x) { return sizeof(S) == 1 ? (u32)x & 0xFF : sizeof(S) == 2 ? (u32)x & 0xFFFF : (u32)x; }
template <int E> u32 norm(u32 c) { return E != 32 && c > 0x10FFFF ? 0xFFFD : c; }
#define BAD(...) do { snprintf(buf, sizeof buf, __VA_ARGS__); why = buf; return false; } while (0)
template <class X, int E, class C> bool one(X x, const std::string& op, const std::vector<C>& v, ll m, u32 ch)
{
    u32 o[4];
    if (op == "count" || op == "countfast") {
        ll n = (ll)v.size();
        if (op == "countfast") for (ll i = 0; i < n;) { auto s = ref_step<E>(v, (size_t)i, false); if (!s.ok) return true; i += s.dl; }
        ll i = 0, c = 0;
        while (i < n && c < m) { i += ref_step<E>(v, (size_t)i, false).dl; ++c; }
        C* p = (C*)malloc((size_t)(n ? n : 1) * sizeof(C)); if (n) memcpy((void*)p, v.data(), (size_t)n * sizeof(C));
        auto r = op == "count" ? x.count_codepoints(p, p + n, m) : x.count_codepoints_fast(p, p + n, m);
        ll ri = r.ptr - p, rc = r.count; free(p);
        if (ri != i || rc != c) BAD("got (count=%lld, position=%lld), specified (%lld, %lld)", rc, ri, c, i);
    } else if (op == "repl") { if (x.replacement_char() != 0xFFFD) BAD("replacement_char is %x", (u32)x.replacement_char());
    } else if (op == "replsize") { if (x.replacement_char_size() != (E == 8 ? 3 : 1)) BAD("replacement_char_size %d", (int)x.replacement_char_size());
    } else if (op == "size") { int w = ref_enc<E>(norm<E>(ch), o); if (x.encoded_char_size(ch) != w) BAD("encoded_char_size %d, specified %d", (int)x.encoded_char_size(ch), w);
    } else if (op == "validate") {
        int w = ch > 0x10FFFF || (ch >= 0xD800 && ch <= 0xDFFF) ? -1 : ref_enc<E>(ch, o);
        if (x.validate(ch) != w) BAD("validate %d, specified %d", x.validate(ch), w);
    } else if (op == "decode") {
        C u = (C)ch; u32 w = unit_of(u); if (E == 8 && w > 0x7F) w = 0xFFFD;
        if (x.decode_unit(u) != w) BAD("decode_unit(%x) is %x, specified %x", unit_of(u), (u32)x.decode_unit(u), w);
    } else if (op == "encode") {
        int w = ref_enc<E>(norm<E>(ch), o);
        C* p = (C*)malloc((size_t)w * sizeof(C)); C* q = x.encode_char(p, ch); ll d = q - p; bool ok = d == w;
        for (int k = 0; k < w && ok; ++k) ok = unit_of(p[k]) == o[k];
        u32 g = unit_of(p[0]); free(p);
        if (!ok) BAD("encode_char: size %lld, first unit %x; specified size %d, first unit %x", d, g, w, o[0]);
    } else {
        bool fill = op == "fill"; ll cnt = fill ? m : 1;
        int w = ref_enc<E>(fill ? norm<E>(ch) : 0xFFFD, o);
        std::basic_string<C> want; for (ll k = 0; k < cnt; ++k) for (int j = 0; j < w; ++j) want += (C)o[j];
        for (size_t f = 0; f < 12; ++f) for (size_t s : {64, 65, 67, 91}) for (size_t fa : {(size_t)-1, (size_t)0, (size_t)1}) {
            nat::test_dst<C> d(f, {s}, fa);
            if (fill) x.encode_fill(d, m, ch); else x.write_replacement_char(d);
            bool g = d.good(); auto r = d.finish();
            if (!d.err.empty()) BAD("%s", d.err.c_str());
            if (g ? r != want : r.compare(0, r.size(), want, 0, r.size()) != 0) BAD("output of size %zu differs from the specified %zu units (first buffer %zu, then %zu)", r.size(), want.size(), f, s);
        }
    }
    return true;
}
template <class C> void show(const char* n, const std::string& op, const std::vector<C>& v, ll m, u32 ch)
{
    printf("FAIL %s %s ch=%x m=%lld src=", n, op.c_str(), ch, m); for (auto u : v) printf("%x,", unit_of(u)); printf(" :: %s\n", why.c_str());
}
template <class X, int E, class C> int run(const char* n, std::string op, X x, int argc, char** argv)
{
    auto T = [&](const std::vector<C>& v, ll m, u32 ch) {
        nat::watch W([&] { show(n, op, v, m, ch); });
        if (one<X, E, C>(x, op, v, m, ch)) return true;
        show(n, op, v, m, ch); return false; };
    if (!strcmp(argv[0], "--replay")) {
        std::vector<C> v; char* p = argc > 3 ? argv[3] : (char*)"";
        while (*p) { v.push_back((C)strtoul(p, &p, 16)); if (*p == ',') ++p; }
        if (!T(v, atoll(argv[2]), (u32)strtoul(argv[1], 0, 16))) return 1;
        printf("OK\n"); return 0;
    }
    std::mt19937 g((unsigned)atoi(argv[1])); double secs = atof(argv[2]);
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    static const u32 cps[] = {0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x80000000, 0xFFFFFFFF};
    for (u32 c : cps) for (ll m : {0, 1, 2, 5, 63, 64, 65, 200}) if (!T({}, m, c)) return 1;
    if (op != "fill" && op != "wrepl" && op.substr(0, 5) != "count") for (u32 c = 0; c < 0x120000; ++c) if (!T({}, 1, c)) return 1;
    ll cases = 0;
    while (el() < secs) {
        std::vector<C> v; int len = (int)(g() % 12);
        for (int k = 0; k < len; ++k) {
            u32 c = g() % 3 ? cps[g() % 14] : g() % 0x110000, o[4];
            if (g() % 4 == 0 && op == "count") { v.push_back((C)g()); continue; }
            int w = ref_enc<E>(c, o); for (int q = 0; q < w; ++q) v.push_back((C)o[q]);
        }
        for (ll m = 0; m <= len + 1; ++m, ++cases) if (!T(v, m, g() % 2 ? g() % 0x120000 : g())) return 1;
    }
    printf("OK cases=%lld\n", cases); return 0;
}
#define P(N, C, E) if (n == N) { using X = static_charset<C, csid_utf##E>; \
    return dyn ? run<dynamic_charset<C>, E, C>(N, op, dynamic_charset<C>{X::to_dynamic()}, argc - 3, argv + 3) : run<X, E, C>(N, op, X{}, argc - 3, argv + 3); }
int main(int argc, char** argv)
{
    nat::init(); std::string n = argv[1], op = argv[2]; bool dyn = op[0] == 'd' && op != "decode"; if (dyn) op = op.substr(1);
    P("8", char, 8) P("u8", char8_t, 8) P("16", char16_t, 16) P("32", char32_t, 32) P("w", wchar_t, 32)
    return 2;
}
