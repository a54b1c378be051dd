// Native oracle for C05: single-byte charset tables and code point operations.
// args: charset op chartype, then --replay ch count n | --search seed secs
#include <strf/to_string.hpp>
#include "nat.hpp"
#include "dst.hpp"
#include <string>
#include "sbref.hpp"
using namespace strf;
static char buf[300];
static std::string& why = nat::why();
#define BAD(...) do { snprintf(buf, sizeof buf, __VA_ARGS__); why = buf; return false; } while (0)
template <class Impl> bool table(const Sb& T, const std::string& op, u32 ch)
{
    if (op == "iencode") { u32 r = Impl::encode((char32_t)ch); if (T.sup(ch) ? r != T.enc(ch) : r < 0x100) BAD("encode(%x) is %x, specified %x", ch, r, T.sup(ch) ? T.enc(ch) : 0x100); }
    else { unsigned b = ch & 0xFF;
        if (op == "valid" && Impl::is_valid((std::uint8_t)b) != T.valid(b)) BAD("is_valid(%x) is %d", b, !T.valid(b));
        if (op == "idecode" && (u32)Impl::decode((std::uint8_t)b) != T.dec(b)) BAD("decode(%x) is %x, specified %x", b, (u32)Impl::decode((std::uint8_t)b), T.dec(b)); }
    return true;
}
template <class X, class C> bool oper(const Sb& T, X x, const std::string& op, u32 ch, ll m, ll n)
{
    if (op == "count" || op == "countfast") {
        C* p = (C*)malloc((size_t)(n ? n : 1)); memset((void*)p, 'a', (size_t)n);
        auto r = op == "count" ? x.count_codepoints(p, p + n, m) : x.count_codepoints_fast(p, p + n, m);
        ll i = r.ptr - p, c = r.count, w = m < n ? m : n; free(p);
        if (i != w || c != w) BAD("got (count=%lld, position=%lld), specified %lld", c, i, w);
    } else if (op == "repl") { if (x.replacement_char() != '?') BAD("replacement_char is %x", (u32)x.replacement_char());
    } else if (op == "replsize") { if (x.replacement_char_size() != 1) BAD("replacement_char_size %d", (int)x.replacement_char_size());
    } else if (op == "size") { if (x.encoded_char_size(ch) != 1) BAD("encoded_char_size %d", (int)x.encoded_char_size(ch));
    } else if (op == "validate") { int w = T.sup(ch) ? 1 : -1; if (x.validate(ch) != w) BAD("validate %d, specified %d", x.validate(ch), w);
    } else if (op == "decode") { C u = (C)ch; if ((u32)x.decode_unit(u) != T.dec(ch & 0xFF)) BAD("decode_unit(%x) is %x, specified %x", ch & 0xFF, (u32)x.decode_unit(u), T.dec(ch & 0xFF));
    } else if (op == "encode") {
        C* p = (C*)malloc(1); C* q = x.encode_char(p, ch); ll d = q - p; unsigned g = (unsigned char)p[0]; free(p);
        if (d != 1 || g != T.enc(ch)) BAD("encode_char: size %lld unit %x, specified 1 %x", d, g, T.enc(ch));
    } else {
        bool fill = op == "fill"; ll cnt = fill ? m : 1;
        std::basic_string<C> want((size_t)cnt, (C)(fill ? T.enc(ch) : '?'));
        for (size_t f = 0; f < 12; ++f) for (size_t s : {64, 65, 91}) for (size_t fa : {(size_t)-1, (size_t)0, (size_t)1}) {
            nat::test_dst<C> d(f, {s}, fa);
            if (fill) x.encode_fill(d, m, ch); else x.write_replacement_char(d);
            bool g = d.good(); auto r = d.finish();
            if (!d.err.empty()) BAD("%s", d.err.c_str());
            if (g ? r != want : r.compare(0, r.size(), want, 0, r.size()) != 0) BAD("output of size %zu differs from the specified %zu units (first buffer %zu, then %zu)", r.size(), want.size(), f, s);
        }
    }
    return true;
}
template <class F> int run(const char* cs, const std::string& op, F f, char** a)
{
    auto T = [&](u32 ch, ll m, ll n) {
        auto show = [&] { printf("FAIL %s %s ch=%x count=%lld n=%lld :: %s\n", cs, op.c_str(), ch, m, n, why.c_str()); };
        nat::watch W(show); if (f(ch, m, n)) return true; show(); return false; };
    if (!strcmp(a[0], "--replay")) { if (!T((u32)strtoul(a[1], 0, 16), atoll(a[2]), atoll(a[3]))) return 1; printf("OK\n"); return 0; }
    bool heavy = op == "fill" || op == "wrepl", cnt = op.substr(0, 5) == "count";
    if (cnt) { for (ll n = 0; n < 40; ++n) for (ll m = 0; m < 45; ++m) if (!T(0, m, n)) return 1; }
    else if (heavy) { for (u32 c : {0x41u, 0xE1u, 0x411u, 0x20ACu, 0xFFFDu, 0x110000u, 0x2500u}) for (ll m : {0, 1, 2, 5, 63, 64, 65, 200}) if (!T(c, m, 0)) return 1; }
    else { for (u32 c = 0; c < 0x120000; ++c) if (!T(c, 1, 0)) return 1; for (u32 c : {0x80000000u, 0xFFFFFFFFu, 0x80000041u}) if (!T(c, 1, 0)) return 1; }
    printf("OK\n"); return 0;
}
#define CS(N) if (cs == #N) { Sb T(#N); \
    if (op == "valid" || op == "idecode" || op == "iencode") return run(#N, op, [&](u32 c, ll, ll) { return table<detail::impl_##N>(T, op, c); }, argv + 3); \
    std::string t = argv[3]; \
    if (t == "8") { using X = static_charset<char, csid_##N>; return dyn ? run(#N, op, [&](u32 c, ll m, ll n) { return oper<dynamic_charset<char>, char>(T, dynamic_charset<char>{X::to_dynamic()}, op, c, m, n); }, argv + 4) \
        : run(#N, op, [&](u32 c, ll m, ll n) { return oper<X, char>(T, X{}, op, c, m, n); }, argv + 4); } \
    using X = static_charset<char8_t, csid_##N>; return dyn ? run(#N, op, [&](u32 c, ll m, ll n) { return oper<dynamic_charset<char8_t>, char8_t>(T, dynamic_charset<char8_t>{X::to_dynamic()}, op, c, m, n); }, argv + 4) \
        : run(#N, op, [&](u32 c, ll m, ll n) { return oper<X, char8_t>(T, X{}, op, c, m, n); }, argv + 4); }
int main(int, char** argv)
{
    nat::init(); std::string cs = argv[1], op = argv[2]; bool dyn = op[0] == 'd' && op != "decode"; if (dyn) op = op.substr(1);
    EACH_SB(CS)
    return 2;
}
