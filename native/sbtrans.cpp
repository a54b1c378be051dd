// Native oracle for C06: single-byte transcoders. args: charset S D kind, then --replay flags m units | --search seed secs
#include <strf/to_string.hpp>
#include "nat.hpp"
#include <string>
#include <vector>
#include <random>
#include <chrono>
#include "sbref.hpp"
using namespace strf;
static char buf[300];
static std::string& why = nat::why();
typedef std::vector<std::pair<int, ll>> Calls;      // (0 invalid / 1 unsupported, position or code point)
struct Res { ll i = 0; int r = 0; std::vector<u32> out; Calls calls; };
// hi: last code point treated as a surrogate; KNOWN-FINDING C06/surrogate-range is hi = 0xFFFF
template <int DIR> Res ref(const Sb& T, const std::vector<u32>& v, ll m, int fl, bool unsafe, bool size, u32 hi, bool fffd)
{
    Res r; bool lax = fl & 1, si = fl & 2, su = fl & 4;
    for (; r.i < (ll)v.size(); ++r.i) {
        u32 u = v[(size_t)r.i], o; bool bad = false, uns = false;
        if (DIR == 1) { bad = !unsafe && (u >= 0x110000 || (!lax && u >= 0xD800 && u <= hi && (!T.sup(u) || fffd))); uns = !bad && !T.sup(u); o = T.enc(u); }
        else { bad = !unsafe && !T.valid(u); o = DIR == 0 ? T.dec(u) : T.valid(u) || unsafe ? u : '?'; }
        if (bad) r.calls.push_back({0, r.i});
        if (uns) r.calls.push_back({1, (ll)u});
        if (bad && si) { r.r = 3; return r; }
        if (uns && su) { r.r = 2; return r; }
        if (r.i >= m) { r.r = 1; return r; }
        r.out.push_back(o);
    }
    return r;
}
template <class S> struct Note : transcoding_error_notifier {
    const S* base; Calls calls; bool bad = false;
    void invalid_sequence(int sz, const char*, const void* p, std::ptrdiff_t c) override { if (sz != (int)sizeof(S) || c != 1) bad = true; calls.push_back({0, (const S*)p - base}); }
    void unsupported_codepoint(const char*, unsigned c) override { calls.push_back({1, (ll)c}); }
};
template <class S> u32 unit_of(S x) { return sizeof(S) == 1 ? (u32)x & 0xFF : (u32)x; }
template <class TR, class S, class D, int DIR> bool one(const Sb& T, int kind, const std::vector<u32>& v, ll m, int fl)
{
    bool size = kind & 1, unsafe = kind & 2; ll n = (ll)v.size();
    if (unsafe) for (u32 u : v) if (DIR == 1 ? u >= 0x110000 : !T.valid(u)) return true;
    S* s = (S*)malloc((size_t)(n ? n : 1) * sizeof(S)); for (ll k = 0; k < n; ++k) s[k] = (S)v[(size_t)k];
    Res g; bool okp = true;
    if (size) {
        auto r = unsafe ? TR::unsafe_transcode_size(s, s + n, m, (transcode_flags)fl) : TR::transcode_size(s, s + n, m, (transcode_flags)fl);
        g.i = r.src_ptr - s; g.r = (int)r.stop_reason; okp = r.ssize == g.i;
    } else {
        D* d = (D*)malloc((size_t)(m ? m : 1) * sizeof(D)); Note<S> N; N.base = s;
        auto r = unsafe ? TR::unsafe_transcode(s, s + n, d, d + m, &N, (transcode_flags)fl) : TR::transcode(s, s + n, d, d + m, &N, (transcode_flags)fl);
        g.i = r.src_ptr - s; g.r = (int)r.stop_reason; ll j = r.dst_ptr - d; okp = j == g.i && !N.bad;
        for (ll k = 0; k < j && j <= m; ++k) g.out.push_back(unit_of(d[k]));
        g.calls = N.calls; free(d);
    }
    free(s);
    auto eq = [&](Res w) {
        if (size) { w.out.clear(); w.calls.clear(); }
        // a report of the sequence that does not fit is not specified
        if (!size && w.r == 1 && g.calls.size() + 1 == w.calls.size()) w.calls.pop_back();
        return okp && g.i == w.i && g.r == w.r && g.out == w.out && g.calls == w.calls; };
    Res w = ref<DIR>(T, v, m, fl, unsafe, size, 0xDFFF, false);
    if (eq(w)) return true;
    if (DIR == 1 && !unsafe && eq(ref<DIR>(T, v, m, fl, unsafe, size, 0xFFFF, size))) return true;      // the known finding
    snprintf(buf, sizeof buf, "got (position %lld, reason %d, %zu units, %zu reports%s), specified (%lld, %d, %zu, %zu)", g.i, g.r, g.out.size(), g.calls.size(), okp ? "" : ", inconsistent", w.i, w.r, w.out.size(), w.calls.size());
    why = buf; return false;
}
template <class TR, class S, class D, int DIR> int run(const char* cs, const char* nm, int kind, char** a)
{
    Sb T(cs);
    auto show = [&](const std::vector<u32>& v, ll m, int fl) { printf("FAIL %s %s kind=%d flags=%d size=%lld src=", cs, nm, kind, fl, m); for (u32 u : v) printf("%x,", u); printf(" :: %s\n", why.c_str()); };
    auto C = [&](const std::vector<u32>& v, ll m, int fl) { nat::watch W([&] { show(v, m, fl); }); if (one<TR, S, D, DIR>(T, kind, v, m, fl)) return true; show(v, m, fl); return false; };
    if (!strcmp(a[0], "--replay")) {
        std::vector<u32> v; char* p = a[3] ? a[3] : (char*)"";
        while (*p) { v.push_back((u32)strtoul(p, &p, 16)); if (*p == ',') ++p; }
        if (!C(v, atoll(a[2]), atoi(a[1]))) return 1;
        printf("OK\n"); return 0;
    }
    std::mt19937 g((unsigned)atoi(a[1])); double secs = atof(a[2]); auto t0 = std::chrono::steady_clock::now();
    if (DIR != 1) { for (u32 b = 0; b < 256; ++b) for (int fl = 0; fl < 8; ++fl) for (ll m = 0; m < 3; ++m) if (!C({b}, m, fl) || !C({'a', b, 'c'}, m, fl)) return 1; }
    else for (u32 c = 0; c < 0x120000; ++c) if (!C({c, 0x61}, 1 + c % 2, (int)(c % 8)) || !C({c}, 1, 7) || !C({c}, 2, 0)) return 1;
    static const u32 sp[] = {0x41, 0x80, 0x9F, 0xE1, 0x20AC, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x80000000, 0xFFFFFFFF};
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        std::vector<u32> v((size_t)(g() % 9)); for (auto& u : v) u = DIR != 1 ? g() % 256 : g() % 2 ? sp[g() % 16] : g() % 2 ? g() % 256 : T.dec(g() % 256);
        for (ll m = 0; m <= (ll)v.size() + 1; ++m) if (!C(v, m, (int)(g() % 8))) return 1;
    }
    printf("OK\n"); return 0;
}
#define R(N, S, D, SC, DC, DIR) return run<static_transcoder<S, D, SC, DC>, S, D, DIR>(#N, #S "," #D, kind, argv + 5);
#define CS(N) if (cs == #N) { \
    if (p == "8_32") R(N, char, char32_t, csid_##N, csid_utf32, 0) if (p == "8_w") R(N, char, wchar_t, csid_##N, csid_utf32, 0) if (p == "u8_32") R(N, char8_t, char32_t, csid_##N, csid_utf32, 0) \
    if (p == "32_8") R(N, char32_t, char, csid_utf32, csid_##N, 1) if (p == "w_8") R(N, wchar_t, char, csid_utf32, csid_##N, 1) if (p == "32_u8") R(N, char32_t, char8_t, csid_utf32, csid_##N, 1) \
    if (p == "8_8") R(N, char, char, csid_##N, csid_##N, 2) if (p == "u8_8") R(N, char8_t, char, csid_##N, csid_##N, 2) }
int main(int, char** argv)
{
    nat::init(); std::string cs = argv[1], p = std::string(argv[2]) + "_" + argv[3]; int kind = atoi(argv[4]);
    EACH_SB(CS)
    return 2;
}
