// Native executable oracle for UTF transcoding (replay of counterexamples and search for failing
// inputs).  The reference below is written from the documentation (docs/ref_charset.adoc) and the
// Unicode "maximal subpart" practice; the code under test is /repo/include.
#include <strf/to_string.hpp>
#include "nat.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <chrono>
#include <random>
#include <algorithm>
#include "utf_ref.hpp"
typedef std::vector<std::pair<ll, ll>> Calls;
struct Res { ll i, j; int r; std::vector<u32> out; Calls calls; };
template <int SE, int DE, class S> Res ref(const std::vector<S>& v, ll m, int flags)
{
    Res r{0, 0, 0, {}, {}};
    bool lax = flags & 1, stop = flags & 2;
    while (r.i < (ll)v.size()) {
        Step s = ref_step<SE>(v, (size_t)r.i, lax);
        if (!s.ok) r.calls.push_back({r.i, s.dl});
        if (!s.ok && stop) { r.r = 3; return r; }
        u32 o[4]; int el = ref_enc<DE>(s.cp, o);
        if (r.j + el > m) { if (!s.ok) r.calls.pop_back(); r.r = 1; return r; }
        for (int k = 0; k < el; ++k) r.out.push_back(o[k]);
        r.i += s.dl; r.j += el;
    }
    return r;
}
template <class S> struct Note : strf::transcoding_error_notifier {
    const S* base; Calls calls; bool unsup = false; bool bad = false;
    void invalid_sequence(int sz, const char* nm, const void* p, std::ptrdiff_t c) override {
        if (sz != (int)sizeof(S) || !nm) bad = true;
        calls.push_back({(const S*)p - base, c});
    }
    void unsupported_codepoint(const char*, unsigned) override { unsup = true; }
};
template <int E, class S> bool all_valid(const std::vector<S>& v, bool lax)
{
    for (size_t i = 0; i < v.size();) { Step s = ref_step<E>(v, i, lax); if (!s.ok) return false; i += s.dl; }
    return true;
}
template <class S> u32 unit_of(S x) { return sizeof(S) == 1 ? (u32)x & 0xFF : sizeof(S) == 2 ? (u32)x & 0xFFFF : (u32)x; }

static std::string& why = nat::why();
static char buf[512];
template <class S> void show(const char* pair, int kind, const std::vector<S>& v, ll m, int flags);
static const char* cur_pair;
template <strf::charset_id SC, strf::charset_id DC, int SE, int DE, class S, class D>
bool ok_case(int kind, const std::vector<S>& v0, ll m, int flags)
{
    using T = strf::static_transcoder<S, D, SC, DC>;
    nat::watch W([&] { show(cur_pair, kind, v0, m, flags); });
    // exact-size heap copies, so that any read/write outside is seen by the sanitizer
    ll n = (ll)v0.size();
    S* s = (S*)malloc((n ? n : 1) * sizeof(S)); 
    if (n) memcpy((void*)s, v0.data(), n * sizeof(S));
    D* d = (D*)malloc((m ? m : 1) * sizeof(D));
    struct F { S* a; D* b; ~F() { free(a); free(b); } } fr{s, d};
    memset((void*)d, 0x5A, (m ? m : 1) * sizeof(D));
    bool uns = kind >= 2;
    Res r = ref<SE, DE>(v0, m, uns ? flags & ~2 : flags);
    ll i, j; int rr;
    if (kind & 1) {
        auto x = kind == 1 ? T::transcode_size(s, s + n, m, (strf::transcode_flags)flags)
                           : T::unsafe_transcode_size(s, s + n, m, (strf::transcode_flags)flags);
        i = x.src_ptr - s; j = x.ssize; rr = (int)x.stop_reason;
    } else {
        for (int withn = 1; withn >= 0; --withn) {
            Note<S> nt; nt.base = s;
            auto x = kind == 0 ? T::transcode(s, s + n, d, d + m, withn ? &nt : nullptr, (strf::transcode_flags)flags)
                               : T::unsafe_transcode(s, s + n, d, d + m, withn ? &nt : nullptr, (strf::transcode_flags)flags);
            i = x.src_ptr - s; j = x.dst_ptr - d; rr = (int)x.stop_reason;
            if (withn) {
                if (nt.unsup || nt.bad) { why = "notifier called with wrong arguments"; return false; }
                // the replacement may have been found not to fit after the notification
                Calls c = nt.calls;
                if (c.size() == r.calls.size() + 1 && r.r == 1) c.pop_back();
                if (c != r.calls) { why = "notifier calls differ from the invalid sequences"; return false; }
            }
            if (j >= 0 && j <= m)
                for (ll k = 0; k < j && k < (ll)r.out.size(); ++k)
                    if (unit_of(d[k]) != r.out[k]) {
                        snprintf(buf, sizeof buf, "output unit %lld is %x, specified %x", k, unit_of(d[k]), r.out[k]);
                        why = buf; return false;
                    }
        }
    }
    if (i != r.i || j != r.j || rr != r.r) {
        snprintf(buf, sizeof buf, "got (consumed=%lld, produced=%lld, reason=%d), specified (%lld, %lld, %d)", i, j, rr, r.i, r.j, r.r);
        why = buf; return false;
    }
    return true;
}
template <class S> void show(const char* pair, int kind, const std::vector<S>& v, ll m, int flags)
{
    static const char* K[] = {"transcode", "transcode_size", "unsafe_transcode", "unsafe_transcode_size"};
    printf("FAIL %s %s flags=%d m=%lld n=%zu src=", pair, K[kind], flags, m, v.size());
    for (auto x : v) printf("%x,", unit_of(x));
    printf(" :: %s\n", why.c_str());
}
template <int E, class S> std::vector<S> gen(std::mt19937& g, int mode)
{
    std::vector<S> v; int len = g() % 9; 
    if (mode == 2) len = 8 + g() % 60;
    auto pick = [&]() -> u32 {
        static const u32 cps[] = {0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000,
                                  0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
        u32 r = g() % 4;
        if (r == 0) return 0x20 + g() % 0x60;
        if (r == 1) return g() % 0x110000;
        return cps[g() % (sizeof cps / sizeof *cps)];
    };
    for (int k = 0; k < len; ++k) {
        if (mode == 0 && g() % 3 == 0) {
            static const unsigned char bs[] = {0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF};
            if (E == 8) v.push_back((S)bs[g() % sizeof bs]);
            else v.push_back((S)(g() % 2 ? 0xD800 + g() % 0x800 : g()));
            continue;
        }
        u32 c = pick(); u32 o[4]; int el;
        if (E == 32) { v.push_back((S)c); continue; }
        if (c > 0x10FFFF) c = 0x10FFFF;
        el = ref_enc<E>(c, o);
        int cut = (mode == 0 && g() % 4 == 0) ? (int)(g() % el) + 1 : el;
        for (int q = 0; q < cut; ++q) v.push_back((S)o[q]);
    }
    return v;
}
// make the sequence valid for the unsafe functions
template <int E, class S> std::vector<S> sanitize(const std::vector<S>& v, bool lax)
{
    std::vector<S> r;
    for (size_t i = 0; i < v.size();) {
        Step s = ref_step<E>(v, i, lax);
        if (s.ok) r.insert(r.end(), v.begin() + (long)i, v.begin() + (long)i + s.dl);
        i += s.dl;
    }
    if (!all_valid<E>(r, lax)) r.clear();
    return r;
}
template <strf::charset_id SC, strf::charset_id DC, int SE, int DE, class S, class D>
int run(const char* pair, int kind, int argc, char** argv)
{
    cur_pair = pair;
    // replay: --replay flags m u,u,u
    if (argc >= 3 && !strcmp(argv[0], "--replay")) {
        std::vector<S> v; char* p = argc > 3 ? argv[3] : (char*)"";
        while (*p) { v.push_back((S)strtoul(p, &p, 16)); if (*p == ',') ++p; }
        if (kind >= 2 && !all_valid<SE>(v, atoi(argv[1]) & 1)) { printf("PRECONDITION\n"); return 0; }
        if (!ok_case<SC, DC, SE, DE, S, D>(kind, v, atoll(argv[2]), atoi(argv[1]))) { show(pair, kind, v, atoll(argv[2]), atoi(argv[1])); return 1; }
        printf("OK\n"); return 0;
    }
    // search: --search seed seconds
    unsigned seed = (unsigned)atoi(argv[1]); double secs = atof(argv[2]);
    std::mt19937 g(seed * 977 + 13);
    auto t0 = std::chrono::steady_clock::now();
    ll cases = 0;
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    auto tryall = [&](std::vector<S> v) -> bool {
        for (int fl = 0; fl < 4; ++fl) {
            std::vector<S> w = v;
            if (kind >= 2) { w = sanitize<SE>(v, fl & 1); }
            ll full = ref<SE, DE>(w, 1 << 20, kind >= 2 ? fl & ~2 : fl).j;
            for (ll m = full + 2 > 12 ? full - 10 : 0; m <= full + 2; ++m) {
                if (m < 0) continue;
                ++cases;
                if (!ok_case<SC, DC, SE, DE, S, D>(kind, w, m, fl)) { show(pair, kind, w, m, fl); return false; }
            }
        }
        return true;
    };
    // exhaustive short inputs over boundary units
    std::vector<u32> al;
    if (SE == 8) al = {0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF};
    else if (SE == 16) al = {0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF};
    else al = {0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x80000000, 0xFFFFFFFF};
    std::vector<std::vector<S>> lvl{{}};
    for (int L = 0; L <= 4 && el() < secs; ++L) {
        for (auto& v : lvl) { if (!tryall(v)) return 1; if (el() > secs) break; }
        if (L == 3 || (L == 2 && SE == 8 && secs < 3)) { if (SE != 8) break; }
        std::vector<std::vector<S>> nx;
        for (auto& v : lvl) for (u32 a : al) { auto w = v; w.push_back((S)a); nx.push_back(w); }
        lvl.swap(nx);
        if (lvl.size() > 200000) break;
        if (L >= 2) { std::shuffle(lvl.begin(), lvl.end(), g); if (lvl.size() > 4000) lvl.resize(4000); }
    }
    while (el() < secs) if (!tryall(gen<SE, S>(g, (int)(g() % 3)))) return 1;
    printf("OK cases=%lld\n", cases);
    return 0;
}
using namespace strf;
#define P(NAME, SC, DC, SE, DE, S, D) if (!strcmp(argv[1], NAME)) return run<SC, DC, SE, DE, S, D>(NAME, atoi(argv[2]), argc - 3, argv + 3);
int main(int argc, char** argv)
{
    nat::init();
    if (argc < 5) return 2;
    P("8_8", csid_utf8, csid_utf8, 8, 8, char, char)
    P("8_16", csid_utf8, csid_utf16, 8, 16, char, char16_t)
    P("8_32", csid_utf8, csid_utf32, 8, 32, char, char32_t)
    P("16_8", csid_utf16, csid_utf8, 16, 8, char16_t, char)
    P("16_16", csid_utf16, csid_utf16, 16, 16, char16_t, char16_t)
    P("16_32", csid_utf16, csid_utf32, 16, 32, char16_t, char32_t)
    P("32_8", csid_utf32, csid_utf8, 32, 8, char32_t, char)
    P("32_16", csid_utf32, csid_utf16, 32, 16, char32_t, char16_t)
    P("32_32", csid_utf32, csid_utf32, 32, 32, char32_t, char32_t)
    P("8_w", csid_utf8, csid_utf32, 8, 32, char8_t, wchar_t)
    P("16_w", csid_utf16, csid_utf32, 16, 32, char16_t, wchar_t)
    P("32_w", csid_utf32, csid_utf32, 32, 32, char32_t, wchar_t)
    P("w_8", csid_utf32, csid_utf8, 32, 8, wchar_t, char8_t)
    P("w_16", csid_utf32, csid_utf16, 32, 16, wchar_t, char16_t)
    P("w_32", csid_utf32, csid_utf32, 32, 32, wchar_t, char32_t)
    P("w_w", csid_utf32, csid_utf32, 32, 32, wchar_t, wchar_t)
    return 2;
}
