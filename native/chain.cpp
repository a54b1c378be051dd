// Native oracle for C12: transcoding API. -DSEX=<source charset> -DDEX=<destination charset> (expressions) -DSCH= -DDCH= (unit types)
// -DKIND=<0 buffer, 1 destination, 2 size> -DUNS=<0|1 unsafe> -DFN=<function> -DDIR=<0: FN takes charsets, 1: FN takes functions, 2: FN takes one function, 3: charsets are template arguments>
// Reference: the whole source decoded to UTF-32 in one call, then encoded in one call.
#include <strf/to_string.hpp>
#include "nat.hpp"
#include "dst.hpp"
#include <random>
#include <chrono>
#include <vector>
#include <string>
using namespace strf;
typedef long long ll;
struct in { std::vector<SCH> v; ll m, fail; unsigned fl; };
struct notifier : transcoding_error_notifier {};
static bool one(const in& a, std::string& why)
{
    using namespace strf; auto sc = SEX; auto dc = DEX; (void)sc; (void)dc; char t[300]; const auto fl = (transcode_flags)a.fl; notifier nt;
    ll n = (ll)a.v.size(); SCH* s = (SCH*)malloc((n ? n : 1) * sizeof(SCH)); if (n) memcpy(s, a.v.data(), n * sizeof(SCH)); struct fr { void* p; ~fr() { free(p); } } f0{s};
    // reference
    auto dec = UNS ? sc.to_u32().unsafe_transcode_func() : sc.to_u32().transcode_func(); auto enc = dc.from_u32().unsafe_transcode_func();
    std::vector<char32_t> u((size_t)n + 1); auto r1 = dec(s, s + n, u.data(), u.data() + u.size(), nullptr, fl); ll KG = r1.dst_ptr - u.data();
    std::vector<DCH> w((size_t)KG * 4 + 4); auto r2 = enc(u.data(), u.data() + KG, w.data(), w.data() + w.size(), nullptr, fl); ll EN = r2.dst_ptr - w.data(), KH = r2.src_ptr - u.data();
    std::vector<ll> E; E.push_back(0);
    for (ll k = 0; k < KH; ++k) { std::vector<DCH> x(8); auto r = enc(&u[k], &u[k] + 1, x.data(), x.data() + 8, nullptr, fl); E.push_back(E.back() + (r.dst_ptr - x.data())); }
    auto R = KH < KG ? transcode_stop_reason::unsupported_codepoint : r1.stop_reason; ll k = KH; bool bad = false;
    std::basic_string<DCH> out; ll got = 0; const SCH* sp; ll dist; transcode_stop_reason reason;
#if DIR == 0
#define FUNCS sc, dc,
#elif DIR == 3
#define FUNCS
#elif DIR == 1
#if KIND == 2
#define FUNCS dec, dc.from_u32().unsafe_transcode_size_func(),
#else
#define FUNCS dec, enc,
#endif
#else
#define FUNCS find_transcoder(sc, dc).transcode_func(),
#endif
#if KIND == 0
    DCH* d = (DCH*)malloc((a.m ? a.m : 1) * sizeof(DCH)); fr f1{d}; auto res = FN(FUNCS s, s + n, d, d + a.m, &nt, fl);
    got = res.dst_ptr - d; if (got < 0 || got > a.m) { why = "destination pointer out of range"; return false; } out.assign(d, (size_t)got);
    sp = res.stale_src_ptr; dist = res.u32dist; reason = res.stop_reason;
    while (k > 0 && E[k] > a.m) --k;
#elif KIND == 1
    nat::test_dst<DCH> d((std::size_t)a.m, {64, 65, 70}, a.fail < 0 ? (std::size_t)-1 : (std::size_t)a.fail); auto res = FN(FUNCS s, s + n, d, &nt, fl);
    got = res.ssize; bad = !d.good(); out = d.finish(); if (!d.err.empty()) { why = d.err; return false; }
#if DIR == 2
    sp = res.src_ptr; dist = 0;
#else
    sp = res.stale_src_ptr; dist = res.u32dist;
#endif
    reason = res.stop_reason;
    if (bad) { bool is = false; for (ll j = 0; j <= KH; ++j) if (E[j] == got) { k = j; is = true; } if (!is) { why = "count is not at a sequence boundary"; return false; } }
#else
    auto res = FN(FUNCS s, s + n, a.m, fl); got = res.ssize; sp = res.stale_src_ptr; dist = res.u32dist; reason = res.stop_reason;
    while (k > 0 && E[k] > a.m) --k;
#endif
    if (got != E[k]) { snprintf(t, 300, "%lld units, specified %lld (of %lld)", got, E[k], EN); why = t; return false; }
#if KIND != 2
    if (!bad && ((ll)out.size() != got || memcmp(out.data(), w.data(), (size_t)got * sizeof(DCH)))) { why = "units differ from those of the reference"; return false; }
#endif
    auto want = k < KH || bad ? transcode_stop_reason::insufficient_output_space : R;
    if (reason != want) { snprintf(t, 300, "stop reason %d, specified %d", (int)reason, (int)want); why = t; return false; }
    if (sp < s || sp > s + n) { why = "source pointer out of range"; return false; }
    auto r3 = dec(s, sp, u.data(), u.data() + u.size(), nullptr, fl); ll at = r3.dst_ptr - u.data() + dist;
    if (at != k) { snprintf(t, 300, "source position is %lld sequences, specified %lld", at, k); why = t; return false; }
    return true;
}
static bool test(const in& a)
{
    std::string why; auto sh = [&] { std::string s; char t[16]; for (auto c : a.v) if (s.size() < 120) { snprintf(t, 16, "%X ", (unsigned)c & (sizeof(SCH) == 1 ? 0xFFu : 0xFFFFFFFFu)); s += t; }
        printf("FAIL n=%d space=%lld flags=%u recycles=%lld source=[%s] :: %s\n", (int)a.v.size(), a.m, a.fl, a.fail, s.c_str(), why.empty() ? nat::why().c_str() : why.c_str()); };
    nat::watch w(sh); if (!one(a, why)) { sh(); return false; }
    return true;
}
template <class G> static in mkin(G& g)
{
    in a; ll n = (ll)(g() % 4 == 0 ? g() % 200 : g() % 40); a.fl = UNS ? (unsigned)(g() % 2 ? 0 : 4) : (unsigned)(g() % 8); a.fail = g() % 4 ? -1 : (ll)(g() % 4); a.m = (ll)(g() % 3 ? g() % 40 : g() % 300);
    int mode = (int)(g() % 4); std::vector<char32_t> c;
    for (ll i = 0; i < n; ++i) { int z = mode == 0 ? 0 : (int)(g() % 5); c.push_back(z < 2 ? 'a' + (char32_t)(g() % 26) : z == 2 ? (char32_t)(0xC0 + g() % 0x40) : z == 3 ? (char32_t)(0x20A0 + g() % 16) : (char32_t)(0x1F600 + g() % 16)); }
    std::vector<SCH> b(c.size() * 4 + 1); auto sc = SEX; auto r = sc.from_u32().unsafe_transcode_func()(c.data(), c.data() + c.size(), b.data(), b.data() + b.size(), nullptr, transcode_flags::none);
    b.resize((size_t)(r.dst_ptr - b.data())); a.v = b;
    if (!UNS && mode > 1) for (auto& x : a.v) if (g() % 12 == 0) x = (SCH)(g() % 3 ? g() % 256 : g());
    return a;
}
int main(int argc, char** argv)
{
    nat::init();
    if (!strcmp(argv[1], "--replay")) {
        std::mt19937_64 g(7); ll n = strtoll(argv[2], 0, 10), m = strtoll(argv[3], 0, 10); unsigned fl = (unsigned)strtoll(argv[4], 0, 10) & 7;
        for (int i = 0; i < 400; ++i) { in a = mkin(g); if (UNS) fl &= 4; if (i % 2) a.fl = fl; if (i < 100 && m >= 0 && m < 1000) a.m = m; if (i < 50 && n < 1000) { a.v.assign((size_t)n, 'x'); } if (!test(a)) return 1; }
        return 0;
    }
    std::mt19937_64 g((unsigned)atoi(argv[2])); double secs = atof(argv[3]); auto t0 = std::chrono::steady_clock::now(); ll c = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) { if (!test(mkin(g))) return 1; ++c; }
    printf("OK cases=%lld\n", c); return 0;
}
