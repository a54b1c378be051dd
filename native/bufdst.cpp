// Native oracle for C08: random operation histories on the buffered destinations; sinks that fail at some point
#include <cwchar>
#include <cstdio>
#include <string>
#include <streambuf>
// the wide sink: fputwc as a recording stand-in (glibc has no wide cookie streams)
struct wsink { std::wstring got; long long lim; bool failed, after; } static ws;
namespace std { inline wint_t vf_fputwc(wchar_t c, FILE*) {
    if (ws.failed) ws.after = true;
    if (ws.lim >= 0 && (long long)ws.got.size() >= ws.lim && !ws.failed) { ws.failed = true; return WEOF; }
    ws.got += c; return (wint_t)c; } }
#define fputwc vf_fputwc
#include <strf/to_string.hpp>
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#include "nat.hpp"
#include <vector>
#include <random>
#include <chrono>
#include <cstdio>
using namespace strf;
typedef long long ll;
static char buf[400];
#define BAD(...) do { snprintf(buf, sizeof buf, __VA_ARGS__); nat::why() = buf; return false; } while (0)
struct op { int k; ll n; };
template <class C> struct fsb : std::basic_streambuf<C> {
    std::basic_string<C> got; ll once, at = 0; bool failed = false, after = false;
    explicit fsb(ll o) : once(o) {}
    std::streamsize xsputn(const C* s, std::streamsize n) override {
        if (failed) after = true;
        if (once >= 0 && at + n > once && !failed) { ll m = once - at; got.append(s, (size_t)m); at += m; failed = true; return m; }
        got.append(s, (size_t)n); at += n; return n;
    }
};
struct cook { std::string got; ll lim; bool failed = false, after = false; };
static ssize_t cwr(void* c, const char* p, size_t n) {
    auto* k = (cook*)c; if (k->failed) { k->after = true; errno = EIO; return 0; }
    if (k->lim >= 0 && (ll)(k->got.size() + n) > k->lim) { size_t m = (size_t)(k->lim - (ll)k->got.size()); k->got.append(p, m); k->failed = true; return (ssize_t)m; }
    k->got.append(p, n); return (ssize_t)n; }
template <class C> struct hist {
    std::vector<op> ops; ll fail; std::string f; ll arg;
    void show() { printf("FAIL %s arg=%lld sink-fails-after=%lld ops=", f.c_str(), arg, fail); for (auto& o : ops) printf("%d:%lld,", o.k, o.n); printf(" :: %s\n", nat::why().c_str()); }
    C at(ll i) { return (C)(0x21 + i % 90); }
    std::basic_string<C> all;
    // while good, everything passed; afterwards only safety matters
    template <class D> bool drive(D& d, const bool* sinkfailed)
    {
        for (auto o : ops) {
            ll m = o.n, W = (ll)all.size(); bool rec = false;
            switch (o.k) {
            case 0: { std::basic_string<C> s; for (ll i = 0; i < m; ++i) s += at(W + i); C* p = (C*)malloc((size_t)(m ? m : 1) * sizeof(C)); if (m) memcpy((void*)p, s.data(), (size_t)m * sizeof(C));
                d.write(p, m); free(p); all += s; break; }
            case 1: case 6: { ll sp = d.buffer_sspace(); if (m > sp) m = sp; C* p = d.buffer_ptr(); for (ll i = 0; i < m; ++i) { p[i] = at(W + i); all += at(W + i); }
                if (o.k == 1) d.advance_to(p + m); else d.advance(m); break; }
            case 2: case 3: if (o.k == 2) d.recycle(); else d.flush(); rec = true; break;
            case 4: strf::put<C>(d, at(W)); all += at(W); break;
            default: if (m > 64) m = 64; d.ensure(m); break;
            }
            if (rec && d.buffer_sspace() < 64) BAD("only %lld units after recycle", (ll)d.buffer_sspace());
            if (d.good() != !*sinkfailed) BAD("good() is %d but the sink %s", d.good(), *sinkfailed ? "failed" : "did not fail");
        }
        return true;
    }
    template <class W> bool fin(W& d, bool fins, ll* cnt, bool* suc) { if (fins) { auto r = d.finish(); *cnt = (ll)r.count; *suc = r.success; } return true; }
    bool after(const std::basic_string<C>& got, bool failed, bool late, bool fins, ll cnt, bool suc)
    {
        if (late) BAD("the sink was written to after a failed write");
        if (got.size() > all.size() || all.compare(0, got.size(), got) != 0) BAD("the sink did not receive a prefix of the output");
        if (!failed && got.size() != all.size()) BAD("the sink received %zu of %zu units", got.size(), all.size());
        if (fins && (cnt != (ll)got.size() || suc != !failed)) BAD("result count=%lld success=%d; written %zu, failed=%d", cnt, suc, got.size(), failed);
        return true;
    }
    bool run()
    {
        nat::watch w([this] { show(); }); bool ok = true, never = false; all.clear();
        bool fins = f.back() != '2'; ll cnt = 0; bool suc = false;
        if (f.compare(0, 6, "append") == 0) {
            std::basic_string<C> s(3, (C)'='); 
            { if (fins) { basic_string_appender<C> d(s); ok = drive(d, &never); d.finish(); } else { basic_string_appender<C> d(s, (size_t)arg); ok = drive(d, &never); } }
            if (ok && s != std::basic_string<C>(3, (C)'=') + all) { nat::why() = "the string is not old content + output"; ok = false; }
        } else if (f == "maker") { std::basic_string<C> s; { basic_string_maker<C> d; ok = drive(d, &never); s = d.finish(); } if (ok && s != all) { nat::why() = "wrong string"; ok = false; }
        } else if (f == "maker2") { basic_string_maker<C> d; ok = drive(d, &never);
        } else if (f == "sized") { std::basic_string<C> s; { basic_sized_string_maker<C> d((size_t)arg); ok = drive(d, &never); s = d.finish(); } if (ok && s != all) { nat::why() = "wrong string"; ok = false; }
        } else if (f[0] == 's') {
            fsb<C> b(fail); { basic_streambuf_writer<C> d(b); ok = drive(d, &b.failed); fin(d, fins, &cnt, &suc); }
            ok = ok && after(b.got, b.failed, b.after, fins, cnt, suc);
        } else if (f[0] == 'w') {
            if constexpr (std::is_same<C, wchar_t>::value) {
                ws = wsink{{}, fail, false, false};
                { wide_cfile_writer d(stdout); ok = drive(d, &ws.failed); fin(d, fins, &cnt, &suc); }
                ok = ok && after(ws.got, ws.failed, ws.after, fins, cnt, suc);
            }
        } else {
            cook c; c.lim = fail < 0 ? -1 : fail * (ll)sizeof(C);
            cookie_io_functions_t io{}; io.write = cwr; FILE* fp = fopencookie(&c, "w", io); setvbuf(fp, nullptr, _IONBF, 0);
            { narrow_cfile_writer<C, 64> d(fp); ok = drive(d, &c.failed); fin(d, fins, &cnt, &suc); }
            std::basic_string<C> g((const C*)c.got.data(), c.got.size() / sizeof(C));
            ok = ok && after(g, c.failed, c.after, fins, cnt, suc);
            fclose(fp);
        }
        if (!ok) { show(); return false; }
        return true;
    }
};
template <class C> int go(int argc, char** argv)
{
    std::string f = argv[2];
    if (!strcmp(argv[3], "--replay")) return 0;
    std::mt19937 g((unsigned)atoi(argv[4])); double secs = atof(argv[5]);
    auto t0 = std::chrono::steady_clock::now(); ll c = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        hist<C> h; h.f = f; h.arg = (ll)(g() % 3 ? g() % 10 : g() % 200); h.fail = g() % 2 ? -1 : (ll)(g() % 200);
        int k = (int)(g() % 8) + 1;
        for (int i = 0; i < k; ++i) h.ops.push_back({(int)(g() % 7), g() % 2 ? (ll)(g() % 8) : (ll)(g() % 140)});
        if (!h.run()) return 1;
        ++c;
    }
    printf("OK cases=%lld\n", c); return 0;
}
int main(int argc, char** argv)
{
    nat::init(); std::string n = argv[1];
    if (n == "8") return go<char>(argc, argv);
    if (n == "u8") return go<char8_t>(argc, argv);
    if (n == "16") return go<char16_t>(argc, argv);
    if (n == "32") return go<char32_t>(argc, argv);
    return go<wchar_t>(argc, argv);
}
