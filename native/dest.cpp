// Native oracle for C07: random operation histories on the fixed-size destinations, compared with a reference model
#include <strf/destination.hpp>
#include <strf/output_buffer_functions.hpp>
#include "nat.hpp"
#include <vector>
#include <string>
#include <random>
#include <chrono>
using namespace strf;
typedef long long ll;
static char buf[400];
#define BAD(...) do { snprintf(buf, sizeof buf, __VA_ARGS__); nat::why() = buf; return false; } while (0)
struct op { int k; ll n; };
template <class C> struct hist {
    std::vector<op> ops; ll n; std::string f;
    void show() { printf("FAIL %s n=%lld ops=", f.c_str(), n); for (auto& o : ops) printf("%d:%lld,", o.k, o.n); printf(" :: %s\n", nat::why().c_str()); }
    C at(ll i) { return (C)(0x21 + i % 90); }
    template <class D> bool drive(D& d, C* a, ll cap, bool cstr, bool disc)
    {
        ll W = 0, Dl = 0; bool good = !disc;
        auto chk = [&](bool rec) {
            if (d.good() != good) BAD("good() is %d, specified %d (after %lld units)", d.good(), good, W);
            if (good && (d.buffer_ptr() != a + W || d.buffer_end() != a + cap)) BAD("buffer is not the rest of the array");
            if (!good && d.buffer_sspace() < 0) BAD("negative space");
            if (!good && a && d.buffer_ptr() >= a && d.buffer_ptr() <= a + cap && d.buffer_sspace() > 0) BAD("bad but still offering the array");
            if (rec && d.buffer_sspace() < 64) BAD("only %lld units after recycle", (ll)d.buffer_sspace());
            return true;
        };
        if (!chk(false)) return false;
        for (auto o : ops) {
            bool rec = false; ll m = o.n;
            switch (o.k) {
            case 0: { std::vector<C> s; for (ll i = 0; i < m; ++i) s.push_back(at(W + i)); C* p = (C*)malloc((size_t)(m ? m : 1) * sizeof(C)); if (m) memcpy((void*)p, s.data(), (size_t)m * sizeof(C));
                d.write(p, m); free(p); if (good && W + m > cap) { good = false; Dl = cap; } W += m; break; }
            case 1: case 6: { ll sp = d.buffer_sspace(); if (m > sp) m = sp; C* p = d.buffer_ptr(); for (ll i = 0; i < m; ++i) p[i] = at(W + i);
                if (o.k == 1) d.advance_to(p + m); else d.advance(m); W += m; if (good && W > cap) BAD("space beyond the array"); break; }
            case 2: case 3: if (o.k == 2) d.recycle(); else d.flush(); rec = true; if (good) { good = false; Dl = W; } break;
            case 4: strf::put<C>(d, at(W)); if (good && W + 1 > cap) { good = false; Dl = W; } W += 1; break;
            default: if (m > 64) m = 64; d.ensure(m); if (good && W + m > cap) { good = false; Dl = W; } break;
            }
            if (!chk(rec)) return false;
        }
        if constexpr (!std::is_same<D, discarder<C>>::value) {
            auto r = d.finish(); ll L = good ? W : Dl;
            if (r.truncated != !good) BAD("truncated is %d, specified %d", r.truncated, !good);
            if (r.ptr != a + L) BAD("result pointer at %lld, specified %lld", (ll)(r.ptr - a), L);
            for (ll i = 0; i < L; ++i) if (a[i] != at(i)) BAD("unit %lld is wrong", i);
            if (cstr && a[L] != 0) BAD("no terminator at %lld", L);
        }
        return true;
    }
    bool run()
    {
        nat::watch w([this] { show(); });
        bool fixed = f.back() == '4'; if (fixed) n = 5;
        bool cstr = f[0] == 'c'; if (cstr && n < 1) n = 1;
        C* a = (C*)malloc((size_t)(n ? n : 1) * sizeof(C)); bool ok; ll cap = cstr ? n - 1 : n;
        for (ll i = 0; i < n; ++i) a[i] = (C)0x7F;
        using CD = basic_cstr_destination<C>; using AD = array_destination<C>;
        if (f == "cstr") { CD d(a, n); ok = drive(d, a, cap, true, false); }
        else if (f == "cstr2") { CD d(a, a + n); ok = drive(d, a, cap, true, false); }
        else if (f == "cstr3") { CD d(typename CD::range{a, a + n}); ok = drive(d, a, cap, true, false); }
        else if (f == "cstr4") { CD d(*(C(*)[5])a); ok = drive(d, a, cap, true, false); }
        else if (f == "array") { AD d(a, n); ok = drive(d, a, cap, false, false); }
        else if (f == "array2") { AD d(a, a + n); ok = drive(d, a, cap, false, false); }
        else if (f == "array3") { AD d(typename AD::range{a, a + n}); ok = drive(d, a, cap, false, false); }
        else if (f == "array4") { AD d(*(C(*)[5])a); ok = drive(d, a, cap, false, false); }
        else { discarder<C> d; ok = drive(d, (C*)nullptr, 0, false, true); }
        free(a);
        if (!ok) { show(); return false; }
        return true;
    }
};
template <class C> int go(int argc, char** argv)
{
    std::string f = argv[2];
    if (!strcmp(argv[3], "--replay")) return 0;
    std::mt19937 g((unsigned)atoi(argv[4])); double secs = atof(argv[5]);
    auto t0 = std::chrono::steady_clock::now(); ll c = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        hist<C> h; h.f = f; h.n = (ll)(g() % 4 ? g() % 12 : g() % 200);
        int k = (int)(g() % 8) + 1;
        for (int i = 0; i < k; ++i) h.ops.push_back({(int)(g() % 7), g() % 2 ? (ll)(g() % 8) : g() % 2 ? h.n + (ll)(g() % 5) - 2 : (ll)(g() % 140)});
        for (auto& o : h.ops) if (o.n < 0) o.n = 0;
        if (!h.run()) return 1;
        ++c;
    }
    printf("OK cases=%lld\n", c); return 0;
}
int main(int argc, char** argv)
{
    nat::init(); std::string n = argv[1];
    if (n == "8") return go<char>(argc, argv);
    if (n == "u8") return go<char8_t>(argc, argv);
    if (n == "16") return go<char16_t>(argc, argv);
    if (n == "32") return go<char32_t>(argc, argv);
    return go<wchar_t>(argc, argv);
}
