// Native oracle for C15: tr-strings.  Arguments: KIND (char type: c u s i w)
#include <strf/to_string.hpp>
#include "nat.hpp"
#include "dst.hpp"
#include <random>
#include <chrono>
#include <vector>
#include <string>
using namespace strf;
typedef long long ll;
#ifndef CT
#define CT char
#endif
typedef std::basic_string<CT> str;
struct err { ll n, pos; const CT* s; };
static std::vector<err>* errs;
struct CS { using code_unit = CT; int r; void write_replacement_char(destination<CT>& d) const { for (int i = 0; i < r; ++i) strf::put(d, (CT)'?'); } int replacement_char_size() const { return r; } };
struct EH { using category = tr_error_notifier_c; void handle(const CT* s, std::ptrdiff_t n, CS, std::ptrdiff_t p) const { errs->push_back({n, p, s}); } };
static str argtext(int k, int len) { str s; for (int i = 0; i < len; ++i) s += (CT)('A' + k % 26); return s; }
struct prn : detail::polymorphic_printer<CT> { str s; void print_to(destination<CT>& d) const override { d.write(s.data(), (std::ptrdiff_t)s.size()); } };
struct WC { using category = width_calculator_c; template <class C> width_t str_width(C, width_t, const CT* b, const CT* e) const { ll n = 0; for (; b < e; ++b) n += *b == (CT)'w' ? (ll)INT32_MAX / 2 : 65536; return width_t::from_underlying((int)(n > INT32_MAX ? INT32_MAX : n)); } };
// reference: documentation of tr-strings
struct piece { int arg; str text; ll pos; };   // arg: -2 text, -1 no such argument
static std::vector<piece> parse(const str& s, ll num)
{
    std::vector<piece> r; ll next = 0; std::size_t i = 0, n = s.size();
    auto text = [&](CT c) { if (r.empty() || r.back().arg != -2) r.push_back({-2, {}, 0}); r.back().text += c; };
    auto ref = [&](ll k, std::size_t pos) { r.push_back({k < num ? (int)k : -1, {}, (ll)pos}); };
    while (i < n) {
        if (s[i] != (CT)'{') { text(s[i++]); continue; }
        std::size_t b = i++;
        if (i == n) { ref(next++, b); break; }
        CT c = s[i];
        if (c == (CT)'{') { text(c); ++i; continue; }
        if (c >= (CT)'0' && c <= (CT)'9') { ll k = 0; for (std::size_t j = i; j < n && s[j] >= (CT)'0' && s[j] <= (CT)'9'; ++j) { k = k * 10 + (ll)(s[j] - (CT)'0'); if (k > 1000000000) k = 1000000000; } ref(k, b); }
        else if (c != (CT)'-') ref(next++, b);
        while (i < n && s[i] != (CT)'}') ++i;
        ++i;
    }
    return r;
}
struct in { str s; int num = 0, r = 1; ll lim = INT32_MAX; int cap = 0; unsigned big = 0; };
static int len_of(const in& a, int k) { return (a.big >> (k % 8) & 1) ? 40 + k : (k * 7 + 3) % 5; }
static ll width_of(const in& a, int k) { return (a.big >> (k % 8) & 1) ? (ll)INT32_MAX - 70000 * k : (ll)(k * 31 % 7) * 32768; }
static bool one(const in& a, std::string& why)
{
    char t[400];
    std::vector<prn> ps((std::size_t)a.num); std::vector<const detail::polymorphic_printer<CT>*> pp;
    std::vector<premeasurements<size_presence::yes, width_presence::no>> pre((std::size_t)a.num + 1); std::vector<std::ptrdiff_t> sz; std::vector<width_t> wd;
    for (int k = 0; k < a.num; ++k) { ps[(std::size_t)k].s = argtext(k, len_of(a, k)); pp.push_back(&ps[(std::size_t)k]); pre[(std::size_t)k].add_size(len_of(a, k)); sz.push_back(len_of(a, k)); wd.push_back(width_t::from_underlying((int)width_of(a, k))); }
    sz.push_back(1 << 20); wd.push_back(width_t(1));
    str want; std::vector<err> we; ll W = 0;
    for (auto& p : parse(a.s, a.num)) {
        if (p.arg == -2) { want += p.text; for (CT c : p.text) W += c == (CT)'w' ? (ll)INT32_MAX / 2 : 65536; }
        else if (p.arg == -1) { want += str((std::size_t)a.r, (CT)'?'); we.push_back({(ll)a.s.size(), p.pos, nullptr}); W += 65536; }
        else { want += ps[(std::size_t)p.arg].s; W += width_of(a, p.arg); }
    }
    ll sat = W > INT32_MAX ? INT32_MAX : W;
    struct fr { CT* p; ~fr() { free(p); } } buf{(CT*)malloc((a.s.size() ? a.s.size() : 1) * sizeof(CT))};
    if (!a.s.empty()) memcpy((void*)buf.p, a.s.data(), a.s.size() * sizeof(CT));
    CT *b = buf.p, *e = b + a.s.size(); CS cs{a.r};
    ll size = (ll)detail::tr_string_size(pre.data(), (std::ptrdiff_t)a.num, (const CT*)b, (const CT*)e, (std::ptrdiff_t)a.r);
    if (size != (ll)want.size()) { snprintf(t, 400, "tr_string_size %lld, specified %lld", size, (ll)want.size()); why = t; return false; }
    { detail::tr_pre_size<CT> p(sz.data(), a.num, a.r); detail::tr_do_premeasurements(p, (const CT*)b, (const CT*)e);
      if ((ll)p.accumulated_ssize() != (ll)want.size()) { snprintf(t, 400, "tr_pre_size %lld, specified %lld", (ll)p.accumulated_ssize(), (ll)want.size()); why = t; return false; } }
    auto lim = width_t::from_underlying((int)a.lim);
    auto okw = [&](ll v) { return v == sat || (v >= a.lim && W >= a.lim); };
    { detail::tr_pre_width<CT, CS, WC> p(wd.data(), a.num, lim, WC{}, cs); detail::tr_do_premeasurements(p, (const CT*)b, (const CT*)e); ll v = p.accumulated_width().underlying_value();
      if (!okw(v)) { snprintf(t, 400, "tr_pre_width %lld/65536, specified %lld (limit %lld)", v, sat, a.lim); why = t; return false; } }
    { detail::tr_pre_size_and_width<CT, CS, WC> p(sz.data(), wd.data(), a.num, lim, WC{}, cs); detail::tr_do_premeasurements(p, (const CT*)b, (const CT*)e); ll v = p.accumulated_width().underlying_value();
      if (!okw(v) || (ll)p.accumulated_ssize() != (ll)want.size()) { snprintf(t, 400, "tr_pre_size_and_width %lld/65536, size %lld, specified %lld, %lld (limit %lld)", v, (ll)p.accumulated_ssize(), sat, (ll)want.size(), a.lim); why = t; return false; } }
    std::vector<err> ge; errs = &ge; nat::test_dst<CT> d((std::size_t)a.cap, {64, 65, 70});
    detail::tr_string_write((const CT*)b, (const CT*)e, pp.data(), (std::ptrdiff_t)a.num, d, cs, EH{});
    str o = d.finish(); if (!d.err.empty()) { why = d.err; return false; }
    auto show = [](const str& x) { std::string s; for (auto c : x) if (s.size() < 90) s += c > 31 && c < 127 ? (char)c : '.'; return s; };
    if (o != want) { snprintf(t, 400, "printed '%s' (%d units), specified '%s' (%d)", show(o).c_str(), (int)o.size(), show(want).c_str(), (int)want.size()); why = t; return false; }
    if (ge.size() != we.size()) { snprintf(t, 400, "%d errors notified, specified %d", (int)ge.size(), (int)we.size()); why = t; return false; }
    for (std::size_t i = 0; i < ge.size(); ++i) if (ge[i].n != we[i].n || ge[i].pos != we[i].pos || ge[i].s != b)
        { snprintf(t, 400, "error notified at %lld (length %lld), specified %lld (%lld)", ge[i].pos, ge[i].n, we[i].pos, we[i].n); why = t; return false; }
    return true;
}
static bool test(const in& a)
{
    std::string why; auto sh = [&] { std::string s; for (auto c : a.s) if (s.size() < 200) s += c > 31 && c < 127 ? (char)c : '.';
        printf("FAIL num=%d repl=%d limit=%lld cap=%d big=%u tr-string='%s' (%d units) :: %s\n", a.num, a.r, a.lim, a.cap, a.big, s.c_str(), (int)a.s.size(), why.empty() ? nat::why().c_str() : why.c_str()); };
    nat::watch w(sh);
    if (!one(a, why)) { sh(); return false; }
    return true;
}
int main(int argc, char** argv)
{
    nat::init();
    if (!strcmp(argv[1], "--replay")) {   // num replsize limit units...
        in a; a.num = (int)std::min(atoll(argv[2]), 3000ll); a.r = atoi(argv[3]); a.lim = atoll(argv[4]);
        for (int i = 5; i < argc; ++i) a.s += (CT)strtoull(argv[i], 0, 10);
        for (a.cap = 0; a.cap < 200; a.cap += a.cap < 20 ? 1 : 13) for (a.big = 0; a.big < 256; a.big += 85) if (!test(a)) return 1;
        return 0;
    }
    std::mt19937_64 g((unsigned)atoi(argv[2])); double secs = atof(argv[3]); auto t0 = std::chrono::steady_clock::now(); ll c = 0;
    static const char al[] = "{{{{{{}}}}0123456789--a bcwzw{}{}";
    static const char* frag[] = {"{", "{}", "{{", "}", "{-", "{-x}", "{0}", "{1}", "{ }", "{abc}", "{10}", "{007}", "{4294967296}", "{18446744073709551616}", "{2 x{y}", "text", "w", "ww", "{9", "{12x34}", "{-0}", "{0-}", "{-{}", "{:}", "{/}", "{00000000000000000000000000000001}"};
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        in a; a.num = g() % 5 == 0 ? (int)(g() % 30) : (int)(g() % 5); if (g() % 100 == 0) a.num = (int)(g() % 1500); a.r = (int)(g() % 4); a.cap = (int)(g() % 2 ? g() % 20 : g() % 100); a.big = (unsigned)(g() % 3 == 0 ? g() % 256 : g() % 5 == 0);
        a.lim = g() % 2 ? INT32_MAX : (ll)(g() % 4 == 0 ? g() % INT32_MAX : (g() % 30) * 65536 / (1 + g() % 3));
        int k = (int)(g() % 8), m = (int)(g() % 3);
        for (int i = 0; i < k; ++i) {
            if (m == 0 || g() % 4 == 0) { int q = (int)(g() % 6); for (int j = 0; j < q; ++j) a.s += (CT)al[g() % (sizeof al - 1)]; }
            else if (m == 1 && g() % 3 == 0) { a.s += (CT)'{'; for (char x : std::to_string(a.num - 2 + (int)(g() % 5))) a.s += (CT)x; a.s += (CT)'}'; }
            else for (const char* p = frag[g() % (sizeof frag / sizeof *frag)]; *p; ++p) a.s += (CT)*p;
            if (g() % 16 == 0) a.s += (CT)(sizeof(CT) == 1 ? 0x80 + g() % 128 : sizeof(CT) == 2 ? (g() % 2 ? 0x7B00 : 0x017B) : 0x1007B);
            if (g() % 300 == 0) a.s.append((std::size_t)(g() % 300), (CT)'q');
        }
        if (!test(a)) return 1;
        ++c;
    }
    printf("OK cases=%lld\n", c); return 0;
}
