// Native oracle for C16: printing functions.  First argument: the function (print_cases.inc is generated by props/c16.py)
#include <strf/to_string.hpp>
#include "nat.hpp"
#include "dst.hpp"
#include <random>
#include <chrono>
#include <memory>
#include <vector>
#include <string>
using namespace strf; typedef long long ll; typedef std::basic_string<CT> str;
using SV = detail::simple_string_view<CT>;
static int R = 1; static std::vector<long> seen;   // charset and notifier used
struct CS { using code_unit = CT; using category = charset_c<CT>; long id; void write_replacement_char(destination<CT>& d) const { seen.push_back(id); for (int i = 0; i < R; ++i) strf::put(d, (CT)'?'); } int replacement_char_size() const { return R; } };
struct EH { using category = tr_error_notifier_c; long id; void handle(const CT*, std::ptrdiff_t, CS c, std::ptrdiff_t) const { seen.push_back(c.id); seen.push_back(id); } };
static bool badw;
struct WC { using category = width_calculator_c; long id; template <class C> width_t str_width(C cs, width_t l, const CT* b, const CT* e) const { badw |= id != 31 + 32 || cs.id != 31; width_t w = width_t::sat_cast(e - b); return w < l ? w : l; } };
struct F; struct fcat { static F get_default(); };
struct F { using category = fcat; long id; }; F fcat::get_default() { return F{-5}; }
static str text(int k, long v, long f) { str s; s += (CT)('A' + k); for (char c : std::to_string(v) + ":" + std::to_string(f) + ";") s += (CT)c; if (v % 7 == 0) return {}; if (v % 5 == 0) s.append((std::size_t)(v & 127), (CT)'.'); return s; }
static ll wid(int k, long v, long f) { return v % 11 == 0 ? INT32_MAX - 3 : (ll)text(k, v, f).size() * 40000; }
template <int K> struct P { long v; };
template <int K> struct PR { long v; long f; void operator()(destination<CT>& d) const { str s = text(K, v, f); d.write(s.data(), (std::ptrdiff_t)s.size()); } };
namespace strf { template <int K> struct printable_def<P<K>> { using representative = P<K>; using forwarded_type = P<K>;
  template <class Pre, class FP> static PR<K> make_printer(tag<CT>, Pre* pre, const FP& fp, P<K> p) { long f = get_facet<fcat, P<K>>(fp).id;
    if (Pre::size_demanded) pre->add_size(text(K, p.v, f).size()); if (Pre::width_demanded) pre->add_width(width_t::from_underlying((int)wid(K, p.v, f))); return {p.v, f}; } }; }
struct rec { std::string ev; ll size = -1; str out; };
static rec log_;
template <int W> struct DSTW : nat::test_dst<CT> { using nat::test_dst<CT>::test_dst; long finish() { log_.ev += "finish" + std::to_string(W); log_.out = nat::test_dst<CT>::finish(); return 4242; } };
using DST1 = DSTW<1>; using DST2 = DSTW<2>;
static std::unique_ptr<DST1> d1; static std::unique_ptr<DST2> d2; static std::size_t cap_;
struct CR { using char_type = CT; using destination_type = DST1&; using sized_destination_type = DST2&; using finish_type = long; int id;
  DST1& create() const { log_.ev += "create" + std::to_string(id) + " "; d1.reset(new DST1(cap_, {64, 70})); return *d1; } DST2& create(std::size_t n) const { log_.ev += "sized" + std::to_string(id) + " "; log_.size = (ll)n; d2.reset(new DST2(cap_, {64, 70})); return *d2; } };
#define A3 P<0>{x}, P<1>{y}, P<2>{z}
#define TRF CS{c}, EH{h}, F{f}
struct in { long x, y, z, f; ll n, lim; int cap, trs, R; };
struct out { std::string kind, what; int line = 0, tr = 0, na = 3; long ret = 4242, gs = 0, gw = 0; };
static const char* TRS[] = {"", "<{}{}{}>", "{2}{0}:{1}{1}{9}", "{}{}", "only text", "{{{2}{2}{-0}{7}"};
static std::string name;
static bool one(const in& a_, std::string& why)
{
    char t[600]; out a; long x = a_.x, y = a_.y, z = a_.z, f = a_.f, c = 31, h = 32; ll n = a_.n; int lim = (int)a_.lim; R = a_.R;
    str T; for (const char* p = TRS[a_.trs]; *p; ++p) T += (CT)*p;
    const CT *b = T.data(), *e = b + T.size(); cap_ = (std::size_t)a_.cap; log_ = {}; seen.clear(); badw = false; nat::test_dst<CT> d(cap_, {64, 67});
#include "print_cases.inc"
    if (a.kind.empty()) { why = "no such function"; return false; }
    str A[3] = {text(0, x, f), text(1, y, f), text(2, z, f)}; ll W[3] = {wid(0, x, f), wid(1, y, f), wid(2, z, f)};
    str want; ll w = 0; int err = 0; int next = 0;
    if (!a.tr) for (int k = 0; k < a.na; ++k) { want += A[k]; w += W[k]; }
    else for (std::size_t i = 0; i < T.size(); ++i) {
        if (T[i] != (CT)'{') { want += T[i]; w += 65536; continue; }
        CT q = T[++i]; if (q == (CT)'{') { want += q; w += 65536; continue; } if (q == (CT)'-') { while (T[i] != (CT)'}') ++i; continue; }
        int k = q == (CT)'}' ? next++ : (int)(q - (CT)'0'); while (T[i] != (CT)'}') ++i;
        if (k < a.na) { want += A[k]; w += W[k]; } else { want += str((std::size_t)R, (CT)'?'); w += 65536; err++; }
    }
    if (a.line) want += (CT)'\n';
    auto show = [](const str& s) { std::string r; for (auto ch : s) if (r.size() < 80) r += ch > 31 && ch < 127 ? (char)ch : '.'; return r; };
    if (a.kind == "measure") {
        ll sz = a.what == "width" ? 0 : (ll)want.size(), ww = a.what == "size" ? 0 : w < lim ? w : lim;
        if (badw) { why = "not the width calculator or the charset given"; return false; }
        if (a.gs != sz || a.gw != ww) { snprintf(t, 600, "measured size %ld, width %ld/65536; specified %lld, %lld", a.gs, a.gw, sz, ww); why = t; return false; }
        return true;
    }
    str got = a.kind == "to" ? d.finish() : log_.out;
    if (got != want) { snprintf(t, 600, "printed '%s' (%d), specified '%s' (%d)", show(got).c_str(), (int)got.size(), show(want).c_str(), (int)want.size()); why = t; return false; }
    std::string ev = a.kind == "to" ? "" : a.kind == "no_reserve" ? "create7 finish1" : "sized7 finish2"; ll size = a.kind == "reserve_given" ? n : a.kind == "reserve_calc" ? (ll)want.size() : -1;
    if (log_.ev != ev || log_.size != size || a.ret != 4242) { snprintf(t, 600, "%s with size %lld, returned %ld; specified %s with size %lld, 4242", log_.ev.c_str(), log_.size, a.ret, ev.c_str(), size); why = t; return false; }
    std::vector<long> sw; while (err--) for (long v : {c, c, h}) sw.push_back(v);
    if (seen != sw) { why = "not the charset or the error notifier given"; return false; }
    return true;
}
static bool test(const in& a)
{
    std::string why; auto sh = [&] { printf("FAIL %s x=%ld y=%ld z=%ld f=%ld n=%lld lim=%lld cap=%d tr='%s' repl=%d :: %s\n", name.c_str(), a.x, a.y, a.z, a.f, a.n, a.lim, a.cap, TRS[a.trs], a.R, why.empty() ? nat::why().c_str() : why.c_str()); };
    nat::watch w(sh);
    if (!one(a, why)) { sh(); return false; }
    return true;
}
int main(int argc, char** argv)
{
    nat::init(); name = argv[1];
    if (!strcmp(argv[2], "--replay")) {
        in a{}; a.x = atoll(argv[3]) % 10000; a.y = atoll(argv[4]) % 10000; a.z = atoll(argv[5]) % 10000; a.f = atoll(argv[6]) % 10000; a.n = atoll(argv[7]) % 10000; a.lim = atoll(argv[8]);
        if (a.lim < 0) a.lim = 0;
        for (a.R = 0; a.R < 4; a.R += 3) for (a.trs = 0; a.trs < 6; ++a.trs) for (a.cap = 0; a.cap < 80; a.cap += 7) if (!test(a)) return 1;
        return 0;
    }
    std::mt19937_64 g((unsigned)atoi(argv[3])); double secs = atof(argv[4]); auto t0 = std::chrono::steady_clock::now(); ll cnt = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        in a{}; a.x = (long)(g() % 1000) - 30; a.y = (long)(g() % 1000) - 30; a.z = (long)(g() % 100); a.f = (long)(g() % 50); a.n = (ll)(g() % 300); a.lim = g() % 3 == 0 ? INT32_MAX : (ll)(g() % 4 == 0 ? g() % INT32_MAX : g() % 3000000); if (g() % 20 == 0) a.lim = 0;
        a.cap = (int)(g() % 90); a.trs = (int)(g() % 6); a.R = (int)(g() % 4); if (a.x < 0) a.x = 7; if (a.y < 0) a.y = 11;
        if (!test(a)) return 1;
        ++cnt;
    }
    printf("OK cases=%lld\n", cnt); return 0;
}
