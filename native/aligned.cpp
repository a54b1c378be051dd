// Native oracle for C17: aligned joins.  First argument: <mode>_<join> (join_cases.inc is generated by props/c17.py)
#include "parts.hpp"
struct in { long x, y, z, f; ll width, ch, lim; int cap; };
static bool one(const in& a, std::string& why)
{
    char t[600]; long x = a.x, y = a.y, z = a.z, f = a.f, c = 31; int width = (int)a.width, lim = (int)a.lim; char32_t ch = (char32_t)a.ch;
    cap_ = (std::size_t)a.cap; log_ = {}; badw = badc = false; nat::test_dst<CT> d(cap_, {64, 67});
    std::string mode, nm; long ret = 4242; SZ m{0, 0}; int na = 3;
#include "join_cases.inc"
    if (mode.empty()) { why = "no such function"; return false; }
    str T[3] = {text(0, x, f), text(1, y, f), text(2, z, f)}; ll Wd[3] = {wid(0, x, f), wid(1, y, f), wid(2, z, f)};
    str mid; ll W = 0; for (int k = 0; k < na; ++k) { mid += T[k]; W += Wd[k]; }
    ll fc = 0; if (a.width > W) { ll g = a.width - W; fc = g / 65536 + (g % 65536 > 32768); }
    auto ends = [&](const char* e) { std::string s(e); return nm.size() >= s.size() && nm.compare(nm.size() - s.size(), s.size(), s) == 0; };
    ll L = ends("left") || ends("set") ? 0 : ends("center") ? fc / 2 : fc, Rt = fc - L;
    str ft = fill_text(nm.compare(0, 5, "space") == 0 ? U' ' : ch), want; while (L--) want += ft; want += mid; while (Rt-- > 0) want += ft;
    if (badc) { why = "not the charset given"; return false; }
    if (mode.compare(0, 7, "measure") == 0) {
        ll w = W + fc * 65536, sz = mode == "measure_width" ? 0 : (ll)want.size(), ww = mode == "measure_size" ? 0 : w < lim ? w : lim;
        if (m.s != sz || m.w != ww) { snprintf(t, 600, "measured size %ld, width %ld/65536; specified %lld, %lld", m.s, m.w, sz, ww); why = t; return false; }
        return true;
    }
    if (badw) { why = "an absurd number of fill characters"; return false; }
    str got = mode == "print" ? d.finish() : log_.out;
    if (got != want) { snprintf(t, 600, "printed '%s' (%d), specified '%s' (%d)", show(got).c_str(), (int)got.size(), show(want).c_str(), (int)want.size()); why = t; return false; }
    if (mode == "reserve_calc" && (log_.ev != "sized7 finish" || log_.size != (ll)want.size() || ret != 4242)) { snprintf(t, 600, "%s with size %lld, returned %ld; specified sized7 finish with size %d, 4242", log_.ev.c_str(), log_.size, ret, (int)want.size()); why = t; return false; }
    return true;
}
static bool test(const in& a)
{
    std::string why; auto sh = [&] { printf("FAIL %s x=%ld y=%ld z=%ld f=%ld width=%lld ch=%lld lim=%lld cap=%d :: %s\n", name.c_str(), a.x, a.y, a.z, a.f, a.width, a.ch, a.lim, a.cap, why.empty() ? nat::why().c_str() : why.c_str()); };
    nat::watch w(sh);
    if (!one(a, why)) { sh(); return false; }
    return true;
}
int main(int argc, char** argv)
{
    nat::init(); name = argv[1];
    if (!strcmp(argv[2], "--replay")) {
        in a{}; a.x = atoll(argv[3]) % 10000; a.y = atoll(argv[4]) % 10000; a.z = atoll(argv[5]) % 10000; a.f = atoll(argv[6]) % 10000; a.ch = atoll(argv[8]); a.lim = atoll(argv[9]);
        for (ll w : {atoll(argv[7]), 655360LL, 3000000LL, 100LL * 65536 + 32769}) for (a.cap = 0; a.cap < 80; a.cap += 7) { a.width = w; if (!test(a)) return 1; }
        return 0;
    }
    std::mt19937_64 g((unsigned)atoi(argv[3])); double secs = atof(argv[4]); auto t0 = std::chrono::steady_clock::now(); ll cnt = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        in a{}; a.x = (long)(g() % 1000); a.y = (long)(g() % 1000); a.z = (long)(g() % 100); a.f = (long)(g() % 50); if (g() % 3 == 0) a.x = 7; if (g() % 4 == 0) a.y = 7; if (g() % 3 == 0) a.z = 14;
        a.width = g() % 3 == 0 ? (ll)(g() % 200) * 65536 : g() % 40 == 0 ? INT32_MAX - (ll)(g() % 70000) : g() % 20 == 0 ? -(ll)(g() % 2147483649ULL) : (ll)(g() % 10000000);
        a.ch = g() % 10 == 0 ? (ll)(g() & 0xFFFFFFFF) : (ll)(g() % 0x10FFFF); a.lim = g() % 3 == 0 ? INT32_MAX : (ll)(g() % 4 == 0 ? g() % INT32_MAX : g() % 3000000); if (g() % 20 == 0) a.lim = 0;
        a.cap = (int)(g() % 90);
        if (!test(a)) return 1;
        ++cnt;
    }
    printf("OK cases=%lld\n", cnt); return 0;
}
