// Native oracle for C09: one operation of strf::width_t against its definition over the integers (value/65536).
#include <strf/to_string.hpp>
#include "nat.hpp"
#include <random>
#include <chrono>
#include <vector>
#include <map>
using namespace strf;
typedef __int128 big; typedef long long ll; typedef unsigned long long ull;
static const big MX = 0x7FFFFFFF, MN = -MX - 1, U = 65536;
static width_t W(int v) { return width_t::from_underlying(v); }
static big clamp(big x) { return x > MX ? MX : x < MN ? MN : x; }
static big flr(big x) { return x >= 0 ? x / U : -((-x + U - 1) / U); }
static int sg(big x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static ll gz;
struct res { bool skip; big got, want; };
typedef res (*op)(ll, ll);
#define GOT(e) ((big)(e).underlying_value())
static std::map<std::string, op>& ops() { static std::map<std::string, op> m; return m; }
static bool fits(big x) { return x >= MN && x <= MX; }
template <class T> void ints(const std::string& t)
{
    auto& o = ops();
    o["width_t(" + t + ")"] = [](ll x, ll) { return res{false, GOT(width_t((T)x)), clamp((big)(T)x * U)}; };
    if constexpr (sizeof(T) > 1) {
    o["compare(width_t, " + t + ")"] = [](ll x, ll y) { return res{false, sg(compare(W((int)x), (T)y)), sg((big)(int)x - (big)(T)y * U)}; };
    o["compare(" + t + ", width_t)"] = [](ll x, ll y) { return res{false, sg(compare((T)y, W((int)x))), sg((big)(T)y * U - (big)(int)x)}; };
    if constexpr (!std::is_same<T, unsigned short>::value) {
    o["sat_mul(width_t, " + t + ")"] = [](ll x, ll y) { return res{false, GOT(sat_mul(W((int)x), (T)y)), clamp((big)(T)y * (int)x)}; };
    o["sat_mul(" + t + ", width_t)"] = [](ll x, ll y) { return res{false, GOT(sat_mul((T)y, W((int)x))), clamp((big)(T)y * (int)x)}; };
    }
    if constexpr (std::is_signed<T>::value) {
    o["sat_add(width_t, " + t + ")"] = [](ll x, ll y) { return res{false, GOT(sat_add(W((int)x), (T)y)), clamp((int)x + (big)(T)y * U)}; };
    o["sat_add(" + t + ", width_t)"] = [](ll x, ll y) { return res{false, GOT(sat_add((T)y, W((int)x))), clamp((int)x + (big)(T)y * U)}; };
    o["sat_sub(width_t, " + t + ")"] = [](ll x, ll y) { return res{false, GOT(sat_sub(W((int)x), (T)y)), clamp((int)x - (big)(T)y * U)}; };
    }
    if constexpr (sizeof(T) > 2) o["add_size(" + t + ")"] = [](ll x, ll y) { if ((big)(T)x < 0 || (big)(T)y < 0 || (big)(T)x >= (big)1 << 61 || (big)(T)y >= (big)1 << 61) return res{true, 0, 0}; size_accumulator<true> a; a.add_size((T)x); a.add_size((T)y); return res{false, a.accumulated_ssize(), (big)(T)x + (big)(T)y}; };
    if constexpr (sizeof(T) > 2)
    o["width_t::sat_cast(" + t + ")"] = [](ll x, ll) { return res{false, GOT(width_t::sat_cast((T)x)), clamp((big)(T)x * U)}; };
    }
}
#define REL(OP) \
    o["width_t " #OP " width_t"] = [](ll x, ll y) { return res{false, W((int)x) OP W((int)y), (int)x OP (int)y}; }; \
    o["width_t " #OP " short"] = [](ll x, ll y) { return res{false, W((int)x) OP (short)y, (big)(int)x OP (big)(short)y * U}; }; \
    o["short " #OP " width_t"] = [](ll x, ll y) { return res{false, (short)y OP W((int)x), (big)(short)y * U OP (big)(int)x}; };
#define AR(OP) \
    o["width_t " #OP " width_t"] = [](ll x, ll y) { big w = (big)(int)x OP (int)y; return fits(w) ? res{false, GOT(W((int)x) OP W((int)y)), w} : res{true, 0, 0}; }; \
    o["width_t " #OP " short"] = [](ll x, ll y) { big w = (big)(int)x OP (short)y * U; return fits(w) ? res{false, GOT(W((int)x) OP (short)y), w} : res{true, 0, 0}; }; \
    o["short " #OP " width_t"] = [](ll x, ll y) { big w = (short)y * U OP (big)(int)x; return fits(w) ? res{false, GOT((short)y OP W((int)x)), w} : res{true, 0, 0}; };
#define UN(N, C) o["width_t::" #N] = [](ll x, ll) { return res{false, W((int)x).N(), C}; };
static void init()
{
    auto& o = ops();
    ints<signed char>("signed char"); ints<short>("short"); ints<int>("int"); ints<ll>("long long");
    ints<unsigned char>("unsigned char"); ints<unsigned short>("unsigned short"); ints<unsigned>("unsigned"); ints<ull>("unsigned long long");
    REL(==) REL(!=) REL(<) REL(>) REL(<=) REL(>=) AR(+) AR(-)
    UN(zero, (int)x == 0) UN(not_zero, (int)x != 0) UN(gt_zero, (int)x > 0) UN(ge_zero, (int)x >= 0) UN(lt_zero, (int)x < 0) UN(le_zero, (int)x <= 0)
    UN(floor, flr((int)x)) UN(ceil, -flr(-(big)(int)x)) UN(round, (int)x >= 0 ? flr((int)x + (U / 2 - 1)) : flr((int)x + U / 2))
    UN(non_negative_floor, flr((int)x < 0 ? 0 : (int)x)) UN(non_negative_ceil, -flr(-(big)((int)x < 0 ? 0 : (int)x)))
    o["-width_t"] = [](ll x, ll) { return (int)x == (int)MN ? res{true, 0, 0} : res{false, GOT(-W((int)x)), -(big)(int)x}; };
    o["+width_t"] = [](ll x, ll) { return res{false, GOT(+W((int)x)), (int)x}; };
    o["sat_add(width_t, width_t)"] = [](ll x, ll y) { return res{false, GOT(sat_add(W((int)x), W((int)y))), clamp((big)(int)x + (int)y)}; };
    o["sat_sub(width_t, width_t)"] = [](ll x, ll y) { return res{false, GOT(sat_sub(W((int)x), W((int)y))), clamp((big)(int)x - (int)y)}; };
    o["sat_mul(width_t, width_t)"] = [](ll x, ll y) { return res{false, GOT(sat_mul(W((int)x), W((int)y))), clamp((big)(int)x * (int)y / U)}; };
    o["width_t * width_t"] = [](ll x, ll y) { return res{false, GOT(W((int)x) * W((int)y)), clamp((big)(int)x * (int)y / U)}; };
    o["width_t * short"] = [](ll x, ll y) { return res{false, GOT(W((int)x) * (short)y), clamp((big)(int)x * (short)y)}; };
    o["short * width_t"] = [](ll x, ll y) { return res{false, GOT((short)y * W((int)x)), clamp((big)(int)x * (short)y)}; };
#define DIV(N, E, A, B) o[N] = [](ll x, ll y) { (void)x; (void)y; if (!(B)) return res{true, 0, 0}; big w = (big)(A) * U / (B); return fits(w) ? res{false, GOT(E), w} : res{true, 0, 0}; };
    DIV("width_t / width_t", W((int)x) / W((int)y), (int)x, (big)(int)y)
    DIV("width_t / short", W((int)x) / (short)y, (int)x, (big)(short)y * U)
    DIV("short / width_t", (short)y / W((int)x), (short)y * U, (big)(int)x)
    static auto acc = [](ll x, ll y, bool ck) { width_accumulator<true> a(W((int)gz)); if (ck) { a.checked_add_width(W((int)x)); a.checked_add_width(W((int)y)); } else { a.add_width(W((int)x)); a.add_width(W((int)y)); } return a; };
#define ACC(N, CK) \
    o[N "; accumulated_width"] = [](ll x, ll y) { if ((int)x < 0 || (int)y < 0 || (int)gz < 0) return res{true, 0, 0}; return res{false, GOT(acc(x, y, CK).accumulated_width()), std::min<big>((big)(int)x + (int)y, (int)gz)}; }; \
    o[N "; remaining_width"] = [](ll x, ll y) { if ((int)x < 0 || (int)y < 0 || (int)gz < 0) return res{true, 0, 0}; return res{false, GOT(acc(x, y, CK).remaining_width()), (int)gz - std::min<big>((big)(int)x + (int)y, (int)gz)}; }; \
    o[N "; has_remaining_width"] = [](ll x, ll y) { if ((int)x < 0 || (int)y < 0 || (int)gz < 0) return res{true, 0, 0}; return res{false, acc(x, y, CK).has_remaining_width(), (big)(int)x + (int)y < (int)gz}; };
    ACC("add_width", false) ACC("checked_add_width", true)
    o["add_width; remaining_width_greater_than"] = [](ll x, ll y) { if ((int)x < 0 || (int)y < 0 || (int)gz < 0) return res{true, 0, 0}; width_accumulator<true> a(W((int)gz)); a.add_width(W((int)x)); return res{false, a.remaining_width_greater_than(W((int)y)), (big)(int)x + (int)y < (int)gz}; };
    o["saturate_width; remaining_width"] = [](ll x, ll) { if ((int)x < 0 || (int)gz < 0) return res{true, 0, 0}; width_accumulator<true> a(W((int)gz)); a.add_width(W((int)x)); a.saturate_width(); return res{false, GOT(a.remaining_width()), 0}; };
    o["default limit"] = [](ll x, ll y) { if ((int)x < 0 || (int)y < 0) return res{true, 0, 0}; width_accumulator<true> a; a.add_width(W((int)x)); a.add_width(W((int)y)); return res{false, GOT(a.accumulated_width()), clamp((big)(int)x + (int)y)}; };
    o["width_t::max"] = [](ll, ll) { return res{false, GOT(width_t::max()), MX}; };
    o["width_t::min"] = [](ll, ll) { return res{false, GOT(width_t::min()), MN}; };
}
static bool test(const char* n, op f, ll x, ll y)
{
    nat::watch w([&] { printf("FAIL %s x=%lld y=%lld z=%lld :: %s\n", n, x, y, gz, nat::why().c_str()); });
    res r = f(x, y);
    if (r.skip || r.got == r.want) return true;
    printf("FAIL %s x=%lld y=%lld z=%lld :: result %lld (underlying or integer value), specified %lld\n", n, x, y, gz, (ll)r.got, (ll)r.want);
    return false;
}
int main(int argc, char** argv)
{
    nat::init(); init();
    auto it = ops().find(argv[1]); if (it == ops().end()) { printf("unknown operation\n"); return 2; }
    if (!strcmp(argv[2], "--replay")) { if (argc > 5) gz = (ll)strtoull(argv[5], 0, 10); return test(argv[1], it->second, (ll)strtoull(argv[3], 0, 10), (ll)strtoull(argv[4], 0, 10)) ? 0 : 1; }
    std::mt19937_64 g((unsigned)atoi(argv[3])); double secs = atof(argv[4]); auto t0 = std::chrono::steady_clock::now(); ll c = 0;
    auto rnd = [&]() -> ll { ull r = g() >> (g() % 64); if (g() % 4 == 0) r = ((ull)1 << (g() % 64)) + g() % 3 - 1; if (g() % 4 == 0) r = (r << 16) + g() % 3 - 1; if (g() % 3 == 0) r = 0 - r; if (g() % 10 == 0) r = 0x8000 + g() % 3 - 1; if (g() % 10 == 0) r = (ull)INT32_MIN + g() % 3 - 1; return (ll)r; };
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) { ll x = rnd(), y = rnd(); gz = rnd(); if (!test(argv[1], it->second, x, y)) return 1; ++c; }
    printf("OK cases=%lld\n", c); return 0;
}
