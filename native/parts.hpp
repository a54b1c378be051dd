// Arguments, facets, destinations and creators for the native oracles of C17 (recording; texts and widths are functions of the argument)
#include <strf/to_string.hpp>
#include "nat.hpp"
#include "dst.hpp"
#include <random>
#include <chrono>
#include <memory>
#include <vector>
#include <string>
using namespace strf; typedef long long ll; typedef std::basic_string<CT> str;
static bool badw, badc;
static str fill_text(char32_t ch) { return str(1 + ch % 3, (CT)('a' + ch % 26)); }
static void fill_f(transcode_dst<CT>& d, std::ptrdiff_t n, char32_t ch) { str s; if (n > 300000) { badw = true; return; } while (n-- > 0) s += fill_text(ch); d.write(s.data(), (std::ptrdiff_t)s.size()); }
struct CS { using code_unit = CT; using category = charset_c<CT>; long id; encode_fill_f<CT> encode_fill_func() const { return fill_f; } std::ptrdiff_t encoded_char_size(char32_t ch) const { badc |= id != 31; return (std::ptrdiff_t)fill_text(ch).size(); } };
struct WC { using category = width_calculator_c; long id; template <class C> width_t str_width(C cs, width_t l, const CT* b, const CT* e) const { badc |= id != 31 + 32 || cs.id != 31; width_t w = width_t::sat_cast(e - b); return w < l ? w : l; } };
struct F; struct fcat { static F get_default(); };
struct F { using category = fcat; long id; }; F fcat::get_default() { return F{-5}; }
static str text(int k, long v, long f) { str s; s += (CT)('A' + k); for (char c : std::to_string(v) + ":" + std::to_string(f) + ";") s += (CT)c; if (v % 7 == 0) return {}; if (v % 5 == 0) s.append((std::size_t)(v & 127), (CT)'.'); return s; }
static ll wid(int k, long v, long f) { return v % 11 == 0 ? INT32_MAX - 3 : (ll)text(k, v, f).size() * 40000; }
template <int K> struct P { long v; };
template <int K> struct PR { long v; long f; void operator()(destination<CT>& d) const { str s = text(K, v, f); d.write(s.data(), (std::ptrdiff_t)s.size()); } };
struct Q { long v; };
struct OP { P<1> operator()(const P<0>& p) const { return {p.v * 3 + 1}; } };
template <int K, class Pre> PR<K> mk(Pre* pre, long v, long f) { if (Pre::size_demanded) pre->add_size(text(K, v, f).size()); if (Pre::width_demanded) pre->add_width(width_t::from_underlying((int)wid(K, v, f))); return {v, f}; }
namespace strf { template <int K> struct printable_def<P<K>> { using representative = P<K>; using forwarded_type = P<K>;
  template <class Pre, class FP> static PR<K> make_printer(tag<CT>, Pre* pre, const FP& fp, P<K> p) { return mk<K>(pre, p.v, get_facet<fcat, P<K>>(fp).id); } };
template <> struct printable_def<Q> { using representative = Q; using forwarded_type = Q; using format_specifiers = tag<alignment_format_specifier>;
  template <class Pre, class FP> static PR<2> make_printer(tag<CT>, Pre* pre, const FP& fp, Q q) { return mk<2>(pre, q.v, get_facet<fcat, Q>(fp).id); }
  template <class Pre, class FP, class... G> static PR<2> make_printer(tag<CT>, Pre* pre, const FP& fp, value_and_format<printable_def<Q>, G...> q) { return mk<2>(pre, q.value().v, get_facet<fcat, Q>(fp).id + q.get_alignment_format().width.underlying_value()); } }; }
struct rec { std::string ev; ll size = -1; str out; };
static rec log_;
struct DST1 : nat::test_dst<CT> { using nat::test_dst<CT>::test_dst; long finish() { log_.ev += "finish"; log_.out = nat::test_dst<CT>::finish(); return 4242; } };
static std::unique_ptr<DST1> d1; static std::size_t cap_;
struct CR { using char_type = CT; using destination_type = DST1&; using sized_destination_type = DST1&; using finish_type = long; int id;
  DST1& create() const { log_.ev += "plain "; d1.reset(new DST1(cap_, {64, 70})); return *d1; }
  DST1& create(std::size_t n) const { log_.ev += "sized" + std::to_string(id) + " "; log_.size = (ll)n; d1.reset(new DST1(cap_, {64, 70})); return *d1; } };
struct SZ { long s, w; };
#define A3 P<0>{x}, P<1>{y}, P<2>{z}
static std::string show(const str& s) { std::string r; for (auto ch : s) if (r.size() < 80) r += ch > 31 && ch < 127 ? (char)ch : '.'; return r; }
static std::string name;
