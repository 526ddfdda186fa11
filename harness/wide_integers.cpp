// C07 and C08 (-DPARSE): the character types, bool and, where the compiler counts them as integers (GNU mode, which the
// library's own build uses), the 128-bit types.
#include "common.hpp"
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/unicode/formats.hpp>
#include <limits>
using namespace h;
using cmp::sign_status; using cmp::thousands_separator;
using U128 = unsigned __int128;
struct F { unsigned radix; sign_status ss; thousands_separator ts; char sep() const { return ts == thousands_separator::none ? 0 : ts == thousands_separator::comma ? ',' : '.'; } };
static std::string spell(U128 m, bool neg, const F& f, bool plus) {
    std::string d, o; while (m) { d += "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(int)(m % f.radix)]; m /= f.radix; }
    if (d.empty()) d = "0";
    for (size_t i = 0; i < d.size(); ++i) { if (f.sep() && i && i % 3 == 0) o += f.sep(); o += d[i]; }
    if (neg) o += '-'; else if (plus) o += '+';
    return {o.rbegin(), o.rend()};
}
template <class T> constexpr bool is_signed_integer = (T)-1 < (T)0;
template <class T> U128 highest() { if constexpr (std::is_same_v<T, bool>) return 1; U128 all = sizeof(T) == 16 ? ~(U128)0 : ((U128)1 << (8 * (sizeof(T) % 16))) - 1; return is_signed_integer<T> ? all >> 1 : all; }
template <class T> T make(U128 m, bool neg) { return (T)(neg ? 0 - m : m); }
template <class T> void value(U128 m, bool neg, const F& f, const char* tn, bool all) {
    if (m > highest<T>() + (neg ? 1 : 0) || (neg && !is_signed_integer<T>) || (neg && !m)) return;
    T v = make<T>(m, neg); std::string want = spell(m, neg, f, m && f.ss == sign_status::always_show); set_case("C07 " + want);
    auto go = [&]<class Out>(Out*) { Out got; try { got = cmp::format_integer<Out>(v, cmp::integer_format{f.radix, f.ss, f.ts}); } catch (const std::exception& e) { fail("threw", std::string(tn) + " " + want + ": " + e.what()); return; }
        if (got != Out(want.begin(), want.end())) fail("format_integer:" + std::string(tn), "got " + std::string(got.begin(), got.end()) + " want " + want + fmt(" radix %u", f.radix)); ++counter("other_types_formatted"); };
    go((std::u8string*)0); if (all) { go((std::u16string*)0); go((std::string*)0); go((std::wstring*)0); go((std::u32string*)0); }
    ev(hash_bytes(want.data(), want.size(), f.radix * 7 + sizeof(T) * 1000), m != 0);
}
template <class T> void text(const std::string& s, bool fits, U128 m, bool neg, const F& f, const char* tn) {
    std::u16string t(s.begin(), s.end()); set_case("C08 " + s);
    try { T got = cmp::parse_integer<T>(t, cmp::integer_format{f.radix, f.ss, f.ts}); ++counter("other_types_accepted");
        if (!fits) fail("accepted-out-of-range", std::string(tn) + " " + s + fmt(" radix %u", f.radix)); else if (got != make<T>(m, neg)) fail("wrong-value", std::string(tn) + " " + s + fmt(" radix %u", f.radix)); }
    catch (const cmp::parse_failed& e) { ++counter("other_types_rejected"); if (fits) fail("rejected-valid", std::string(tn) + " " + s + fmt(" radix %u: ", f.radix) + e.what()); }
    catch (const std::exception& e) { fail("other-exception", s + ": " + e.what()); }
    ev(hash_bytes(s.data(), s.size(), f.radix * 7 + sizeof(T) * 1000), true);
}
template <class T> void type(Rng& r, const char* tn) {
    static const sign_status SS[] = {sign_status::always_show, sign_status::only_when_negative};
    static const thousands_separator TS[] = {thousands_separator::none, thousands_separator::comma, thousands_separator::period};
    U128 hi = highest<T>(); size_t n = S().thorough ? 150000 : 8000;
    for (size_t i = 0; i < n; ++i) {
        F f{r.chance(1, 3) ? 10u : 2 + (unsigned)r.below(35), SS[r.below(2)], TS[r.below(3)]}; bool neg = r.chance(1, 3);
        U128 m = (((U128)r.next() << 64) | r.next()) >> r.below(128); 
        if (r.chance(1, 4)) m = hi + 3 - r.below(7); if (r.chance(1, 4) && hi) m %= hi; if (r.chance(1, 6)) { m = 1; for (size_t k = r.below(128); k--;) m *= f.radix; m += 1 - r.below(3); }
#ifdef PARSE
        bool fits = m <= hi + (neg && is_signed_integer<T> ? 1 : 0) && (!neg || is_signed_integer<T>) && !(hi == ~(U128)0 && false);
        std::string s = spell(m, neg, f, f.ss == sign_status::always_show && r.chance(1, 2));
        if (neg && !m && !is_signed_integer<T>) continue;
        if (r.chance(1, 5)) { // one more digit at the front: ten or more times as much, beyond 128 bits for the widest
            U128 top = hi; size_t k = 0; while (top) { top /= f.radix; ++k; } size_t digits = 0; for (char c : s) digits += c != f.sep() && c != '-' && c != '+'; if (digits < k + 1) { F g = f; g.ts = thousands_separator::none; std::string d = spell(m, false, g, false); d = std::string(1, '1') + std::string(k + 1 > d.size() ? k + 1 - d.size() : 0, '0') + d; std::string o; for (size_t q = 0; q < d.size(); ++q) { if (f.sep() && q && (d.size() - q) % 3 == 0) o += f.sep(); o += d[q]; } s = (neg ? "-" : "") + o; fits = false; ++counter("texts_beyond_the_type"); }
        }
        text<T>(s, fits, m, neg, f, tn);
#else
        value<T>(m, neg, f, tn, i % 8 == 0);
#endif
    }
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(shard_seed(708));
    type<wchar_t>(r, "wchar_t"); type<char8_t>(r, "char8_t"); type<char16_t>(r, "char16_t"); type<char32_t>(r, "char32_t"); type<bool>(r, "bool");
    if constexpr (std::integral<__int128>) { [&]<class I>(I*) { if constexpr (std::integral<I>) type<I>(r, "128-bit signed"); }((__int128*)0); [&]<class I>(I*) { if constexpr (std::integral<I>) type<I>(r, "128-bit unsigned"); }((U128*)0); ++counter("runs_with_128_bit_types"); }
    return done();
}
