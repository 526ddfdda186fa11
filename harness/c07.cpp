#include "common.hpp"
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/formats.hpp>
#include <limits>
using namespace h;
using cmp::sign_status; using cmp::thousands_separator;
// reference: digits by repeated division of a 128-bit magnitude
static std::string ref_format(__int128 v, unsigned radix, bool always, char sep) {
    if (v == 0) return "0";
    bool neg = v < 0; unsigned __int128 m = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string d;
    while (m) { d += "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(int)(m % radix)]; m /= radix; }
    std::string o;
    for (size_t i = 0; i < d.size(); ++i) { if (sep && i && i % 3 == 0) o += sep; o += d[i]; }
    if (neg) o += '-'; else if (always) o += '+';
    return std::string(o.rbegin(), o.rend());
}
template <class Out> Out widen(const std::string& s) { return Out(s.begin(), s.end()); }
struct F { unsigned radix; sign_status ss; thousands_separator ts; };
template <class Out, class T> void one(T v, const F& f, const std::string& want) {
    cmp::integer_format fo{f.radix, f.ss, f.ts};
    Out got;
    try { got = cmp::format_integer<Out>(v, fo); } catch (const std::exception& e) { fail("threw", fmt("%s radix %u: ", want.c_str(), f.radix) + e.what()); return; }
    if (got != widen<Out>(want)) fail(std::string("format_integer:") + cname<typename Out::value_type>(), "got " + std::string(got.begin(), got.end()) + " want " + want + fmt(" radix %u sizeof %zu signed %d", f.radix, sizeof(T), (int)std::is_signed_v<T>));
    ++counter("formatted");
}
template <class T> void value(T v, const F& f, bool all_targets) {
    char sep = f.ts == thousands_separator::none ? 0 : f.ts == thousands_separator::comma ? ',' : '.';
    std::string want = ref_format((__int128)v, f.radix, f.ss == sign_status::always_show, sep);
    one<std::u8string>(v, f, want);
    if (all_targets) { one<std::string>(v, f, want); one<std::u16string>(v, f, want); one<std::u32string>(v, f, want); one<std::wstring>(v, f, want); }
    ev(hash_bytes(want.data(), want.size(), f.radix * 7 + sizeof(T)), v != 0);
}
static const sign_status SS[] = {sign_status::always_show, sign_status::only_when_negative};
static const thousands_separator TS[] = {thousands_separator::none, thousands_separator::comma, thousands_separator::period};
template <class T> void type(Rng& r, const char* tn) {
    set_case(std::string("C07 ") + tn);
    using L = std::numeric_limits<T>;
    unsigned shard = (unsigned)S().shard, n = (unsigned)S().nshards;
    if constexpr (sizeof(T) <= 2) { // all values
        uint64_t k = 0;
        for (int64_t v = L::min(); v <= (int64_t)L::max(); ++v) for (unsigned radix : {2u, 10u, 16u, 36u, 2 + (unsigned)r.below(35)}) if (k++ % n == shard) { value<T>((T)v, {radix, SS[r.below(2)], TS[r.below(3)]}, false); ++counter("exhaustive_small_types"); }
    }
    // extremes, powers of the radix and their neighbours in every radix and format
    for (unsigned radix = 2; radix <= 36; ++radix) for (auto ss : SS) for (auto ts : TS) {
        std::vector<__int128> vs{L::min(), (__int128)L::min() + 1, L::max(), (__int128)L::max() - 1, 0, 1, -1, radix - 1};
        for (__int128 p = radix; p <= (__int128)L::max(); p *= radix) for (int d : {-1, 0, 1}) { vs.push_back(p + d); vs.push_back(-p + d); }
        for (size_t i = 0; i < vs.size(); ++i) if ((i + radix) % n == shard && vs[i] >= (__int128)L::min() && vs[i] <= (__int128)L::max()) { value<T>((T)vs[i], {radix, ss, ts}, radix % 9 == 1); ++counter("boundary_values"); }
    }
    size_t m = S().thorough ? 400000 : 20000;
    for (size_t i = 0; i < m; ++i) { T v = (T)(r.next() >> r.below(8 * sizeof(T) > 63 ? 64 : 64)); F f{2 + (unsigned)r.below(35), SS[r.below(2)], TS[r.below(3)]}; value<T>(v, f, i % 8 == 0); if (i == 0) sample(std::string(tn) + " " + ref_format((__int128)v, 10, false, 0) + fmt(" in radix %u", f.radix)); }
    // default-constructed format
    T v = (T)r.next(); CHECK(cmp::format_integer<std::u8string>(v, cmp::integer_format{}) == widen<std::u8string>(ref_format((__int128)v, 10, false, 0)), "default-format", tn);
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(7));
    type<signed char>(r, "signed char"); type<unsigned char>(r, "unsigned char"); type<char>(r, "char");
    type<short>(r, "short"); type<unsigned short>(r, "unsigned short"); type<int>(r, "int"); type<unsigned>(r, "unsigned");
    type<long>(r, "long"); type<unsigned long>(r, "unsigned long"); type<long long>(r, "long long"); type<unsigned long long>(r, "unsigned long long");
    return done();
}
