// C25: core numeric helpers, invert_endianness and the application object.
#include "common.hpp"
#include <cmath>
#include <limits>
#include <type_traits>
#include <cmp/core/general.hpp>
#include <cmp/core/application.hpp>
#include <cmp/io/general.hpp>
using namespace h;
template <class T> void digits_one(T v, T radix) {
    unsigned __int128 m = v < 0 ? (unsigned __int128)(-(__int128)v) : (unsigned __int128)v; unsigned want = 0;
    do { ++want; m /= (unsigned __int128)radix; } while (m);
    unsigned got = cmp::count_digits(v, radix);
    ev(mix64((uint64_t)v ^ (uint64_t)radix << 57 ^ sizeof(T) << 50 ^ (uint64_t)std::is_signed_v<T> << 49));
    if (got != want) fail("count-digits", fmt("count_digits(%lld, %lld) is %u instead of %u (%zu-byte %s)", (long long)v, (long long)radix, got, want, sizeof(T), std::is_signed_v<T> ? "signed" : "unsigned"));
}
template <class T> void digits(Rng& r, const char* name) {
    set_case(fmt("count_digits %s", name));
    using L = std::numeric_limits<T>; long long maxr = L::max() > 300 ? 300 : (long long)L::max();
    if (sizeof(T) == 1) { for (int v = (int)L::min(); v <= (int)L::max(); ++v) for (int x = 2; x <= maxr; ++x) digits_one<T>((T)v, (T)x); ++counter("exhaustive_types"); }
    for (int x = 2; x <= maxr; ++x) {
        __int128 p = 1;
        while (p <= (__int128)L::max()) { for (int d = -1; d <= 1; ++d) { __int128 v = p + d; if (v <= (__int128)L::max()) { digits_one<T>((T)v, (T)x); if (std::is_signed_v<T>) digits_one<T>((T)-v, (T)x); ++counter("power_boundaries"); } } p *= x; }
        for (T v : {L::min(), (T)(L::min() + 1), L::max(), (T)(L::max() - 1), (T)0, (T)1}) digits_one<T>(v, (T)x);
    }
    int n = S().thorough ? 400000 : 20000;
    for (int i = 0; i < n; ++i) { T v = (T)(r.next() >> r.below(64)); T x = (T)(2 + r.below(maxr - 1)); digits_one<T>(v, x); if (std::is_signed_v<T> && v != L::min()) digits_one<T>((T)-v, x); }
    if (maxr == 300) for (int i = 0; i < 2000; ++i) { T x = (T)((r.next() >> r.below(64)) & (uint64_t)L::max()); if (x < 2) x = 2; digits_one<T>((T)r.next(), x); digits_one<T>(L::max(), x); digits_one<T>(x, x); digits_one<T>((T)(x - 1), x); ++counter("large_radices"); }
}
// value whose scaled floor is k whatever the rounding of the multiplication: its scaled fraction lies in [.1, .9]
template <class T> T make(long double k, long double f, unsigned p) { return (T)((k + f) / powl(10.0L, p)); }
template <class A, class B> void equal_pair(Rng& r) {
    unsigned pmax = std::min({std::is_same_v<A, float> || std::is_same_v<B, float> ? 5u : 12u});
    unsigned p = (unsigned)r.below(pmax + 1);
    auto lim = [&](auto t) { using T = decltype(t); return std::is_same_v<T, float> ? 100000ll : 100000000000ll; };
    long long L = std::min(lim(A{}), lim(B{}));
    long long k1 = r.range(-(L >> r.below(30)), L >> r.below(30)), k2 = r.chance(1, 2) ? k1 : r.chance(1, 2) ? k1 + (r.chance(1, 2) ? 1 : -1) : r.chance(1, 3) ? -k1 : r.range(-L, L);
    long double f1 = .1L + .8L * (long double)r.below(1001) / 1000, f2 = .1L + .8L * (long double)r.below(1001) / 1000;
    A a = make<A>((long double)k1, f1, p); B b = make<B>((long double)k2, f2, p);
    bool want = k1 == k2;
    set_case(fmt("cmp_equal(%.20Lg, %.20Lg, %u)", (long double)a, (long double)b, p));
    bool e = cmp::cmp_equal(a, b, p), s = cmp::cmp_equal(b, a, p), ne = cmp::cmp_not_equal(a, b, (int)p), nes = cmp::cmp_not_equal(b, a, (int)p);
    ev(mix64(hash_bytes(&a, sizeof(double) < sizeof a ? 10 : sizeof a) ^ mix64(hash_bytes(&b, sizeof(double) < sizeof b ? 10 : sizeof b) + p)));
    CHECK(e == want, "cmp-equal", fmt("%d instead of %d", e, want)); CHECK(s == e, "cmp-equal-asymmetric", ""); CHECK(ne == !e && nes == !s, "cmp-not-equal", fmt("%d with equal %d", ne, e));
    ++counter(want ? "pairs_equal" : "pairs_different"); if (k1 < 0) ++counter("pairs_negative");
    // any finite values: reflexive, symmetric, negation
    auto wild = [&](auto t) { using T = decltype(t); T v; int c = (int)r.below(4); v = c == 0 ? (T)std::ldexp((double)(int64_t)r.next(), (int)r.range(-120, 40)) : c == 1 ? (T)(r.range(-1000, 1000)) / 100 : c == 2 ? std::numeric_limits<T>::denorm_min() * (T)r.range(-3, 3) : (T)0 * (r.chance(1, 2) ? -1 : 1); return v; };
    A x = wild(A{}); B y = r.chance(1, 3) ? (B)x : wild(B{}); unsigned q = (unsigned)r.below(16);
    set_case(fmt("cmp_equal(%.20Lg, %.20Lg, %u)", (long double)x, (long double)y, q));
    CHECK(cmp::cmp_equal(x, x, q), "cmp-equal-not-reflexive", g_case); CHECK(!cmp::cmp_not_equal(y, y, (int)q), "cmp-equal-not-reflexive", g_case);
    bool xy = cmp::cmp_equal(x, y, q); CHECK(xy == cmp::cmp_equal(y, x, q), "cmp-equal-asymmetric", g_case); CHECK(cmp::cmp_not_equal(x, y, (int)q) == !xy && cmp::cmp_not_equal(y, x, (int)q) == !xy, "cmp-not-equal", g_case);
    ++counter("wild_pairs"); ev(mix64(hash_bytes(&x, sizeof x == 16 ? 10 : sizeof x) + q * 31) ^ mix64(hash_bytes(&y, sizeof y == 16 ? 10 : sizeof y)));
}
static void invert(Rng& r, size_t n) {
    set_case(fmt("invert_endianness of %zu bytes", n));
    std::vector<std::byte> v(n); for (auto& b : v) b = (std::byte)r.next();
    Exact<char> e(std::string_view((const char*)v.data(), n)); auto* p = (std::byte*)e.p.get();
    cmp::invert_endianness(p, n);
    for (size_t i = 0; i < n; ++i) if (p[i] != v[n - 1 - i]) { fail("invert-endianness", fmt("byte %zu of %zu", i, n)); break; }
    cmp::invert_endianness(p, n);
    if (n && std::memcmp(p, v.data(), n)) fail("invert-twice", fmt("%zu bytes", n));
    // inside a larger block nothing else changes
    size_t lead = r.below(9), tail = r.below(9); std::vector<std::byte> big(lead + n + tail), b0; for (auto& b : big) b = (std::byte)r.next(); b0 = big;
    cmp::invert_endianness(big.data() + lead, n);
    for (size_t i = 0; i < big.size(); ++i) { auto want = i < lead || i >= lead + n ? b0[i] : b0[lead + n - 1 - (i - lead)]; if (big[i] != want) { fail("invert-elsewhere", fmt("byte %zu of %zu+%zu+%zu", i, lead, n, tail)); break; } }
    ev(mix64(n) ^ hash_bytes(v.data(), n)); ++counter("blocks_inverted");
}
struct Sub : cmp::application { using cmp::application::application; int ran = 0; int run() override { ++ran; return 42; } };
static void apps(Rng& r) {
    CHECK(cmp::app() == nullptr, "app-before", "app() is not null with no application");
    int argc = (int)r.below(r.chance(1, 40) ? 700 : 6); std::vector<std::string> a; for (int i = 0; i < argc; ++i) { U32 t = gen_text(r, 8, false, false); auto u = encode<std::u8string>(t); a.emplace_back((const char*)u.data(), u.size()); }
    std::vector<char*> av; for (auto& s : a) av.push_back(s.data()); av.push_back(nullptr);
    set_case(fmt("application with %d arguments", argc));
    auto use = [&](cmp::application& ap, int ret) {
        CHECK(cmp::app() == &ap && cmp::application::get_instance_ptr() == &ap, "app-instance", "app() is not the application");
        CHECK(ap.get_argc() == argc && ap.get_argv() == av.data(), "arguments", fmt("argc %d", ap.get_argc()));
        for (int i = 0; i < argc; ++i) CHECK(a[(size_t)i] == ap.get_argv()[i], "arguments", fmt("argument %d", i));
        CHECK(ap.get_copyright_notice().empty(), "notice", "not empty at first");
        std::u8string cur;
        for (int k = 0; k < 6; ++k) {
            if (r.chance(1, 2)) { cur = encode<std::u8string>(gen_text(r, r.chance(1, 8) ? 400 : 20)); Exact<char8_t> e{std::u8string_view(cur)}; cmp::app()->set_copyright_notice(e.view()); ++counter("notices_set"); }
            CHECK(ap.get_copyright_notice() == cur, "notice", dump_units(ap.get_copyright_notice()) + " instead of " + dump_units(cur)); ev(mix64(r.s));
        }
        CHECK(cmp::app()->run() == ret, "run-result", fmt("%d", ret));
        if (r.chance(1, 3)) { // a moved application keeps what it was given
            cmp::application moved{std::move(ap)}; CHECK(moved.get_argc() == argc && moved.get_argv() == av.data() && moved.get_copyright_notice() == cur, "move", "arguments or notice lost"); ++counter("moves");
        }
    };
    if (r.chance(1, 2)) { cmp::application ap{argc, av.data()}; use(ap, 0); } else { auto ap = std::make_unique<Sub>(argc, av.data()); use(*ap, 42); CHECK(ap->ran == 1, "run-override", ""); }
    CHECK(cmp::app() == nullptr, "app-after", "app() refers to a destroyed application");
    ++counter("applications");
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(shard_seed(25));
    switch (S().shard % 8) { // one integer type per shard, both char types with the small ones
        case 0: digits<signed char>(r, "signed char"); digits<char>(r, "char"); break; case 1: digits<unsigned char>(r, "unsigned char"); break;
        case 2: digits<short>(r, "short"); digits<wchar_t>(r, "wchar_t"); break; case 3: digits<unsigned short>(r, "unsigned short"); digits<char16_t>(r, "char16_t"); break;
        case 4: digits<int>(r, "int"); break; case 5: digits<unsigned>(r, "unsigned"); break;
        case 6: digits<long>(r, "long"); digits<long long>(r, "long long"); break; default: digits<unsigned long>(r, "unsigned long"); digits<unsigned long long>(r, "unsigned long long"); break; }
    int n = S().thorough ? 300000 : 15000;
    for (int i = 0; i < n; ++i) { equal_pair<float, float>(r); equal_pair<double, double>(r); equal_pair<long double, long double>(r); equal_pair<float, double>(r); equal_pair<double, long double>(r); equal_pair<long double, float>(r); }
    for (auto e : {std::endian::big, std::endian::little}) { // the opposite is the other one, at run time and in constant expressions
        volatile int v = (int)e; std::endian o = cmp::get_opposite_endianness((std::endian)(int)v); set_case("get_opposite_endianness");
        if (o != (e == std::endian::big ? std::endian::little : std::endian::big)) fail("opposite-endianness", fmt("of %s", e == std::endian::big ? "big" : "little"));
        ++counter("opposites"); ++S().evaluations; }
    if constexpr (constexpr auto o = cmp::get_opposite_endianness(std::endian::native); o == std::endian::native) fail("opposite-endianness", "constant of native");
    for (size_t k = 0; k < 600; ++k) invert(r, k);
    for (int i = 0; i < (S().thorough ? 3000 : 300); ++i) invert(r, r.below(1u << r.below(17)));
    for (int i = 0; i < (S().thorough ? 20000 : 1000); ++i) apps(r);
    sample(g_case);
    { cmp::application ap{0, nullptr}; every_length([&](const U32& t) { auto u = encode<std::u8string>(t); set_case(fmt("notice of %zu bytes", u.size())); ap.set_copyright_notice(u); CHECK(ap.get_copyright_notice() == u, "notice-length", fmt("%zu bytes instead of %zu", ap.get_copyright_notice().size(), u.size())); ev(hash_units<char8_t>(u)); }); }
    return done();
}
