#include "common.hpp"
#include <cmp/unicode/algorithms.hpp>
using namespace h;

template <class Out, class In> Out conv_named(const In& in) {
    if constexpr (std::is_same_v<Out, std::string>) return cmp::to_string(in);
    else if constexpr (std::is_same_v<Out, std::u8string>) return cmp::to_u8string(in);
    else if constexpr (std::is_same_v<Out, std::u16string>) return cmp::to_u16string(in);
    else if constexpr (std::is_same_v<Out, std::u32string>) return cmp::to_u32string(in);
    else return cmp::to_wstring(in);
}
template <class Out, class F> void expect(const char* what, const Out& want, const U32& t, F f) {
    try {
        Out got = f();
        if (got != want)
            fail(std::string("convert-wrong:") + what, "text=" + dump_units(t) + " got=" + dump_units(got) + " want=" + dump_units(want));
    } catch (const std::exception& e) {
        fail(std::string("convert-threw:") + what, "text=" + dump_units(t) + " threw " + e.what());
    }
}
template <class SrcStr, class OutStr> void pair_case(const U32& t, bool full) {
    using C = typename SrcStr::value_type;
    static const std::string what = std::string(cname<C>()) + "->" + cname<typename OutStr::value_type>();
    set_case("C01 " + what + " text=" + dump_units(t));
    const SrcStr src = encode<SrcStr>(t);
    const OutStr want = encode<OutStr>(t);
    auto ex = Exact<C>::of(src);
    auto view = ex.view();
    expect<OutStr>(what.c_str(), want, t, [&] { return cmp::convert_string<OutStr>(view); });
    ++counter("conversions");
    if (!full) return;
    expect<OutStr>(what.c_str(), want, t, [&] { return conv_named<OutStr>(view); });
    expect<OutStr>(what.c_str(), want, t, [&] { return cmp::convert_string<OutStr>(src); });
    SrcStr msrc = src;
    expect<OutStr>(what.c_str(), want, t, [&] { return conv_named<OutStr>(msrc); });
    CHECK(msrc == src, "convert-changed-source:" + what, dump_units(t));
    if (t.find(U'\0') == U32::npos) {
        ExactZ<C> z(view);
        const C* p = z.ptr();
        expect<OutStr>(what.c_str(), want, t, [&] { return cmp::convert_string<OutStr>(p); });
        expect<OutStr>(what.c_str(), want, t, [&] { return conv_named<OutStr>(p); });
        if (src.size() < 24) {
            C arr[24]; std::fill_n(arr, 24, (C)'#'); // whatever follows the null character
            std::memcpy(arr, src.data(), src.size() * sizeof(C)); arr[src.size()] = 0;
            const C (&carr)[24] = arr; C* mp = arr;
            expect<OutStr>(what.c_str(), want, t, [&] { return cmp::convert_string<OutStr>(arr); });
            expect<OutStr>(what.c_str(), want, t, [&] { return cmp::convert_string<OutStr>(carr); });
            expect<OutStr>(what.c_str(), want, t, [&] { return cmp::convert_string<OutStr>(mp); });
            ++counter("array_or_pointer_sources");
        }
    }
    // round trip
    expect<SrcStr>("round-trip", src, t, [&] { return cmp::convert_string<SrcStr>(conv_named<OutStr>(view)); });
}
template <class SrcStr> void all_targets(const U32& t, bool full, bool ascii) {
    if (ascii) pair_case<SrcStr, std::string>(t, full);
    pair_case<SrcStr, std::u8string>(t, full);
    pair_case<SrcStr, std::u16string>(t, full);
    pair_case<SrcStr, std::u32string>(t, full);
    pair_case<SrcStr, std::wstring>(t, full);
}
void all_pairs(const U32& t, bool full) {
    bool ascii = true;
    for (char32_t c : t) if (c > 0x7F) ascii = false;
    if (ascii) all_targets<std::string>(t, full, true);
    all_targets<std::u8string>(t, full, ascii);
    all_targets<std::u16string>(t, full, ascii);
    all_targets<std::u32string>(t, full, ascii);
    all_targets<std::wstring>(t, full, ascii);
}
#if __SIZEOF_WCHAR_T__ == 2 // built with -fshort-wchar: only what concerns wide text
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(101));
    auto wide = [&](const U32& t, bool full) { bool ascii = true; for (char32_t c : t) ascii = ascii && c <= 0x7F;
        all_targets<std::wstring>(t, full, ascii); if (ascii) pair_case<std::string, std::wstring>(t, full);
        pair_case<std::u8string, std::wstring>(t, full); pair_case<std::u16string, std::wstring>(t, full); pair_case<std::u32string, std::wstring>(t, full); ++counter("two_byte_wide_texts"); };
    for (uint32_t c = (uint32_t)S().shard; c <= 0x10FFFF; c += (uint32_t)S().nshards * (S().thorough || (c & 0xFFFF) > 0xFF00 || c < 0x11000 ? 1 : 17)) if (scalar(c)) { wide(U32(1, (char32_t)c), c % 257 == 0); ev(0x110000000ull + c); }
    for (size_t i = 0; i < (S().thorough ? 60000u : 1500u); ++i) { U32 t = gen_text(r, i % 50 == 0 ? 3000 : 60, r.chance(1, 6)); wide(t, true); ev(hash_units<char32_t>(t, 2), t.size() > 1); }
    return done();
}
#else
int main(int argc, char** argv) {
    init(argc, argv);
    // every scalar value on its own (sharded), in every encoding pair
    for (uint32_t c = (uint32_t)S().shard; c <= 0x10FFFF; c += (uint32_t)S().nshards) {
        if (!scalar(c)) continue;
        U32 t(1, (char32_t)c);
        all_pairs(t, c < 0x900 || c % 257 == 0);
        ev(0x100000000ull + c);
        ++counter("scalars_enumerated");
    }
    Rng r(shard_seed(1));
    size_t n = S().thorough ? 60000 : 2500;
    for (size_t i = 0; i < n; ++i) {
        U32 t = gen_text(r, i % 50 == 0 ? 3000 : 60, r.chance(1, 6));
        all_pairs(t, true);
        ev(hash_units<char32_t>(t), t.size() > 1);
        ++counter("random_texts");
        if (i < 3) sample("text of code points " + dump_units(t) + " converted between every pair of encodings");
    }
    every_length([&](const U32& t) { all_pairs(t, t.size() % 3 == 0); ev(hash_units<char32_t>(t)); });
    for (size_t i = 0; i < (S().thorough ? 20 : 2); ++i) { // longer than 16-bit counts
        U32 t = gen_long_text(r, r.chance(1, 6), r.chance(1, 2));
        all_pairs(t, true); ev(hash_units<char32_t>(t)); ++counter("long_texts");
    }
    return done();
}
#endif
