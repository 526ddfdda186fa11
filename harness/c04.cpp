#include "hostile.hpp"
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/by_code_point.hpp>
using namespace h;
// number of code units from the beginning to `it`, found by comparing with every code point boundary
template <class C, class T> void judge(const T& object, std::basic_string_view<C> v, const char* kind) {
    static const std::string cn = cname<C>();
    U32 good;
    size_t units = ref_decode<C>(v, good);
    auto D = [&](const std::string& w) { return cn + " " + kind + ": " + w + " units=" + dump_units(v) + fmt(" well-formed prefix %zu units", units); };
    try {
        auto got = cmp::validate_string(object);
        cmp::by_code_point<C> range{v};
        // walk to the expected place: the prefix is well-formed, so stepping is safe
        cmp::by_code_point<C> good_range{v.substr(0, units)};
        auto it = range.begin();
        for (size_t i = 0; i < good.size(); ++i) ++it;
        bool equal = got == it;
        if (!equal) {
            size_t at = 0; auto probe = range.begin(); bool found = false;
            try { for (; at <= good.size(); ++at) { if (probe == got) { found = true; break; } ++probe; } } catch (...) {}
            fail("validate-position:" + cn, D(found ? fmt("returned code point index %zu, expected %zu", at, good.size()) : std::string("returned a place that is no code point boundary of the prefix")));
        }
        bool whole = got == range.end();
        CHECK(whole == (units == v.size()), "validate-verdict:" + cn, D(whole ? "claimed well-formed" : "claimed ill-formed"));
        (void)good_range;
    } catch (const std::exception& e) { fail("validate-threw:" + cn, D(e.what())); }
}
template <class C> void one(std::basic_string_view<C> text, bool objects) {
    set_case(std::string("C04 ") + cname<C>() + " units=" + dump_units(text));
    Exact<C> ex(text);
    judge<C>(ex.view(), ex.view(), "view");
    ++counter("texts");
    U32 g; bool bad = ref_decode<C>(text, g) != text.size();
    ++counter(bad ? "ill_formed" : "well_formed");
    if (objects) {
        const std::basic_string<C> cs(text); judge<C>(cs, std::basic_string_view<C>(cs), "const string");
        std::basic_string<C> s(text); judge<C>(s, std::basic_string_view<C>(s), "string");
    }
    ev(hash_units<C>(text), !text.empty());
}
#if __SIZEOF_WCHAR_T__ == 2 // built with -fshort-wchar: only what concerns wide text
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(104));
    uint64_t idx = 0; auto mine = [&] { return (int)(idx++ % (uint64_t)S().nshards) == S().shard; };
    static const std::vector<int> b16{0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF};
    for (int u = 0xD700; u <= 0xE100; ++u) {
        if (mine()) { wchar_t s[1]{(wchar_t)u}; one<wchar_t>({s, 1}, true); }
        for (int w : b16) if (mine()) { wchar_t s[3]{(wchar_t)u, (wchar_t)w, L'z'}, q[2]{(wchar_t)w, (wchar_t)u}; one<wchar_t>({s, 2}, false); one<wchar_t>({s, 3}, false); one<wchar_t>({q, 2}, false); ++counter("two_byte_wide_texts"); }
    }
    for (size_t i = 0; i < (S().thorough ? 200000u : 5000u); ++i) { one<wchar_t>(r.chance(1, 3) ? encode<std::wstring>(gen_text(r, 20)) : hostile<wchar_t>(r, 20), true); one<wchar_t>(bad_run<wchar_t>(r), false); ++counter("two_byte_wide_texts"); }
    one<wchar_t>({}, true);
    return done();
}
#else
int main(int argc, char** argv) {
    init(argc, argv);
    uint64_t idx = 0;
    auto mine = [&] { return (int)(idx++ % (uint64_t)S().nshards) == S().shard; };
    for (int a = 0; a < 256; ++a) {
        if (mine()) { char8_t s[1]{(char8_t)a}; one<char8_t>({s, 1}, true); }
        for (int b = 0; b < 256; ++b) {
            if (mine()) { char8_t s[2]{(char8_t)a, (char8_t)b}; one<char8_t>({s, 2}, true); ++counter("exhaustive_2_bytes"); }
            if (a >= 0xE0 && (S().thorough || a <= 0xF8)) for (int c = 0x7E; c < 0xC4; c += 1) if (mine()) { char8_t s[3]{(char8_t)a, (char8_t)b, (char8_t)c}; one<char8_t>({s, 3}, false); ++counter("exhaustive_3_bytes"); }
        }
    }
    static const std::vector<int> t4{0x7F, 0x80, 0x8F, 0x90, 0xBF, 0xC0, 0xE1, 0xF0}, lead4{0xEF, 0xF0, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xFF};
    for (int a : lead4) for (int b = 0x70; b < 0xD0; ++b) for (int c : t4) for (int d : t4) if (mine()) { char8_t s[5]{(char8_t)a, (char8_t)b, (char8_t)c, (char8_t)d, u8'z'}; one<char8_t>({s, 4}, false); one<char8_t>({s, 5}, false); ++counter("exhaustive_4_bytes"); }
    static const std::vector<int> b16{0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF};
    for (int u = 0; u < 65536; ++u) {
        if (!(u >= 0xD700 && u <= 0xE100) && u % 16 && !S().thorough) continue;
        if (mine()) { char16_t s[1]{(char16_t)u}; one<char16_t>({s, 1}, true); }
        for (int w : b16) if (mine()) { char16_t s[3]{(char16_t)u, (char16_t)w, u'z'}, q[2]{(char16_t)w, (char16_t)u}; one<char16_t>({s, 2}, false); one<char16_t>({s, 3}, false); one<char16_t>({q, 2}, false); ++counter("exhaustive_16"); }
    }
    // every UTF-32 value up to a little above the range, plus the planes that alias
    for (uint32_t c = 0; c < 0x114000; c += (S().thorough ? 1 : 11)) if (mine()) { char32_t s[1]{(char32_t)c}; one<char32_t>({s, 1}, false); }
    for (uint32_t c = 0xD780; c < 0xE080; ++c) for (uint32_t plane : {0u, 1u, 0x10u, 0x11u, 0x100u, 0x8000u, 0xFFFFu}) if (mine()) { char32_t s[2]{(char32_t)(plane << 16 | c), U'a'}; one<char32_t>({s, 2}, true); wchar_t w[2]{(wchar_t)(plane << 16 | c), L'a'}; one<wchar_t>({w, 2}, true); ++counter("exhaustive_32_surrogate_aliases"); }
    for (uint32_t c = 0x10FFC0; c < 0x110040; ++c) if (mine()) { wchar_t w[2]{L'a', (wchar_t)c}; one<wchar_t>({w, 2}, true); char32_t s[2]{U'a', (char32_t)c}; one<char32_t>({s, 2}, true); }
    Rng r(shard_seed(4));
    size_t n = S().thorough ? 200000 : 8000;
    for (size_t i = 0; i < n; ++i) {
        size_t len = i % 200 == 0 ? 2000 : 20;
        auto a = r.chance(1, 3) ? encode<std::u8string>(gen_text(r, len)) : hostile<char8_t>(r, len); one<char8_t>(a, true); if (i < 2) sample("UTF-8 " + dump_units(a));
        auto b = r.chance(1, 3) ? encode<std::u16string>(gen_text(r, len)) : hostile<char16_t>(r, len); one<char16_t>(b, true); if (i < 2) sample("UTF-16 " + dump_units(b));
        auto c = r.chance(1, 3) ? encode<std::u32string>(gen_text(r, len)) : hostile<char32_t>(r, len); one<char32_t>(c, true);
        auto d = r.chance(1, 3) ? encode<std::wstring>(gen_text(r, len)) : hostile<wchar_t>(r, len); one<wchar_t>(d, true);
        ++counter("random_texts");
    }
    for (size_t i = 0; i < (S().thorough ? 100000u : 10000u); ++i) { one<char8_t>(bad_run<char8_t>(r), false); one<char16_t>(bad_run<char16_t>(r), false); one<char32_t>(bad_run<char32_t>(r), false); one<wchar_t>(bad_run<wchar_t>(r), false); ++counter("runs_with_bad_units"); }
    every_length([&](const U32& t) { auto go = [&](auto s) { using C = typename decltype(s)::value_type; one<C>(s, true); s += (C)(sizeof(C) == 1 ? 0xFF : 0xDC00); one<C>(s, false); s += (C)'a'; one<C>(s, false); }; go(encode<std::u8string>(t)); go(encode<std::u16string>(t)); if (t.size() < 2000) { go(t); go(encode<std::wstring>(t)); } });
    for (size_t i = 0; i < (S().thorough ? 50000u : 5000u); ++i) { // char holds ASCII text only
        std::string t; for (char32_t c : gen_text(r, 40, true)) t += (char)c; if (r.chance(2, 3)) for (size_t k = 1 + r.below(3); k--;) t.insert(r.below(t.size() + 1), 1, (char)(0x80 + r.below(128)));
        size_t good = 0; while (good < t.size() && !(t[good] & 0x80)) ++good; set_case("C04 char " + dump_units(t)); Exact<char> ex(t); auto v = ex.view(); auto judge_char = [&](const auto& o, std::string_view w, const char* kind) { auto it = cmp::by_code_point<char>{w}.begin(); it += (std::ptrdiff_t)good; CHECK(cmp::validate_string(o) == it, "validate-position:char", std::string(kind) + " " + dump_units(t) + fmt(" ASCII prefix %zu", good)); };
        judge_char(v, v, "view"); judge_char(t, t, "string"); const std::string ct = t; judge_char(ct, ct, "const string"); ev(hash_bytes(t.data(), t.size(), 4), !t.empty()); ++counter("char_texts"); }
    auto spoil = [&](auto s) { using C = typename decltype(s)::value_type; if (r.chance(3, 4)) { size_t p = r.chance(1, 2) ? s.size() - 1 - r.below(40) : r.below(s.size()); s[p] = (C)(sizeof(C) == 1 ? 0xFF : 0xD800); } return s; };
    for (size_t i = 0; i < (S().thorough ? 30 : 3); ++i) { U32 t = gen_long_text(r); one<char8_t>(spoil(encode<std::u8string>(t)), true); one<char16_t>(spoil(encode<std::u16string>(t)), true); one<char32_t>(spoil(t), true); one<wchar_t>(spoil(encode<std::wstring>(t)), true); ++counter("long_texts"); }
    one<char8_t>({}, true); one<char16_t>({}, true); one<char32_t>({}, true); one<wchar_t>({}, true);
    return done();
}
#endif
