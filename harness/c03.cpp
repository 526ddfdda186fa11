#include "hostile.hpp"
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/by_code_point.hpp>
#include <cmp/unicode/exceptions.hpp>
using namespace h;

enum Out { OK, THREW_ENC, THREW_END, THREW_CP, THREW_OTHER };
static const char* on[] = {"ok", "invalid_unicode_encoding", "iterated_past_end", "invalid_code_point", "other exception"};
template <class F> Out run(F f, std::string* what = nullptr) {
    try { f(); return OK; }
    catch (const cmp::invalid_unicode_encoding&) { return THREW_ENC; }
    catch (const cmp::iterated_past_end&) { return THREW_END; }
    catch (const cmp::invalid_code_point&) { return THREW_CP; }
    catch (const std::exception& e) { if (what) *what = e.what(); return THREW_OTHER; }
}
template <class C> void one(std::basic_string_view<C> text, bool heavy) {
    static const std::string cn = cname<C>();
    constexpr bool strict = sizeof(C) < 4; // UTF-8 and UTF-16 are checked while decoding
    set_case("C03 " + cn + " units=" + dump_units(text));
    Exact<C> ex(text);
    auto v = ex.view();
    U32 good;
    size_t okunits = ref_decode<C>(v, good);
    bool bad = okunits != v.size();
    auto D = [&](const std::string& w) { return cn + " " + w + " units=" + dump_units(v); };
    cmp::by_code_point<C> range{v};
    ++counter(bad ? "ill_formed" : "well_formed");
    // forward by ++ with dereference; everything before the error must decode
    {
        U32 got;
        Out o = run([&] { for (auto it = range.begin(); it != range.end(); ++it) { char32_t c = *it; got += c; if (got.size() > v.size()) return; } });
        if (strict) {
            if (bad) CHECK(o == THREW_ENC || o == THREW_END, "deref-accepted:" + cn, D(std::string("deref loop: ") + on[o]));
            else CHECK(o == OK, "deref-rejected-good:" + cn, D(on[o]));
            CHECK(got == good, "prefix-wrong:" + cn, D("decoded " + dump_units(got) + " expected " + dump_units(good)));
        } else {
            CHECK(o == OK && got == U32(v.begin(), v.end()), "passthrough:" + cn, D(on[o]));
        }
    }
    // forward by ++ only
    {
        size_t n = 0;
        Out o = run([&] { for (auto it = range.begin(); it != range.end(); it++) { if (++n > v.size()) return; } });
        if (strict && bad) CHECK((o == THREW_ENC || o == THREW_END) && n == good.size() + 1, "advance-accepted:" + cn, D(std::string("++ loop: ") + on[o] + fmt(" after %zu", n)));
        else CHECK(o == OK && n == (strict ? good.size() : v.size()), "advance-rejected-good:" + cn, D(on[o]));
    }
    // jumps over the whole text
    if (strict) {
        Out o = run([&] { auto it = range.begin(); it += (std::ptrdiff_t)good.size() + (bad ? 1 : 0); });
        CHECK(bad ? (o == THREW_ENC || o == THREW_END) : o == OK, "jump:" + cn, D(std::string("+=: ") + on[o]));
        o = run([&] { auto it = range.begin() + ((std::ptrdiff_t)good.size() + (bad ? 1 : 0)); (void)it; });
        CHECK(bad ? (o == THREW_ENC || o == THREW_END) : o == OK, "plus:" + cn, D(std::string("+: ") + on[o]));
        o = run([&] { auto it = range.begin(); it -= -((std::ptrdiff_t)good.size() + (bad ? 1 : 0)); });
        CHECK(bad ? (o == THREW_ENC || o == THREW_END) : o == OK, "negative-jump:" + cn, D(std::string("-= negative: ") + on[o]));
        o = run([&] { auto it = range.begin() - (-((std::ptrdiff_t)good.size() + (bad ? 1 : 0))); (void)it; });
        CHECK(bad ? (o == THREW_ENC || o == THREW_END) : o == OK, "negative-minus:" + cn, D(std::string("- negative: ") + on[o]));
    }
    // jumps that start anywhere before the error and lead any distance beyond it
    if (strict && bad) {
        Rng q(hash_units<C>(v) | 1); size_t from = q.below(good.size() + 1), far = good.size() - from + 1 + (q.chance(1, 3) ? 0 : q.below(v.size() + 12)); auto start = range.begin(); Out o = run([&] { for (size_t k = 0; k < from; ++k) ++start; }); CHECK(o == OK, "advance-rejected-good:" + cn, D(on[o]));
        o = run([&] { auto it = start; switch (q.below(4)) { case 0: it += (std::ptrdiff_t)far; break; case 1: it = it + (std::ptrdiff_t)far; break; case 2: it = (std::ptrdiff_t)far + it; break; default: it -= -(std::ptrdiff_t)far; } });
        CHECK(o == THREW_ENC || o == THREW_END, "jump-beyond:" + cn, D(std::string(on[o]) + fmt(" on a jump of %zu from index %zu, the error is at %zu", far, from, good.size()))); ++counter("jumps_beyond_the_error");
        if (good.size() > from) { size_t in = q.below(good.size() - from + 1); U32 got; o = run([&] { auto it = start + (std::ptrdiff_t)in; if (from + in < good.size()) got += (char32_t)*it; }); CHECK(o == OK && (got.empty() || got[0] == good[from + in]), "jump-before:" + cn, D(on[o])); }
    }
    // backwards: must stay inside and finish
    {
        size_t n = 0;
        Out o = run([&] {
            auto it = range.end();
            while (it != range.begin()) { --it; if (++n > v.size()) break; Out d = run([&] { char32_t c = *it; (void)c; }); (void)d; }
        });
        CHECK(o == OK, "backward-threw:" + cn, D(std::string("--: ") + on[o]));
        CHECK(n <= v.size(), "backward-endless:" + cn, D("-- made more steps than there are units"));
        if (o == OK && n <= v.size()) { // the same steps in one jump
            std::ptrdiff_t k = (std::ptrdiff_t)n; bool same = false; o = run([&] { auto a = range.end(); a -= k; auto b = range.end() - k; auto c = k - range.end(); auto d = range.end(); d += -k; auto e = range.end() + (-k); same = a == range.begin() && b == a && c == a && d == a && e == a; });
            CHECK(o == OK && same, "backward-jump:" + cn, D(std::string("jump back: ") + on[o])); ++counter("backward_jumps"); }
        run([&] { for (auto it = range.crbegin(); it != range.crend(); ++it) { char32_t c = *it; (void)c; if (++n > 3 * v.size() + 3) break; } });
    }
    // end iterator
    {
        Out o = run([&] { char32_t c = *range.end(); (void)c; });
        CHECK(o == THREW_END, "end-deref:" + cn, D(std::string("*end(): ") + on[o]));
        if (strict) { o = run([&] { auto it = range.end(); ++it; }); CHECK(o == THREW_END, "end-advance:" + cn, D(std::string("++end(): ") + on[o])); }
    }
    // conversions
    auto conv = [&](auto tag, const char* tn, bool must_throw) {
        using T = decltype(tag);
        T got; std::string w;
        Out o = run([&] { got = cmp::convert_string<T>(v); }, &w);
        if (must_throw) CHECK(o == THREW_ENC || o == THREW_END || o == THREW_CP, "convert-accepted:" + cn + "->" + tn, D(std::string(on[o]) + " " + w + " gave " + dump_units(got)));
        else CHECK(o == OK && (bad || got == encode<T>(good)), "convert-rejected-good:" + cn + "->" + tn, D(std::string(on[o]) + " " + w));
    };
    conv(std::u8string{}, "u8", bad); conv(std::u16string{}, "u16", bad);
    if (strict) { conv(std::u32string{}, "u32", bad); conv(std::wstring{}, "wide", bad); }
    if (heavy) {
        // the other operations that decode: must throw one of the three or answer, never crash
        std::u8string probe = encode<std::u8string>(good);
        Out o = run([&] { (void)cmp::starts_with(v, probe); }); CHECK(o != THREW_OTHER && (o == OK || bad), "starts_with:" + cn, D(on[o]));
        o = run([&] { (void)cmp::ends_with(v, probe); }); CHECK(o != THREW_OTHER && (o == OK || bad), "ends_with:" + cn, D(on[o]));
        o = run([&] { (void)cmp::ends_with(std::u8string_view(probe), v); }); CHECK(o != THREW_OTHER && (o == OK || bad), "ends_with2:" + cn, D(on[o]));
        o = run([&] { (void)cmp::validate_string(v); }); CHECK(o == OK, "validate-threw:" + cn, D(on[o]));
        if (text.find(C(0)) == std::basic_string_view<C>::npos) {
            ExactZ<C> z(v); const C* p = z.ptr();
            o = run([&] { (void)cmp::convert_string<std::u8string>(p); });
            CHECK(bad ? o != OK && o != THREW_OTHER : o == OK, "convert-pointer:" + cn, D(on[o]));
        }
    }
    ev(hash_units<C>(v), bad);
}
#if __SIZEOF_WCHAR_T__ == 2 // built with -fshort-wchar: only what concerns wide text
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(103));
    uint64_t idx = 0; auto mine = [&] { return (int)(idx++ % (uint64_t)S().nshards) == S().shard; };
    static const std::vector<int> b16{0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF};
    for (int u = 0xD700; u <= 0xE100; ++u) if (S().thorough || u % 4 == 0 || u % 1024 > 1020) {
        if (mine()) { wchar_t s[1]{(wchar_t)u}; one<wchar_t>({s, 1}, true); }
        for (int w : b16) if (mine()) { wchar_t s[3]{(wchar_t)u, (wchar_t)w, L'z'}, q[2]{(wchar_t)w, (wchar_t)u}; one<wchar_t>({s, 2}, false); one<wchar_t>({s, 3}, false); one<wchar_t>({q, 2}, false); ++counter("two_byte_wide_texts"); }
    }
    for (size_t i = 0; i < (S().thorough ? 120000u : 3000u); ++i) { one<wchar_t>(hostile<wchar_t>(r, 16), true); one<wchar_t>(bad_run<wchar_t>(r), false); ++counter("two_byte_wide_texts"); }
    one<wchar_t>({}, true);
    return done();
}
#else
int main(int argc, char** argv) {
    init(argc, argv);
    // all UTF-8 strings of 1 and 2 bytes; 3 and 4 bytes over the boundary alphabet, alone and before valid text
    static const std::vector<int> alpha{0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFD, 0xFE, 0xFF};
    uint64_t idx = 0;
    auto mine = [&] { return (int)(idx++ % (uint64_t)S().nshards) == S().shard; };
    for (int a = 0; a < 256; ++a) {
        if (mine()) { char8_t s[1]{(char8_t)a}; one<char8_t>({s, 1}, true); }
        for (int b = 0; b < 256; ++b) if (mine()) { char8_t s[2]{(char8_t)a, (char8_t)b}; one<char8_t>({s, 2}, true); ++counter("exhaustive_2_bytes"); }
    }
    for (int a : alpha) for (int b : alpha) for (int c : alpha) {
        if (mine()) { char8_t s[3]{(char8_t)a, (char8_t)b, (char8_t)c}; one<char8_t>({s, 3}, false); ++counter("exhaustive_3_bytes"); }
        for (int d : alpha) { if (!S().thorough && (a < 0xE0 || c < 0x7F)) continue; if (mine()) { char8_t s[5]{(char8_t)a, (char8_t)b, (char8_t)c, (char8_t)d, u8'z'}; one<char8_t>({s, 4}, false); if (idx % 5 == 0) one<char8_t>({s, 5}, false); ++counter("exhaustive_4_bytes"); } }
    }
    // UTF-16: every unit alone and next to boundary units
    static const std::vector<int> b16{0x41, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF};
    for (int u = 0; u < 65536; u += (S().thorough || true) ? 1 : 7) {
        bool sur = u >= 0xD700 && u <= 0xE100;
        if (!sur && u % 16) continue;
        if (mine()) { char16_t s[1]{(char16_t)u}; one<char16_t>({s, 1}, true); }
        for (int w : b16) if (mine()) { char16_t s[3]{(char16_t)u, (char16_t)w, u'z'}; one<char16_t>({s, 2}, false); one<char16_t>({s + 1, 2}, false); one<char16_t>({s, 3}, false); char16_t q[2]{(char16_t)w, (char16_t)u}; one<char16_t>({q, 2}, false); ++counter("exhaustive_16"); }
    }
    // UTF-32 / wide values
    for (uint32_t base : {0xD7F0u, 0xDFF0u, 0x10FFF0u, 0xFFF0u, 0x7FFFFFF0u, 0xFFFFFFE0u, 0x1D7F0u, 0x11D800u, 0x20D7F0u}) for (uint32_t k = 0; k < 32; ++k) if (mine()) {
        char32_t s[1]{(char32_t)(base + k)}; one<char32_t>({s, 1}, true); wchar_t w[2]{(wchar_t)(base + k), L'x'}; one<wchar_t>({w, 2}, true); }
    Rng r(shard_seed(3));
    size_t n = S().thorough ? 120000 : 5000;
    for (size_t i = 0; i < n; ++i) {
        auto a = hostile<char8_t>(r, 16); one<char8_t>(a, true); if (i < 3) sample("UTF-8 bytes " + dump_units(a));
        auto b = hostile<char16_t>(r, 16); one<char16_t>(b, true); if (i < 2) sample("UTF-16 units " + dump_units(b));
        auto c = hostile<char32_t>(r, 10); one<char32_t>(c, true);
        auto d = hostile<wchar_t>(r, 10); one<wchar_t>(d, true);
        ++counter("random_hostile_texts");
    }
    for (size_t i = 0; i < (S().thorough ? 60000u : 6000u); ++i) { one<char8_t>(bad_run<char8_t>(r), false); one<char16_t>(bad_run<char16_t>(r), false); ++counter("runs_with_bad_units"); }
    every_length([&](const U32& t) { if (t.size() > 5000) return; auto go = [&](auto s) { using C = typename decltype(s)::value_type; s += (C)(sizeof(C) == 1 ? 0xFF : 0xDC00); one<C>(s, false); s += (C)'a'; one<C>(s, false); }; go(encode<std::u8string>(t)); go(encode<std::u16string>(t)); });
    // empty text: end iterators
    one<char8_t>({}, true); one<char16_t>({}, true); one<char32_t>({}, true); one<wchar_t>({}, true);
    { cmp::by_code_point<char> e{std::string_view{}}; Out o = run([&] { char c = *e.end(); (void)c; }); CHECK(o == THREW_END, "end-deref:char", on[o]); }
    return done();
}
#endif
