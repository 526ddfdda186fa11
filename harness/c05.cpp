#include "common.hpp"
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/exceptions.hpp>
#include "hugemem.hpp"
using namespace h;
static bool is_ascii(const U32& t) { for (char32_t c : t) if (c > 0x7F) return false; return true; }
template <class C, class Str> void sizes(const U32& t) {
    Str s = encode<Str>(t); auto ex = Exact<C>::of(s); auto v = ex.view();
    std::string cn = cname<C>(); auto D = [&] { return cn + " text=" + dump_units(t); };
    CHECK(cmp::string_size(s) == s.size(), "string_size:" + cn, D()); CHECK(cmp::string_size(v) == s.size(), "string_size-view:" + cn, D());
    if (t.find(U'\0') == U32::npos) { ExactZ<C> z(v); const C* p = z.ptr(); CHECK(cmp::string_size(p) == s.size(), "string_size-pointer:" + cn, D()); }
    ++counter("string_sizes");
}
template <class A, class B> void cmp2(const U32& t, const U32& sub, bool ptrs) {
    using CA = typename A::value_type; using CB = typename B::value_type;
    A a = encode<A>(t); B b = encode<B>(sub);
    std::string what = std::string(cname<CA>()) + "/" + cname<CB>();
    set_case("C05 " + what + " content=" + dump_units(t) + " sub=" + dump_units(sub));
    bool sw = t.size() >= sub.size() && t.compare(0, sub.size(), sub) == 0;
    bool ew = t.size() >= sub.size() && t.compare(t.size() - sub.size(), sub.size(), sub) == 0;
    auto D = [&](const char* k) { return what + " " + k + " content=" + dump_units(t) + " substring=" + dump_units(sub); };
    try {
        auto ea = Exact<CA>::of(a); auto eb = Exact<CB>::of(b);
        CHECK(cmp::starts_with(ea.view(), eb.view()) == sw, "starts_with:" + what, D(sw ? "expected true" : "expected false"));
        CHECK(cmp::ends_with(ea.view(), eb.view()) == ew, "ends_with:" + what, D(ew ? "expected true" : "expected false"));
        counter("starts_true") += sw; counter("ends_true") += ew; counter("starts_false") += !sw; counter("ends_false") += !ew;
        if (ptrs) {
            CHECK(cmp::starts_with(a, b) == sw && cmp::starts_with(a, eb.view()) == sw && cmp::starts_with(ea.view(), b) == sw, "starts_with-objects:" + what, D(""));
            CHECK(cmp::ends_with(a, b) == ew && cmp::ends_with(a, eb.view()) == ew && cmp::ends_with(ea.view(), b) == ew, "ends_with-objects:" + what, D(""));
            if (t.find(U'\0') == U32::npos && sub.find(U'\0') == U32::npos) {
                ExactZ<CA> za(ea.view()); ExactZ<CB> zb(eb.view()); const CA* pa = za.ptr(); const CB* pb = zb.ptr();
                CHECK(cmp::starts_with(pa, pb) == sw && cmp::ends_with(pa, pb) == ew, "pointer-objects:" + what, D(""));
                if (a.size() < 20 && b.size() < 20) { // arrays count up to their null character, whatever follows it
                    CA aa[24]; CB ab[24]; std::fill_n(aa, 24, (CA)'#'); std::fill_n(ab, 24, (CB)'#'); std::copy(a.begin(), a.end(), aa); aa[a.size()] = 0; std::copy(b.begin(), b.end(), ab); ab[b.size()] = 0; const CA(&ca)[24] = aa; const CB(&cb)[24] = ab;
                    CHECK(cmp::starts_with(aa, ab) == sw && cmp::ends_with(aa, ab) == ew && cmp::starts_with(ca, cb) == sw && cmp::ends_with(ca, cb) == ew, "array-objects:" + what, D(""));
                    CHECK(cmp::string_size(aa) == a.size() && cmp::string_size(cb) == b.size(), "string_size-array:" + what, D("")); ++counter("arrays");
                }
            }
        }
    } catch (const std::exception& e) { fail("threw:" + what, D(e.what())); }
}
template <class A> void cmp1(const U32& t, const U32& sub, bool p) {
    if (is_ascii(sub)) cmp2<A, std::string>(t, sub, p);
    cmp2<A, std::u8string>(t, sub, p); cmp2<A, std::u16string>(t, sub, p); cmp2<A, std::u32string>(t, sub, p); cmp2<A, std::wstring>(t, sub, p);
}
void compare_all(const U32& t, const U32& sub, bool p) {
    if (is_ascii(t)) cmp1<std::string>(t, sub, p);
    cmp1<std::u8string>(t, sub, p); cmp1<std::u16string>(t, sub, p); cmp1<std::u32string>(t, sub, p); cmp1<std::wstring>(t, sub, p);
    ev(hash_units<char32_t>(t, hash_units<char32_t>(sub)), !sub.empty() && !t.empty());
}
template <class A> void insertions(const U32& t, size_t pos, char32_t cp) {
    std::string cn = cname<typename A::value_type>();
    set_case("C05 insert " + cn + fmt(" cp=%X pos=%zu text=", (unsigned)cp, pos) + dump_units(t));
    auto D = [&](const A& got) { return cn + fmt(" cp=%X pos=%zu text=", (unsigned)cp, pos) + dump_units(t) + " got=" + dump_units(got); };
    A pre = encode<A>(t.substr(0, pos)), post = encode<A>(t.substr(pos)), one; const A base = pre + post;
    bool valid = scalar(cp);
    bool validated = sizeof(typename A::value_type) < 4 && !std::is_same_v<A, std::string>;
    if (!valid && !validated) return;
    if (valid) enc(one, cp);
    auto go = [&](const char* op, const A& want, auto f) {
        A s = base; bool threw = false;
        try { f(s); } catch (const cmp::invalid_code_point&) { threw = true; } catch (const std::exception& e) { fail(std::string(op) + "-threw:" + cn, D(s) + e.what()); return; }
        if (valid) { CHECK(!threw, std::string(op) + "-rejected-valid:" + cn, D(s)); CHECK(s == want, std::string(op) + "-wrong:" + cn, D(s)); }
        else { CHECK(threw, std::string(op) + "-accepted-invalid:" + cn, D(s)); CHECK(s == base, std::string(op) + "-changed-on-throw:" + cn, D(s)); ++counter("invalid_rejected"); }
        ++counter("insertions");
    };
    go("insert", pre + one + post, [&](A& s) { cmp::insert_code_point(s, cp, pre.size()); });
    go("append", base + one, [&](A& s) { cmp::append_code_point(s, cp); });
    go("prepend", one + base, [&](A& s) { cmp::prepend_code_point(s, cp); });
}
#if __SIZEOF_WCHAR_T__ == 2 // built with -fshort-wchar: only what concerns wide text
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(105));
    for (uint32_t c = (uint32_t)S().shard; c < 0x118000; c += (uint32_t)S().nshards * (S().thorough ? 1 : 13)) { U32 t = gen_text(r, 4); insertions<std::wstring>(t, r.below(t.size() + 1), (char32_t)c); ev(0x710000000ull + c); }
    for (uint32_t base : {0u, 0x780u, 0xD780u, 0xDF80u, 0xFF80u, 0x10FF80u, 0x11D780u, 0x7FFFFF80u, 0x8000FFC0u, 0xFFFFFF00u, 0x1D780u, 0xFFFFD780u}) for (uint32_t k = (uint32_t)S().shard; k < 0x100; k += (uint32_t)S().nshards) {
        U32 t = gen_text(r, 6); insertions<std::wstring>(t, r.below(t.size() + 1), (char32_t)(base + k)); ev(0x910000000ull + base + k); }
    for (size_t i = 0; i < (S().thorough ? 60000u : 3000u); ++i) {
        U32 t = gen_text(r, i % 100 == 0 ? 400 : 20, r.chance(1, 5)), sub = r.chance(1, 2) ? t.substr(0, r.below(t.size() + 1)) : t.substr(r.below(t.size() + 1));
        if (r.chance(1, 2) && !sub.empty()) { auto& c = sub[r.below(sub.size())]; char32_t d = c ^ (char32_t)(1u << r.below(20)); if (scalar(d)) c = d; }
        cmp1<std::wstring>(t, sub, i % 4 == 0); if (is_ascii(t)) cmp2<std::string, std::wstring>(t, sub, false);
        cmp2<std::u8string, std::wstring>(t, sub, false); cmp2<std::u16string, std::wstring>(t, sub, false); cmp2<std::u32string, std::wstring>(t, sub, false);
        sizes<wchar_t, std::wstring>(t); ev(hash_units<char32_t>(t, hash_units<char32_t>(sub, 2)), !sub.empty() && !t.empty()); ++counter("two_byte_wide_texts");
    }
    return done();
}
#else
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(5));
    // every code point and a margin of invalid ones, appended in every encoding
    for (uint32_t c = (uint32_t)S().shard; c < 0x118000; c += (uint32_t)S().nshards * (S().thorough ? 1 : 3)) {
        char32_t cp = (char32_t)c; U32 t = gen_text(r, 4); size_t pos = r.below(t.size() + 1);
        insertions<std::u8string>(t, pos, cp); insertions<std::u16string>(t, pos, cp); insertions<std::u32string>(t, pos, cp); insertions<std::wstring>(t, pos, cp);
        ev(0x700000000ull + c);
    }
    for (uint32_t base : {0u, 0x780u, 0xD780u, 0xDF80u, 0xFF80u, 0x10FF80u, 0x11D780u, 0x7FFFFF80u, 0x8000FFC0u, 0xFFFFFF00u, 0x1D780u, 0xFFFFD780u}) for (uint32_t k = (uint32_t)S().shard; k < 0x100; k += (uint32_t)S().nshards) {
        U32 t = gen_text(r, 6); size_t pos = r.below(t.size() + 1);
        insertions<std::u8string>(t, pos, (char32_t)(base + k)); insertions<std::u16string>(t, pos, (char32_t)(base + k));
        if (base == 0 && k < 0x80) { U32 a = gen_text(r, 6, true); insertions<std::string>(a, r.below(a.size() + 1), (char32_t)k); }
        ev(0x900000000ull + base + k);
    }
    size_t n = S().thorough ? 100000 : 8000;
    for (size_t i = 0; i < n; ++i) {
        U32 t = gen_text(r, i % 100 == 0 ? 400 : 20, r.chance(1, 5)), sub;
        if (r.chance(1, 5)) { // few distinct characters: repeated patterns
            for (char32_t& c : t) { static const std::vector<char32_t> few{U'a', U'b', 0x101, 0x20AC, 0x1F600, 0x1D800}; c = r.pick(few); }
        }
        switch (r.below(9)) {
            case 0: sub = gen_text(r, 5); break;
            case 1: sub = t; break;
            case 2: sub = t.substr(0, r.below(t.size() + 1)); break;
            case 3: sub = t.substr(r.below(t.size() + 1)); break;
            case 4: sub = t + gen_text(r, 2); break;
            case 5: sub = gen_text(r, 2) + t; break;
            case 6: { sub = t.substr(0, r.below(t.size() + 1)); if (!sub.empty()) sub[r.below(sub.size())] = gen_scalar(r); break; }
            case 7: { sub = t.substr(r.below(t.size() + 1)); if (!sub.empty()) sub[r.below(sub.size())] = gen_scalar(r); break; }
            default: { // near miss: one code point differs only in its high or low bits
                sub = r.chance(1, 2) ? t.substr(0, r.below(t.size() + 1)) : t.substr(r.below(t.size() + 1));
                if (!sub.empty()) { auto& c = sub[r.below(sub.size())]; char32_t d = c ^ (char32_t)(r.chance(1, 2) ? 0x10000 << r.below(4) : 1u << r.below(16)); if (scalar(d)) c = d; } }
        }
        compare_all(t, sub, i % 4 == 0);
        if (is_ascii(t)) sizes<char, std::string>(t);
        sizes<char8_t, std::u8string>(t); sizes<char16_t, std::u16string>(t); sizes<char32_t, std::u32string>(t); sizes<wchar_t, std::wstring>(t);
        if (i < 3) sample("content=" + dump_units(t) + " substring=" + dump_units(sub));
    }
    every_length([&](const U32& t) {
        if (is_ascii(t)) sizes<char, std::string>(t);
        sizes<char8_t, std::u8string>(t); sizes<char16_t, std::u16string>(t); sizes<char32_t, std::u32string>(t); sizes<wchar_t, std::wstring>(t);
        if (t.size() > 5000) return;
        compare_all(t, t, false); compare_all(t, t + U'x', false); compare_all(t, U'x' + t, false); if (!t.empty()) { compare_all(t, t.substr(1), false); compare_all(t, t.substr(0, t.size() - 1), false); }
        size_t pos = t.size() - std::min<size_t>(t.size(), t.size() % 3); insertions<std::u8string>(t, pos, 0x20AC); insertions<std::u16string>(t, pos, 0x1F600); insertions<std::u32string>(t, pos, 0x1F600); insertions<std::wstring>(t, pos, 0x3B1);
    });
    for (size_t i = 0; i < (S().thorough ? 20 : 2); ++i) { // longer than 16-bit counts
        U32 t = gen_long_text(r, r.chance(1, 5), r.chance(1, 2)), sub = r.chance(1, 2) ? t.substr(0, t.size() - r.below(30)) : t.substr(r.below(30));
        if (r.chance(1, 2)) { size_t p = sub.size() - 1 - r.below(20); char32_t d = sub[p] ^ 1; if (scalar(d)) sub[p] = d; }
        compare_all(t, sub, true); compare_all(t, t.substr(t.size() - 5), true);
        if (is_ascii(t)) sizes<char, std::string>(t);
        sizes<char8_t, std::u8string>(t); sizes<char16_t, std::u16string>(t); sizes<char32_t, std::u32string>(t); sizes<wchar_t, std::wstring>(t);
        for (int k = 0; k < 3; ++k) { size_t pos = t.size() - r.below(30); char32_t c = gen_scalar(r); insertions<std::u8string>(t, pos, c); insertions<std::u16string>(t, pos, c); insertions<std::u32string>(t, pos, c); insertions<std::wstring>(t, pos, c); }
        ++counter("long_texts");
    }
    if (S().shard == 0) { Huge mem; if (mem.p) { set_case("C05 string_size of huge views"); auto go = [&](auto c) { using C = decltype(c); for (size_t n : {(size_t)0x7FFFFFFF, (size_t)0x80000001, (size_t)0xFFFFFFFF, (size_t)0x100000003}) if (n * sizeof(C) <= Huge::size) { std::basic_string_view<C> v((const C*)mem.p, n); CHECK(cmp::string_size(v) == n, std::string("string_size-huge-view:") + cname<C>(), fmt("0x%zX units", n)); ++counter("huge_views"); } }; go(char()); go(char8_t()); go(char16_t()); go(char32_t()); go(wchar_t()); } }
    return done();
}
#endif
