#include "common.hpp"
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/by_code_point.hpp>
#include <iterator>
#include <algorithm>
#include <ranges>
using namespace h;

template <class C> void walk_case(Rng& r, const U32& t) {
    using Str = std::basic_string<C>;
    static const std::string cn = cname<C>();
    const Str src = encode<Str>(t);
    auto ex = Exact<C>::of(src);
    set_case("C02 " + cn + " text=" + dump_units(t));
    auto D = [&](const char* w) { return cn + " " + w + " text=" + dump_units(t); };
    try {
        cmp::by_code_point<C> range{ex.view()};
        // forward
        size_t i = 0;
        for (char32_t c : range) { if (i >= t.size() || c != t[i]) { fail("forward-wrong:" + cn, D("forward") + fmt(" index %zu got %X", i, (unsigned)c)); return; } ++i; }
        CHECK(i == t.size(), "forward-count:" + cn, D("forward count"));
        // reverse
        i = t.size();
        for (auto it = range.crbegin(); it != range.crend(); ++it) {
            char32_t c = *it;
            if (i == 0 || c != t[i - 1]) { fail("reverse-wrong:" + cn, D("reverse") + fmt(" index %zu got %X", i, (unsigned)c)); return; }
            --i;
        }
        CHECK(i == 0, "reverse-count:" + cn, D("reverse count"));
        auto same = [&](auto a, auto b) { return a == b && !(a != b); };
        CHECK(same(range.begin(), range.cbegin()) && same(range.end(), range.cend()), "cbegin:" + cn, D("cbegin/cend"));
        CHECK((range.begin() == range.end()) == t.empty() && (range.begin() != range.end()) == !t.empty(), "begin-end:" + cn, D("begin==end"));
        // positions reached by plain increments are the landmarks
        std::vector<typename cmp::by_code_point<C>::const_iterator> at;
        auto it = range.begin();
        for (size_t k = 0; k <= t.size(); ++k) { at.push_back(it); if (k < t.size()) { if (k % 2) ++it; else { auto old = it++; CHECK(old == at.back(), "postinc-old:" + cn, D("post ++")); } } }
        CHECK(at.back() == range.end(), "end-reached:" + cn, D("end"));
        // jumps of the whole length and of every power of two
        for (size_t k = t.size(), p = 1;; k = p, p *= 2) {
            if (k > t.size()) break;
            std::ptrdiff_t o = (std::ptrdiff_t)k; auto f = range.begin(); f += o; auto b = range.end(); b -= o; auto nf = range.begin(); nf -= -o; auto nb = range.end(); nb += -o; size_t q = t.size() - k;
            CHECK(f == at[k] && nf == at[k] && range.begin() + o == at[k] && o + range.begin() == at[k], "jump-forward:" + cn, D("forward jump") + fmt(" of %zu", k));
            CHECK(b == at[q] && nb == at[q] && range.end() - o == at[q] && o - range.end() == at[q], "jump-back:" + cn, D("backward jump") + fmt(" of %zu", k));
            ++counter("exact_jumps");
        }
        // random walk against an index
        size_t pos = r.below(t.size() + 1);
        it = at[pos];
        size_t steps = 12 + r.below(30);
        std::string trace;
        for (size_t s = 0; s < steps; ++s) {
            size_t left = t.size() - pos;
            int op = (int)r.below(13);
            size_t k;
            switch (op) {
                case 0: if (!left) continue; { auto& x = ++it; CHECK(&x == &it, "preinc-ref:" + cn, D("++")); } ++pos; trace += "++p "; break;
                case 1: if (!left) continue; { auto old = it++; CHECK(old == at[pos], "postinc-old:" + cn, D("p++")); } ++pos; trace += "p++ "; break;
                case 2: if (!pos) continue; { auto& x = --it; CHECK(&x == &it, "predec-ref:" + cn, D("--")); } --pos; trace += "--p "; break;
                case 3: if (!pos) continue; { auto old = it--; CHECK(old == at[pos], "postdec-old:" + cn, D("p--")); } --pos; trace += "p-- "; break;
                case 4: k = r.below(left + 1); it += (std::ptrdiff_t)k; pos += k; trace += fmt("+=%zu ", k); break;
                case 5: k = r.below(pos + 1); it -= (std::ptrdiff_t)k; pos -= k; trace += fmt("-=%zu ", k); break;
                case 6: k = r.below(left + 1); { auto j = it + (std::ptrdiff_t)k; CHECK(it == at[pos], "plus-changed-operand:" + cn, D("+")); it = j; } pos += k; trace += fmt("+%zu ", k); break;
                case 7: k = r.below(left + 1); it = (std::ptrdiff_t)k + it; pos += k; trace += fmt("%zu+ ", k); break;
                case 8: k = r.below(pos + 1); { auto j = it - (std::ptrdiff_t)k; CHECK(it == at[pos], "minus-changed-operand:" + cn, D("-")); it = j; } pos -= k; trace += fmt("-%zu ", k); break;
                case 9: k = r.below(pos + 1); { auto j = (std::ptrdiff_t)k - it; CHECK(it == at[pos], "minus-changed-operand:" + cn, D("k-")); it = j; } pos -= k; trace += fmt("%zu- ", k); break;
                case 10: k = r.below(pos + 1); { std::ptrdiff_t o = -(std::ptrdiff_t)k; if (r.chance(1, 2)) it += o; else if (r.chance(1, 2)) it = it + o; else it = o + it; } pos -= k; trace += fmt("+-%zu ", k); ++counter("negative_jumps"); break;
                case 11: k = r.below(left + 1); { std::ptrdiff_t o = -(std::ptrdiff_t)k; if (r.chance(1, 2)) it -= o; else it = it - o; } pos += k; trace += fmt("--%zu ", k); ++counter("negative_jumps"); break;
                default: { auto j = it; it = std::move(j); } trace += "copy "; break;
            }
            ++counter("iterator_moves");
            size_t other = r.below(t.size() + 1);
            if (!(it == at[pos]) || (it != at[pos]) || (it == at[other]) != (pos == other) || (it != at[other]) != (pos != other)) {
                fail("position-wrong:" + cn, D("walk ") + trace + fmt(" expected index %zu", pos)); return;
            }
            if (pos < t.size()) {
                char32_t c = *it;
                if (c != t[pos]) { fail("walk-value:" + cn, D("walk ") + trace + fmt(" index %zu got %X", pos, (unsigned)c)); return; }
            }
        }
        // through the standard algorithms and views
        using B = cmp::by_code_point<C>; using I = typename B::const_iterator;
        constexpr bool concepts = std::ranges::bidirectional_range<B> && std::ranges::view<B> && std::ranges::borrowed_range<B>;
        CHECK(concepts, "range-concepts:" + cn, "by_code_point is no longer a bidirectional, borrowed view");
        if constexpr (concepts) if (t.size() < 1000 && r.chance(1, 4)) {
            ++counter("standard_algorithms");
            CHECK((size_t)std::ranges::distance(range) == t.size() && (size_t)std::distance(range.begin(), range.end()) == t.size(), "algorithm-distance:" + cn, D("distance"));
            CHECK(std::ranges::equal(range, t, [](char32_t a, char32_t b) { return a == b; }), "algorithm-equal:" + cn, D("equal"));
            char32_t x = t.empty() ? U'q' : t[r.below(t.size())]; size_t first = std::min(t.find(x), t.size()); I found = std::ranges::find_if(B{ex.view()}, [&](char32_t c) { return c == x; }); CHECK(found == at[first], "algorithm-find:" + cn, D("find in a temporary range"));
            size_t k = r.below(t.size() + 1); CHECK(std::next(range.begin(), (std::ptrdiff_t)k) == at[k] && std::prev(range.end(), (std::ptrdiff_t)(t.size() - k)) == at[k] && std::ranges::next(range.begin(), (std::ptrdiff_t)t.size() + 5, range.end()) == at.back(), "algorithm-next:" + cn, D("next/prev"));
            U32 got; for (char32_t c : range | std::views::drop(k) | std::views::reverse) got += c; U32 want(t.rbegin(), t.rend() - (std::ptrdiff_t)k); CHECK(got == want, "algorithm-views:" + cn, D("drop | reverse"));
            got.clear(); std::ranges::copy(range | std::views::transform([](char32_t c) { return c; }) | std::views::take(k), std::back_inserter(got)); CHECK(got == t.substr(0, k), "algorithm-take:" + cn, D("transform | take"));
            I none{}, nothing{}; CHECK(none == nothing && !(none != nothing), "iterator-default:" + cn, "default-constructed iterators differ");
            B empty; CHECK(empty.begin() == empty.end() && empty.crbegin() == empty.crend(), "range-default:" + cn, "a default-constructed range is not empty");
        }
        // default-constructed ranges and copies
        cmp::by_code_point<C> copy{range}; cmp::by_code_point<C> asg; asg = copy;
        CHECK(asg.begin() == range.begin() && asg.end() == range.end(), "range-copy:" + cn, D("copied range"));
    } catch (const std::exception& e) {
        fail("threw-on-well-formed:" + cn, D(e.what()));
    }
}
#if __SIZEOF_WCHAR_T__ == 2 // built with -fshort-wchar: only what concerns wide text
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(102));
    static const char32_t nb[] = {U'a', 0xFFFD, 0x10000, 0x10FFFF};
    for (uint32_t c = (uint32_t)S().shard; c <= 0x10FFFF; c += (uint32_t)S().nshards * (S().thorough ? 1 : 29)) if (scalar(c)) { walk_case<wchar_t>(r, U32{nb[c % 4], (char32_t)c, nb[(c / 4) % 4]}); ev(0x210000000ull + c); ++counter("two_byte_wide_texts"); }
    for (size_t i = 0; i < (S().thorough ? 80000u : 3000u); ++i) { U32 t = gen_text(r, i % 100 == 0 ? 400 : 24); walk_case<wchar_t>(r, t); ev(hash_units<char32_t>(t, 2), t.size() > 1); ++counter("two_byte_wide_texts"); }
    for (size_t i = 0; i < (S().thorough ? 30 : 2); ++i) walk_case<wchar_t>(r, gen_long_text(r));
    return done();
}
#else
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(2));
    // every scalar once in the middle of neighbours of every length (sharded)
    static const char32_t nb[] = {U'a', 0x7FF, 0xFFFD, 0x10FFFF};
    for (uint32_t c = (uint32_t)S().shard; c <= 0x10FFFF; c += (uint32_t)S().nshards * (S().thorough ? 1 : 7)) {
        if (!scalar(c)) continue;
        U32 t{nb[c % 4], (char32_t)c, nb[(c / 4) % 4]};
        walk_case<char8_t>(r, t); walk_case<char16_t>(r, t);
        if (c % 16 == 0) { walk_case<char32_t>(r, t); walk_case<wchar_t>(r, t); }
        ev(0x200000000ull + c); ++counter("scalars_in_context");
    }
    size_t n = S().thorough ? 80000 : 6000;
    for (size_t i = 0; i < n; ++i) {
        U32 t = gen_text(r, i % 100 == 0 ? 400 : 24);
        walk_case<char8_t>(r, t); walk_case<char16_t>(r, t); walk_case<char32_t>(r, t); walk_case<wchar_t>(r, t);
        walk_case<char>(r, gen_text(r, 24, true));
        ev(hash_units<char32_t>(t), t.size() > 1); ++counter("random_texts");
        if (i < 4) sample("random walk over " + dump_units(t));
    }
    every_length([&](const U32& t) { walk_case<char8_t>(r, t); walk_case<char16_t>(r, t); walk_case<char32_t>(r, t); walk_case<wchar_t>(r, t); if (t.empty() || t.back() < 0x80) if (t.find_first_not_of(U"abcdefghijklmnopqrstuvwxyz") == U32::npos) walk_case<char>(r, t); ev(hash_units<char32_t>(t, 3)); });
    for (size_t i = 0; i < (S().thorough ? 30 : 3); ++i) { // indices and offsets longer than 16 bits
        U32 t = gen_long_text(r);
        walk_case<char8_t>(r, t); walk_case<char16_t>(r, t); walk_case<char32_t>(r, t); walk_case<wchar_t>(r, t); walk_case<char>(r, gen_long_text(r, true));
        ev(hash_units<char32_t>(t)); ++counter("long_texts");
    }
    return done();
}
#endif
