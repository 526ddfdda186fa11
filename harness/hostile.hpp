// Mutated (mostly ill-formed) texts.
#pragma once
#include "common.hpp"
namespace h {
template <class C> std::basic_string<C> hostile(Rng& r, size_t maxlen) {
    using Str = std::basic_string<C>;
    Str s = encode<Str>(gen_text(r, maxlen));
    size_t muts = 1 + r.below(3);
    for (size_t m = 0; m < muts; ++m) {
        C unit;
        if constexpr (sizeof(C) == 1) { static const std::vector<int> b{0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF, 0x9F, 0xA0, 0x8F, 0x90}; unit = (C)(r.chance(1, 3) ? (int)r.below(256) : r.pick(b)); }
        else if constexpr (sizeof(C) == 2) { unit = (C)(r.chance(1, 4) ? r.below(65536) : 0xD800 + r.below(0x800)); }
        else { static const std::vector<uint32_t> b{0xD800, 0xDFFF, 0xDC00, 0x110000, 0x110001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x1FFFFF, 0x200000, 0xD801, 0xDBFF}; unit = (C)(r.chance(1, 4) ? (uint32_t)r.next() : r.pick(b)); }
        size_t p = r.below(s.size() + 1);
        switch (r.below(4)) {
            case 0: s.insert(p, 1, unit); break;
            case 1: if (!s.empty()) s[p % s.size()] = unit; break;
            case 2: if (!s.empty()) s.erase(p % s.size(), 1); break;
            default: if (!s.empty()) s.resize(r.below(s.size())); break;
        }
    }
    return s;
}
// one or two bad units in runs of short sequences, as blockwise decoding would meet them
template <class C> std::basic_string<C> bad_run(Rng& r) {
    U32 t; size_t n = r.below(45); bool wide = r.chance(1, 4); for (size_t k = 0; k < n; ++k) t += wide && r.chance(1, 6) ? gen_scalar(r) : (char32_t)('a' + r.below(26));
    auto s = encode<std::basic_string<C>>(t);
    for (size_t m = 1 + r.below(2); m--;) { C u; if constexpr (sizeof(C) == 1) u = (C)(r.chance(1, 2) ? 0x80 + r.below(0x40) : 0xC0 + r.below(0x40)); else if constexpr (sizeof(C) == 2) u = (C)(0xD800 + r.below(0x800)); else u = (C)(r.chance(1, 2) ? 0xD800 + r.below(0x800) : 0x110000 + r.below(100)); size_t p = r.below(s.size() + 1); if (r.chance(1, 2) || s.empty()) s.insert(p, 1, u); else s[p % s.size()] = u; }
    return s;
}
} // namespace h
