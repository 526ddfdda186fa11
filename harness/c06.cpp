#include "common.hpp"
#include <cmp/unicode/examiners.hpp>
using namespace h;
static bool ref_white(uint64_t c) { return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000; }
static int ref_digit(uint64_t c) { if (c >= '0' && c <= '9') return (int)(c - '0'); if (c >= 'a' && c <= 'z') return (int)(c - 'a' + 10); if (c >= 'A' && c <= 'Z') return (int)(c - 'A' + 10); return 99; }
static void cp(uint32_t c, bool all_radices) {
    auto D = [&](const char* w) { return fmt("%s of U+%X", w, c); };
    CHECK(cmp::fits_in_7_bits((char32_t)c) == (c < 128), "fits_in_7_bits", D("fits_in_7_bits"));
    CHECK(cmp::is_code_point_valid((char32_t)c) == scalar(c), "is_code_point_valid", D("is_code_point_valid"));
    CHECK(cmp::is_whitespace((char32_t)c) == ref_white(c), "is_whitespace", D("is_whitespace"));
    int d = ref_digit(c);
    for (unsigned radix = 2; radix <= 36; radix += all_radices ? 1 : 17) CHECK(cmp::is_radix_digit((char32_t)c, radix) == (d < (int)radix), "is_radix_digit", D("is_radix_digit") + fmt(" radix %u", radix));
    counter("code_points")++; ev(c);
}
int main(int argc, char** argv) {
    init(argc, argv);
    S().distinct_cap = 1000000;
    set_case("C06");
    if (S().shard == 0) {
        for (unsigned b = 0; b < 256; ++b) {
            auto D = [&] { return fmt("byte %02X", b); };
            CHECK(cmp::is_standalone_byte((char8_t)b) == (b < 0x80), "is_standalone_byte", D());
            CHECK(cmp::is_leading_byte((char8_t)b) == (b >= 0xC0 && b <= 0xF7), "is_leading_byte", D());
            CHECK(cmp::is_trailing_byte((char8_t)b) == (b >= 0x80 && b <= 0xBF), "is_trailing_byte", D());
            ++counter("bytes");
        }
        for (unsigned u = 0; u < 65536; ++u) {
            auto D = [&] { return fmt("unit %04X", u); };
            CHECK(cmp::is_leading_surrogate((char16_t)u) == (u >= 0xD800 && u <= 0xDBFF), "is_leading_surrogate", D());
            CHECK(cmp::is_trailing_surrogate((char16_t)u) == (u >= 0xDC00 && u <= 0xDFFF), "is_trailing_surrogate", D());
            CHECK(cmp::is_surrogate((char16_t)u) == (u >= 0xD800 && u <= 0xDFFF), "is_surrogate", D());
            ++counter("units");
        }
    }
    sample("all 256 bytes, all 65536 units, all code points up to 0x120000 plus values aliasing them modulo 2^8, 2^16 and 2^24, all radices 2..36");
    uint32_t n = (uint32_t)S().nshards;
    for (uint32_t c = (uint32_t)S().shard; c < 0x120000; c += n) cp(c, c < 0x3000 || c % 64 == 7);
    // values whose low bits look like members of the sets
    for (uint32_t low : {9u, 10u, 13u, 32u, 133u, 160u, 0x1680u, 0x2003u, 0x2028u, 0x3000u, 0x30u, 0x39u, 0x41u, 0x5Au, 0x61u, 0x7Au, 0xD7FFu, 0xD800u, 0xDFFFu, 0xE000u})
        for (uint32_t k = (uint32_t)S().shard; k < 0x10000; k += n) { cp(low + (k << 16), false); if (low < 256) cp(low + (k << 8), k % 16 == 0); }
    Rng r(shard_seed(6));
    size_t m = S().thorough ? 20000000 : 300000;
    for (size_t i = 0; i < m; ++i) cp((uint32_t)r.next() >> r.below(12), i % 64 == 0);
    return done();
}
