// A deterministic workload over the core, unicode and io packages whose observations are folded into digests,
// one per section. Everything it touches is its own, except the constant data in Shared. No random numbers are
// drawn inside argument lists, so that every compiler produces the same run.
#pragma once
#include "fsutil.hpp"
#include "hostile.hpp"
#include <algorithm>
#include <bit>
#include <limits>
#include <cmp/core/application.hpp>
#include <cmp/core/general.hpp>
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/by_code_point.hpp>
#include <cmp/unicode/constants.hpp>
#include <cmp/unicode/examiners.hpp>
#include <cmp/unicode/formats.hpp>
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/io/file.hpp>
#include <cmp/io/general.hpp>
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/text_input_stream.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/io/text_output_stream.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <cmp/io/output_stream.hpp>
#include <cmp/io/exceptions.hpp>
#include <cmp/unicode/exceptions.hpp>
namespace w {
using namespace h;
struct Acc {
    uint64_t v = 1469598103934665603ull, n = 0;
    void raw(const void* p, size_t k) { v = mix64(hash_bytes(p, k, v) + k); ++n; }
    void num(uint64_t x) { v = mix64(v ^ mix64(x)); ++n; }
    template <class C> void str(const std::basic_string<C>& s) { num(s.size() * 8 + sizeof(C)); if (!s.empty()) raw(s.data(), s.size() * sizeof(C)); }
    void exc(const std::exception& e) {
        uint64_t k = dynamic_cast<const cmp::parse_failed*>(&e) ? 100 + (uint64_t)dynamic_cast<const cmp::parse_failed*>(&e)->get_type()
            : dynamic_cast<const cmp::invalid_unicode_encoding*>(&e) ? 2 : dynamic_cast<const cmp::iterated_past_end*>(&e) ? 3 : dynamic_cast<const cmp::invalid_code_point*>(&e) ? 4
            : dynamic_cast<const cmp::read_past_end*>(&e) ? 5 : dynamic_cast<const cmp::invalid_access_mode*>(&e) ? 6 : dynamic_cast<const cmp::invalid_radix*>(&e) ? 7 : 1;
        num(0xE0000 + k); str(std::string(e.what()));
    }
};
#define GUARD(a, ...) try { __VA_ARGS__; } catch (const std::exception& e_) { (a).exc(e_); }
struct Shared { // constant data every thread may look at
    std::u8string t8; std::u16string t16; std::u32string t32; std::string ta;
    cmp::integer_format inf{16, cmp::sign_status::always_show, cmp::thousands_separator::comma};
    cmp::floating_point_format flf{10, cmp::sign_status::only_when_negative, cmp::thousands_separator::comma, cmp::radix_character::period, cmp::radix_place_limit::up_to, 5};
    cmp::bool_format bof{u8"yes", u8"no"};
    cmp::by_code_point<char8_t> range8{std::u8string_view{}}; cmp::by_code_point<char16_t> range16{std::u16string_view{}};
    cmp::opaque_container_input_resource<std::u8string> res{std::u8string(u8"constant content"), 8};
    explicit Shared(uint64_t seed) { Rng r(seed); U32 t = gen_text(r, 200); t += U"tail\u00e9\U0001F600"; t8 = encode<std::u8string>(t); t16 = encode<std::u16string>(t); t32 = t; ta = "ascii text to share 12345"; range8 = cmp::by_code_point<char8_t>{std::u8string_view(t8)}; range16 = cmp::by_code_point<char16_t>{std::u16string_view(t16)}; }
};
struct Env { std::string path; const Shared* sh; };
constexpr int kSections = 17;
inline const char* section_name(int k) { static const char* n[] = {"convert", "iterate", "strings", "integers", "floating_point", "formats", "file", "containers", "data_streams", "text_output", "text_input", "core", "examiners", "resources", "text_forms", "separators", "jumps"}; return n[k]; }

template <class C> void conv(Acc& a, const std::basic_string<C>& s) {
    std::basic_string_view<C> v(s);
    GUARD(a, a.str(cmp::convert_string<std::u8string>(v))) GUARD(a, a.str(cmp::convert_string<std::u16string>(s))) GUARD(a, a.str(cmp::to_u32string(v))) GUARD(a, a.str(cmp::to_wstring(s)))
    if constexpr (!std::is_same_v<C, char>) { auto it = cmp::validate_string(v); size_t k = 0; cmp::by_code_point<C> range{v}; for (auto b = range.begin(); b != it && k < v.size(); ++b) ++k; a.num(k); }
}
inline void s_convert(Acc& a, Rng& r, const Env& e) {
    U32 t = gen_text(r, 60); conv(a, encode<std::u8string>(t)); conv(a, encode<std::u16string>(t)); conv(a, t); conv(a, encode<std::wstring>(t)); U32 t2 = gen_text(r, 40, true); conv(a, encode<std::string>(t2)); GUARD(a, a.str(cmp::to_string(t2)))
    conv(a, hostile<char8_t>(r, 20)); conv(a, hostile<char16_t>(r, 20)); conv(a, hostile<char32_t>(r, 20));
    GUARD(a, a.str(cmp::to_u16string(e.sh->t8))) GUARD(a, a.str(cmp::to_u8string(e.sh->t32)))
}
template <class C> void walk(Acc& a, Rng& r, std::basic_string_view<C> v, size_t n) {
    GUARD(a, { cmp::by_code_point<C> range{v}; for (char32_t c : range) a.num(c); })
    GUARD(a, { cmp::by_code_point<C> range{v}; auto it = range.begin(); size_t p = 0;
        for (int k = 0; k < 30 && n; ++k) { size_t q = r.below(n); if (q > p) it += (long)(q - p); else if (q < p) it -= (long)(p - q); p = q; a.num(*it); a.num(it == range.begin()); if (r.chance(1, 3)) { ++it; --it; } } })
}
inline void s_iterate(Acc& a, Rng& r, const Env& e) {
    U32 t = gen_text(r, 60); auto a8 = encode<std::u8string>(t); auto a16 = encode<std::u16string>(t); auto aw = encode<std::wstring>(t);
    walk<char8_t>(a, r, a8, t.size()); walk<char16_t>(a, r, a16, t.size()); walk<char32_t>(a, r, t, t.size()); walk<wchar_t>(a, r, aw, t.size());
    auto h8 = hostile<char8_t>(r, 30); walk<char8_t>(a, r, h8, 0); auto h16 = hostile<char16_t>(r, 30); walk<char16_t>(a, r, h16, 0);
    for (char32_t c : e.sh->range8) a.num(c); for (auto it = e.sh->range16.crbegin(); it != e.sh->range16.crend(); ++it) a.num(*it);
}
inline void s_strings(Acc& a, Rng& r, const Env& e) {
    U32 t = gen_text(r, 30); size_t k = r.below(t.size() + 1); U32 pre = t.substr(0, k), post = t.substr(k);
    if (r.chance(1, 4) && !pre.empty()) pre.back() = gen_scalar(r);
    auto t8 = encode<std::u8string>(t); auto t16 = encode<std::u16string>(t);
    a.num(cmp::starts_with(t8, encode<std::u16string>(pre))); a.num(cmp::starts_with(t16, encode<std::u8string>(pre))); a.num(cmp::ends_with(t8, post)); a.num(cmp::ends_with(t16, encode<std::wstring>(post))); a.num(cmp::string_size(t8)); a.num(cmp::starts_with(e.sh->t8, e.sh->t16)); a.num(cmp::ends_with(e.sh->t16, e.sh->t32));
    for (int i = 0; i < 4; ++i) { char32_t c = r.chance(1, 6) ? (char32_t)(0xD800 + r.below(0x1000)) : gen_scalar(r); size_t units8 = encode<std::u8string>(pre).size(); 
        std::u8string x8 = t8; GUARD(a, cmp::append_code_point(x8, c)) if (t.compare(0, pre.size(), pre) == 0) GUARD(a, cmp::insert_code_point(x8, c, units8)) a.str(x8);
        std::u16string x16 = t16; GUARD(a, cmp::prepend_code_point(x16, c)) a.str(x16); std::u32string x32 = t; GUARD(a, cmp::append_code_point(x32, gen_scalar(r))) a.str(x32); }
}
template <class T> void ints(Acc& a, Rng& r, const Env& e) {
    uint64_t bits = r.next() >> r.below(64); T v = (T)bits; if (r.chance(1, 8)) v = std::numeric_limits<T>::min(); if (r.chance(1, 8)) v = std::numeric_limits<T>::max();
    unsigned radix = 2 + (unsigned)r.below(35); auto ss = (cmp::sign_status)r.below(2); auto ts = (cmp::thousands_separator)r.below(3); cmp::integer_format f{radix, ss, ts};
    auto s = cmp::format_integer<std::u8string>(v, f); a.str(s); a.str(cmp::format_integer<std::u16string>(v, e.sh->inf));
    GUARD(a, a.num((uint64_t)cmp::parse_integer<T>(s, f)))
    if (!s.empty()) { size_t p = r.below(s.size()); static const char8_t repl[] = u8"+-,. 09azAZ_"; s[p] = repl[r.below(12)]; } GUARD(a, a.num((uint64_t)cmp::parse_integer<T>(s, f)))
    std::u16string d16 = encode<std::u16string>(U32(s.begin(), s.end())); GUARD(a, a.num((uint64_t)cmp::parse_integer<T>(d16, e.sh->inf)))
}
inline void s_integers(Acc& a, Rng& r, const Env& e) { ints<signed char>(a, r, e); ints<unsigned short>(a, r, e); ints<int>(a, r, e); ints<unsigned>(a, r, e); ints<long long>(a, r, e); ints<unsigned long long>(a, r, e); }
template <class T> void fps(Acc& a, Rng& r, const Env& e) {
    int64_t k = (int64_t)(r.next() >> (20 + r.below(40))); int m = (int)r.below(24); T v = (T)k / (T)(1ll << m); if (r.chance(1, 2)) v = -v; // exact in every type's range of interest
    static const unsigned radices[] = {2, 4, 8, 10, 16, 32}; unsigned radix = radices[r.below(6)]; auto ss = (cmp::sign_status)r.below(2); auto pl = (cmp::radix_place_limit)r.below(3); unsigned cnt = 1 + (unsigned)r.below(8);
    cmp::floating_point_format f{radix, ss, cmp::thousands_separator::none, cmp::radix_character::period, pl, cnt};
    auto s = cmp::format_floating_point<std::u8string>(v, f); a.str(s); a.str(cmp::format_floating_point<std::u32string>(v, e.sh->flf));
    auto val = [&](T x) { char b[64]; snprintf(b, sizeof b, "%La", (long double)x); a.str(std::string(b)); };
    GUARD(a, val(cmp::parse_floating_point<T>(s, f)))
    if (!s.empty()) { size_t p = r.below(s.size()); static const char8_t repl[] = u8"+-,. 01azAZ_"; s[p] = repl[r.below(12)]; } GUARD(a, val(cmp::parse_floating_point<T>(s, f)))
}
inline void s_fp(Acc& a, Rng& r, const Env& e) { fps<double>(a, r, e); fps<float>(a, r, e); fps<long double>(a, r, e); }
inline void s_formats(Acc& a, Rng& r, const Env& e) {
    auto t = encode<std::u8string>(gen_text(r, 10)); auto f = encode<std::u8string>(gen_text(r, 10)); cmp::bool_format b{t, f}; bool v = r.chance(1, 2);
    auto s = cmp::format_bool<std::u16string>(v, b); a.str(s); GUARD(a, a.num(cmp::parse_bool(s, b))) GUARD(a, a.num(cmp::parse_bool(f, e.sh->bof))) a.str(cmp::format_bool<std::u8string>(v, e.sh->bof));
    cmp::bool_format c{b}; c.set_true_string(u8"T"); a.str(std::u8string(b.get_true_string())); a.str(std::u8string(c.get_true_string())); a.str(std::u8string(e.sh->bof.get_false_string()));
    GUARD(a, cmp::integer_format q((unsigned)r.below(40), cmp::sign_status::always_show, cmp::thousands_separator::period); a.num(q.get_radix()))
    a.num(e.sh->inf.get_radix()); a.num(e.sh->flf.get_radix_place_count());
}
template <class R> void history(Acc& a, Rng& r, R& f, int ops) {
    std::byte buf[300];
    for (int i = 0; i < ops; ++i) switch (r.below(7)) {
        case 0: case 1: { size_t n = r.below(r.chance(1, 5) ? 300 : 20); if constexpr (requires { f.write(buf, n); }) { for (size_t k = 0; k < n; ++k) buf[k] = (std::byte)r.next(); GUARD(a, a.num((uint64_t)f.write(buf, n))) } break; }
        case 2: case 3: { size_t n = r.below(r.chance(1, 5) ? 300 : 20); if constexpr (requires { f.read(buf, n); }) GUARD(a, { size_t g = f.read(buf, n); a.num(g); a.raw(buf, std::min(g, sizeof buf)); }) break; }
        case 4: { int64_t o = r.range(-40, 60); auto ref = (cmp::position_reference)r.below(3); GUARD(a, f.set_position(o, ref)) a.num((uint64_t)f.get_position()); break; }
        case 5: a.num((uint64_t)f.get_position()); break;
        default: if constexpr (requires { f.flush(); }) f.flush(); if constexpr (requires { f.is_at_end(); }) GUARD(a, a.num(f.is_at_end()))
    }
}
inline void add_file(Acc& a, const std::string& p) { auto v = slurp(p.c_str()); a.num(v.size()); if (!v.empty()) a.raw(v.data(), v.size()); }
inline void s_file(Acc& a, Rng& r, const Env& e) {
    std::string p = e.path + "f1", q = e.path + "f2"; std::vector<uint8_t> init(r.below(200)); for (auto& b : init) b = (uint8_t)r.next(); put(p.c_str(), init); ::unlink(q.c_str());
    static const size_t caps[] = {0, 1, 7, 64, 1024}; size_t c1 = caps[r.below(5)], c2 = caps[r.below(5)];
    { cmp::file f{p, cmp::access_mode::read_and_write, cmp::if_not_there::fail, c1}, g{q, cmp::access_mode::read_and_write, cmp::if_not_there::create, c2}; cmp::file d{p, cmp::access_mode::read_only, cmp::if_not_there::fail};
      a.num(f.is_open()); history(a, r, f, 12); history(a, r, g, 12); history(a, r, f, 6); cmp::file m{std::move(g)}; a.num(m.is_open()); history(a, r, m, 5); f.close(); a.num(f.is_open()); history(a, r, d, 5);
      std::byte b[4]{}; GUARD(a, a.num(d.write(b, 4))) }
    add_file(a, p); add_file(a, q); ::unlink(p.c_str()); ::unlink(q.c_str());
    GUARD(a, { cmp::file n{e.path + "missing", cmp::access_mode::read_only, cmp::if_not_there::fail}; a.num(n.is_open()); })
}
inline void s_containers(Acc& a, Rng& r, const Env& e) {
    std::vector<uint32_t> c(r.below(40)); for (auto& x : c) x = (uint32_t)r.next(); std::u8string t(r.below(60), u8'x'); static const size_t caps[] = {0, 1, 3, 16, 512}; size_t cap = caps[r.below(5)];
    { cmp::opaque_container_io_resource<std::vector<uint32_t>> o{c, cap}; history(a, r, o, 12); auto o2{o}; history(a, r, o2, 6); history(a, r, o, 6); o.flush(); o2.flush(); auto d = o.grab_content(); a.num(d.size()); if (!d.empty()) a.raw(d.data(), d.size() * 4); auto d2 = o2.grab_content(); a.num(d2.size()); if (!d2.empty()) a.raw(d2.data(), d2.size() * 4); }
    { cmp::transparent_container_io_resource<std::u8string> o{t, cap}; history(a, r, o, 12); o.flush(); } a.str(t);
    { cmp::transparent_container_input_resource<std::u8string> o{t, cap}; history(a, r, o, 8); } { std::u8string z; { cmp::opaque_container_output_resource<std::u8string> o{t, cap}; history(a, r, o, 8); o.flush(); z = o.grab_content(); } a.str(z); }
    cmp::opaque_container_input_resource<std::u8string> mine{e.sh->res}; history(a, r, mine, 6);
}
inline void s_data(Acc& a, Rng& r, const Env& e) {
    std::string p = e.path + "data"; put(p.c_str(), {}); std::endian en = r.chance(1, 2) ? std::endian::big : std::endian::little; int64_t x = (int64_t)r.next(); uint16_t y = (uint16_t)r.next(); double z = (double)(int32_t)r.next() / 8; uint8_t w8 = (uint8_t)r.next(); static const size_t caps[] = {0, 1, 5, 1024}; size_t cap = caps[r.below(4)];
    { cmp::file f{p, cmp::access_mode::write_only, cmp::if_not_there::fail, cap}; cmp::data_output_stream s{f, en}; s << x << y << z << w8; s.set_endianness(cmp::get_opposite_endianness(en)); s << y << x; s.flush(); }
    add_file(a, p);
    { cmp::file f{p, cmp::access_mode::read_only, cmp::if_not_there::fail, cap}; cmp::data_input_stream s{f, en}; int64_t x2 = 0; uint16_t y2 = 0; double z2 = 0; uint8_t w2 = 0; GUARD(a, { s >> x2 >> y2 >> z2 >> w2; a.num((uint64_t)x2); a.num(y2); a.raw(&z2, 8); a.num(w2); for (;;) { s >> y2; a.num(y2); } }) a.num(s.is_at_end()); }
    ::unlink(p.c_str());
}
inline void s_text_out(Acc& a, Rng& r, const Env& e) {
    std::u8string c; static const size_t caps[] = {0, 1, 5, 1024}; size_t cap = caps[r.below(4)]; auto ef = (cmp::encoding_form)r.below(3); std::endian en = r.chance(1, 2) ? std::endian::big : std::endian::little;
    { cmp::transparent_container_output_resource<std::u8string> o{c, cap}; cmp::text_output_stream s{o, ef, en}; s.write_bom();
      for (int i = 0; i < 8; ++i) switch (r.below(6)) { case 0: s << encode<std::u16string>(gen_text(r, 20)); break; case 1: s << gen_scalar(r); break; case 2: s << (int64_t)r.next() << ' ' << (uint16_t)r.next(); break; case 3: s << (double)(int32_t)r.next() / 16; break; case 4: s << e.sh->t8 << true; break; default: s.set_endianness(cmp::get_opposite_endianness(s.get_endianness())); }
      s.flush(); }
    a.str(c);
    std::string p = e.path + "text"; put(p.c_str(), {}); { cmp::file f{p, cmp::access_mode::write_only, cmp::if_not_there::create}; cmp::text_output_stream s{f, cmp::encoding_form::utf8}; s << e.sh->t16 << u8"\n" << 12345 << cmp::flush; } add_file(a, p); ::unlink(p.c_str());
}
inline void s_text_in(Acc& a, Rng& r, const Env& e) {
    U32 t; for (int i = 0; i < 10; ++i) { t += gen_text(r, 12); static const char32_t* seps[] = {U" ", U"\n", U"\r\n", U"\t", U" 42 ", U" -7.5 ", U"true\n"}; t += seps[r.below(7)]; }
    auto run = [&](auto& s) { for (int i = 0; i < 14; ++i) GUARD(a, switch (r.below(8)) { case 0: { std::u8string x; s.read_line(x); a.str(x); break; } case 1: { std::u16string x; s >> x; a.str(x); break; } case 2: { char32_t x = 0; s >> x; a.num(x); break; } case 3: { int x = 0; s >> x; a.num((uint64_t)x); break; } case 4: { double x = 0; s >> x; a.raw(&x, 8); break; } case 5: { std::u32string x = U"p"; s.append_line(x); a.str(x); break; } case 6: a.num(s.is_at_end()); break; default: { bool x = false; s >> x; a.num(x); } }) GUARD(a, { std::u8string x; s.read_all(x); a.str(x); }) };
    static const size_t caps[] = {0, 1, 5, 1024}; size_t cap = caps[r.below(4)];
    { auto c = encode<std::u8string>(t); cmp::transparent_container_input_resource<std::u8string> q{c, cap}; cmp::text_input_stream s{q, cmp::encoding_form::utf8, std::endian::little}; run(s); }
    { auto c = encode<std::u16string>(t); cmp::opaque_container_input_resource<std::u16string> q{c, cap}; cmp::text_input_stream s{q, cmp::encoding_form::utf16, std::endian::native}; run(s); }
    { auto c = hostile<char8_t>(r, 40); cmp::transparent_container_input_resource<std::u8string> q{c, cap}; cmp::text_input_stream s{q, cmp::encoding_form::utf8, std::endian::little}; GUARD(a, { std::u32string x; s.read_all(x); a.str(x); }) }
    std::string p = e.path + "in"; auto c = encode<std::u8string>(t); put(p.c_str(), std::vector<uint8_t>(c.begin(), c.end())); { cmp::file f{p, cmp::access_mode::read_only, cmp::if_not_there::fail}; cmp::text_input_stream s{f, cmp::encoding_form::utf8}; GUARD(a, for (int i = 0; i < 40 && !s.is_at_end(); ++i) { std::u8string x; s.read_line(x); a.str(x); }) } ::unlink(p.c_str());
}
inline void s_core(Acc& a, Rng& r, const Env&) {
    for (int i = 0; i < 20; ++i) { int64_t v = (int64_t)r.next(); int64_t x = 2 + (int64_t)r.below(40); a.num(cmp::count_digits(v, x)); a.num(cmp::count_digits((uint8_t)v, (uint8_t)x)); double p = (double)(int32_t)r.next() / 64, q = r.chance(1, 2) ? p : p + .25; a.num(cmp::cmp_equal(p, q, 1)); a.num(cmp::cmp_not_equal(p, (float)1.5f, 2)); std::byte b[9]; for (auto& k : b) k = (std::byte)r.next(); cmp::invert_endianness(b, r.below(10)); a.raw(b, 9); }
}
inline void s_examiners(Acc& a, Rng& r, const Env&) {
    for (int i = 0; i < 60; ++i) { char32_t c = r.chance(1, 3) ? (char32_t)r.below(0x3100) : gen_scalar(r); char16_t u = (char16_t)r.next(); char8_t b = (char8_t)r.next(); a.num(cmp::is_whitespace(c) | cmp::is_radix_digit(c, 16) << 1 | cmp::is_code_point_valid(c) << 2 | cmp::is_surrogate(u) << 3 | cmp::is_leading_surrogate(u) << 4 | cmp::is_trailing_surrogate(u) << 5 | cmp::is_leading_byte(b) << 6 | cmp::is_trailing_byte(b) << 7 | cmp::is_standalone_byte(b) << 8 | cmp::fits_in_7_bits(c) << 9); }
}
// every kind of container resource, copied, assigned, moved, its content taken and replaced
template <class C> void add_content(Acc& a, const C& c) { a.num(c.size()); if (!c.empty()) a.raw(c.data(), c.size() * sizeof(c[0])); }
template <class C> C some_content(Rng& r, size_t most) { C c(r.below(most + 1), typename C::value_type{}); for (auto& x : c) x = (typename C::value_type)r.next(); return c; }
template <class C> void every_resource(Acc& a, Rng& r) {
    static const size_t caps[] = {0, 1, 3, 16, 512}; size_t cap = caps[r.below(5)], cap2 = caps[r.below(5)]; C c = some_content<C>(r, 40), d = some_content<C>(r, 10);
    { cmp::opaque_container_input_resource<C> o{c, cap}, q{cap2}; history(a, r, q, 3); q = o; history(a, r, q, 5); history(a, r, o, 4); auto m{std::move(q)}; history(a, r, m, 4); add_content(a, m.grab_content()); cmp::opaque_container_input_resource<C> n{C(d), cap2}; history(a, r, n, 4); }
    { cmp::opaque_container_output_resource<C> o{c, cap}, q{cap2}; history(a, r, q, 3); q.flush(); q = o; history(a, r, q, 5); auto m{std::move(q)}; history(a, r, m, 4); m.flush(); add_content(a, m.grab_content()); history(a, r, o, 4); o.flush(); add_content(a, o.grab_content()); cmp::opaque_container_output_resource<C> n{C(d), cap2}; history(a, r, n, 3); n.flush(); add_content(a, n.grab_content()); }
    { cmp::opaque_container_io_resource<C> o{C(c), cap}, q{cap2}; q = o; history(a, r, q, 6); auto m{std::move(o)}; history(a, r, m, 6); m.flush(); q.flush(); add_content(a, m.grab_content()); add_content(a, q.grab_content()); }
    { C x = c; { cmp::transparent_container_output_resource<C> o{x, cap}; history(a, r, o, 8); o.flush(); } add_content(a, x); { cmp::transparent_container_io_resource<C> o{x, cap2}; history(a, r, o, 8); o.flush(); } add_content(a, x); { cmp::transparent_container_input_resource<C> o{x, cap}; history(a, r, o, 8); } }
}
inline void s_resources(Acc& a, Rng& r, const Env& e) {
    switch (r.below(4)) { case 0: every_resource<std::u8string>(a, r); break; case 1: every_resource<std::u16string>(a, r); break; case 2: every_resource<std::vector<uint8_t>>(a, r); break; default: every_resource<std::vector<uint64_t>>(a, r); }
    std::string p = e.path + "wo"; put(p.c_str(), std::vector<uint8_t>(r.below(30), 7)); static const size_t caps[] = {0, 1, 16}; size_t cap = caps[r.below(3)];
    { cmp::file f{p, cmp::access_mode::write_only, cmp::if_not_there::fail, cap}; history(a, r, f, 8); std::byte b[4]{}; GUARD(a, a.num(f.read(b, 4))) history(a, r, f, 4); } add_file(a, p);
    { cmp::file f{p, cmp::access_mode::read_only, cmp::if_not_there::fail, cap}, g; a.num(g.is_open()); history(a, r, f, 6); g = std::move(f); a.num(f.is_open()); history(a, r, g, 4); } ::unlink(p.c_str());
}
// text in every form and byte order, read and written by one stream, cut short and damaged
inline void s_text_forms(Acc& a, Rng& r, const Env& e) {
    auto ef = (cmp::encoding_form)r.below(3); std::endian en = r.chance(1, 2) ? std::endian::big : std::endian::little; static const size_t caps[] = {0, 1, 5, 1024}; size_t cap = caps[r.below(4)]; std::vector<uint8_t> c;
    { cmp::transparent_container_output_resource<std::vector<uint8_t>> o{c, cap}; cmp::text_output_stream s{o, ef, en}; s.write_bom();
      for (int i = 0; i < 6; ++i) { U32 t = gen_text(r, 16); switch (r.below(7)) { case 0: s << std::u32string_view(t); break; case 1: s << encode<std::u8string>(t); break; case 2: s << encode<std::wstring>(t); break; case 3: s << encode<std::u16string>(t); break; case 4: s << U'\n'; break; case 5: s << (int32_t)r.next() << U' '; break; default: s << gen_scalar(r) << u8"\r\n"; } } s.flush(); }
    add_content(a, c); if (r.chance(1, 3) && !c.empty()) c.resize(r.below(c.size())); if (r.chance(1, 3) && !c.empty()) { size_t k = r.below(c.size()); c[k] = (uint8_t)r.next(); }
    { cmp::transparent_container_input_resource<std::vector<uint8_t>> q{c, cap}; cmp::text_input_stream s{q, ef, en}; GUARD(a, s.read_bom()) a.num(s.get_endianness() == std::endian::big);
      for (int i = 0; i < 12; ++i) GUARD(a, switch (r.below(5)) { case 0: { std::u32string x; s.read_line(x); a.str(x); break; } case 1: { std::u8string x; s >> x; a.str(x); break; } case 2: { char32_t x = 0; s >> x; a.num(x); break; } case 3: a.num(s.is_at_end()); break; default: { std::wstring x = L"w"; s.append_line(x); a.str(x); } }) GUARD(a, { std::u16string x; s.read_all(x); a.str(x); }) a.num((uint64_t)q.get_position()); }
    { cmp::opaque_container_io_resource<std::vector<uint8_t>> q{c, cap}; cmp::text_io_stream s{q, ef, en}; GUARD(a, { std::u8string x; s.read_line(x); a.str(x); }) GUARD(a, s << u8"middle" << (int)r.below(1000) << e.sh->t16; s.flush()) GUARD(a, { std::u16string x; s.read_all(x); a.str(x); }) add_content(a, q.grab_content()); }
    { cmp::opaque_container_io_resource<std::vector<uint8_t>> q{c, cap}; cmp::data_io_stream s{q, en}; uint32_t x = 0; GUARD(a, s >> x; a.num(x)) uint16_t x2 = (uint16_t)x; GUARD(a, s << x2 << x; s.flush()) GUARD(a, for (;;) { s >> x; a.num(x); }) add_content(a, q.grab_content()); }
}
// numbers and booleans with every format, in every kind of string, changed by one unit
template <class S> void sep_case(Acc& a, Rng& r) {
    static const unsigned radices[] = {2, 8, 10, 16}; unsigned radix = radices[r.below(4)]; auto ss = (cmp::sign_status)r.below(2); auto pl = (cmp::radix_place_limit)r.below(3); unsigned cnt = (unsigned)r.below(12); bool flip = r.chance(1, 2); int tk = (int)r.below(3);
    auto ts = tk == 0 ? cmp::thousands_separator::none : flip ? cmp::thousands_separator::period : cmp::thousands_separator::comma; auto rc = flip ? cmp::radix_character::comma : cmp::radix_character::period;
    auto val = [&](double x) { a.raw(&x, 8); }; int64_t k = (int64_t)(r.next() >> (24 + r.below(36))); int m = (int)r.below(20); double v = (double)k / (double)(1ll << m); if (r.chance(1, 2)) v = -v;
    GUARD(a, { cmp::floating_point_format f{radix, ss, ts, rc, pl, cnt}; S s = cmp::format_floating_point<S>(v, f); a.str(s); GUARD(a, val(cmp::parse_floating_point<double>(s, f)))
      for (int i = 0; i < 3 && !s.empty(); ++i) { S t = s; size_t p = r.below(t.size()); static const char32_t repl[] = U"+-,., 09az"; typename S::value_type c = (typename S::value_type)repl[r.below(10)]; switch (r.below(3)) { case 0: t[p] = c; break; case 1: t.insert(t.begin() + (long)p, c); break; default: t.erase(p, 1); } GUARD(a, val(cmp::parse_floating_point<double>(t, f))) GUARD(a, a.num((uint64_t)cmp::parse_integer<int>(t, cmp::integer_format{radix, ss, ts}))) GUARD(a, a.num(cmp::parse_bool(t, cmp::bool_format{u8"1", u8"0"}))) } })
    GUARD(a, cmp::floating_point_format q((unsigned)r.below(45), ss, ts, rc, pl, cnt); a.num(q.get_radix())) GUARD(a, cmp::integer_format q{10, ss, ts}; q.set_radix((unsigned)r.below(45)); a.num(q.get_radix()))
}
inline void s_separators(Acc& a, Rng& r, const Env&) { sep_case<std::u8string>(a, r); sep_case<std::u16string>(a, r); sep_case<std::u32string>(a, r); sep_case<std::wstring>(a, r); sep_case<std::string>(a, r); }
// moves in both directions (never before the beginning), beyond the end and over damage; n is the number of code points, if the text is well-formed
template <class C> void jump(Acc& a, Rng& r, std::basic_string_view<C> v, long n) {
    cmp::by_code_point<C> range{v}; for (int k = 0; k < 4; ++k) { long to = (long)r.below((uint64_t)(n + 1)), to2 = (long)r.below((uint64_t)(n + 1)), over = (long)r.below(80); bool minus = r.chance(1, 2);
        GUARD(a, { auto it = range.end(); if (minus) it -= n - to; else it += to - n; a.num(it == range.end()); if (it != range.end()) a.num(*it); if (minus) it += to2 - to; else it -= to - to2; if (it != range.end()) a.num(*it); a.num(it == range.begin()); if constexpr (sizeof(C) < 4) { if (minus) it -= -over; else it += over; a.num(it == range.end()); } }) }
    if constexpr (sizeof(C) < 4) { GUARD(a, { auto it = range.end(); for (int k = 0; k < 50 && it != range.begin(); ++k) { --it; a.num(*it); } }) GUARD(a, { auto it = range.end(); ++it; a.num(1); }) GUARD(a, { auto it = range.end(); a.num(*it); }) }
}
inline void s_jumps(Acc& a, Rng& r, const Env&) {
    U32 t = gen_text(r, 60); auto a8 = encode<std::u8string>(t); auto a16 = encode<std::u16string>(t); auto h8 = hostile<char8_t>(r, 30); auto h16 = hostile<char16_t>(r, 30);
    long n = (long)t.size(); jump<char8_t>(a, r, a8, n); jump<char16_t>(a, r, a16, n); jump<char32_t>(a, r, t, n); jump<char8_t>(a, r, h8, 0); jump<char16_t>(a, r, h16, 0);
    a.num(cmp::starts_with(a8, t + U"x")); a.num(cmp::starts_with(std::u16string{}, a8)); a.num(cmp::ends_with(a16, U"x" + t)); a.num(cmp::ends_with(a8, a16 + u"y"));
}
// runs one section with its own random stream; returns digest and number of observations
inline Acc section(int k, uint64_t seed, const Env& e) {
    Acc a; Rng r(mix64(seed * 64 + (uint64_t)k));
    GUARD(a, switch (k) { case 0: s_convert(a, r, e); break; case 1: s_iterate(a, r, e); break; case 2: s_strings(a, r, e); break; case 3: s_integers(a, r, e); break; case 4: s_fp(a, r, e); break; case 5: s_formats(a, r, e); break; case 6: s_file(a, r, e); break; case 7: s_containers(a, r, e); break; case 8: s_data(a, r, e); break; case 9: s_text_out(a, r, e); break; case 10: s_text_in(a, r, e); break; case 11: s_core(a, r, e); break; case 12: s_examiners(a, r, e); break; case 13: s_resources(a, r, e); break; case 14: s_text_forms(a, r, e); break; case 15: s_separators(a, r, e); break; default: s_jumps(a, r, e); })
    return a;
}
} // namespace w
