#include "sinks.hpp"
#include <cmp/io/text_output_stream.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/unicode/constants.hpp>
#include <cmp/io/output_stream.hpp>
#include <cinttypes>
#include <limits>
using namespace h;
using EF = cmp::encoding_form;
static void encode_to(Bytes& b, const U32& t, EF ef, std::endian e) {
    auto unit = [&](uint32_t v, int n) { for (int i = 0; i < n; ++i) b.push_back((uint8_t)(v >> 8 * (e == std::endian::big ? n - 1 - i : i))); };
    if (ef == EF::utf8) for (auto c : encode<std::u8string>(t)) b.push_back((uint8_t)c);
    else if (ef == EF::utf16) for (auto c : encode<std::u16string>(t)) unit(c, 2);
    else for (auto c : t) unit(c, 4);
}
static U32 ascii(const std::string& s) { return U32(s.begin(), s.end()); }
static std::string dec(__int128 v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 m = n ? -(unsigned __int128)v : (unsigned __int128)v; std::string s; while (m) { s += (char)('0' + (int)(m % 10)); m /= 10; } if (n) s += '-'; return std::string(s.rbegin(), s.rend()); }
struct Ins { int kind; U32 text; uint64_t num; double frac; int nk; EF ef; std::endian e; bool nul_free; };
constexpr int kKinds = 24;
static U32 expected_text(const Ins& x); 
template <class T> T num_as(uint64_t v) { return (T)v; }
template <class Fn> void with_int(int k, Fn fn) {
    switch (k) { case 0: fn((signed char)0); break; case 1: fn((unsigned char)0); break; case 2: fn((short)0); break; case 3: fn((unsigned short)0); break; case 4: fn(0); break; case 5: fn(0u); break; case 6: fn(0l); break; case 7: fn(0ul); break; case 8: fn(0ll); break; default: fn(0ull); break; }
}
// kinds: 0 char, 1 char32_t, 2..16 pointer/view/string of the five character types, 17 bool, 18 integer, 19..21 floating point, 22 bom, 23 settings only
static Ins gen(Rng& r, EF& ef, std::endian& e) {
    Ins x{}; x.kind = (int)r.below(kKinds); x.num = r.next(); x.nk = (int)r.below(10);
    if (r.chance(1, 6) || x.kind == 23) { if (r.chance(1, 2)) ef = r.chance(1, 3) ? EF::utf8 : r.chance(1, 2) ? EF::utf16 : EF::utf32; if (r.chance(1, 2)) e = e == std::endian::big ? std::endian::little : std::endian::big; }
    x.ef = ef; x.e = e;
    if (x.kind == 0) x.text = U32(1, (char32_t)r.below(128));
    else if (x.kind == 1) x.text = U32(1, gen_scalar(r));
    else if (x.kind < 17) { bool ptr = (x.kind - 2) % 3 == 0, asc = (x.kind - 2) / 3 == 0; if (r.chance(1, 2000)) { x.text = gen_long_text(r, asc, !ptr); ++counter("long_strings"); } else x.text = gen_text(r, r.chance(1, 10) ? 600 : 24, asc, !ptr); }
    else if (x.kind == 17) x.text = ascii(x.num & 1 ? "1" : "0"); // the documented default format
    else if (x.kind == 18) { if (r.chance(1, 4)) x.num = r.chance(1, 2) ? r.below(5) - 2 : r.chance(1, 2) ? 1ull << (8 * (1 + r.below(8)) - 1) : (1ull << (8 * r.below(8))) - 1; with_int(x.nk, [&](auto z) { using T = decltype(z); x.text = ascii(dec((__int128)(T)x.num)); }); }
    else if (x.kind < 22) { // k / 2^m has a short exact decimal expansion
        int m = (int)r.below(7); int64_t k = (int64_t)(r.below(200000)) - 100000; x.frac = (double)k / (double)(1 << m);
        uint64_t a = (uint64_t)(k < 0 ? -k : k); std::string s = dec((__int128)(a >> m)); uint64_t f = a & ((1ull << m) - 1); std::string fr; while (f) { f *= 10; fr += (char)('0' + (f >> m)); f &= (1ull << m) - 1; }
        if (!fr.empty()) s += "." + fr; if (k < 0) s = "-" + s; x.text = ascii(s);
    } else if (x.kind == 22) x.text = U32(1, 0xFEFF);
    return x;
}
template <class Str> void by_form(auto& s, const Str& str, int form) {
    using C = typename Str::value_type;
    if (form == 0) { ExactZ<C> z(std::basic_string_view<C>(str.data(), str.size())); s << z.ptr(); }
    else if (form == 1) { Exact<C> x(std::basic_string_view<C>(str.data(), str.size())); std::unique_ptr<C> dummy; s << std::basic_string_view<C>(x.p.get(), x.n); }
    else s << str;
}
template <class St> void insert(St& s, const Ins& x) {
    s.set_encoding_form(x.ef); s.set_endianness(x.e);
    if (x.kind == 0) s << (char)x.text[0];
    else if (x.kind == 1) s << x.text[0];
    else if (x.kind < 17) { int form = (x.kind - 2) % 3; switch ((x.kind - 2) / 3) { case 0: by_form(s, encode<std::string>(x.text), form); break; case 1: by_form(s, encode<std::u8string>(x.text), form); break; case 2: by_form(s, encode<std::u16string>(x.text), form); break; case 3: by_form(s, encode<std::u32string>(x.text), form); break; default: by_form(s, encode<std::wstring>(x.text), form); } }
    else if (x.kind == 17) s << (bool)(x.num & 1);
    else if (x.kind == 18) with_int(x.nk, [&](auto z) { using T = decltype(z); s << (T)x.num; });
    else if (x.kind == 19) s << (double)x.frac; else if (x.kind == 20) s << (long double)x.frac; else if (x.kind == 21) s << (float)x.frac;
    else if (x.kind == 22) s.write_bom();
}
static const char* efn(EF e) { return e == EF::utf8 ? "utf8" : e == EF::utf16 ? "utf16" : "utf32"; }
static std::string show(const std::vector<Ins>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 25; ++i) s += fmt(" %d(%s%c)%s", v[i].kind, efn(v[i].ef), v[i].e == std::endian::big ? 'B' : 'L', v[i].kind < 17 ? dump_units(v[i].text, 6).c_str() : std::string(v[i].text.begin(), v[i].text.end()).c_str()); return s; }
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(17));
    // every insertion kind x encoding form x endianness once with each boundary code point
    {
        std::vector<char32_t> edge{0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1D800, 0x1DC00, 0x10FFFF};
        int id = 0;
        for (int kind = 1; kind < 17; ++kind) for (EF ef : {EF::utf8, EF::utf16, EF::utf32}) for (std::endian e : {std::endian::big, std::endian::little}) for (char32_t c : edge) {
            if ((id++ % S().nshards) != S().shard) continue;
            if (kind >= 2 && kind <= 4 && c > 0x7F) continue;
            Ins x{}; x.kind = kind; x.ef = ef; x.e = e; x.text = kind == 1 ? U32(1, c) : U32{U'a', c, U'b', c, c};
            Bytes want; encode_to(want, x.text, ef, e); set_case("C17 edge " + show({x}));
            for (size_t cap : {(size_t)0, (size_t)1, (size_t)3, (size_t)1024}) { Bytes got = with_output(id % kOutKinds, cap, [&](auto& res) { cmp::text_output_stream s{res, ef, e}; insert(s, x); }); if (got != want) fail("edge", show({x}) + " got " + dump_units(got) + " expected " + dump_units(want)); ++counter("edge_insertions"); }
            ev((uint64_t)id * 7919);
        }
    }
    // every scalar value through every encoding form and endianness
    for (EF ef : {EF::utf8, EF::utf16, EF::utf32}) for (std::endian e : {std::endian::big, std::endian::little}) {
        U32 t; for (uint32_t c = (uint32_t)S().shard; c <= 0x10FFFF; c += (uint32_t)S().nshards) if (scalar(c)) t += c;
        set_case(fmt("C17 every scalar %s", efn(ef))); Bytes want; encode_to(want, t, ef, e);
        Bytes got = with_output(1 + (int)r.below(4), 1024, [&](auto& res) { cmp::text_output_stream s{res, ef, e}; size_t i = 0; for (char32_t c : t) { if (i++ % 7) s << c; else s << U32(1, c); } });
        if (got != want) { size_t q = 0; while (q < got.size() && q < want.size() && got[q] == want[q]) ++q; fail("every-scalar", fmt("%s %s first difference at byte %zu of %zu", efn(ef), e == std::endian::big ? "big" : "little", q, want.size())); }
        counter("scalars_enumerated") += t.size(); S().evaluations += t.size();
    }
    size_t n = S().thorough ? 300000 : 25000;
    for (size_t i = 0; i < n && !S().total_violations; ++i) {
        EF ef = r.chance(1, 3) ? EF::utf8 : r.chance(1, 2) ? EF::utf16 : EF::utf32; std::endian e = r.chance(1, 2) ? std::endian::big : std::endian::little;
        std::vector<Ins> v; size_t k = r.below(15); EF f0 = ef; std::endian e0 = e; for (size_t j = 0; j < k; ++j) v.push_back(gen(r, ef, e));
        Bytes want; for (auto& x : v) encode_to(want, x.text, x.ef, x.e);
        int kind = (int)r.below(kOutKinds); size_t cap = gen_cap(r); std::string what = fmt("%s cap %zu:", out_name(kind), cap) + show(v); set_case("C17 " + what); bool io = kind >= 3 && r.chance(1, 2);
        try {
            Bytes got = with_output(kind, cap, [&](auto& res) {
                using R = std::remove_reference_t<decltype(res)>;
                if constexpr (requires { res.read((std::byte*)nullptr, (size_t)0); }) if (io) { cmp::text_io_stream<R> s{res, f0, e0}; auto& o = static_cast<cmp::text_output_stream<R>&>(s); for (auto& x : v) insert(o, x); ++counter("io_streams"); return; }
                Hopping<cmp::text_output_stream<R>> hs{res, f0, e0};
                for (auto& x : v) { hs.maybe_hop(r); auto& s = *hs; insert(s, x); if (s.get_encoding_form() != x.ef || s.get_endianness() != x.e) fail("settings", what); if (r.chance(1, 12)) { if (r.chance(1, 2)) s << cmp::flush; else s.flush(); ++counter("flushes"); } }
            });
            if (got != want) { size_t q = 0; while (q < got.size() && q < want.size() && got[q] == want[q]) ++q; fail("bytes", what + fmt(" first difference at byte %zu, ", q) + " got " + dump_units(got) + " expected " + dump_units(want)); }
        } catch (const std::exception& ex) { fail("threw", what + " " + ex.what()); }
        for (auto& x : v) ++counter(x.kind < 2 ? "characters" : x.kind < 17 ? "strings" : x.kind < 22 ? "values" : x.kind == 22 ? "byte_order_marks" : "settings_changes");
        ev(hash_bytes(want.data(), want.size(), cap * 31 + kind), !v.empty()); if (i < 3) sample(what.substr(0, 200));
    }
    { int id = 0; every_length([&](const U32& t) { // strings of every length
        bool asc = t.find_first_not_of(U"abcdefghijklmnopqrstuvwxyz") == U32::npos; static const EF efs[]{EF::utf8, EF::utf16, EF::utf32};
        for (int rep = 0; rep < 2; ++rep, ++id) { Ins x{}; x.kind = 2 + id % 15; if (!asc && x.kind < 5) x.kind += 3; x.ef = efs[id % 3]; x.e = id % 2 ? std::endian::big : std::endian::little; x.text = t; size_t cap = gen_cap(r); int kind = (int)r.below(kOutKinds);
            Bytes want; encode_to(want, t, x.ef, x.e); std::string what = fmt("length %zu kind %d into %s cap %zu %s", t.size(), x.kind, out_name(kind), cap, efn(x.ef)); set_case("C17 " + what);
            Bytes got = with_output(kind, cap, [&](auto& res) { cmp::text_output_stream s{res, x.ef, x.e}; insert(s, x); }); if (got != want) fail("length", what); ev(hash_bytes(what.data(), what.size())); } }); }
    // streams that are not told an endianness write big endian
    for (size_t cap : {(size_t)0, (size_t)3, (size_t)64}) for (EF ef : {EF::utf8, EF::utf16, EF::utf32}) for (bool io : {false, true}) {
        set_case(fmt("C17 default endianness %s", efn(ef))); U32 t{U'a', 0x3B1, 0x1F600}; Bytes want; encode_to(want, t, ef, std::endian::big); encode_to(want, ascii("-70001"), ef, std::endian::big); VB c;
        { cmp::transparent_container_io_resource<VB> q{c, cap}; auto go = [&](auto& s) { s << t; s << -70001; }; if (io) { cmp::text_io_stream s{q, ef}; go(s); } else { cmp::text_output_stream s{q, ef}; go(s); } }
        if (as_bytes(c) != want) fail("default-endianness", fmt("%s%s got ", efn(ef), io ? " io" : "") + dump_units(as_bytes(c))); ++counter("default_endianness_probes"); ++S().evaluations;
    }
    unlink("sink.bin");
    return done();
}
