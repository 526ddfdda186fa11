#include "common.hpp"
#include <cmp/unicode/formats.hpp>
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
using namespace h;
using cmp::sign_status; using cmp::thousands_separator; using cmp::radix_character; using cmp::radix_place_limit;
struct IM { unsigned radix; sign_status ss; thousands_separator ts; };
struct FM { unsigned radix; sign_status ss; thousands_separator ts; radix_character rc; radix_place_limit pl; unsigned count; };
struct BM { std::u8string t, f; };
static bool eq(const cmp::integer_format& o, const IM& m) { return o.get_radix() == m.radix && o.get_sign_status() == m.ss && o.get_thousands_separator() == m.ts; }
static bool eq(const cmp::floating_point_format& o, const FM& m) { return o.get_radix() == m.radix && o.get_sign_status() == m.ss && o.get_thousands_separator() == m.ts && o.get_radix_character() == m.rc && o.get_radix_place_limit() == m.pl && o.get_radix_place_count() == m.count; }
static bool eq(const cmp::bool_format& o, const BM& m) { return o.get_true_string() == m.t && o.get_false_string() == m.f; }
template <class E> E pick(Rng& r, int n) { return (E)r.below((uint64_t)n); }
static std::u8string str(Rng& r) { return encode<std::u8string>(gen_text(r, r.chance(1, 10) ? 400 : 12)); }
template <class O, class M, class Setter> void history(O o, M m, Rng& r, const char* what, Setter set) {
    std::string log = what; size_t ops = 1 + r.below(12);
    CHECK(eq(o, m), std::string("constructor:") + what, log);
    for (size_t i = 0; i < ops; ++i) {
        switch (r.below(8)) {
            case 6: { O& self = o; o = self; CHECK(eq(o, m), std::string("self-assign:") + what, log); ++counter("self_assignments"); break; }
            case 7: { O c; M cm = m; set(c, cm, r, log, false); O c2{c}; std::swap(o, c); std::swap(o, c2); std::swap(c, o); CHECK(eq(o, m), std::string("swap:") + what, log); break; }
            case 0: { O c{o}; CHECK(eq(c, m) && eq(o, m), std::string("copy:") + what, log); set(c, m, r, log, false); CHECK(eq(o, m), std::string("copy-aliases:") + what, log); break; }
            case 1: { O c{std::move(o)}; CHECK(eq(c, m), std::string("move:") + what, log); o = c; CHECK(eq(o, m) && eq(c, m), std::string("copy-assign:") + what, log); break; }
            case 2: { O c; c = std::move(o); CHECK(eq(c, m), std::string("move-assign:") + what, log); o = std::move(c); break; }
            default: set(o, m, r, log, true);
        }
        CHECK(eq(o, m), std::string("getter:") + what, log);
        ++counter("format_operations");
    }
    ev(hash_bytes(log.data(), log.size()));
}
template <class Str, bool ptr> void parse_in(const U32& t, const BM& m, const cmp::bool_format& f) {
    using C = typename Str::value_type;
    if (std::is_same_v<C, char>) for (char32_t c : t) if (c > 0x7F) return;
    Str s = encode<Str>(t); std::u8string u = encode<std::u8string>(t);
    int want = t.empty() ? 2 : u == m.t ? 1 : u == m.f ? 0 : 2;
    auto D = [&](const std::string& w) { return std::string(cname<C>()) + " " + w + " text=" + dump_units(t) + " true=" + dump_units(m.t) + " false=" + dump_units(m.f); };
    auto go = [&](auto obj, const char* kind) {
        try { bool b = cmp::parse_bool(obj, f); CHECK((int)b == want, std::string("parse_bool:") + cname<C>(), D(kind) + fmt(" got %d want %d", b, want)); ++counter(b ? "parsed_true" : "parsed_false"); }
        catch (const cmp::parse_failed& e) { CHECK(want == 2, std::string("parse_bool-rejected:") + cname<C>(), D(kind)); ++counter("parse_rejected");
            CHECK(e.get_type() == (t.empty() ? cmp::parse_failed::type::empty_input : cmp::parse_failed::type::neither_boolean), "parse_bool-reason", D(kind)); }
        catch (const std::exception& e) { fail("parse_bool-other", D(e.what())); }
    };
    go(s, "string"); auto ex = Exact<C>::of(s); go(ex.view(), "view");
    if constexpr (ptr) if (t.find(U'\0') == U32::npos) { ExactZ<C> z(ex.view()); const C* p = z.ptr(); go(p, "pointer"); }
}
static void bools(const BM& m, const U32& t, bool conv) {
    set_case("C10 bool text=" + dump_units(t));
    cmp::bool_format f{m.t, m.f};
    if (conv) for (bool b : {true, false}) {
        const auto& w = b ? m.t : m.f; U32 wt; ref_decode<char8_t>(w, wt); bool ascii = true; for (char32_t c : wt) if (c > 0x7F) ascii = false;
        auto chk = [&](auto tag) { using S_ = decltype(tag); auto g = cmp::format_bool<S_>(b, f); CHECK(g == encode<S_>(wt), std::string("format_bool:") + cname<typename S_::value_type>(), dump_units(g)); ++counter("formatted"); };
        if (ascii) chk(std::string{}); chk(std::u8string{}); chk(std::u16string{}); chk(std::u32string{}); chk(std::wstring{});
    }
    parse_in<std::string, true>(t, m, f); parse_in<std::u8string, true>(t, m, f); parse_in<std::u16string, true>(t, m, f); parse_in<std::u32string, true>(t, m, f); parse_in<std::wstring, true>(t, m, f);
    ev(hash_units<char32_t>(t, hash_units<char8_t>(m.t, hash_units<char8_t>(m.f))), !t.empty());
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(10));
    // every radix at construction
    for (uint64_t k = 0; k < 5000; ++k) {
        unsigned radix = k < 300 ? (unsigned)k : k < 400 ? (unsigned)(0u - (k - 299)) : k < 600 ? (unsigned)((k - 400) << 8 | 10) : (unsigned)r.next() >> r.below(32);
        bool bad = radix < 2 || radix > 36; bool t1 = false, t2 = false;
        set_case(fmt("C10 radix %u", radix));
        auto ss = pick<sign_status>(r, 2); auto ts = pick<thousands_separator>(r, 3);
        try { cmp::integer_format f{radix, ss, ts}; CHECK(f.get_radix() == radix, "radix-kept", fmt("%u", radix)); } catch (const cmp::invalid_radix&) { t1 = true; }
        try { cmp::floating_point_format f{radix, ss, ts, radix_character::comma, radix_place_limit::up_to, 3}; CHECK(f.get_radix() == radix, "radix-kept", fmt("%u", radix)); } catch (const cmp::invalid_radix&) { t2 = true; }
        CHECK(t1 == bad, "integer-radix-check", fmt("radix %u", radix)); CHECK(t2 == bad, "floating-radix-check", fmt("radix %u", radix)); ++counter("radices");
        ev(0x5500000000ull + radix);
    }
    { cmp::integer_format a; CHECK(eq(a, {10, sign_status::only_when_negative, thousands_separator::none}), "default-integer", ""); cmp::floating_point_format b; CHECK(eq(b, {10, sign_status::only_when_negative, thousands_separator::none, radix_character::period, radix_place_limit::none, 0}), "default-floating", ""); cmp::bool_format c; CHECK(eq(c, {u8"1", u8"0"}), "default-bool", ""); }
    size_t n = S().thorough ? 300000 : 20000;
    for (size_t i = 0; i < n; ++i) {
        set_case("C10 histories");
        IM im{2 + (unsigned)r.below(35), pick<sign_status>(r, 2), pick<thousands_separator>(r, 3)};
        history(cmp::integer_format{im.radix, im.ss, im.ts}, im, r, "integer_format", [](cmp::integer_format& o, IM& m, Rng& r, std::string& log, bool track) {
            IM v{2 + (unsigned)r.below(35), pick<sign_status>(r, 2), pick<thousands_separator>(r, 3)}; int w = (int)r.below(3); log += fmt(" %d:%u", w, w == 0 ? v.radix : w == 1 ? (unsigned)v.ss : (unsigned)v.ts);
            if (w == 0) { o.set_radix(v.radix); if (track) m.radix = v.radix; } else if (w == 1) { o.set_sign_status(v.ss); if (track) m.ss = v.ss; } else { o.set_thousands_separator(v.ts); if (track) m.ts = v.ts; } });
        FM fm{2 + (unsigned)r.below(35), pick<sign_status>(r, 2), pick<thousands_separator>(r, 3), pick<radix_character>(r, 2), pick<radix_place_limit>(r, 3), (unsigned)r.next() >> r.below(32)};
        history(cmp::floating_point_format{fm.radix, fm.ss, fm.ts, fm.rc, fm.pl, fm.count}, fm, r, "floating_point_format", [](cmp::floating_point_format& o, FM& m, Rng& r, std::string& log, bool track) {
            FM v{2 + (unsigned)r.below(35), pick<sign_status>(r, 2), pick<thousands_separator>(r, 3), pick<radix_character>(r, 2), pick<radix_place_limit>(r, 3), (unsigned)r.next() >> r.below(32)}; FM d = m; int w = (int)r.below(6); log += fmt(" f%d", w);
            switch (w) { case 0: o.set_radix(v.radix); d.radix = v.radix; break; case 1: o.set_sign_status(v.ss); d.ss = v.ss; break; case 2: o.set_thousands_separator(v.ts); d.ts = v.ts; break; case 3: o.set_radix_character(v.rc); d.rc = v.rc; break; case 4: o.set_radix_place_limit(v.pl); d.pl = v.pl; break; default: o.set_radix_place_count(v.count); d.count = v.count; }
            if (track) m = d; });
        BM bm{str(r), str(r)};
        history(cmp::bool_format{bm.t, bm.f}, bm, r, "bool_format", [](cmp::bool_format& o, BM& m, Rng& r, std::string& log, bool track) { auto s = str(r); bool w = r.chance(1, 2); log += fmt(" b%d", w); if (w) { o.set_true_string(s); if (track) m.t = s; } else { o.set_false_string(s); if (track) m.f = s; } });
        // booleans: non-empty, distinct strings; exact and near-miss texts
        U32 tt = gen_text(r, 10, r.chance(1, 2)), ff = gen_text(r, 10, r.chance(1, 2)); if (r.chance(1, 3)) { ff = tt; if (!ff.empty()) ff.pop_back(); } if (tt.empty()) tt = U"yes"; if (ff.empty() || ff == tt) ff = tt + U"!";
        BM m{encode<std::u8string>(tt), encode<std::u8string>(ff)};
        U32 base = r.chance(1, 2) ? tt : ff, t;
        switch (r.below(8)) { case 0: case 1: t = base; break; case 2: t = base.substr(0, r.below(base.size() + 1)); break; case 3: t = base + gen_text(r, 2); break; case 4: t = gen_text(r, 2) + base; break; case 5: t = base; t[r.below(t.size())] ^= 0x20; for (auto& c : t) if (!scalar(c)) c = U'x'; break; case 6: t = base.substr(1); break; default: t = gen_text(r, 6); }
        bools(m, t, i % 4 == 0);
        if (i < 3) sample("parse_bool text=" + dump_units(t) + " true=" + dump_units(m.t) + " false=" + dump_units(m.f));
    }
    for (size_t i = 0; i < (S().thorough ? 1000u : 40u); ++i) { // names longer than 8-bit and 16-bit counts, differing late
        U32 tt = i % 20 == 0 ? gen_long_text(r) : gen_text(r, 200) + U32(200 + r.below(200), U'n'), ff = tt; switch (r.below(3)) { case 0: ff += U'!'; break; case 1: ff.back() = ff.back() == U'q' ? U'p' : U'q'; break; default: ff.insert(r.below(ff.size()), 1, U'z'); if (ff == tt) ff += U'!'; }
        BM m{encode<std::u8string>(tt), encode<std::u8string>(ff)}; U32 t = r.chance(1, 2) ? tt : ff; switch (r.below(4)) { case 0: t.pop_back(); break; case 1: t += U'.'; break; default: break; }
        bools(m, t, true); ++counter("long_names");
    }
    every_length([&](const U32& t) { // strings of every length, and texts that lack or add one code point
        if (t.size() > 3000) return; BM m{encode<std::u8string>(t), encode<std::u8string>(U'x' + t)}; if (r.chance(1, 2)) std::swap(m.t, m.f);
        bools(m, t, true); bools(m, t + U'x', false); bools(m, U'x' + t, false); if (!t.empty()) bools(m, t.substr(0, t.size() - 1), false);
    });
    return done();
}
