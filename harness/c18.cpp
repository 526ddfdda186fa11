#include "sinks.hpp"
#include "hostile.hpp"
#include <cmp/io/text_input_stream.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/unicode/constants.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/unicode/formats.hpp>
#include <cmp/unicode/exceptions.hpp>
#include <cmp/io/exceptions.hpp>
#include <cinttypes>
using namespace h;
using EF = cmp::encoding_form;
static void encode_to(Bytes& b, const U32& t, EF ef, std::endian e) {
    auto unit = [&](uint32_t v, int n) { for (int i = 0; i < n; ++i) b.push_back((uint8_t)(v >> 8 * (e == std::endian::big ? n - 1 - i : i))); };
    if (ef == EF::utf8) for (auto c : encode<std::u8string>(t)) b.push_back((uint8_t)c);
    else if (ef == EF::utf16) for (auto c : encode<std::u16string>(t)) unit(c, 2);
    else for (auto c : t) unit(c, 4);
}
static const char* efn(EF e) { return e == EF::utf8 ? "utf8" : e == EF::utf16 ? "utf16" : "utf32"; }
static bool space(char32_t c) { return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000; }
// the stored text seen through CRLF -> LF; a cursor over it
struct Model {
    U32 t; size_t p = 0;
    static U32 filter(const U32& s) { U32 o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n') continue; o += s[i]; } return o; }
    bool end() const { return p >= t.size(); }
    U32 line() { U32 o; while (!end()) { char32_t c = t[p++]; if (c == '\n') break; o += c; } return o; }
    U32 all() { U32 o = t.substr(p); p = t.size(); return o; }
    U32 word() { U32 o; while (!end()) { char32_t c = t[p++]; if (!space(c)) { o += c; break; } } while (!end()) { char32_t c = t[p++]; if (space(c)) break; o += c; } return o; }
};
static U32 ascii(const std::string& s) { return U32(s.begin(), s.end()); }
static std::string num(Rng& r) { switch (r.below(6)) { case 0: return "0"; case 1: return "1"; case 2: return fmt("%" PRId64, (int64_t)r.next()); case 3: return fmt("%" PRIu64, r.next() >> r.below(64)); case 4: return fmt("-%" PRIu64, r.next() >> r.below(64)); default: return fmt("%s%llu.%llu", r.chance(1, 3) ? "-" : "", (unsigned long long)r.below(100000), (unsigned long long)r.below(1000)); } }
static U32 gen_stored(Rng& r, bool asc) {
    if (r.chance(1, 800)) { // one line or word of more than 65536 code points, or that many short ones
        ++counter("long_texts"); U32 t = gen_long_text(r, asc); unsigned w = (unsigned)r.below(3); for (size_t i = 0; i < t.size(); ++i) { auto& c = t[i]; if (c == '\r' || (w == 0 && c == '\n') || (w == 1 && space(c))) c = '.'; if (w == 2 && r.chance(1, 6)) c = r.chance(1, 2) ? '\n' : ' '; } if (r.chance(1, 2)) t = U"x\r\n" + t + U"\n1 \n"; return t; }
    U32 t; size_t n = r.chance(1, 10) ? 0 : r.below(14); if (r.chance(1, 12)) n = 300;
    if (r.chance(1, 4)) { for (size_t i = 0; i < n && i < 40; ++i) { t += ascii(num(r)); static const std::vector<U32> seps{U" ", U"\n", U"\r\n", U"  ", U"\t", U" \n"}; t += r.pick(seps); } if (r.chance(1, 2)) t += ascii(num(r)); return t; }
    static const std::vector<char32_t> sp{' ', '\t', '\n', 0x0B, 0x0C, 0x85, 0xA0, 0x1680, 0x2003, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000};
    for (size_t i = 0; i < n; ++i) switch (r.below(7)) {
        case 0: { size_t k = 1 + r.below(6); while (k--) t += asc ? (char32_t)('!' + r.below(94)) : gen_scalar(r); break; }
        case 1: t += ascii(num(r)); break;
        case 2: t += U'\n'; break;
        case 3: t += U"\r\n"; break;
        case 4: { char32_t c = r.pick(sp); t += asc && c > 127 ? U' ' : c; break; }
        case 5: t += ascii(num(r)); t += U' '; break;
        default: t += asc ? (char32_t)r.below(128) : gen_scalar(r);
    }
    U32 o; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] != '\n') continue; o += t[i]; } // no lone CR (known finding); CR as the very last character stays
    U32 q; for (size_t i = 0; i < o.size(); ++i) { if (o[i] == '\r' && i + 1 < o.size() && o[i + 1] != '\n') continue; q += o[i]; }
    return q;
}
template <class Str> U32 decode_all(const Str& s, bool& ok) { using C = typename Str::value_type; U32 o; if constexpr (std::is_same_v<C, char>) { for (unsigned char c : s) o += c; ok = true; } else { ok = ref_decode(std::basic_string_view<C>(s), o) == s.size(); } return o; }
template <class Str, class St> void into(St& s, Model& m, int op, const std::string& what, Rng& r) {
    Str target = encode<Str>(U32{U'o', U'l', U'd'}); U32 want; static const char* names[] = {"read_line", "append_line", "read_all", "append_all", ">> string"};
    switch (op) { case 0: s.read_line(target); want = m.line(); break; case 1: s.append_line(target); want = U"old" + m.line(); break; case 2: s.read_all(target); want = m.all(); break; case 3: s.append_all(target); want = U"old" + m.all(); break; default: s >> target; want = m.word(); }
    bool ok; U32 got = decode_all(target, ok);
    if (!ok || got != want || target != encode<Str>(want)) fail(std::string("content:") + (op < 2 ? "line" : op < 4 ? "all" : "word"), fmt("%s into %s: ", names[op], cname<typename Str::value_type>()) + dump_units(got) + " expected " + dump_units(want) + " | " + what);
    ++counter(op < 2 ? "lines_read" : op < 4 ? "remaining_texts_read" : "words_read");
}
template <class T, class St> void value(St& s, Model& m, const std::string& what) {
    U32 w = m.word(); auto u = encode<std::u8string>(w); T got{}; int outcome = 0, want = 0; T expect{};
    try { s >> got; } catch (const cmp::parse_failed&) { outcome = 1; }
    try { if constexpr (std::is_same_v<T, bool>) expect = cmp::parse_bool(u, cmp::bool_format{}); else if constexpr (std::is_integral_v<T>) expect = cmp::parse_integer<T>(u, cmp::integer_format{}); else expect = cmp::parse_floating_point<T>(u, cmp::floating_point_format{}); } catch (const cmp::parse_failed&) { want = 1; }
    if (outcome != want || (!want && got != expect)) fail("value", fmt("word '%s' outcome %d expected %d sizeof %zu | ", std::string(u.begin(), u.end()).c_str(), outcome, want, sizeof(T)) + what);
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) { // an independent opinion on plain decimal words
        bool dig = !w.empty() && w.size() < 18; for (char32_t c : w) dig &= c >= '0' && c <= '9';
        if (dig) { unsigned long long v = 0; for (char32_t c : w) v = v * 10 + (c - '0'); bool fits = v <= (unsigned long long)std::numeric_limits<T>::max(); if (fits ? (outcome || (unsigned long long)got != v) : !outcome) fail("decimal-value", std::string(u.begin(), u.end()) + " | " + what); }
    }
    ++counter(outcome ? "values_rejected" : "values_read");
}
template <class St> void history(St& first, Model m, Rng& r, bool asc, const std::string& what0) {
    std::string what = what0; Hopping<St> hs{first};
    for (size_t steps = 0; steps < 40; ++steps) {
        hs.maybe_hop(r); St& s = *hs;
        bool e = s.is_at_end(); if (e != m.end()) { fail("is_at_end", fmt("%d with %zu code points left | ", e, m.t.size() - m.p) + what); return; }
        if (S().total_violations) return;
        unsigned w = (unsigned)r.below(100); set_case("C18 " + what);
        if (w < 35) { what += " >>c"; char32_t c = 0x5A5A5A; bool threw = false; try { s >> c; } catch (const cmp::read_past_end&) { threw = true; }
            if (threw != m.end()) { fail("character-at-end", what); return; } if (threw) { ++counter("reads_past_end"); if (r.chance(1, 2)) return; continue; }
            if (c != m.t[m.p]) { fail("character", fmt("U+%X instead of U+%X at %zu | ", (unsigned)c, (unsigned)m.t[m.p], m.p) + what); return; } ++m.p; ++counter("characters_read"); }
        else if (w < 80) { int op = w < 42 ? (r.chance(1, 2) ? 2 : 3) : w < 62 ? (int)r.below(2) : 4; what += fmt(" op%d", op);
            switch (r.below(asc ? 5 : 4)) { case 0: into<std::u8string>(s, m, op, what, r); break; case 1: into<std::u16string>(s, m, op, what, r); break; case 2: into<std::u32string>(s, m, op, what, r); break; case 3: into<std::wstring>(s, m, op, what, r); break; default: into<std::string>(s, m, op, what, r); } }
        else { what += " >>v"; switch (r.below(9)) { case 0: value<bool>(s, m, what); break; case 1: value<int>(s, m, what); break; case 2: value<unsigned>(s, m, what); break; case 3: value<int64_t>(s, m, what); break; case 4: value<uint64_t>(s, m, what); break; case 5: value<int16_t>(s, m, what); break; case 6: value<signed char>(s, m, what); break; case 7: value<float>(s, m, what); break; default: value<double>(s, m, what); } }
        ev(hash_bytes(what.data(), what.size()), !m.t.empty());
        if (m.end() && r.chance(1, 3)) return;
    }
}
// text written to, read from and sought in one input/output stream (and copies of it); every character has the same width, so that writing over text keeps it well-formed
static void mixed(Rng& r) {
    for (size_t i = 0, m = S().thorough ? 40000 : 3000; i < m && !S().total_violations; ++i) {
        EF ef = std::array{EF::utf8, EF::utf16, EF::utf32}[r.below(3)]; size_t width = ef == EF::utf8 ? 1 : ef == EF::utf16 ? 2 : 4; std::endian e = r.chance(1, 2) ? std::endian::big : std::endian::little; int kind = (int)r.below(3); size_t cap = gen_cap(r); std::string log = fmt("mixed %s %s, kind %d cap %zu:", efn(ef), e == std::endian::big ? "big" : "little", kind, cap);
        auto chr = [&]() -> char32_t { if (r.chance(1, 5)) return U" \n\t"[r.below(3)]; if (ef == EF::utf8 || r.chance(1, 3)) return (char32_t)(0x21 + r.below(0x5E)); if (ef == EF::utf16 || r.chance(1, 2)) return (char32_t)(0xE000 + r.below(0x1F00)); return (char32_t)(0x1F300 + r.below(0x300)); };
        auto white = [](char32_t c) { return c == ' ' || c == '\n' || c == '\t'; };
        U32 t(r.below(80), U' '); for (auto& c : t) c = chr(); U32 model = t; size_t pos = 0;
        auto go = [&](auto& res) {
            using R = std::remove_reference_t<decltype(res)>; cmp::text_io_stream<R> s{res, ef, e};
            auto store = [&](const U32& x) { if (pos + x.size() > model.size()) model.resize(pos + x.size()); std::copy(x.begin(), x.end(), model.begin() + (long)pos); pos += x.size(); };
            auto step = [&](auto& st) {
                unsigned w = (unsigned)r.below(12); set_case("C18 " + log);
                if (w < 2) { U32 x(r.below(r.chance(1, 8) ? cap % 3000 + 3 : 10), U' '); for (auto& c : x) c = chr(); log += fmt(" <<%zu", x.size()); if (ef == EF::utf8 && r.chance(1, 2)) st << encode<std::u8string>(x); else if (r.chance(1, 2)) st << encode<std::u16string>(x); else st << x; store(x); ++counter("mixed_texts_written"); }
                else if (w == 2) { char32_t c = chr(); log += " <<c"; st << c; store(U32(1, c)); }
                else if (w == 3) { int v = (int)r.below(2000000) - 1000000; std::string n = std::to_string(v); log += " <<" + n; st << v; store(U32(n.begin(), n.end())); }
                else if (w == 4 && pos < model.size()) { char32_t c = 0; log += " >>c"; st >> c; if (c != model[pos]) { fail("mixed-character", fmt("U+%X instead of U+%X; ", c, model[pos]) + log); return; } ++pos; ++counter("mixed_characters_read"); }
                else if (w < 7) { U32 g; size_t k = pos; U32 want; while (k < model.size()) { char32_t c = model[k++]; if (c == '\n') break; want += c; } log += " line"; if (r.chance(1, 2)) { g = U"old"; st.read_line(g); } else { g = U"old"; st.append_line(g); if (g.substr(0, 3) != U"old") { fail("mixed-append", log); return; } g.erase(0, 3); } if (g != want) { fail("mixed-line", dump_units(g) + " instead of " + dump_units(want) + "; " + log); return; } pos = k; ++counter("mixed_lines_read"); }
                else if (w == 7) { U32 g; size_t k = pos; U32 want; while (k < model.size() && white(model[k])) ++k; while (k < model.size()) { char32_t c = model[k++]; if (white(c)) break; want += c; } log += " word"; st >> g; if (g != want) { fail("mixed-word", dump_units(g) + " instead of " + dump_units(want) + "; " + log); return; } pos = k; ++counter("mixed_words_read"); }
                else if (w == 8 && r.chance(1, 4)) { U32 g; log += " all"; st.read_all(g); if (g != model.substr(pos)) { fail("mixed-all", log); return; } pos = model.size(); }
                else if (w == 9) { log += " flush"; st << cmp::flush; }
                else { pos = r.below(model.size() + 1); log += fmt(" seek(%zu)", pos); st->set_position((int64_t)(pos * width), cmp::position_reference::begin); }
                if (r.chance(1, 3) && !S().total_violations && (size_t)st->get_position() != pos * width) fail("mixed-position", fmt("%lld instead of %zu; ", (long long)st->get_position(), pos * width) + log);
                if (r.chance(1, 4) && st.cmp::template text_input_stream<R>::is_at_end() != (pos >= model.size())) fail("mixed-end", log);
            };
            for (size_t k = 3 + r.below(25); k-- && !S().total_violations;) { step(s); if (r.chance(1, 20)) { log += " copy{"; { cmp::text_io_stream<R> c{s}; for (size_t n = r.below(4); n-- && !S().total_violations;) step(c); } log += " }"; } }
        };
        Bytes d, got, want; encode_to(d, t, ef, e);
        if (kind == 0) { cmp::opaque_container_io_resource<VB> q{bytes_as<VB>(d), cap}; go(q); got = as_bytes(q.grab_content()); }
        else if (kind == 1) { VB c = bytes_as<VB>(d); cmp::transparent_container_io_resource<VB> q{c, cap}; go(q); got = as_bytes(c); }
        else { put("source.bin", d); cmp::file q{"source.bin", cmp::access_mode::read_and_write, cmp::if_not_there::fail, cap}; go(q); got = slurp("source.bin"); }
        encode_to(want, model, ef, e); if (!S().total_violations && got != want) fail("mixed-content", log + " got " + dump_units(got) + " expected " + dump_units(want));
        ++counter("mixed_histories"); ev(hash_bytes(log.data(), log.size(), cap)); if (i < 2) sample(log.substr(0, 250));
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(18));
    auto pick_ef = [&] { return r.chance(1, 3) ? EF::utf8 : r.chance(1, 2) ? EF::utf16 : EF::utf32; };
    auto pick_e = [&] { return r.chance(1, 2) ? std::endian::big : std::endian::little; };
    size_t n = S().thorough ? 200000 : 12000;
    for (size_t i = 0; i < n && !S().total_violations; ++i) { // reading histories
        bool asc = r.chance(1, 4); U32 t = gen_stored(r, asc); EF ef = pick_ef(); std::endian e = pick_e(); bool bom = r.chance(1, 4); std::endian start = r.chance(2, 3) ? e : pick_e(); if (!bom) start = e;
        Bytes b; if (bom) encode_to(b, U32(1, 0xFEFF), ef, e); encode_to(b, t, ef, e);
        int kind = (int)r.below(kInKinds); size_t cap = gen_cap(r); bool io = kind >= 3 && r.chance(1, 2); bool ask = bom || r.chance(1, 5);
        std::string what = fmt("%s cap %zu %s %s%s ", in_name(kind), cap, efn(ef), e == std::endian::big ? "big" : "little", bom ? " bom" : "") + dump_units(t, 30); set_case("C18 " + what);
        Model m; m.t = Model::filter(t);
        if (!bom && !t.empty() && (t[0] == 0xFFFE || t[0] == 0xFEFF)) continue; // reads as a byte order mark
        try {
            with_input(kind, cap, b, [&](auto& res) {
                using R = std::remove_reference_t<decltype(res)>;
                auto go = [&](cmp::text_input_stream<R>& s) {
                    if (ask) {
                        char32_t c = 0; bool threw = false; try { c = s.read_bom(); } catch (const cmp::read_past_end&) { threw = true; } ++counter("read_bom_calls");
                        if (bom) { if (threw || c != 0xFEFF) { fail("bom", fmt("returned U+%X ", (unsigned)c) + what); return; } if (ef != EF::utf8 && s.get_endianness() != e) { fail("bom-endianness", what); return; } }
                        else if (t.empty() != threw || (!threw && c != t[0])) { fail("no-bom", fmt("threw %d returned U+%X ", threw, (unsigned)c) + what); return; }
                        if (!bom && !t.empty()) { m.t = Model::filter(t.substr(1)); if (s.get_endianness() != start) fail("no-bom-endianness", what); }
                        if (ef == EF::utf8 && s.get_endianness() != start) fail("utf8-bom-endianness", what);
                    }
                    if (s.get_encoding_form() != ef) fail("encoding-form", what);
                    history(s, m, r, asc, what);
                };
                if constexpr (requires { res.write((const std::byte*)nullptr, (size_t)0); }) if (io) { cmp::text_io_stream<R> s{res, ef, start}; go(s); ++counter("io_streams"); return; }
                cmp::text_input_stream<R> s{res, ef, start}; go(s);
            });
        } catch (const std::exception& x) { fail("threw", what + " " + x.what()); }
        ++counter("histories"); if (i < 3) sample(what);
    }
    every_length([&](const U32& w) { // lines, words and rests of every length
        EF ef = pick_ef(); std::endian e = pick_e(); int kind = (int)r.below(kInKinds); size_t cap = gen_cap(r); U32 t = w + U"\n" + w + (r.chance(1, 2) ? U"\r\n" : U"\n") + w + U" " + w; Bytes b; encode_to(b, t, ef, e); Model m; m.t = Model::filter(t);
        std::string what = fmt("lines of %zu code points from %s cap %zu %s", w.size(), in_name(kind), cap, efn(ef)); set_case("C18 " + what);
        try { with_input(kind, cap, b, [&](auto& res) { cmp::text_input_stream s{res, ef, e}; into<std::u8string>(s, m, 0, what, r); into<std::u16string>(s, m, 1, what, r); into<std::u32string>(s, m, 4, what, r); into<std::wstring>(s, m, (int)(2 + r.below(2)), what, r); }); }
        catch (const std::exception& x) { fail("threw", what + " " + x.what()); }
        ev(hash_bytes(what.data(), what.size()));
    });
    // segments in different encodings, switched by the reader
    for (size_t i = 0; i < n / 8 && !S().total_violations; ++i) {
        struct Seg { U32 t; EF ef; std::endian e; }; std::vector<Seg> v(1 + r.below(5)); Bytes b; std::string what = "segments";
        for (auto& g : v) { g.t = gen_text(r, 10); for (auto& c : g.t) if (c == '\r') c = '.'; g.ef = pick_ef(); g.e = pick_e(); encode_to(b, g.t, g.ef, g.e); what += fmt(" %s%c", efn(g.ef), g.e == std::endian::big ? 'B' : 'L') + dump_units(g.t, 12); }
        set_case("C18 " + what);
        try { with_input((int)r.below(kInKinds), gen_cap(r), b, [&](auto& res) { cmp::text_input_stream s{res, EF::utf8, std::endian::big}; for (auto& g : v) { s.set_encoding_form(g.ef); s.set_endianness(g.e); for (char32_t w : g.t) { char32_t c = 0; s >> c; if (c != w) { fail("segment", fmt("U+%X instead of U+%X ", (unsigned)c, (unsigned)w) + what); return; } } } if (!s.is_at_end()) fail("segment-end", what); }); } catch (const std::exception& x) { fail("segment-threw", what + x.what()); }
        ++counter("encoding_switches"); ev(hash_bytes(what.data(), what.size()));
    }
    // ill-formed and truncated text
    for (size_t i = 0; i < n && !S().total_violations; ++i) {
        bool u8 = r.chance(1, 2); std::endian e = pick_e(); Bytes b; U32 prefix; bool whole = true, trunc = false; EF ef = u8 ? EF::utf8 : EF::utf16;
        if (r.chance(1, 8)) { ef = EF::utf32; U32 t = gen_text(r, 6); for (auto& c : t) if (c == '\r') c = '.'; encode_to(b, t, ef, e); size_t cut = 1 + r.below(3); if (t.empty()) continue; b.resize(b.size() - cut); prefix = t.substr(0, t.size() - 1); whole = false; trunc = true; }
        else if (u8) { auto s = r.chance(1, 4) ? bad_run<char8_t>(r) : hostile<char8_t>(r, 20); for (auto& c : s) if (c == '\r') c = '.'; size_t ok = ref_decode(std::u8string_view(s), prefix); whole = ok == s.size(); for (auto c : s) b.push_back((uint8_t)c);
            if (!whole) { size_t left = s.size() - ok; // truncated: what is left can be completed to a well-formed sequence
                for (int k = 1; k <= 3 && !trunc; ++k) for (int f = 0; f < 3 && !trunc; ++f) { std::u8string q(s.substr(ok)); for (int j = 0; j < k; ++j) q += (char8_t)(j == 0 ? (f == 0 ? 0x80 : f == 1 ? 0xBF : 0x8F) : 0x80); U32 d; if (left < 4 && ref_decode(std::u8string_view(q), d) == q.size() && d.size() == 1) trunc = true; } } }
        else { auto s = r.chance(1, 4) ? bad_run<char16_t>(r) : hostile<char16_t>(r, 16); for (auto& c : s) if (c == '\r') c = '.'; size_t ok = ref_decode(std::u16string_view(s), prefix); whole = ok == s.size(); trunc = !whole && ok + 1 == s.size() && s[ok] >= 0xD800 && s[ok] <= 0xDBFF; for (auto c : s) { uint16_t v = c; if (e == std::endian::big) { b.push_back(v >> 8); b.push_back(v & 255); } else { b.push_back(v & 255); b.push_back(v >> 8); } }
            if (whole && r.chance(1, 4) && !b.empty() && !prefix.empty()) { b.pop_back(); whole = false; trunc = true; U32 d; size_t units = b.size() / 2; ref_decode(std::u16string_view(s.data(), units), d); prefix = d; } }
        int kind = (int)r.below(kInKinds); size_t cap = gen_cap(r); std::string what = fmt("%s cap %zu %s %s bytes ", in_name(kind), cap, efn(ef), e == std::endian::big ? "big" : "little") + dump_units(b, 40); set_case("C18 hostile " + what);
        try { with_input(kind, cap, b, [&](auto& res) {
            cmp::text_input_stream s{res, ef, e}; int how = (int)r.below(5); bool past = false, ill = false; U32 got;
            if (how == 4) { // the first code point is asked for by read_bom, unless the text starts like a byte order mark
                size_t w = ef == EF::utf32 ? 4 : 2; uint32_t v = 0; for (size_t k = 0; k < w && k < b.size(); ++k) v = v << 8 | b[k];
                if (b.empty() || (ef == EF::utf16 && (v == 0xFEFF || v == 0xFFFE)) || (ef == EF::utf32 && (v == 0xFEFF || v == 0xFFFE0000u))) how = 0; else ++counter("read_bom_on_hostile"); }
            try { if (how == 4) { got += s.read_bom(); while (!s.is_at_end()) { char32_t c; s >> c; got += c; if (got.size() > b.size()) break; } if (s.get_endianness() != e) fail("hostile-bom-endianness", what); }
                  else if (how < 2) { while (!s.is_at_end()) { char32_t c; s >> c; got += c; if (got.size() > b.size()) break; } }
                  else if (how == 2) { s.append_all(got); }
                  else { std::u16string o; try { s.append_all(o); } catch (...) { bool ok; got = decode_all(o, ok); if (!ok) fail("hostile-target", what); throw; } bool ok; got = decode_all(o, ok); if (!ok) fail("hostile-target", what); } }
            catch (const cmp::read_past_end&) { past = true; } catch (const cmp::invalid_unicode_encoding&) { ill = true; } catch (const cmp::invalid_code_point&) { ill = true; }
            if (got != prefix) fail("hostile-prefix", dump_units(got) + " instead of " + dump_units(prefix) + " | " + what);
            if (whole && (past || ill)) fail("well-formed-rejected", what);
            if (!whole && !past && !ill) fail("ill-formed-accepted", dump_units(got) + " | " + what);
            if (trunc && !past) fail("truncated-not-reported", what);
        }); } catch (const std::exception& x) { fail("hostile-threw", what + x.what()); }
        ++counter(whole ? "well_formed_controls" : trunc ? "truncated_texts" : "ill_formed_texts"); ev(hash_bytes(b.data(), b.size(), kind * 7 + cap), !whole);
    }
    // every scalar value in every encoding form and endianness
    for (EF ef : {EF::utf8, EF::utf16, EF::utf32}) for (std::endian e : {std::endian::big, std::endian::little}) {
        U32 t; for (uint32_t c = (uint32_t)S().shard; c <= 0x10FFFF; c += (uint32_t)S().nshards) if (scalar(c) && c != '\r') t += c;
        Bytes b; encode_to(b, t, ef, e); set_case(fmt("C18 every scalar %s", efn(ef)));
        try { with_input(1 + (int)r.below(4), 1021, b, [&](auto& res) { cmp::text_input_stream s{res, ef, e}; size_t k = 0; for (char32_t w : t) { char32_t c = 0; s >> c; if (c != w) { fail("every-scalar", fmt("%s U+%X read as U+%X", efn(ef), (unsigned)w, (unsigned)c)); return; } ++k; } if (!s.is_at_end()) fail("every-scalar-end", efn(ef)); }); } catch (const std::exception& x) { fail("every-scalar-threw", std::string(efn(ef)) + x.what()); }
        counter("scalars_enumerated") += t.size(); S().evaluations += t.size();
        // read_bom delivers any other code point as it is and leaves the byte order alone
        if (ef == EF::utf16) std::erase(t, (char32_t)0xFFFE); // reads as a byte order mark in the other order
        b.clear(); encode_to(b, t, ef, e); set_case(fmt("C18 read_bom on every scalar %s", efn(ef)));
        try { with_input(3, 1021, b, [&](auto& res) { cmp::text_input_stream s{res, ef, e}; for (char32_t w : t) { char32_t c = s.read_bom(); if (c != w || s.get_endianness() != e) { fail("every-scalar-bom", fmt("%s %s U+%X read as U+%X, byte order %s", efn(ef), e == std::endian::big ? "big" : "little", (unsigned)w, (unsigned)c, s.get_endianness() == e ? "kept" : "changed")); return; } } if (!s.is_at_end()) fail("every-scalar-bom-end", efn(ef)); }); } catch (const std::exception& x) { fail("every-scalar-bom-threw", std::string(efn(ef)) + x.what()); }
        counter("scalars_read_by_read_bom") += t.size(); S().evaluations += t.size();
    }
    // a carriage return on its own is text like any other
    if (S().shard == 0) { std::u8string src = u8"a\rb", got; cmp::transparent_container_input_resource<std::u8string> res{src, 16}; cmp::text_input_stream s{res, EF::utf8}; set_case("C18 lone CR"); s.read_all(got); if (got == u8"ab") fail("lone-cr-dropped", "stored \"a\\rb\", read_all delivered \"ab\""); else if (got != src) fail("lone-cr-other", dump_units(got)); ++counter("lone_cr_probes"); }
    // streams that are not told an endianness read big endian
    for (size_t cap : {(size_t)0, (size_t)3, (size_t)64}) for (EF ef : {EF::utf8, EF::utf16, EF::utf32}) for (bool io : {false, true}) {
        set_case(fmt("C18 default endianness %s", efn(ef))); U32 t{U'a', 0x3B1, 0x1F600, U'z'}, got; Bytes b; encode_to(b, t, ef, std::endian::big); VB c = bytes_as<VB>(b); cmp::transparent_container_io_resource<VB> q{c, cap};
        try { if (io) { cmp::text_io_stream s{q, ef}; s.read_all(got); } else { cmp::text_input_stream s{q, ef}; s.read_all(got); } } catch (const std::exception& x) { fail("default-endianness-threw", x.what()); }
        if (got != t) fail("default-endianness", fmt("%s%s got ", efn(ef), io ? " io" : "") + dump_units(got)); ++counter("default_endianness_probes"); ++S().evaluations;
    }
    { Rng q(shard_seed(1800)); try { mixed(q); } catch (const std::exception& x) { fail("mixed-threw", std::string(g_case) + x.what()); } }
    unlink("source.bin");
    return done();
}
