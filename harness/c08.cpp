#include "common.hpp"
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/unicode/formats.hpp>
#include <limits>
using namespace h;
using cmp::sign_status; using cmp::thousands_separator; using PT = cmp::parse_failed::type;
static int dig(char32_t c) { if (c >= '0' && c <= '9') return (int)(c - '0'); if (c >= 'a' && c <= 'z') return (int)(c - 'a' + 10); if (c >= 'A' && c <= 'Z') return (int)(c - 'A' + 10); return 99; }
struct F { unsigned radix; sign_status ss; thousands_separator ts; char sep() const { return ts == thousands_separator::none ? 0 : ts == thousands_separator::comma ? ',' : '.'; } };
// reference grammar: [sign] D+ without a separator, [sign] D{1,3}(sep D{3})* with one. nullopt-like: ok=false.
struct Ref { bool ok, neg, overflow; unsigned __int128 mag; };
static Ref ref_parse(const U32& t, const F& f) {
    Ref o{false, false, false, 0};
    size_t i = 0;
    if (!t.empty() && (t[0] == '-' || (t[0] == '+' && f.ss == sign_status::always_show))) { o.neg = t[0] == '-'; i = 1; }
    size_t n = t.size() - i;
    if (!n) return o;
    char sep = f.sep();
    for (size_t k = 0; k < n; ++k) { // k counted from the right
        char32_t c = t[t.size() - 1 - k];
        if (sep && k % 4 == 3) { if (c != (char32_t)sep || k == n - 1) return o; continue; }
        if (dig(c) >= (int)f.radix) return o;
    }
    for (; i < t.size(); ++i) { if (sep && t[i] == (char32_t)sep) continue; if (o.mag > ((unsigned __int128)1 << 110)) o.overflow = true; else o.mag = o.mag * f.radix + (unsigned)dig(t[i]); }
    o.ok = true; return o;
}
template <class T, class Obj> void run(const Obj& obj, const U32& t, const F& f, const Ref& want, const char* what) {
    using L = std::numeric_limits<T>;
    bool fits = want.ok && !want.overflow && (want.neg ? std::is_signed_v<T> && want.mag <= (unsigned __int128)L::max() + 1 : want.mag <= (unsigned __int128)L::max());
    std::string txt; for (char32_t c : t) txt += c < 0x7F && c >= 0x20 ? std::string(1, (char)c) : fmt("<%X>", (unsigned)c);
    auto D = [&](const std::string& w) { return w + " text='" + txt + fmt("' radix %u sep '%c' %s sizeof %zu %s %s", f.radix, f.sep() ? f.sep() : '_', f.ss == sign_status::always_show ? "always_show" : "neg_only", sizeof(T), std::is_signed_v<T> ? "signed" : "unsigned", what); };
    cmp::integer_format fo{f.radix, f.ss, f.ts};
    try {
        T got = cmp::parse_integer<T>(obj, fo);
        if (!fits) { fail(want.ok ? "accepted-out-of-range" : "accepted-malformed", D("returned " + std::to_string(got))); return; }
        __int128 exp = want.neg ? -(__int128)want.mag : (__int128)want.mag;
        if ((__int128)got != exp) fail("wrong-value", D("returned " + std::to_string(got)));
        ++counter("accepted");
    } catch (const cmp::parse_failed& e) {
        if (fits) { fail("rejected-valid", D(e.what())); return; }
        ++counter("rejected");
        PT k = e.get_type();
        if (t.empty()) CHECK(k == PT::empty_input, "wrong-reason", D("empty text"));
        if (want.ok && want.neg && !std::is_signed_v<T> && !want.overflow && want.mag <= (unsigned __int128)L::max()) { CHECK(k == PT::negative_unsigned, "wrong-reason", D("negative unsigned")); ++counter("rejected_negative_unsigned"); }
        if (want.ok && !(want.neg && !std::is_signed_v<T>)) { CHECK(k == PT::out_of_range, "wrong-reason", D("out of range")); ++counter("rejected_out_of_range"); }
    } catch (const std::exception& e) { fail("other-exception", D(e.what())); }
}
template <class Str> bool representable(const U32& t) { if (std::is_same_v<Str, std::string>) for (char32_t c : t) if (c > 0x7F) return false; return true; }
template <class T, class Str> void text_in(const U32& t, const F& f, const Ref& w) {
    using C = typename Str::value_type;
    if (!representable<Str>(t)) return;
    Str s = encode<Str>(t); auto ex = Exact<C>::of(s);
    run<T>(ex.view(), t, f, w, cname<C>());
}
template <class T> void text(const U32& t, const F& f, bool all) {
    std::string a; for (char32_t c : t) a += c < 0x7F ? (char)c : '?';
    set_case("C08 '" + a + fmt("' radix %u", f.radix));
    Ref w = ref_parse(t, f);
    text_in<T, std::u8string>(t, f, w);
    if (all) {
        text_in<T, std::string>(t, f, w); text_in<T, std::u16string>(t, f, w); text_in<T, std::u32string>(t, f, w); text_in<T, std::wstring>(t, f, w);
        std::u8string s = encode<std::u8string>(t); run<T>(s, t, f, w, "u8string");
        if (t.find(U'\0') == U32::npos) { ExactZ<char8_t> z(s); const char8_t* p = z.ptr(); run<T>(p, t, f, w, "pointer"); if (s.size() < 20) { char8_t a[24]; std::fill_n(a, 24, u8'1'); std::copy(s.begin(), s.end(), a); a[s.size()] = 0; run<T>(a, t, f, w, "array"); ++counter("arrays"); } }
    }
    ev(hash_units<char32_t>(t, f.radix * 31 + (int)f.ts * 3 + (int)f.ss + sizeof(T) * 1000 + std::is_signed_v<T>), !t.empty());
}
static const sign_status SS[] = {sign_status::always_show, sign_status::only_when_negative};
static const thousands_separator TS[] = {thousands_separator::none, thousands_separator::comma, thousands_separator::period};
static F anyf(Rng& r) { return {r.chance(1, 3) ? 10u : 2 + (unsigned)r.below(35), SS[r.below(2)], TS[r.below(3)]}; }
static U32 spell(unsigned __int128 m, bool neg, const F& f, Rng& r, size_t zeros) { // canonical, possibly lower case, extra zeros
    std::string d;
    while (m) { d += "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(int)(m % f.radix)]; m /= f.radix; }
    if (d.empty()) d = "0";
    d.append(zeros, '0');
    U32 o;
    bool lower = r.chance(1, 4);
    for (size_t i = 0; i < d.size(); ++i) { if (f.sep() && i && i % 3 == 0) o += (char32_t)f.sep(); o += (char32_t)(lower && d[i] >= 'A' && r.chance(2, 3) ? d[i] + 32 : d[i]); }
    if (neg) o += '-'; else if (f.ss == sign_status::always_show && r.chance(3, 4)) o += '+';
    return U32(o.rbegin(), o.rend());
}
template <class T> void type(Rng& r, const char* tn) {
    using L = std::numeric_limits<T>;
    unsigned shard = (unsigned)S().shard, n = (unsigned)S().nshards;
    // round trip of every value of small types; boundary values in every radix
    if constexpr (sizeof(T) <= 2) {
        for (int64_t v = (int64_t)L::min() + shard; v <= (int64_t)L::max(); v += n * (S().thorough ? 1 : sizeof(T) == 1 ? 1 : 4)) { F f = anyf(r); auto s = cmp::format_integer<std::u8string>((T)v, cmp::integer_format{f.radix, f.ss, f.ts}); U32 t(s.begin(), s.end()); text<T>(t, f, false); ++counter("round_trips"); }
    }
    for (unsigned radix = 2 + shard; radix <= 36; radix += n) for (auto ss : SS) for (auto ts : TS) {
        F f{radix, ss, ts};
        unsigned __int128 mx = (unsigned __int128)L::max(), um = (unsigned __int128)UINT64_MAX;
        for (unsigned __int128 m : {mx, mx + 1, mx + 2, mx - 1, mx * radix, mx * radix + 1, mx * 2, mx * 2 + 1, mx * 2 + 2, mx * 2 + 3, mx + mx / 2, um, um + 1, um + 2, um * radix, um * 2, (unsigned __int128)radix, (unsigned __int128)0, ((unsigned __int128)1 << 32), ((unsigned __int128)1 << 32) + 5, ((unsigned __int128)1 << 64) + 5, ((unsigned __int128)1 << 63) * 3})
            for (bool neg : {false, true}) { text<T>(spell(m, neg, f, r, 0), f, radix % 7 == 3); if (r.chance(1, 4)) text<T>(spell(m, neg, f, r, 1 + r.below(70)), f, false); ++counter("boundary_texts"); }
    }
    // leading zeros and digits by the hundreds and beyond 16-bit counts
    for (size_t i = 0; i < (S().thorough ? 400u : 24u); ++i) {
        F f = anyf(r); unsigned __int128 v = r.chance(1, 3) ? (unsigned __int128)L::max() + r.below(2) : (unsigned __int128)(r.next() >> r.below(64)); bool neg = r.chance(1, 3); size_t zeros = i % 12 == 0 ? 65500 + r.below(100) : 100 + r.below(700);
        U32 t = spell(v, neg, f, r, zeros); if (r.chance(1, 4)) t[r.below(t.size())] = U'x'; if (r.chance(1, 6)) t.insert(r.below(t.size()), 1, U'1'); text<T>(t, f, i % 6 == 0); ++counter("long_texts");
    }
    size_t m = S().thorough ? 200000 : 8000;
    for (size_t i = 0; i < m; ++i) {
        F f = anyf(r); U32 t = spell((unsigned __int128)(r.next() >> r.below(64)) * (r.chance(1, 8) ? r.next() >> r.below(64) : 1), r.chance(1, 3), f, r, r.chance(1, 8) ? r.below(6) : 0);
        if (r.chance(1, 2)) { // mutate
            static const std::vector<char32_t> soup{'-', '+', ',', '.', '0', '1', '9', 'A', 'a', 'F', 'Z', 'z', ' ', 0, '/', ':', '@', '[', '`', '{', 0x130, 0x131, 0x17F, 0x212A, 0x660, 0xFF11, 0x1D7CE, 0x10030, 0x100, 0x141, 0x2C30};
            for (size_t k = 1 + r.below(3); k--;) {
                size_t p = r.below(t.size() + 1);
                switch (r.below(5)) { case 0: t.insert(p, 1, r.pick(soup)); break; case 1: if (!t.empty()) t[p % t.size()] = r.pick(soup); break; case 2: if (!t.empty()) t.erase(p % t.size(), 1); break;
                    case 3: if (p < t.size() && t.size() > 1) std::swap(t[p], t[r.below(t.size())]); break; default: t.insert(p, 1, f.sep() ? f.sep() : '7'); }
            }
            ++counter("mutated_texts");
        }
        text<T>(t, f, i % 5 == 0);
        if (i < 1) { std::string a; for (char32_t c : t) a += c < 0x7F ? (char)c : '?'; sample(std::string(tn) + fmt(" radix %u: '", f.radix) + a + "'"); }
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(8));
    // every text of up to 4 (thorough 6) characters over a small alphabet
    static const char32_t al[] = {U'-', U'+', U',', U'.', U'0', U'1', U'7', U'a', U'Z'};
    uint64_t idx = 0; size_t maxlen = S().thorough ? 6 : 4;
    std::vector<U32> level{U32{}};
    static const F fs[] = {{10, SS[0], TS[0]}, {10, SS[1], TS[1]}, {8, SS[0], TS[2]}, {36, SS[1], TS[0]}, {2, SS[0], TS[1]}};
    for (size_t len = 0; len <= maxlen; ++len) {
        std::vector<U32> next;
        for (auto& t : level) { for (auto& f : fs) if (idx++ % (uint64_t)S().nshards == (uint64_t)S().shard) { text<int>(t, f, false); text<unsigned char>(t, f, false); ++counter("exhaustive_short_texts"); } if (len < maxlen) for (char32_t c : al) next.push_back(t + c); }
        level = std::move(next);
    }
    type<signed char>(r, "signed char"); type<unsigned char>(r, "unsigned char"); type<char>(r, "char"); type<short>(r, "short"); type<unsigned short>(r, "unsigned short");
    type<int>(r, "int"); type<unsigned>(r, "unsigned"); type<long>(r, "long"); type<unsigned long>(r, "unsigned long"); type<long long>(r, "long long"); type<unsigned long long>(r, "unsigned long long");
    return done();
}
