#include "common.hpp"
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmath>
#include <limits>
using namespace h;
using cmp::sign_status; using cmp::thousands_separator; using cmp::radix_character; using cmp::radix_place_limit;
typedef __float128 Q;
static Q qabs(Q x) { return x < 0 ? -x : x; }
static int dig(char32_t c) { if (c >= '0' && c <= '9') return (int)(c - '0'); if (c >= 'A' && c <= 'Z') return (int)(c - 'A' + 10); return 99; }
static int digi(char32_t c) { return c >= 'a' && c <= 'z' ? (int)(c - 'a' + 10) : dig(c); }
struct F { unsigned radix; sign_status ss; thousands_separator ts; radix_character rc; radix_place_limit pl; unsigned count;
    char sep() const { return ts == thousands_separator::none ? 0 : ts == thousands_separator::comma ? ',' : '.'; } char point() const { return rc == radix_character::comma ? ',' : '.'; }
    cmp::floating_point_format obj() const { return {radix, ss, ts, rc, pl, count}; }
    std::string str() const { return fmt("radix %u %s sep '%c' point '%c' limit %d count %u", radix, ss == sign_status::always_show ? "always" : "neg-only", sep() ? sep() : '_', point(), (int)pl, count); } };
static std::string int_digits(unsigned __int128 m, unsigned radix, char sep) {
    std::string d; if (!m) return "0";
    size_t k = 0; while (m) { if (sep && k && k % 3 == 0) d += sep; d += "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(int)(m % radix)]; m /= radix; ++k; }
    return std::string(d.rbegin(), d.rend());
}
static bool pow2(unsigned r) { return (r & (r - 1)) == 0; }
// checks the shape of the text and returns the fraction digits; false if the shape is wrong
static bool split(const std::string& s, const F& f, std::string& sign, std::string& ip, std::vector<int>& frac, bool& has_point) {
    size_t i = 0; sign.clear(); if (i < s.size() && (s[i] == '-' || s[i] == '+')) sign = s[i++];
    size_t p = s.find(f.point(), i); has_point = p != std::string::npos; ip = s.substr(i, has_point ? p - i : std::string::npos);
    frac.clear(); if (!has_point) return true;
    std::string fr = s.substr(p + 1);
    for (size_t k = 0; k < fr.size(); ++k) { if (f.sep() && k % 4 == 3) { if (fr[k] != f.sep() || k + 1 == fr.size()) return false; continue; } int d = dig((unsigned char)fr[k]); if (d >= (int)f.radix) return false; frac.push_back(d); }
    return true;
}
template <class T> void value(T v, const F& f, bool all) {
    set_case(fmt("C09 value %La ", (long double)v) + f.str());
    std::u8string u; cmp::floating_point_format fo = f.obj();
    try { u = cmp::format_floating_point<std::u8string>(v, fo); } catch (const std::exception& e) { fail("format-threw", std::string(g_case) + e.what()); return; }
    std::string s(u.begin(), u.end());
    auto D = [&](const std::string& w) { return w + fmt(" value %La = %.25Lg text '", (long double)v, (long double)v) + s.substr(0, 120) + "' " + f.str() + fmt(" sizeof %zu", sizeof(T)); };
    std::string sign, ip; std::vector<int> frac; bool pt;
    if (!split(s, f, sign, ip, frac, pt)) { fail("format-shape", D("separators or digits misplaced")); return; }
    T a = std::fabs(v); unsigned __int128 I = (unsigned __int128)(unsigned long long)std::floor(a);
    T fp = a - std::floor(a);
    CHECK(sign == (v < 0 ? "-" : v > 0 && f.ss == sign_status::always_show ? "+" : ""), "format-sign", D("sign"));
    CHECK(ip == int_digits(I, f.radix, f.sep()), "format-integer-part", D("integer part"));
    // digits of the fraction
    Q shown = 0, w = 1; for (int d : frac) { w /= f.radix; shown += w * d; }
    Q real = (Q)fp, eps = (Q)std::numeric_limits<T>::epsilon();
    bool limited = f.pl != radix_place_limit::none;
    if (f.pl == radix_place_limit::exactly_equal) CHECK(frac.size() == f.count && pt == (f.count > 0), "format-places", D(fmt("%zu places", frac.size())));
    if (f.pl == radix_place_limit::up_to) CHECK(frac.size() <= f.count, "format-places", D(fmt("%zu places", frac.size())));
    if (f.pl != radix_place_limit::exactly_equal) { CHECK(pt == (fp != 0), "format-point", D("radix point")); if (pt && fp != 0 && !limited) CHECK(!frac.empty(), "format-point", D("no digit after the point")); }
    Q place = 1; for (size_t k = 0; k < frac.size(); ++k) place /= f.radix;
    bool truncated = limited && frac.size() == f.count;
    if (pow2(f.radix)) {
        if (!truncated) CHECK(shown == real, "format-fraction", D("fraction digits differ"));
        else CHECK(shown <= real && real - shown < place, "format-fraction", D("truncated fraction digits differ"));
    } else {
        Q tol = 4 * eps + (truncated ? place : f.radix % 2 && !limited ? 4 * eps * (a > 1 ? (Q)a : 1) + 0 : (Q)0);
        // odd radices without limit stop at the precision of the value itself
        if (f.radix % 2 && !limited) tol = 8 * f.radix * eps * (a > 1 ? (Q)a : 1);
        CHECK(qabs(shown - real) <= tol, "format-fraction", D(fmt("fraction off by %.6Lg", (long double)(shown - real))));
        // truncation never rounds up (beyond the precision)
        if (truncated) CHECK(shown <= real + 4 * eps, "format-rounded-up", D("place limit must truncate"));
    }
    ++counter("formatted");
    if (all) {
        auto same = [&](auto tag) { using O = decltype(tag); O o = cmp::format_floating_point<O>(v, fo); CHECK(o == O(s.begin(), s.end()), std::string("format-target:") + cname<typename O::value_type>(), D("")); };
        same(std::string{}); same(std::u16string{}); same(std::u32string{}); same(std::wstring{}); ++counter("all_target_types");
    }
    // parse back
    Q text_value = (Q)I + shown; if (sign == "-") text_value = -text_value;
    auto back = [&](const auto& obj, const char* what) {
        try {
            T p = cmp::parse_floating_point<T>(obj, fo);
            Q tol = ((Q)frac.size() + 3) * eps * ((Q)I + 1);
            if (pow2(f.radix) && !truncated) CHECK(p == v, "round-trip", D(fmt("%s parsed %La", what, (long double)p)));
            else CHECK(qabs((Q)p - text_value) <= tol, "parse-value", D(fmt("%s parsed %.25Lg", what, (long double)p)));
            ++counter("round_trips");
        } catch (const std::exception& e) { fail("parse-rejected-formatted", D(std::string(what) + " " + e.what())); }
    };
    // text "I." (no digit) only arises when a limit of zero places applies
    if (!(pt && frac.empty())) {
        back(u, "u8");
        if (all) { back(std::string(s), "char"); back(std::u16string(s.begin(), s.end()), "u16"); std::u32string q(s.begin(), s.end()); auto ex = Exact<char32_t>::of(q); back(ex.view(), "u32 view"); back(std::wstring(s.begin(), s.end()), "wide"); }
    }
    ev(hash_bytes(s.data(), s.size(), f.radix * 131 + (int)f.pl + sizeof(T)), fp != 0);
}
// the reference grammar of floating-point text
static bool ref_ok(const U32& t, const F& f, Q& val, bool& care) {
    care = true; size_t p = t.find((char32_t)f.point()); U32 ip = t.substr(0, p);
    size_t i = 0; bool neg = false;
    if (!ip.empty() && (ip[0] == '-' || (ip[0] == '+' && f.ss == sign_status::always_show))) { neg = ip[0] == '-'; i = 1; }
    size_t n = ip.size() - i; if (!n) return false;
    unsigned __int128 m = 0;
    for (size_t k = 0; k < n; ++k) { char32_t c = ip[ip.size() - 1 - k]; if (f.sep() && k % 4 == 3) { if (c != (char32_t)f.sep() || k == n - 1) return false; continue; } if (digi(c) >= (int)f.radix) return false; }
    for (; i < ip.size(); ++i) if (!(f.sep() && ip[i] == (char32_t)f.sep())) { if (m < ((unsigned __int128)1 << 100)) m = m * f.radix + (unsigned)digi(ip[i]); }
    if (m >= ((unsigned __int128)1 << 63)) { care = false; return false; }
    val = (Q)m; size_t places = 0;
    if (p != U32::npos) {
        U32 fr = t.substr(p + 1); if (fr.empty()) { care = false; return true; }
        Q w = 1; for (size_t k = 0; k < fr.size(); ++k) { if (f.sep() && k % 4 == 3) { if (fr[k] != (char32_t)f.sep() || k + 1 == fr.size()) return false; continue; } int d = digi(fr[k]); if (d >= (int)f.radix) return false; w /= f.radix; val += w * d; ++places; }
    }
    if (f.pl == radix_place_limit::exactly_equal && places != f.count) return false;
    if (f.pl == radix_place_limit::up_to && places > f.count) return false;
    if (neg) val = -val;
    return true;
}
template <class T> void text(const U32& t, const F& f) {
    std::string a; for (char32_t c : t) a += c < 0x7F && c >= 0x20 ? std::string(1, (char)c) : fmt("<%X>", (unsigned)c);
    set_case("C09 text '" + a + "' " + f.str());
    Q val; bool care; bool ok = ref_ok(t, f, val, care);
    auto D = [&](const std::string& w) { return w + " text '" + a + "' " + f.str(); };
    std::u32string s(t); auto ex = Exact<char32_t>::of(s);
    try {
        T got = cmp::parse_floating_point<T>(ex.view(), f.obj());
        if (!care) return;
        if (!ok) { fail("parse-accepted", D(fmt("returned %.20Lg", (long double)got))); return; }
        Q tol = ((Q)t.size() + 3) * (Q)std::numeric_limits<T>::epsilon() * (qabs(val) + 1);
        CHECK(qabs((Q)got - val) <= tol, "parse-wrong", D(fmt("returned %.20Lg", (long double)got)));
        ++counter("texts_accepted");
    } catch (const cmp::parse_failed& e) { if (care && ok) fail("parse-rejected", D(e.what())); else ++counter("texts_rejected"); }
    catch (const std::exception& e) { fail("parse-other-exception", D(e.what())); }
    ev(hash_units<char32_t>(t, f.radix * 17 + (int)f.pl * 5 + f.count), !t.empty());
}
static F anyf(Rng& r) {
    F f{r.chance(1, 3) ? 10u : r.chance(1, 3) ? (unsigned)(2u << r.below(5)) : 2 + (unsigned)r.below(35), r.chance(1, 2) ? sign_status::always_show : sign_status::only_when_negative, thousands_separator::none, r.chance(1, 2) ? radix_character::comma : radix_character::period, (radix_place_limit)0, 0};
    switch (r.below(3)) { case 0: f.pl = radix_place_limit::none; f.count = r.chance(1, 4) ? (unsigned)r.below(5) : 0; break; case 1: f.pl = radix_place_limit::exactly_equal; f.count = 1 + (unsigned)r.below(r.chance(1, 6) ? 40 : 9); break; default: f.pl = radix_place_limit::up_to; f.count = 1 + (unsigned)r.below(r.chance(1, 6) ? 40 : 9); }
    if (r.chance(1, 2)) f.ts = f.rc == radix_character::comma ? thousands_separator::period : thousands_separator::comma;
    return f;
}
template <class T> T anyv(Rng& r) {
    T v;
    switch (r.below(9)) {
        case 0: v = (T)(r.next() >> r.below(64)) / (T)(1ull << r.below(40)); break;
        case 1: v = (T)r.below(100000) / (T)(r.chance(1, 2) ? 100 : 1000); break;
        case 2: v = (T)r.below(2000); break;
        case 3: v = std::ldexp((T)(r.next() >> 11), -(int)(11 + r.below(80))); break;
        case 4: v = std::ldexp((T)1, -(int)r.below(60)); break;
        case 5: v = (T)r.below(1000) + std::ldexp((T)1, -(int)r.below(20)); break;
        case 6: v = std::nextafter((T)r.below(1200), (T)(r.chance(1, 2) ? -1 : 1e9)); break;
        case 7: v = std::ldexp((T)1, 63) - std::ldexp((T)1, (int)(63 - 1 - r.below(std::numeric_limits<T>::digits < 30 ? 20 : 45))); break;
        default: v = (T)r.below(1000) / (T)(1 + r.below(1000)); break;
    }
    if (!(v < std::ldexp((T)1, 63))) v = (T)1e6;
    if (v != 0 && v < std::ldexp((T)1, -100)) v = std::ldexp((T)1, -100);
    if (v < 0) v = -v;
    return r.chance(2, 5) ? -v : v;
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(9));
    size_t n = S().thorough ? 800000 : 40000;
    for (size_t i = 0; i < n; ++i) {
        F f = anyf(r);
        switch (i % 3) { case 0: value<double>(anyv<double>(r), f, i % 9 == 0); break; case 1: value<float>(anyv<float>(r), f, i % 10 == 1); break; default: value<long double>(anyv<long double>(r), f, i % 11 == 2); }
        if (i < 3) sample(std::string(g_case));
    }
    for (F f = anyf(r); S().shard == 0;) { for (double z : {0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 999.0, 1000.0, -999.999, -1000.5, 0.001, 0.125, 123456.789, 9007199254740993.0}) for (int k = 0; k < 60; ++k) { f = anyf(r); if (std::signbit(z) && z == 0) z = 0.0; value<double>(z, f, false); value<float>((float)z, f, false); } break; }
    // default format
    { double v = 1234.5; auto s = cmp::format_floating_point<std::u8string>(v, cmp::floating_point_format{}); CHECK(s == u8"1234.5", "default-format", ""); }
    // hundreds of places, leading zeros beyond what a byte counts
    for (size_t i = 0; i < (S().thorough ? 6000u : 300u); ++i) {
        F f = anyf(r); if (f.pl != radix_place_limit::none) f.count = 100 + (unsigned)r.below(400);
        value<double>(anyv<double>(r), f, i % 20 == 0); value<float>(anyv<float>(r), f, false); value<long double>(anyv<long double>(r), f, false); ++counter("many_places");
        U32 t; if (r.chance(1, 3)) t += U'-'; size_t zeros = r.below(400), places = r.below(400), k = 0; U32 ip(zeros, U'0'); for (size_t d = 1 + r.below(9); d--;) ip += (char32_t)(U'0' + r.below(std::min(f.radix, 10u)));
        for (size_t j = 0; j < ip.size(); ++j) { t += ip[j]; size_t left = ip.size() - 1 - j; if (f.sep() && left && left % 3 == 0) t += (char32_t)f.sep(); }
        t += (char32_t)f.point(); for (; k <= places; ++k) { if (f.sep() && k && k % 3 == 0) t += (char32_t)f.sep(); t += (char32_t)(U'0' + r.below(std::min(f.radix, 10u))); }
        if (f.pl != radix_place_limit::none && r.chance(2, 3)) f.count = (unsigned)(places + (r.chance(1, 2) ? 1 : r.below(3)));
        if (r.chance(1, 4)) t[r.below(t.size())] = U'x'; text<double>(t, f); text<long double>(t, f); ++counter("long_texts");
    }
    // exhaustive short texts and mutated texts
    static const char32_t al[] = {U'-', U'+', U',', U'.', U'0', U'1', U'a', U'9'};
    std::vector<U32> level{U32{}}; uint64_t idx = 0; size_t maxlen = S().thorough ? 6 : 5;
    std::vector<F> fs; { Rng q(77); for (int i = 0; i < 6; ++i) { F f = anyf(q); f.count = f.pl == radix_place_limit::none ? 0 : 1 + i % 3; f.radix = i % 2 ? 10 : 16; fs.push_back(f); } }
    for (size_t len = 0; len <= maxlen; ++len) { std::vector<U32> next; for (auto& t : level) { for (auto& f : fs) if (idx++ % (uint64_t)S().nshards == (uint64_t)S().shard) { text<double>(t, f); ++counter("exhaustive_short_texts"); } if (len < maxlen) for (char32_t c : al) next.push_back(t + c); } level = std::move(next); }
    for (size_t i = 0; i < n; ++i) {
        F f = anyf(r); auto u = cmp::format_floating_point<std::u32string>(anyv<double>(r), f.obj()); U32 t(u);
        if (t.size() > 60) continue;
        static const std::vector<char32_t> soup{'-', '+', ',', '.', '0', '1', '9', 'A', 'z', ' ', 0, '/', ':', '@', '[', 0x131, 0x660, 0x1D7CE, 0x212A};
        for (size_t k = r.below(3); k--;) { size_t p = r.below(t.size() + 1); switch (r.below(4)) { case 0: t.insert(p, 1, r.pick(soup)); break; case 1: if (!t.empty()) t[p % t.size()] = r.pick(soup); break; case 2: if (!t.empty()) t.erase(p % t.size(), 1); break; default: if (p < t.size()) std::swap(t[p], t[r.below(t.size())]); } }
        if (i % 2) text<double>(t, f); else text<long double>(t, f);
        ++counter("mutated_texts");
    }
    return done();
}
