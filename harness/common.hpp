// Shared machinery of the monitoring harnesses: deterministic randomness, the
// violation/evidence recorder, the reference Unicode codec and hostile text
// generators. Nothing in here uses the library under test.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <type_traits>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <vector>
#include <unistd.h>
#include <signal.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define HAVE_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define HAVE_SAN 1
#endif
#endif
#ifdef HAVE_SAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace h {

// ------------------------------------------------------------ randomness
inline uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ------------------------------------------------------------ recorder
struct Violation { std::string key, detail; };
struct State {
    uint64_t seed = 1; bool thorough = false; int shard = 0, nshards = 1;
    std::string out, only;
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    size_t distinct_cap = 300000;
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    std::map<std::string, int> per_key;
    uint64_t total_violations = 0;
};
inline State& S() { static State s; return s; }
// description of the case being executed, printed when the process dies
inline char g_case[2048];
inline void set_case(const std::string& s) {
    size_t n = s.size() < sizeof g_case - 1 ? s.size() : sizeof g_case - 1;
    std::memcpy(g_case, s.data(), n); g_case[n] = 0;
}
inline void print_case() {
    const char p[] = "\nHARNESS-CASE: ";
    (void)!write(2, p, sizeof p - 1); (void)!write(2, g_case, std::strlen(g_case)); (void)!write(2, "\n", 1);
}
inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
inline void write_result(bool complete) {
    State& s = S();
    if (s.out.empty()) return;
    FILE* f = fopen((s.out + ".tmp").c_str(), "w");
    if (!f) { perror("result"); _exit(99); }
    fprintf(f, "{\"complete\":%s,\"shard\":%d,\"evaluations\":%llu,\"distinct\":%zu,\n\"counters\":{", complete ? "true" : "false", s.shard,
            (unsigned long long)s.evaluations, s.distinct.size());
    bool first = true;
    for (auto& c : s.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    for (size_t i = 0; i < s.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(s.samples[i]).c_str());
    fprintf(f, "],\n\"total_violations\":%llu,\"violations\":[", (unsigned long long)s.total_violations);
    for (size_t i = 0; i < s.violations.size(); ++i)
        fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\"}", i ? "," : "", jesc(s.violations[i].key).c_str(), jesc(s.violations[i].detail).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    rename((s.out + ".tmp").c_str(), s.out.c_str());
    f = fopen((s.out + ".hashes").c_str(), "wb");
    for (uint64_t v : s.distinct) fwrite(&v, 8, 1, f);
    fclose(f);
}
inline void finish_now(bool complete) { write_result(complete); _exit(S().total_violations ? 3 : 0); }
inline void fail(const std::string& key, const std::string& detail) {
    State& s = S();
    ++s.total_violations;
    if (s.per_key[key]++ < 3) {
        s.violations.push_back({key, detail});
        fprintf(stderr, "VIOL key=%s %s | case: %s\n", key.c_str(), detail.c_str(), g_case);
    }
    if (s.total_violations > 200) finish_now(true);
}
inline void ev(uint64_t hash, bool nontrivial = true) {
    State& s = S(); ++s.evaluations;
    if (nontrivial && s.distinct.size() < s.distinct_cap) s.distinct.insert(mix64(hash));
}
inline uint64_t& counter(const char* name) { return S().counters[name]; }
inline void sample(const std::string& s) { if (S().samples.size() < 6) S().samples.push_back(s); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h0 = 1469598103934665603ull) {
    auto b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h0 ^= b[i]; h0 *= 1099511628211ull; }
    return h0;
}
template <class C> uint64_t hash_units(std::basic_string_view<C> v, uint64_t h0 = 1469598103934665603ull) {
    return hash_bytes(v.data(), v.size() * sizeof(C), h0 + sizeof(C));
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
template <class V> std::string dump_units(const V& v, size_t cap = 48) {
    std::string o = "["; size_t n = 0;
    for (auto c : v) { if (n++ == cap) { o += "..."; break; } char b[16]; snprintf(b, sizeof b, "%s%llX", n > 1 ? " " : "", (unsigned long long)(sizeof(c) == 1 ? (unsigned char)c : sizeof(c) == 2 ? (uint16_t)c : (uint32_t)c)); o += b; }
    return o + "](" + std::to_string(v.size()) + ")";
}
#define CHECK(cond, key, detail) do { if (!(cond)) ::h::fail((key), (detail)); } while (0)

inline void on_terminate() {
    const char p[] = "\nHARNESS-TERMINATE: std::terminate was called\n";
    (void)!write(2, p, sizeof p - 1); print_case(); write_result(false); _exit(77);
}
inline void on_signal(int sig) {
    char b[64]; int n = snprintf(b, sizeof b, "\nHARNESS-SIGNAL: %d\n", sig); (void)!write(2, b, n); print_case(); _exit(78);
}
inline int init(int argc, char** argv) {
    State& s = S();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") s.seed = std::strtoull(v.c_str(), 0, 10);
        else if (a == "--tier") s.thorough = v == "thorough";
        else if (a == "--shard") s.shard = atoi(v.c_str());
        else if (a == "--nshards") s.nshards = atoi(v.c_str());
        else if (a == "--out") s.out = v;
        else if (a == "--only") s.only = v;
    }
    std::set_terminate(on_terminate);
#ifdef HAVE_SAN
    __sanitizer_set_death_callback(print_case);
#else
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(sig, on_signal);
#endif
    signal(SIGALRM, on_signal);
    return 0;
}
inline int done() {
    write_result(true);
    return S().total_violations ? 3 : 0;
}
inline uint64_t shard_seed(uint64_t salt = 0) { return mix64(mix64(S().seed * 1000003ull + (uint64_t)S().shard) + salt); }

// ------------------------------------------------------------ reference codec
using U32 = std::u32string;
inline bool scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
inline void enc(std::u8string& o, char32_t c) {
    if (c < 0x80) o += (char8_t)c;
    else if (c < 0x800) { o += (char8_t)(0xC0 + c / 64); o += (char8_t)(0x80 + c % 64); }
    else if (c < 0x10000) { o += (char8_t)(0xE0 + c / 4096); o += (char8_t)(0x80 + c / 64 % 64); o += (char8_t)(0x80 + c % 64); }
    else { o += (char8_t)(0xF0 + c / 262144); o += (char8_t)(0x80 + c / 4096 % 64); o += (char8_t)(0x80 + c / 64 % 64); o += (char8_t)(0x80 + c % 64); }
}
inline void enc(std::u16string& o, char32_t c) {
    if (c < 0x10000) o += (char16_t)c;
    else { uint32_t v = c - 0x10000; o += (char16_t)(0xD800 + v / 1024); o += (char16_t)(0xDC00 + v % 1024); }
}
inline void enc(std::u32string& o, char32_t c) { o += c; }
inline void enc(std::wstring& o, char32_t c) { if (sizeof(wchar_t) == 4 || c < 0x10000) o += (wchar_t)c; else { uint32_t v = c - 0x10000; o += (wchar_t)(0xD800 + v / 1024); o += (wchar_t)(0xDC00 + v % 1024); } }
inline void enc(std::string& o, char32_t c) { o += (char)c; }
template <class Str> Str encode(const U32& t) { Str o; for (char32_t c : t) enc(o, c); return o; }

// decodes the longest well-formed prefix; returns its length in code units
template <class C> size_t ref_decode(std::basic_string_view<C> v, U32& out) {
    size_t i = 0, n = v.size();
    if constexpr (std::is_same_v<C, char8_t>) {
        while (i < n) {
            uint32_t b = v[i];
            auto tr = [&](size_t k, uint32_t lo, uint32_t hi) { return i + k < n && v[i + k] >= lo && v[i + k] <= hi; };
            if (b < 0x80) { out += b; i += 1; }
            else if (b >= 0xC2 && b <= 0xDF) { if (!tr(1, 0x80, 0xBF)) return i; out += (b - 0xC0) * 64 + (v[i+1] - 0x80); i += 2; }
            else if (b >= 0xE0 && b <= 0xEF) {
                if (!tr(1, b == 0xE0 ? 0xA0 : 0x80, b == 0xED ? 0x9F : 0xBF) || !tr(2, 0x80, 0xBF)) return i;
                out += (b - 0xE0) * 4096 + (v[i+1] - 0x80) * 64 + (v[i+2] - 0x80); i += 3; }
            else if (b >= 0xF0 && b <= 0xF4) {
                if (!tr(1, b == 0xF0 ? 0x90 : 0x80, b == 0xF4 ? 0x8F : 0xBF) || !tr(2, 0x80, 0xBF) || !tr(3, 0x80, 0xBF)) return i;
                out += (b - 0xF0) * 262144 + (v[i+1] - 0x80) * 4096 + (v[i+2] - 0x80) * 64 + (v[i+3] - 0x80); i += 4; }
            else return i;
        }
    } else if constexpr (sizeof(C) == 2) {
        while (i < n) {
            uint32_t u = v[i];
            if (u < 0xD800 || u > 0xDFFF) { out += u; i += 1; }
            else if (u <= 0xDBFF && i + 1 < n && v[i+1] >= 0xDC00 && v[i+1] <= 0xDFFF) { out += 0x10000 + (u - 0xD800) * 1024 + (v[i+1] - 0xDC00); i += 2; }
            else return i;
        }
    } else {
        while (i < n) { if (!scalar((uint32_t)v[i])) return i; out += (char32_t)v[i]; ++i; }
    }
    return i;
}

// ------------------------------------------------------------ text generators
inline char32_t gen_scalar(Rng& r) {
    static const std::vector<char32_t> edge{0, 1, 9, 10, 13, ' ', '0', '9', 'A', 'Z', 'a', 'z', 0x7E, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFF, 0x100, 0x7BF, 0x7C0, 0x7FE, 0x7FF,
        0x800, 0x801, 0xFFF, 0x1000, 0x2028, 0x3FFF, 0x4000, 0xCFFF, 0xD000, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400,
        0x1D800, 0x1DBFF, 0x1DC00, 0x1DFFF, 0x1F600, 0x1FFFF, 0x20000, 0x2D800, 0x3FFFF, 0x40000, 0x4DC00, 0xFFFFF, 0x100000, 0x10D800, 0x10DFFF, 0x10FBFF, 0x10FC00, 0x10FFFE, 0x10FFFF};
    for (;;) {
        char32_t c;
        switch (r.below(7)) {
            case 0: c = (char32_t)r.below(0x80); break;
            case 1: c = 0x80 + (char32_t)r.below(0x780); break;
            case 2: c = 0x800 + (char32_t)r.below(0xF800); break;
            case 3: c = 0x10000 + (char32_t)r.below(0x100000); break;
            case 4: c = (char32_t)((1 + r.below(16)) * 0x10000 + 0xD800 + r.below(0x800)); break; // low 16 bits look like a surrogate
            default: c = r.pick(edge); break;
        }
        if (scalar(c)) return c;
    }
}
inline U32 gen_text(Rng& r, size_t maxlen, bool ascii = false, bool nul = true) {
    size_t n;
    switch (r.below(6)) { case 0: n = r.below(3); break; case 1: case 2: n = r.below(8); break; case 3: case 4: n = r.below(maxlen / 2 + 1); break; default: n = r.below(maxlen + 1); }
    U32 t;
    if (!ascii && r.chance(1, 5)) { // runs of letters with something else now and then, as blockwise processing would meet them
        while (t.size() < n) t += r.chance(1, 12) ? gen_scalar(r) : (char32_t)('a' + r.below(26));
        if (!nul) for (auto& c : t) if (!c) c = U'0';
        return t;
    }
    while (t.size() < n) { char32_t c = ascii ? (char32_t)r.below(0x80) : gen_scalar(r); if (c || nul) t += c; }
    return t;
}
// a text of more than 65536 code points (in some encodings more than 131072 or 262144 code units)
inline U32 gen_long_text(Rng& r, bool ascii = false, bool nul = true) {
    size_t n = 65500 + r.below(80) + (r.chance(1, 3) ? r.below(70000) : 0); U32 t; t.reserve(n); bool wide = r.chance(1, 2);
    while (t.size() < n) { char32_t c = ascii ? (char32_t)r.below(0x80) : wide || r.chance(1, 8) ? gen_scalar(r) : (char32_t)('a' + r.below(26)); if (c || nul) t += c; }
    return t;
}
// texts of every length up to a bound and around the powers of two: letters only, and code points of every encoded length
template <class F> void every_length(F f) {
    auto text = [](size_t n, int kind) { U32 t; for (size_t i = 0; i < n; ++i) { int k = kind == 4 ? (int)(mix64(i * 31 + n) % 4) : kind; t += k == 0 ? (char32_t)('a' + i % 26) : k == 1 ? (char32_t)(0xE0 + i % 0x600) : k == 2 ? (char32_t)(0x4E00 + i % 0x5000) : (char32_t)(0x1F300 + i % 0x300); } return t; };
    size_t top = S().thorough ? 4200 : 1100; std::vector<size_t> ns; for (size_t n = 0; n <= top; ++n) ns.push_back(n);
    for (size_t p = 2048; p <= 65536; p *= 2) for (size_t d = 0; d < 3; ++d) if (p - 1 + d > top) ns.push_back(p - 1 + d);
    for (size_t i = (size_t)S().shard; i < ns.size(); i += (size_t)S().nshards) {
        f(text(ns[i], 0)); ++counter("lengths_enumerated");
        for (int k = 1; k < 5; ++k) if ((S().thorough && ns[i] <= top) || (size_t)k == 1 + (i / (size_t)S().nshards) % 4) f(text(ns[i], k));
    }
}
// requests of every size up to a bound, upwards and downwards; byte i of the content is pattern(i)
inline uint8_t pattern(size_t i) { return (uint8_t)(mix64(i) >> 24); }
inline std::vector<size_t> request_sizes() { std::vector<size_t> v; size_t top = S().thorough ? 4200 : 1100; for (size_t n = 0; n <= top; ++n) v.push_back(n); for (size_t n = top; n; --n) v.push_back(n); for (size_t p = 2048; p <= 65536; p *= 2) for (size_t d = 0; d < 3; ++d) v.push_back(p - 1 + d); return v; }
// a heap block of exactly the text's size, so that ASan sees every stray access
template <class C> struct Exact {
    std::unique_ptr<C[]> p; size_t n;
    explicit Exact(std::basic_string_view<C> v) : p(new C[v.size()]), n(v.size()) { if (n) std::memcpy(p.get(), v.data(), n * sizeof(C)); }
    template <class Str> static Exact of(const Str& s) { return Exact(std::basic_string_view<C>(s.data(), s.size())); }
    std::basic_string_view<C> view() const { return {p.get(), n}; }
};
template <class C> struct ExactZ { // same, null-terminated
    std::unique_ptr<C[]> p; size_t n;
    explicit ExactZ(std::basic_string_view<C> v) : p(new C[v.size() + 1]), n(v.size()) { if (n) std::memcpy(p.get(), v.data(), n * sizeof(C)); p[n] = 0; }
    const C* ptr() const { return p.get(); }
};
template <class C> const char* cname() {
    if constexpr (std::is_same_v<C, char>) return "char"; else if constexpr (std::is_same_v<C, char8_t>) return "char8_t";
    else if constexpr (std::is_same_v<C, char16_t>) return "char16_t"; else if constexpr (std::is_same_v<C, char32_t>) return "char32_t"; else return "wchar_t";
}

// a buffer capacity: usually one of the small ones that give every ratio of capacity to request, sometimes any other, sometimes a large one around a power of two
inline size_t any_cap(Rng& r, const std::vector<size_t>& usual) {
    static const std::vector<size_t> big{127, 128, 129, 255, 256, 257, 511, 512, 513, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100000};
    unsigned k = (unsigned)r.below(48);
    if (k == 0) { ++counter("large_capacities"); return r.pick(big); }
    if (k <= 6) { ++counter("other_capacities"); return r.below(300); }
    return r.pick(usual);
}
} // namespace h
