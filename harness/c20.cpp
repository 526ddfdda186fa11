// In-process monitor of the standard streams: standard input is a planned sequence of chunks,
// standard output and error are recorded, and at every system-call read from standard input
// everything inserted into uout so far must already have been written.
#include "common.hpp"
#include <errno.h>
#include <sys/syscall.h>
#include <cmp/io/uio.hpp>
#include <cmp/io/output_stream.hpp>
#include <cmp/io/exceptions.hpp>
using namespace h;
struct Virtual {
    bool on = false; std::vector<std::string> chunks; size_t next = 0, off = 0; uint64_t rng = 1;
    std::string out[3]; std::string inserted[3]; unsigned p_short = 0, p_intr = 0;
    uint64_t reads = 0, prompt_checks = 0, nonempty_prompts = 0; bool bad = false; std::string why;
    unsigned roll() { rng = mix64(rng); return (unsigned)(rng >> 17) % 100; }
    ssize_t rd(void* p, size_t n) {
        if (inserted[1].size() != out[1].size() || inserted[1] != out[1]) { bad = true; why = fmt("read from standard input with %zu of %zu inserted bytes written", out[1].size(), inserted[1].size()); }
        ++prompt_checks; if (!inserted[1].empty()) ++nonempty_prompts;
        if (roll() < p_intr) { errno = EINTR; return -1; }
        ++reads; if (next >= chunks.size()) return 0;
        std::string& c = chunks[next]; size_t k = std::min(n, c.size() - off); if (k) std::memcpy(p, c.data() + off, k); off += k; if (off >= c.size()) { ++next; off = 0; } return (ssize_t)k;
    }
    ssize_t wr(int fd, const void* p, size_t n) {
        if (roll() < p_intr) { errno = EINTR; return -1; }
        if (n > 1 && roll() < p_short) n = 1 + (size_t)(rng >> 33) % (n - 1);
        std::string b(n, 0); if (n) std::memcpy(b.data(), p, n); out[fd] += b;
        if (out[fd].size() > inserted[fd].size() || out[fd].compare(0, std::string::npos, inserted[fd], 0, out[fd].size()) != 0) { if (!bad) { bad = true; why = fmt("descriptor %d received bytes that are not the next inserted ones (%zu received, %zu inserted)", fd, out[fd].size(), inserted[fd].size()); } }
        return (ssize_t)n;
    }
};
static Virtual V; static uint64_t after_bad = 0;
static void runaway() { if (V.bad && ++after_bad > 2000) { V.on = false; fail("order-or-prompt", V.why + " (and it goes on)"); _exit(done()); } }
extern "C" ssize_t read(int fd, void* p, size_t n) { if (fd == 0 && V.on) return V.rd(p, n); return syscall(SYS_read, fd, p, n); }
extern "C" ssize_t write(int fd, const void* p, size_t n) { if ((fd == 1 || fd == 2) && V.on) { ssize_t k = V.wr(fd, p, n); runaway(); return k; } return syscall(SYS_write, fd, p, n); }
static std::string S8(const std::u8string& s) { return std::string(s.begin(), s.end()); }
static std::string S8(const U32& t) { return S8(encode<std::u8string>(t)); }
static bool space(char32_t c) { return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000; }
static void insert(cmp::stdout_stream& s, int fd, Rng& r, std::string& log) {
    if (r.chance(1, 8)) { int64_t v = (int64_t)r.next() >> r.below(60); V.inserted[fd] += std::to_string(v); log += fmt(" %d<<%lld", fd, (long long)v); s << v; return; }
    U32 t = r.chance(1, 300) ? gen_text(r, 40000) : r.chance(1, 10) ? gen_text(r, 1300) : gen_text(r, 12); std::string e = S8(t); log += fmt(" %d<<%zuB", fd, e.size());
    int how = (int)r.below(5);
    if (how == 3) { for (char32_t c : t) { V.inserted[fd] += S8(U32(1, c)); s << c; } return; }
    if (how == 4) { for (auto& c : t) c &= 0x7F; std::string a(t.begin(), t.end()); V.inserted[fd] += a; s << std::string_view(a); return; }
    if (how == 1) { for (char32_t c : t) V.inserted[fd] += S8(U32(1, c)); s << encode<std::u16string>(t); return; }
    V.inserted[fd] += e;
    if (how == 0) s << encode<std::u8string>(t); else s << encode<std::u32string>(t);
}
static void history(Rng& r, uint64_t id) {
    std::string log; V.chunks.clear(); V.next = V.off = 0; for (auto& o : V.out) o.clear(); for (auto& o : V.inserted) o.clear(); V.bad = false; V.rng = r.next(); V.p_short = (unsigned)r.below(60); V.p_intr = (unsigned)r.below(25);
    // input
    U32 t; size_t n = r.chance(1, 60) ? 30000 + r.below(40000) : r.chance(1, 8) ? 2500 : r.below(80); while (t.size() < n) { char32_t c = r.chance(1, 6) ? U'\n' : r.chance(1, 6) ? U' ' : gen_scalar(r); if (c == '\r') { if (r.chance(1, 2)) { t += U"\r\n"; } continue; } t += c; }
    std::string in = S8(t); size_t o = 0; unsigned style = (unsigned)r.below(4);
    while (o < in.size()) { size_t k = style == 0 ? 1 : style == 1 ? 1 + r.below(7) : style == 2 && n < 3000 ? 1 + r.below(2000) : in.size(); k = std::min(k, in.size() - o); V.chunks.push_back(in.substr(o, k)); o += k; }
    U32 f; for (size_t i = 0; i < t.size(); ++i) if (!(t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n')) f += t[i];
    size_t p = 0; bool raw = r.chance(1, 4); size_t rp = 0, steps = 3 + r.below(40); bool eof = false;
    log = fmt("history %llu, %zu bytes in %zu chunks:", (unsigned long long)id, in.size(), V.chunks.size());
    auto verdict = [&] { if (V.bad) { V.on = false; fail("order-or-prompt", V.why + " | " + log.substr(log.size() > 900 ? log.size() - 900 : 0)); V.on = true; V.bad = false; return true; } return false; };
    auto bad = [&](const char* k, const std::string& d) { V.on = false; fail(k, d + " | " + log.substr(log.size() > 900 ? log.size() - 900 : 0)); V.on = true; };
    V.on = true;
    for (size_t i = 0; i < steps || !eof; ++i) {
        if (S().total_violations) break;
        if (i < steps || i % 64 == 0) set_case("C20 " + log.substr(log.size() > 1500 ? log.size() - 1500 : 0));
        unsigned w = i < steps ? (unsigned)r.below(100) : 60;
        if (w < 25) insert(cmp::uout, 1, r, log);
        else if (w < 35) insert(cmp::uerr, 2, r, log);
        else if (w < 42) { log += " flush"; if (r.chance(1, 2)) cmp::uout << cmp::flush; else cmp::uout.flush(); if (V.out[1] != V.inserted[1]) bad("not-flushed", fmt("uout: %zu of %zu bytes written", V.out[1].size(), V.inserted[1].size())); ++counter("flushes"); }
        else if (w < 47) { log += " eflush"; cmp::uerr << cmp::flush; if (V.out[2] != V.inserted[2]) bad("not-flushed", fmt("uerr: %zu of %zu bytes written", V.out[2].size(), V.inserted[2].size())); ++counter("flushes"); }
        else if (raw) { size_t k = i < steps ? r.below(n > 3000 && r.chance(1, 3) ? 120000 : r.chance(1, 5) ? 3000 : 20) + 1 : n > 3000 ? 90000 : 600; if (k > 65535) ++counter("large_raw_reads"); if (i < steps) log += fmt(" read(%zu)", k); std::unique_ptr<std::byte[]> b(new std::byte[k]); size_t g = cmp::uin.read(b.get(), k); if (g > k || rp + g > in.size() || (g && std::memcmp(b.get(), in.data() + rp, g))) bad("input-bytes", fmt("read(%zu) returned %zu at %zu of %zu", k, g, rp, in.size())); else if (!g && rp < in.size()) bad("input-lost", fmt("read returned 0 at %zu of %zu", rp, in.size())); rp += g; if (!g) eof = true; ++counter("raw_reads"); }
        else if (eof && i >= steps) break;
        else if (w < 70) { if (i < steps) log += " >>c"; char32_t c = 0; bool past = false; try { cmp::uin >> c; } catch (const cmp::read_past_end&) { past = true; } catch (const std::exception& x) { bad("input-threw", x.what()); } if (past != (p >= f.size())) bad("input-end", fmt("threw %d at %zu of %zu", past, p, f.size())); else if (!past && c != f[p]) bad("input-char", fmt("U+%X instead of U+%X at %zu", (unsigned)c, (unsigned)f[p], p)); if (!past) ++p; else eof = true; ++counter("characters_read"); }
        else { bool line = w < 85; std::u8string s; log += line ? " line" : " word"; U32 want; size_t q = p; bool ends = false;
            if (line) { while (q < f.size()) { char32_t c = f[q++]; if (c == '\n') { ends = true; break; } want += c; } }
            else { while (q < f.size()) { char32_t c = f[q++]; if (!space(c)) { want += c; break; } } while (q < f.size() && !want.empty()) { char32_t c = f[q++]; if (space(c)) { ends = true; break; } want += c; } }
            bool past = false; try { if (line) cmp::uin.read_line(s); else cmp::uin >> s; } catch (const cmp::read_past_end&) { past = true; } catch (const std::exception& x) { bad("input-threw", x.what()); }
            if (past && ends) bad("input-end", fmt("%s threw although its terminator is there", line ? "line" : "word"));
            if (s != encode<std::u8string>(want)) bad(line ? "input-line" : "input-word", dump_units(s) + " expected " + dump_units(want)); p = q; if (!ends) eof = true; ++counter(line ? "lines_read" : "words_read"); }
        if (verdict()) break;
        if (i >= steps) continue;
        V.on = false; ev(hash_bytes(log.data(), log.size())); V.on = true;
    }
    cmp::uout.flush(); cmp::uerr.flush(); verdict();
    V.on = false;
    if (!S().total_violations) { if (V.out[1] != V.inserted[1]) fail("final-uout", log); if (V.out[2] != V.inserted[2]) fail("final-uerr", log); }
    ++counter("histories"); counter("bytes_out") += V.out[1].size() + V.out[2].size(); counter("bytes_in") += in.size(); if (id < 2) sample(log.substr(0, 250));
}
// texts of every length inserted, input asked for in requests of every size
static void every_size() {
    auto sizes = request_sizes(); V.chunks.clear(); V.next = V.off = 0; for (auto& o : V.out) o.clear(); for (auto& o : V.inserted) o.clear(); V.bad = false; V.p_short = V.p_intr = 0;
    size_t total = 0; for (size_t n : sizes) total += n; std::string in(total, 0); for (size_t i = 0; i < total; ++i) in[i] = (char)pattern(i); V.chunks.push_back(in); size_t a = 0; std::string why;
    V.on = true;
    for (size_t n : sizes) {
        std::u8string t(n, u8'a'); for (size_t i = 0; i < n; ++i) t[i] = (char8_t)('a' + (a + i) % 26); V.inserted[1] += S8(t); V.inserted[2] += S8(t); cmp::uout << t; cmp::uerr << t;
        std::unique_ptr<std::byte[]> b(new std::byte[n]); size_t g = cmp::uin.read(b.get(), n), k = 0; if (g <= n) while (k < g && (char)b[k] == in[a + k]) ++k;
        if (g != n || k != g) { why = fmt("read(%zu) at %zu returned %zu, right up to %zu", n, a, g, k); break; }
        a += n; if (V.bad) break;
    }
    cmp::uout.flush(); cmp::uerr.flush(); std::byte x; while (why.empty() && !V.bad && cmp::uin.read(&x, 1)) why = "more input than there is";
    V.on = false; counter("request_sizes") += sizes.size();
    if (!why.empty()) fail("every-size:input", why); else if (V.bad) fail("every-size:order-or-prompt", V.why); else if (V.out[1] != V.inserted[1] || V.out[2] != V.inserted[2]) fail("every-size:output", fmt("%zu and %zu of %zu bytes", V.out[1].size(), V.out[2].size(), V.inserted[1].size()));
    ev(2020);
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(20)); if (S().shard == S().nshards - 1) every_size();
    size_t n = S().thorough ? 60000 : 5000;
    for (size_t i = 0; i < n && !S().total_violations; ++i) history(r, i);
    counter("stdin_system_reads") = V.reads; counter("prompt_checks") = V.nonempty_prompts;
    return done();
}
