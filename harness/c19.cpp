#include "fsutil.hpp"
#include <cmp/io/file.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/text_input_stream.hpp>
#include <cmp/io/exceptions.hpp>
using namespace h;
// Reads `src` to the end by requests of the sizes in `req` (cycled) and judges every count, byte and end-of-data answer.
template <class Src> void consume(Src& src, const std::vector<uint8_t>& want, const std::vector<size_t>& req, const std::string& tag, bool while_not_end, bool flip) {
    size_t pos = 0, steps = 0, i = 0, zero = 0;
    auto bad = [&](const char* k, const std::string& d) { std::string q; for (size_t x : req) q += " " + std::to_string(x); fail(tag + ":" + k, d + fmt(" | %zu bytes, requests%s, at byte %zu", want.size(), q.c_str(), pos)); };
    for (;;) {
        bool e = src.is_at_end(); ++counter("end_queries");
        if (e != (pos >= want.size())) { bad(e ? "end-early" : "end-late", ""); return; }
        if (while_not_end && e) break;
        if (++steps > 4 * want.size() + 40) { bad("endless", ""); return; }
        size_t n = req[i++ % req.size()], expect = std::min(n, want.size() - pos);
        std::unique_ptr<std::byte[]> b(new std::byte[n]); if (n) std::memset(b.get(), 0xC3, n);
        size_t g = src.read(b.get(), n); ++counter("reads"); if (expect < n) ++counter("reads_hitting_the_end"); if (expect == 0 && n) ++counter("reads_at_the_end");
        if (g != expect) { bad("count", fmt("read(%zu) returned %zu instead of %zu", n, g, expect)); return; }
        if (flip) std::reverse(b.get(), b.get() + g);
        if (g && std::memcmp(b.get(), want.data() + pos, g)) { bad("bytes", fmt("read(%zu)", n)); return; }
        for (size_t k = g; k < n; ++k) if ((uint8_t)b[k] != 0xC3) { bad("touched", fmt("read(%zu) returned %zu but changed byte %zu", n, g, k)); return; }
        pos += g;
        if (pos >= want.size() && ++zero > 4) break;
    }
    if (pos != want.size()) bad("lost", fmt("consumed %zu bytes", pos));
    // one more request at the end
    std::byte x[5]; std::memset(x, 0xC3, 5); size_t g = src.read(x, 5); if (g != 0) bad("past-end", fmt("returned %zu", g)); for (auto c : x) if ((uint8_t)c != 0xC3) { bad("past-end-touched", ""); break; }
    if (!src.is_at_end()) bad("end-forgotten", "");
    ++counter("passes");
}
template <class R> void over(R& res, const std::vector<uint8_t>& want, const std::vector<size_t>& req, std::string tag, int how, bool wne) {
    if (how == 0) consume(res, want, req, tag, wne, false);
    else if (how == 1) { cmp::input_stream<R> s{res}; consume(s, want, req, tag + "/input_stream", wne, false); }
    else if (how == 2) { cmp::data_input_stream<R> s{res, std::endian::big}; consume(s, want, req, tag + "/data_input_stream(big)", wne, std::endian::native != std::endian::big); }
    else if (how == 3) { cmp::text_input_stream<R> s{res, cmp::encoding_form::utf16, std::endian::native}; consume(s, want, req, tag + "/text_input_stream", wne, false); }
    else { // values until the end: the last partial value must throw and invent nothing
        cmp::data_input_stream<R> s{res, std::endian::little}; size_t pos = 0; uint32_t v;
        while (!s.is_at_end()) {
            v = 0xDEADBEEF; bool threw = false; try { s >> v; } catch (const cmp::read_past_end&) { threw = true; }
            size_t left = want.size() - pos;
            if (left >= 4) { uint32_t e = want[pos] | want[pos+1] << 8 | want[pos+2] << 16 | (uint32_t)want[pos+3] << 24; if (threw || v != e) { fail(tag + ":value", fmt("at %zu of %zu", pos, want.size())); return; } pos += 4; }
            else { if (!threw || v != 0xDEADBEEF) fail(tag + ":partial-value", fmt("%zu bytes left, threw %d value %X", left, threw, v)); ++counter("partial_values"); return; }
        }
        if (pos != want.size()) fail(tag + ":value-end", fmt("stopped at %zu of %zu", pos, want.size()));
        bool threw = false; v = 0xDEADBEEF; try { s >> v; } catch (const cmp::read_past_end&) { threw = true; } if (!threw || v != 0xDEADBEEF) fail(tag + ":value-past-end", fmt("threw %d", threw)); ++counter("values_past_end");
    }
}
template <class C> C make(const std::vector<uint8_t>& v) { C c; c.resize(v.size() / sizeof(typename C::value_type)); if (!v.empty()) std::memcpy(c.data(), v.data(), c.size() * sizeof(typename C::value_type)); return c; }
// The path a file was opened by may lead elsewhere by the time it is read: the open file is what counts.
struct Elsewhere {
    int what; bool back = false;
    Elsewhere(int w, const std::vector<uint8_t>& v) : what(w) {
        if (what == 1) { if (rename("e.bin", "e2.bin") == 0) ++counter("renamed_files"); }
        else if (what == 2) { if (unlink("e.bin") == 0) ++counter("unlinked_files"); }
        else if (what == 3) { auto o = v; o.resize(v.size() < 3 ? 9 : v.size() / 2, 0x11); put("e2.bin", o); if (rename("e2.bin", "e.bin") == 0) ++counter("replaced_files"); }
        else if (what == 4) { mkdir("sub", 0700); if (chdir("sub") == 0) { back = true; ++counter("directory_changes"); } }
    }
    ~Elsewhere() { if (back && chdir("..") != 0) _exit(99); unlink("e2.bin"); rmdir("sub"); }
};
static int g_elsewhere = 0;
static void one(const std::vector<uint8_t>& v, size_t cap, const std::vector<size_t>& req, int kind, int how, bool wne) {
    std::string tag; uint64_t hh = v.size() * 1000003 + cap * 7919 + kind * 131 + how * 17 + wne; for (size_t q : req) hh = hh * 31 + q;
    set_case(fmt("C19 kind %d how %d size %zu cap %zu first request %zu", kind, how, v.size(), cap, req[0]));
    try {
        if (kind == 0) { put("e.bin", v); cmp::file f{"e.bin", cmp::access_mode::read_only, cmp::if_not_there::fail, cap}; Elsewhere el(g_elsewhere, v); over(f, v, req, el.what ? "file-elsewhere" : "file", how, wne); }
        else if (kind == 1) { put("e.bin", v); cmp::file f{"e.bin", cmp::access_mode::read_and_write, cmp::if_not_there::fail, cap}; Elsewhere el(g_elsewhere, v); over(f, v, req, el.what ? "file-elsewhere" : "file-rw", how, wne); }
        else if (kind == 2) { cmp::opaque_container_input_resource<std::vector<std::byte>> r{make<std::vector<std::byte>>(v), cap}; over(r, v, req, "opaque-in", how, wne); }
        else if (kind == 3) { auto c = make<std::string>(v); cmp::transparent_container_input_resource<std::string> r{c, cap}; over(r, v, req, "transparent-in", how, wne); }
        else if (kind == 4) { auto c = make<std::u32string>(v); auto w = v; w.resize(c.size() * 4); cmp::transparent_container_io_resource<std::u32string> r{c, cap}; over(r, w, req, "transparent-io", how, wne); }
        else { auto c = make<std::u16string>(v); auto w = v; w.resize(c.size() * 2); cmp::opaque_container_io_resource<std::u16string> r{c, cap}; over(r, w, req, "opaque-io", how, wne); }
    } catch (const std::exception& e) { fail("threw", std::string(g_case) + e.what()); }
    ev(hh, !v.empty());
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(19)); uint64_t idx = 0;
    // every combination of small content size, capacity and request size
    size_t mx = S().thorough ? 24 : 12;
    for (size_t size = 0; size <= mx; ++size) for (size_t cap = 0; cap <= 9; ++cap) for (size_t q = 1; q <= 10; ++q) for (int kind = 0; kind < 6; ++kind) if (idx++ % (uint64_t)S().nshards == (uint64_t)S().shard) {
        std::vector<uint8_t> v(size); for (auto& c : v) c = (uint8_t)r.next();
        one(v, cap, {q}, kind, 0, true); one(v, cap, {q, r.below(3), 1 + r.below(9)}, kind, 1 + (int)r.below(3), r.chance(1, 2)); one(v, cap, {q}, kind, 4, true); ++counter("exhaustive_ratios");
    }
    size_t n = S().thorough ? 60000 : 4000;
    for (size_t i = 0; i < n; ++i) {
        std::vector<uint8_t> v(r.chance(1, 10) ? r.below(20000) : r.below(200)); for (auto& c : v) c = (uint8_t)r.next();
        static const std::vector<size_t> caps{0, 1, 2, 3, 4, 7, 16, 64, 100, 1024, 4096}; size_t cap = any_cap(r, caps);
        if (r.chance(1, 3)) v.resize(cap * r.below(4) + r.below(3));
        std::vector<size_t> req; for (size_t k = 1 + r.below(5); k--;) req.push_back(r.chance(1, 4) ? cap : r.chance(1, 4) ? cap + 1 : r.below(50)); req.push_back(1 + r.below(v.size() > 1000 ? 500 : 20));
        g_elsewhere = r.chance(1, 2) ? (int)r.below(5) : 0;
        one(v, cap, req, (int)r.below(6), (int)r.below(5), r.chance(1, 2));
        if (i < 3) sample(g_case);
    }
    unlink("e.bin");
    return done();
}
