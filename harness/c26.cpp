// C26: resources written by the user (classes derived from input_resource, output_resource and io_resource)
#include "common.hpp"
#include "hugemem.hpp"
#include <cmp/io/input_resource.hpp>
#include <cmp/io/output_resource.hpp>
#include <cmp/io/io_resource.hpp>
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/text_input_stream.hpp>
#include <cmp/io/text_output_stream.hpp>
#include <cmp/io/file.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <cmp/io/io_buffer.hpp>
#include <cmp/io/output_stream.hpp>
#include <algorithm>
#include <filesystem>
#include <optional>
using namespace h;
using Bytes = std::vector<uint8_t>;
struct Out : cmp::output_resource { // an unseekable destination that takes everything it is given
    Bytes sent, written; std::string* log; bool order_ok = true;
    Out(size_t cap, std::string* l) : transfer_resource(cap), output_resource(cap), log(l) {}
    bool is_at_end() const noexcept override { return true; }
    bool prefix() const { return sent.size() <= written.size() && std::equal(sent.begin(), sent.end(), written.begin()); }
    size_t put(const uint8_t* p, size_t n) { // what is about to be written may be sent during the call already
        written.insert(written.end(), p, p + n); std::unique_ptr<std::byte[]> b(new std::byte[n]); if (n) std::memcpy(b.get(), p, n);
        size_t g = write(b.get(), n); if (n && std::memcmp(b.get(), p, n)) fail("source-changed", *log); return g;
    }
  protected:
    size_t write_raw(const std::byte* p, size_t n) override { sent.insert(sent.end(), (const uint8_t*)p, (const uint8_t*)p + n); ++counter("raw_writes"); return n; }
};
struct In : cmp::input_resource { // an unseekable source that answers as much as it likes
    Bytes data; size_t given = 0, delivered = 0; int style; Rng* r; std::vector<Out*> before; std::string* log; bool raw_called = false;
    In(size_t cap, Bytes d, int st, Rng* rr, std::string* l) : transfer_resource(cap), input_resource(cap), data(std::move(d)), style(st), r(rr), log(l) {}
    bool is_at_end() const noexcept override { return delivered >= data.size(); }
    size_t read(std::byte* p, size_t n) override { size_t g = input_resource::read(p, n); delivered += g; return g; }
  protected:
    size_t read_raw(std::byte* p, size_t n, cmp::read_request) override {
        raw_called = true; ++counter("raw_reads");
        for (Out* o : before) { ++counter("tie_observations"); if (o->sent != o->written) fail("tied-output-not-flushed", fmt("%zu of %zu bytes written to the tied resource had been sent when the source was asked; ", o->sent.size(), o->written.size()) + *log); else if (!o->sent.empty()) ++counter("tie_observations_with_text"); }
        size_t left = data.size() - given, k = std::min(n, left);
        if (k > 1) switch (style) { case 1: k = 1; break; case 2: k = 1 + r->below(k); break; case 3: k = std::min<size_t>(k, 1 + r->below(5)); break; default: break; }
        if (k < std::min(n, left)) ++counter("short_answers");
        if (n) std::memset(p, 0xEE, n); // everything the library offers must be its or the caller's memory
        if (k) std::memcpy(p, data.data() + given, k);
        given += k; return k;
    }
};
static Bytes rnd(Rng& r, size_t n) { Bytes b(n); for (auto& c : b) c = (uint8_t)r.next(); return b; }
static size_t cap_of(Rng& r) { static const std::vector<size_t> c{0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 1024}; return any_cap(r, c); }
static size_t req(Rng& r, size_t cap) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return cap; case 3: return cap + 1; case 4: return cap ? cap - 1 : 3; case 5: return 2 * cap + 1; default: return r.below(r.chance(1, 6) ? 400 : 20); } }
static void histories(Rng& r) {
    size_t n = S().thorough ? 400000 : 30000;
    for (size_t i = 0; i < n && !S().total_violations; ++i) {
        size_t ci = cap_of(r), co = cap_of(r), co2 = cap_of(r); int style = (int)r.below(4); Bytes d = rnd(r, r.below(r.chance(1, 8) ? 3000 : 120)); std::string log = fmt("in cap %zu style %d %zu bytes, out cap %zu/%zu:", ci, style, d.size(), co, co2);
        Out o(co, &log), o2(co2, &log); In in(ci, d, style, &r, &log); bool tied = r.chance(2, 3); if (tied) { in.tie(o); in.before.push_back(&o); log += " tie"; }
        size_t ops = 3 + r.below(40); Bytes got;
        for (size_t k = 0; k < ops && !S().total_violations; ++k) {
            set_case("C26 " + log);
            unsigned w = (unsigned)r.below(100);
            if (w < 45) {
                size_t q = req(r, ci), left = d.size() - got.size(); log += fmt(" read(%zu)", q); std::unique_ptr<std::byte[]> b(new std::byte[q]); 
                size_t g = in.read(b.get(), q); ++counter("reads");
                if (g > q || g > left) { fail("read-count", fmt("returned %zu of %zu, %zu left; ", g, q, left) + log); break; }
                if (!g && q && left) { fail("read-nothing", fmt("nothing returned with %zu bytes left; ", left) + log); break; }
                if (style == 0 && g != std::min(q, left)) { fail("read-short", fmt("returned %zu of %zu with %zu left from a source that answers in full; ", g, q, left) + log); break; }
                got.insert(got.end(), (uint8_t*)b.get(), (uint8_t*)b.get() + g);
                if (!std::equal(got.begin(), got.end(), d.begin())) { fail("read-bytes", log); break; }
            } else if (w < 85) {
                Out& t = r.chance(3, 4) ? o : o2; size_t q = req(r, &t == &o ? co : co2); log += fmt(" write%d(%zu)", &t == &o ? 1 : 2, q); Bytes x = rnd(r, q); size_t g = t.put(x.data(), q); ++counter("writes");
                if (g != q) { fail("write-count", fmt("%zu of %zu; ", g, q) + log); break; }
            } else if (w < 94) { Out& t = r.chance(2, 3) ? o : o2; log += fmt(" flush%d", &t == &o ? 1 : 2); t.flush(); ++counter("flushes"); if (t.sent != t.written) { fail("flush", fmt("%zu of %zu sent; ", t.sent.size(), t.written.size()) + log); break; } }
            else if (w < 96 ) { log += " retie"; in.tie(o2); in.before.assign(1, &o2); }
            if (!o.prefix() || !o2.prefix()) { fail("sent-bytes", log); break; }
            ev(hash_bytes(log.data(), log.size()));
        }
        o.flush(); o2.flush(); if (!S().total_violations && (o.sent != o.written || o2.sent != o2.written)) fail("final", log);
        o.flush(); if (o.sent.size() != o.written.size()) fail("flushed-twice", log);
        ++counter("histories"); if (i < 3) sample(log.substr(0, 240));
    }
}
// streams on top; the source answers in full, as streams expect
static void streams(Rng& r) {
    size_t n = S().thorough ? 100000 : 8000;
    for (size_t i = 0; i < n && !S().total_violations; ++i) {
        size_t co = cap_of(r), ci = cap_of(r); std::string log = fmt("stream, out cap %zu in cap %zu:", co, ci); bool text = r.chance(1, 2); Out o(co, &log);
        std::endian e = r.chance(1, 2) ? std::endian::big : std::endian::little; set_case("C26 " + log);
        if (text) {
            U32 t = gen_text(r, r.chance(1, 10) ? 600 : 30); for (auto& c : t) if (c == '\r') c = '.'; auto ef = (cmp::encoding_form)r.below(3); Bytes want;
            auto unit = [&](uint32_t v, int k) { for (int j = 0; j < k; ++j) want.push_back((uint8_t)(v >> 8 * (e == std::endian::big ? k - 1 - j : j))); };
            if (ef == cmp::utf8) for (auto c : encode<std::u8string>(t)) want.push_back((uint8_t)c); else if (ef == cmp::utf16) for (auto c : encode<std::u16string>(t)) unit(c, 2); else for (auto c : t) unit(c, 4);
            { cmp::text_output_stream<Out> s{o, ef, e}; o.written = want; size_t half = r.below(t.size() + 1); s << t.substr(0, half); if (!o.prefix()) fail("text-prefix", log + dump_units(t)); for (size_t k = half; k < t.size(); ++k) s << t[k]; if (r.chance(1, 2)) { s << cmp::flush; if (o.sent != want) fail("text-flush", log + dump_units(t)); } }
            if (o.sent != want) fail("text-sent", log + dump_units(t) + " sent " + dump_units(o.sent));
            In in(ci, want, 0, &r, &log); cmp::text_input_stream<In> s{in, ef, e}; U32 got; try { if (r.chance(1, 2)) s.read_all(got); else while (!s.is_at_end()) { char32_t c; s >> c; got += c; } } catch (const std::exception& x) { fail("text-threw", log + x.what()); }
            if (got != t) fail("text-read", log + dump_units(got) + " expected " + dump_units(t));
            ++counter("text_streams"); ev(hash_units<char32_t>(t, co * 31 + ci));
        } else {
            std::vector<uint64_t> v(r.below(30)); Bytes want; for (auto& x : v) { x = r.next(); for (int j = 0; j < 8; ++j) want.push_back((uint8_t)(x >> 8 * (e == std::endian::big ? 7 - j : j))); want.push_back((uint8_t)(x >> 8)); want.push_back((uint8_t)x); if (e == std::endian::little) std::swap(want[want.size() - 1], want[want.size() - 2]); }
            Bytes raw = rnd(r, r.chance(1, 60) ? 60000 + r.below(20000) : r.below(40)), rev(raw.rbegin(), raw.rend()); want.insert(want.end(), raw.begin(), raw.end()); want.insert(want.end(), rev.begin(), rev.end());
            { cmp::data_output_stream<Out> s{o, e}; o.written = want; for (auto x : v) { uint16_t z = (uint16_t)x; s << x; s << z; } if (!o.prefix()) fail("data-prefix", log);
              std::unique_ptr<std::byte[]> b(new std::byte[raw.size()]); if (!raw.empty()) std::memcpy(b.get(), raw.data(), raw.size()); size_t g = s.write(b.get(), raw.size()); size_t q = s.reverse_write(b.get(), raw.size()); if (g != raw.size() || q != raw.size()) fail("stream-write-count", log);
              if (&s.grab_resource() != &o || s.operator->() != &o) fail("stream-resource", log); }
            if (o.sent != want) fail("data-sent", log + " sent " + dump_units(o.sent) + " expected " + dump_units(want));
            In in(ci, want, 0, &r, &log); cmp::data_input_stream<In> s{in, e}; try { for (auto x : v) { uint64_t y = 0; uint16_t z = 0; s >> y; s >> z; if (y != x || z != (uint16_t)x) { fail("data-read", log); break; } } } catch (const std::exception& x) { fail("data-threw", log + x.what()); }
            if (&s.grab_resource() != &in || s.operator->() != &in) fail("stream-resource", log);
            ++counter("data_streams"); ev(hash_bytes(want.data(), want.size(), co * 31 + ci));
        }
    }
}
// a two-way resource: what is read and what is written are independent byte sequences
struct Duplex : cmp::io_resource {
    Bytes data, sent; size_t given = 0;
    Duplex(size_t cap, Bytes d) : transfer_resource(cap), io_resource(cap), data(std::move(d)) {}
    bool is_at_end() const noexcept override { return false; }
  protected:
    size_t read_raw(std::byte* p, size_t n, cmp::read_request) override { size_t k = std::min(n, data.size() - given); if (k) std::memcpy(p, data.data() + given, k); given += k; return k; }
    size_t write_raw(const std::byte* p, size_t n) override { sent.insert(sent.end(), (const uint8_t*)p, (const uint8_t*)p + n); return n; }
};
static void duplex(Rng& r) {
    for (size_t i = 0; i < (S().thorough ? 20000u : 3000u) && !S().total_violations; ++i) { // one direction only, or both mixed
        bool buffered = r.chance(1, 2); size_t cap = buffered ? 1 + r.below(40) : 0; Bytes d = rnd(r, r.below(100)), got, want; Duplex x(cap, d); int way = (int)r.below(4); if (way == 3) way = 2; std::string log = fmt("duplex cap %zu way %d:", cap, way);
        for (size_t k = 0; k < 15; ++k) { set_case("C26 " + log);
            size_t q = r.below(30); if (way == 0 || (way == 2 && r.chance(1, 2))) { log += fmt(" read(%zu)", q); std::unique_ptr<std::byte[]> b(new std::byte[q]); size_t g = x.read(b.get(), q); if (g != std::min(q, d.size() - got.size())) { fail("duplex-read-count", log); return; } got.insert(got.end(), (uint8_t*)b.get(), (uint8_t*)b.get() + g); }
            else { log += fmt(" write(%zu)", q); Bytes v = rnd(r, q); std::unique_ptr<std::byte[]> b(new std::byte[q]); if (q) std::memcpy(b.get(), v.data(), q); if (x.write(b.get(), q) != q) { fail("duplex-write-count", log); return; } want.insert(want.end(), v.begin(), v.end()); } }
        if (way == 2) { bool ok = x.sent.size() <= want.size() && std::equal(x.sent.begin(), x.sent.end(), want.begin()); if (!ok) fail("duplex-sent", log); ++counter("duplex_mixed"); } x.flush(); if (!std::equal(got.begin(), got.end(), d.begin()) || x.sent != want) fail("duplex-bytes", log); ++counter("duplex_histories"); ev(hash_bytes(log.data(), log.size()));
    }
    if (S().shard == 0) { Duplex x(16, {1, 2, 3, 4, 5, 6, 7, 8}); std::byte b[3]; x.read(b, 3); std::byte w[2]{(std::byte)0xAA, (std::byte)0xBB}; x.write(w, 2); x.flush(); ++counter("duplex_mixed_probes");
        if (x.sent != Bytes{0xAA, 0xBB}) fail("duplex-mixed", dump_units(x.sent)); }
}
// requests of more than 4 GiB into memory that is never touched
struct HugeIn : cmp::input_resource { Bytes data; size_t given = 0; HugeIn(size_t cap, Bytes d) : transfer_resource(cap), input_resource(cap), data(std::move(d)) {} bool is_at_end() const noexcept override { return given >= data.size(); }
  protected: size_t read_raw(std::byte* p, size_t n, cmp::read_request) override { size_t k = std::min(n, data.size() - given); if (k) std::memcpy(p, data.data() + given, k); given += k; return k; } };
struct HugeOut : cmp::output_resource { size_t sent = 0; HugeOut(size_t cap) : transfer_resource(cap), output_resource(cap) {} bool is_at_end() const noexcept override { return true; }
  protected: size_t write_raw(const std::byte*, size_t n) override { sent += n; return n; } };
static void huge() {
    Huge mem; if (!mem.p) { ++counter("huge_unsupported"); return; } Bytes d(900); for (size_t i = 0; i < d.size(); ++i) d[i] = (uint8_t)(i * 7 + 1);
    for (size_t cap : {(size_t)0, (size_t)16, (size_t)8192}) for (size_t n : {(size_t)0x7FFFFFFF, (size_t)0x80000001, (size_t)0xFFFFFFFF, (size_t)0x100000000, (size_t)0x100000003}) for (size_t first : {(size_t)0, (size_t)3}) {
        std::string w = fmt("request of 0x%zX after %zu, cap %zu", n, first, cap); set_case("C26 huge " + w); std::memset(mem.p, 0, 4096);
        HugeIn in(cap, d); size_t a = in.read(mem.p, first), g = in.read(mem.p + first, n); if (a != first || g != d.size() - first || std::memcmp(mem.p, d.data(), d.size())) fail("huge-read", w + fmt(" returned %zu", g));
        HugeOut o(cap); a = o.write(mem.p, first); g = o.write(mem.p, n); o.flush(); if (a != first || g != n || o.sent != n + first) fail("huge-write", w + fmt(" returned 0x%zX, sent 0x%zX", g, o.sent));
        ++counter("huge_requests"); ev(n * 31 + cap + first);
    }
}
// requests of every size, the source tied to the destination
static void every_size(Rng& r) {
    auto sizes = request_sizes(); size_t which = 0;
    for (size_t cap : {(size_t)0, (size_t)1, (size_t)5, (size_t)64, (size_t)1000, (size_t)1024, (size_t)8192, (size_t)65536}) {
        if ((int)(which++ % (size_t)S().nshards) != S().shard) continue;
        size_t total = 0; for (size_t n : sizes) total += n; Bytes d(total); for (size_t i = 0; i < total; ++i) d[i] = pattern(i); std::string log = fmt("every size, cap %zu", cap); set_case("C26 " + log);
        In in(cap, d, 0, &r, &log); HugeOut to(cap); size_t a = 0; { Out o(cap, &log); in.tie(to);
        for (size_t n : sizes) {
            std::unique_ptr<std::byte[]> b(new std::byte[n]); in.raw_called = false; size_t g = in.read(b.get(), n), put = a; ++counter("request_sizes");
            if (g != n || (n && std::memcmp(b.get(), d.data() + a, n))) { fail("every-size:read", log + fmt(" read(%zu) at %zu returned %zu", n, a, g)); return; }
            if (in.raw_called && to.sent != put) { fail("every-size:tie", log + fmt(" %zu of %zu bytes sent when the source was asked", to.sent, put)); return; }
            size_t w = o.put((const uint8_t*)b.get(), n), v = to.write(b.get(), n); a += n; if (w != n || v != n) { fail("every-size:write", log + fmt(" write(%zu) returned %zu", n, w)); return; }
            if (o.sent.size() > a) { fail("every-size:sent-count", log + fmt(" after write(%zu): %zu of %zu", n, o.sent.size(), a)); return; }
        }
        o.flush(); to.flush(); if (o.sent != d || to.sent != total) fail("every-size:sent", log); }
        ev(cap * 77 + 26);
    }
}
// the buffer turns small requests into few transfers with the resource
static void few_transfers() {
    for (size_t cap : {2, 3, 7, 16, 64, 1000}) for (size_t req : {1, 2, 3}) for (size_t n : {cap - 1, cap, cap + 1, 5 * cap, (size_t)3000}) {
        std::string log = fmt("cap %zu, requests of %zu, %zu bytes", cap, req, n); set_case("C26 transfers " + log); if (req * 2 > cap) continue; Rng r(1); Bytes d = rnd(r, n);
        struct CountIn : In { using In::In; size_t raws = 0; size_t read_raw(std::byte* p, size_t k, cmp::read_request q) override { ++raws; return In::read_raw(p, k, q); } } in(cap, d, 0, &r, &log);
        Bytes got(n + req); size_t g = 0; while (size_t k = in.read((std::byte*)got.data() + g, std::min(req, n - g))) g += k; got.resize(g);
        size_t limit = n / (cap - req + 1) + 3; if (got != d || in.raws > limit) fail("read-transfers", fmt("%zu calls of read_raw, at most %zu expected; ", in.raws, limit) + log);
        struct CountOut : Out { using Out::Out; size_t raws = 0; size_t write_raw(const std::byte* p, size_t k) override { ++raws; return Out::write_raw(p, k); } } o(cap, &log);
        for (size_t i = 0; i < n; i += req) o.put(d.data() + i, std::min(req, n - i)); o.flush();
        if (o.sent != d || o.raws > limit) fail("write-transfers", fmt("%zu calls of write_raw, at most %zu expected; ", o.raws, limit) + log);
        ++counter("transfer_counts"); ev(cap * 1000003 + n * 17 + req);
    }
}
// the buffer object itself
static void buffer_object(Rng& r) {
    for (size_t i = 0; i < 20000 && !S().total_violations; ++i) {
        size_t cap = r.chance(1, 8) ? 200 + r.below(200) : r.chance(1, 12) ? 65000 + r.below(9000) : 1 + r.below(40); cmp::io_buffer b{cap}; std::string log = fmt("io_buffer cap %zu:", cap); set_case("C26 " + log); CHECK(b.get_capacity() == cap && b.get_size() == 0 && b.get_position() == 0 && !b.is_write_dirty(), "buffer-fresh", log);
        if (r.chance(1, 2)) { size_t n = r.below(cap + 1), p = 0; Bytes d = rnd(r, n); if (n) std::memcpy(b.get_data_ptr(), d.data(), n); b.set_read_dirty(false); b.set_size(n); CHECK(b.get_position() == 0 && !b.is_read_dirty() && b.get_size() == n, "buffer-filled", log);
            for (int k = 0; k < 8; ++k) { size_t q = r.below(cap + 5), want = std::min(q, n - p); log += fmt(" read(%zu)", q); std::unique_ptr<std::byte[]> m(new std::byte[q]); if (r.chance(1, 6)) { cmp::io_buffer c{b}; b = c; } size_t g = b.read(m.get(), q); if (g != want || (g && std::memcmp(m.get(), d.data() + p, g))) { fail("buffer-read", fmt("returned %zu instead of %zu; ", g, want) + log); break; } p += g; CHECK(b.get_position() == p, "buffer-position", log); } }
        else { Bytes d; for (int k = 0; k < 8; ++k) { size_t q = r.below(cap - d.size() + 1); log += fmt(" write(%zu)", q); Bytes x = rnd(r, q); std::unique_ptr<std::byte[]> m(new std::byte[q]); if (q) std::memcpy(m.get(), x.data(), q); CHECK(b.write(m.get(), q) == q, "buffer-write-count", log); d.insert(d.end(), x.begin(), x.end()); if (r.chance(1, 6)) { cmp::io_buffer c{std::move(b)}; b = std::move(c); } CHECK(b.get_position() == d.size() && b.is_write_dirty() && (d.empty() || !std::memcmp(b.get_data_ptr(), d.data(), d.size())), "buffer-write", log); } b.set_write_dirty(false); CHECK(!b.is_write_dirty() && b.get_position() == 0, "buffer-clean", log); }
        ++counter("buffer_objects"); ev(hash_bytes(log.data(), log.size()));
    }
}
// resources copied, moved and assigned in the middle of their work go on as if they were the original
static void copies(Rng& r) {
    for (size_t i = 0; i < (S().thorough ? 60000u : 6000u) && !S().total_violations; ++i) {
        size_t ci = cap_of(r), co = cap_of(r); int style = (int)r.below(4); Bytes d = rnd(r, r.below(150)); std::string log = fmt("copied: in cap %zu style %d %zu bytes, out cap %zu:", ci, style, d.size(), co);
        std::optional<In> in(std::in_place, ci, d, style, &r, &log); std::optional<Out> o(std::in_place, co, &log); Out sink(cap_of(r), &log); bool tied = r.chance(1, 2); if (tied) { in->tie(sink); in->before.push_back(&sink); }
        for (size_t k = 0, ops = 4 + r.below(25); k < ops && !S().total_violations; ++k) {
            set_case("C26 " + log); unsigned w = (unsigned)r.below(12);
            if (w < 4) { size_t q = req(r, ci), at = in->delivered, left = d.size() - at; log += fmt(" read(%zu)", q); std::unique_ptr<std::byte[]> b(new std::byte[q]); size_t g = in->read(b.get(), q);
                if (g > q || g > left || (!g && q && left) || (g && std::memcmp(b.get(), d.data() + at, g))) { fail("copied-read", fmt("%zu of %zu at %zu; ", g, q, at) + log); return; } }
            else if (w < 8) { Out& t = tied && r.chance(1, 3) ? sink : *o; size_t q = req(r, co); log += fmt(" write(%zu)", q); Bytes x = rnd(r, q); if (t.put(x.data(), q) != q) { fail("copied-write-count", log); return; } }
            else if (w == 8) { log += " flush"; o->flush(); if (o->sent != o->written) { fail("copied-flush", log); return; } }
            else if (w == 9) { log += " copy"; In c(*in); Out p(*o); bool f = r.chance(1, 2); in.reset(); o.reset(); if (f) { in.emplace(c); o.emplace(p); } else { in.emplace(std::move(c)); o.emplace(std::move(p)); } ++counter("resources_copied"); }
            else if (w == 10) { log += " move"; In c(std::move(*in)); Out p(std::move(*o)); in.emplace(cap_of(r), rnd(r, 20), 0, &r, &log); o.emplace(cap_of(r), &log); if (r.chance(1, 2)) { std::byte b[3]; in->read(b, 3); o->write(b, 3); } *in = std::move(c); *o = std::move(p); ++counter("resources_moved"); }
            else { log += " assign"; In c(cap_of(r), rnd(r, 20), 0, &r, &log); Out p(cap_of(r), &log); std::byte b[3]; c.read(b, 2); p.write(b, 2); c = *in; p = *o; in.reset(); o.reset(); in.emplace(std::move(c)); o.emplace(std::move(p)); ++counter("resources_copied"); }
            if (!o->prefix()) { fail("copied-sent", log); return; } ev(hash_bytes(log.data(), log.size()));
        }
        o->flush(); if (o->sent != o->written) fail("copied-final", log);
    }
}
// files and containers tied to an output: when they are really read, everything written to the output is in its place
static void ties(Rng& r) {
    namespace fs = std::filesystem; fs::path pi = "tie-in", po = "tie-out";
    auto slurp = [&] { Bytes b; FILE* f = fopen(po.c_str(), "rb"); int c; while (f && (c = fgetc(f)) != EOF) b.push_back((uint8_t)c); if (f) fclose(f); return b; };
    for (size_t i = 0; i < (S().thorough ? 20000u : 1500u) && !S().total_violations; ++i) {
        size_t ci = cap_of(r), co = cap_of(r); unsigned kind = (unsigned)r.below(6), okind = (unsigned)r.below(4); std::string log = fmt("tied: source kind %u cap %zu, output kind %u cap %zu:", kind, ci, okind, co); set_case("C26 " + log);
        Bytes d = rnd(r, 200 + r.below(100)), sink, written; { FILE* f = fopen(pi.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); f = fopen(po.c_str(), "wb"); fclose(f); }
        cmp::file fo; std::optional<cmp::transparent_container_output_resource<Bytes>> to; std::optional<cmp::transparent_container_io_resource<Bytes>> tio; Out uo(co, &log); cmp::output_resource* out;
        switch (okind) { case 0: fo = cmp::file{po, cmp::write_only, cmp::if_not_there::create, co}; out = &fo; break; case 1: to.emplace(sink, co); out = &*to; break; case 2: tio.emplace(sink, co); out = &*tio; break; default: out = &uo; }
        auto stored = [&] { return okind == 0 ? slurp() : okind == 3 ? uo.sent : sink; };
        auto put = [&] { Bytes x = rnd(r, 1 + r.below(co < 40 ? 12 : 60)); log += fmt(" write(%zu)", x.size()); out->write((const std::byte*)x.data(), x.size()); written.insert(written.end(), x.begin(), x.end()); };
        auto go = [&](auto&& src, auto&& hop) { // src: a resource; hop: moves or copies it to another object and back
            src.tie(*out); size_t at = 0; bool first = true;
            for (int k = 0; k < 8; ++k) {
                if (r.chance(2, 3)) put();
                if (r.chance(1, 3)) { hop(src); log += " hop"; ++counter("tied_hops"); }
                if (r.chance(1, 3)) { at = r.below(d.size()); src.set_position((std::int64_t)at, cmp::position_reference::begin); log += fmt(" seek(%zu)", at); first = true; }
                size_t q = 1 + r.below(r.chance(1, 2) ? ci + 2 : 10); q = std::min<size_t>(q, 200000); log += fmt(" read(%zu)", q); set_case("C26 " + log); std::unique_ptr<std::byte[]> b(new std::byte[q]); size_t want = std::min(q, d.size() - at), g = src.read(b.get(), q);
                if (g != want || (g && std::memcmp(b.get(), d.data() + at, g))) { fail("tied-read", log); return; } at += g;
                bool definite = first || ci == 0; first = false; // what was not in the buffer before must have been read from the source
                Bytes now = stored(); if (now.size() > written.size() || !std::equal(now.begin(), now.end(), written.begin())) { fail("tied-stored", log); return; }
                if (definite) { ++counter("tied_reads_of_files_and_containers"); if (now != written) { fail("tied-not-flushed", fmt("%zu of %zu bytes in place; ", now.size(), written.size()) + log); return; } }
            }
        };
        auto move_hop = [](auto& s) { using T = std::decay_t<decltype(s)>; T other(std::move(s)); s = std::move(other); };
        auto copy_hop = [&](auto& s) { using T = std::decay_t<decltype(s)>; if (r.chance(1, 2)) { T other(s); s = other; } else { T other(std::move(s)); s = std::move(other); } };
        switch (kind) {
            case 0: { cmp::file f{pi, cmp::read_only, cmp::if_not_there::fail, ci}; go(f, move_hop); break; }
            case 1: { cmp::file f{pi, cmp::read_and_write, cmp::if_not_there::fail, ci}; go(f, move_hop); break; }
            case 2: { cmp::opaque_container_input_resource<Bytes> x{d, ci}; go(x, copy_hop); break; }
            case 3: { cmp::opaque_container_io_resource<Bytes> x{d, ci}; go(x, copy_hop); break; }
            case 4: { cmp::transparent_container_input_resource<Bytes> x{d, ci}; go(x, [](auto&) {}); break; }
            default: { cmp::transparent_container_io_resource<Bytes> x{d, ci}; go(x, [](auto&) {}); }
        }
        out->flush(); if (!S().total_violations && stored() != written) fail("tied-final", log); ev(hash_bytes(log.data(), log.size()));
    }
    std::error_code ec; fs::remove(pi, ec); fs::remove(po, ec);
}
int main(int argc, char** argv) {
    init(argc, argv); if (S().shard == 0) { huge(); few_transfers(); Rng b(shard_seed(2600)); buffer_object(b); }
    Rng r(shard_seed(26));
    try { Rng z(shard_seed(2602)); every_size(z); histories(r); streams(r); duplex(r); Rng c(shard_seed(2601)); copies(c); ties(c); } catch (const std::exception& e) { fail("threw", std::string(g_case) + e.what()); }
    return done();
}
