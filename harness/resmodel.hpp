// A byte array with one cursor: the reference for files and container resources, and the
// monitor that drives a resource through a random history while comparing every observation.
#pragma once
#include "common.hpp"
#include <cmp/io/general.hpp>
#include <cstddef>
namespace h {
struct ByteModel {
    std::vector<uint8_t> d; int64_t pos = 0; size_t elem = 1;
    size_t exact_end = 0;        // end of the last byte really stored (differs from d.size() for partial elements)
    bool pending = false;        // something was written since the last flush-like operation
    size_t peek(size_t n) const { return pos < (int64_t)d.size() ? std::min(n, d.size() - (size_t)pos) : 0; }
    void write(const uint8_t* p, size_t n) {
        if (!n) return;
        size_t need = (size_t)pos + n;
        if (need > d.size()) { d.resize((need + elem - 1) / elem * elem, 0); exact_end = need; }
        std::memcpy(d.data() + pos, p, n); pos += (int64_t)n; pending = true;
    }
    void seek(int64_t off, cmp::position_reference r) {
        int64_t base = r == cmp::position_reference::begin ? 0 : r == cmp::position_reference::current ? pos : (int64_t)d.size();
        pos = base + off < 0 ? 0 : base + off; pending = false;
    }
    bool at_end() const { return pos >= (int64_t)d.size(); }
};
struct HistoryOptions { bool can_read = true, can_write = true; size_t cap = 0; size_t ops = 30; size_t maxreq = 64; bool far = true; };
inline size_t gen_size(Rng& r, size_t cap, size_t maxreq) {
    switch (r.below(8)) {
        case 0: return 0; case 1: return 1; case 2: return cap ? cap - 1 : 2; case 3: return cap; case 4: return cap + 1; case 5: return 2 * cap + r.below(3);
        default: return r.below(maxreq + 1);
    }
}
struct IRes {
    virtual ~IRes() = default;
    virtual size_t read(std::byte*, size_t) = 0; virtual size_t write(const std::byte*, size_t) = 0;
    virtual void set_position(int64_t, cmp::position_reference) = 0; virtual void go_back(int64_t) = 0; virtual void go_forward(int64_t) = 0;
    virtual int64_t get_position() const = 0; virtual bool is_at_end() const = 0; virtual bool flush() = 0;
};
template <class R> struct Adapter final : IRes {
    R& r; explicit Adapter(R& x) : r(x) {}
    size_t read(std::byte* p, size_t n) override { if constexpr (requires { r.read(p, n); }) return r.read(p, n); else return 0; }
    size_t write(const std::byte* p, size_t n) override { if constexpr (requires { r.write(p, n); }) return r.write(p, n); else return 0; }
    void set_position(int64_t o, cmp::position_reference k) override { r.set_position(o, k); }
    void go_back(int64_t o) override { r.go_back(o); }
    void go_forward(int64_t o) override { r.go_forward(o); }
    int64_t get_position() const override { return r.get_position(); }
    bool is_at_end() const override { return r.is_at_end(); }
    bool flush() override { if constexpr (requires { r.flush(); }) { r.flush(); return true; } else return false; }
};
// Drives `res`; `content()` returns the bytes of the underlying object. Keys are prefixed with `tag`.
inline void drive_res(IRes& res, ByteModel& m, Rng& r, const HistoryOptions& o, const std::string& tag, const std::function<std::vector<uint8_t>()>& content, std::string& log) {
    auto bad = [&](const char* key, const std::string& d) { fail(tag + ":" + key, d + " | cap " + std::to_string(o.cap) + " elem " + std::to_string(m.elem) + " history: " + (log.size() > 1500 ? "..." + log.substr(log.size() - 1500) : log)); };
    const bool quiet = r.chance(1, 3); // few queries in between, so that operations follow one another directly
    if (quiet) ++counter("histories_with_few_queries");
    for (size_t i = 0; i < o.ops && S().per_key.size() < 40; ++i) {
        unsigned w = (unsigned)r.below(100);
        set_case(tag + " cap " + std::to_string(o.cap) + " " + (log.size() > 1800 ? log.substr(log.size() - 1800) : log));
        int64_t before = m.pos;
        if (w < 34 && o.can_read) {
            size_t n = gen_size(r, o.cap, o.maxreq), want = m.peek(n);
            log += fmt(" read(%zu)", n);
            std::unique_ptr<std::byte[]> buf(new std::byte[n]); if (n) std::memset(buf.get(), 0xA5, n);
            size_t got = res.read(buf.get(), n);
            ++counter("reads"); if (want < n) ++counter("reads_hitting_the_end"); if (o.cap && n > o.cap) ++counter("reads_larger_than_buffer");
            if (got != want) { bad("read-count", fmt("read(%zu) at %lld of %zu returned %zu instead of %zu", n, (long long)before, m.d.size(), got, want)); return; }
            if (got && std::memcmp(buf.get(), m.d.data() + m.pos, got) != 0) { size_t k = 0; while ((uint8_t)buf[k] == m.d[(size_t)m.pos + k]) ++k; bad("read-bytes", fmt("read(%zu) at %lld byte %zu is %02X instead of %02X", n, (long long)before, k, (unsigned)buf[k], m.d[(size_t)m.pos + k])); return; }
            for (size_t k = got; k < n; ++k) if ((uint8_t)buf[k] != 0xA5) { bad("read-touched-rest", fmt("read(%zu) returned %zu but changed byte %zu", n, got, k)); return; }
            m.pos += (int64_t)got; m.pending = false;
        } else if (w < 64 && o.can_write) {
            size_t n = gen_size(r, o.cap, o.maxreq); std::vector<uint8_t> v(n); for (auto& c : v) c = (uint8_t)r.next();
            std::unique_ptr<std::byte[]> buf(new std::byte[n]); if (n) std::memcpy(buf.get(), v.data(), n);
            log += fmt(" write(%zu)", n);
            size_t got = res.write(buf.get(), n);
            ++counter("writes"); if (o.cap && n > o.cap) ++counter("writes_larger_than_buffer"); if (m.pos > (int64_t)m.d.size() && n) ++counter("writes_after_a_gap");
            if (got != n) { bad("write-count", fmt("write(%zu) returned %zu", n, got)); return; }
            if (n && std::memcmp(buf.get(), v.data(), n) != 0) { bad("write-changed-source", ""); return; }
            m.write(v.data(), n);
        } else if (w < 82) {
            cmp::position_reference pr = (cmp::position_reference)0; int64_t off; int64_t sz = (int64_t)m.d.size(), c = (int64_t)o.cap;
            switch (r.below(3)) { case 0: pr = cmp::position_reference::begin; off = r.range(0, sz + (o.far ? 4 : 0)); if (o.far && r.chance(1, 40)) { off = sz + (int64_t)r.below(9000); ++counter("far_seeks"); } if (r.chance(1, 12)) off = -(int64_t)r.below(10); break;
                case 1: pr = cmp::position_reference::current; off = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(-(c + 2), c + 2) : r.range(-m.pos, sz); if (!o.far && m.pos + off > sz) off = 0; if (m.pos + off > sz && m.pos + off > (1 << 21)) off = sz - m.pos; /* no doubling of the size over and over */ break;
                default: pr = cmp::position_reference::end; off = -r.range(0, sz); if (o.far && r.chance(1, 6)) off = (int64_t)r.below(6); if (r.chance(1, 12)) off = -sz - (int64_t)r.below(5); }
            static const char* names[] = {"begin", "current", "end"}; int k = pr == cmp::position_reference::begin ? 0 : pr == cmp::position_reference::current ? 1 : 2;
            unsigned style = (unsigned)r.below(4);
            if (k == 1 && style == 0 && off >= 0) { log += fmt(" go_forward(%lld)", (long long)off); res.go_forward(off); ++counter("go_forward"); }
            else if (k == 1 && style <= 1 && off <= 0) { log += fmt(" go_back(%lld)", (long long)-off); res.go_back(-off); ++counter("go_back"); }
            else { log += fmt(" seek(%lld,%s)", (long long)off, names[k]); res.set_position(off, pr); ++counter("seeks"); }
            m.seek(off, pr);
        } else if (w < 90 && o.can_write) {
            log += " flush";
            if (res.flush()) {
                m.pending = false; ++counter("flushes");
                std::vector<uint8_t> c = content();
                if (c != m.d) { bad("content-after-flush", fmt("content has %zu bytes, expected %zu%s", c.size(), m.d.size(), c.size() == m.d.size() ? " and differs" : "")); return; }
            }
        }
        if (quiet ? r.chance(1, 8) : !r.chance(1, 6)) {
            int64_t p = res.get_position(); ++counter("position_queries");
            if (p != m.pos) { bad("position", fmt("get_position %lld instead of %lld (after the last operation, from %lld)", (long long)p, (long long)m.pos, (long long)before)); return; }
            bool e = res.is_at_end(); ++counter("end_queries"); if (m.at_end()) ++counter("end_queries_at_end");
            bool dontcare = m.pending && m.elem > 1 && m.pos >= (int64_t)m.exact_end && m.pos < (int64_t)m.d.size();
            if (e != m.at_end() && !dontcare) { bad("is_at_end", fmt("is_at_end %d at %lld of %zu", (int)e, (long long)m.pos, m.d.size())); return; }
        }
        ev(hash_bytes(log.data(), log.size(), o.cap * 977 + m.elem));
    }
}
template <class R, class Content> void drive(R& res, ByteModel& m, Rng& r, const HistoryOptions& o, const std::string& tag, Content content, std::string& log) { Adapter<R> a(res); drive_res(a, m, r, o, tag, content, log); }
} // namespace h
using h::pattern; using h::request_sizes;
template <class R> size_t write_every_size(R& w, const std::string& what) {
    size_t at = 0;
    for (size_t n : request_sizes()) {
        std::unique_ptr<std::byte[]> b(new std::byte[n]); for (size_t i = 0; i < n; ++i) b[i] = (std::byte)pattern(at + i);
        size_t g = w.write(b.get(), n); at += n; ++h::counter("request_sizes");
        if (g != n || (size_t)w.get_position() != at) { h::fail("every-size:write", what + h::fmt(" write(%zu) returned %zu, position %zu instead of %zu", n, g, (size_t)w.get_position(), at)); break; }
    }
    return at;
}
template <class R> void read_every_size(R& rd, size_t total, const std::string& what) {
    size_t at = 0;
    for (size_t n : request_sizes()) {
        std::unique_ptr<std::byte[]> b(new std::byte[n]); size_t want = std::min(n, total - at), g = rd.read(b.get(), n), bad = 0; ++h::counter("request_sizes");
        for (size_t i = 0; i < std::min(g, n); ++i) if ((uint8_t)b[i] != pattern(at + i)) { bad = i + 1; break; }
        at += want;
        if (g != want || bad || (size_t)rd.get_position() != at) { h::fail("every-size:read", what + h::fmt(" read(%zu) returned %zu instead of %zu, wrong byte %zu, position %zu instead of %zu", n, g, want, bad, (size_t)rd.get_position(), at)); break; }
    }
}
inline bool is_pattern(const std::vector<uint8_t>& v, size_t total) { if (v.size() != total) return false; for (size_t i = 0; i < total; ++i) if (v[i] != pattern(i)) return false; return true; }
