#include "fsutil.hpp"
#include <cmp/io/file.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/text_output_stream.hpp>
#include <cmp/io/output_stream.hpp>
#include <optional>
using namespace h;
// What one path must contain: `base` is required, then some prefix of `pending` (offset, byte) may have been applied.
struct Path { std::string name; std::vector<uint8_t> base; std::vector<std::pair<size_t, uint8_t>> pending; bool exists = false; };
static void apply(std::vector<uint8_t>& d, size_t off, uint8_t b) { if (off >= d.size()) d.resize(off + 1, 0); d[off] = b; }
static void commit(Path& p) { for (auto& x : p.pending) apply(p.base, x.first, x.second); p.pending.clear(); }
static bool matches(const Path& p, const std::vector<uint8_t>& disk, size_t& visible) {
    std::vector<uint8_t> cur = p.base; visible = 0; size_t differ = 0; // number of places below both sizes where cur and disk differ
    for (size_t i = 0; i < cur.size() && i < disk.size(); ++i) differ += cur[i] != disk[i];
    if (!differ && cur.size() == disk.size()) return true;
    for (size_t i = 0; i < p.pending.size(); ++i) {
        auto [off, b] = p.pending[i]; size_t old = cur.size();
        if (off >= old) { apply(cur, off, b); for (size_t k = old; k <= off && k < disk.size(); ++k) differ += cur[k] != disk[k]; }
        else { if (off < disk.size()) { differ -= cur[off] != disk[off]; differ += b != disk[off]; } cur[off] = b; }
        if (!differ && cur.size() == disk.size()) { visible = i + 1; return true; }
    }
    return false;
}
struct Obj { std::unique_ptr<cmp::file> f; int path = -1; int64_t pos = 0; size_t cap = 0; bool rw = false; };
struct World {
    std::vector<Path> paths; std::vector<Obj> objs; std::string log; uint64_t id = 0; Rng& r;
    explicit World(Rng& rr) : r(rr) {
        for (int i = 0; i < 4; ++i) { Path p; p.name = fmt("p%d.bin", i); p.exists = i != 3; if (p.exists) { p.base.resize(r.below(30)); for (auto& c : p.base) c = (uint8_t)r.next(); put(p.name.c_str(), p.base); } else unlink(p.name.c_str()); paths.push_back(p); }
        objs.resize(3);
    }
    bool in_use(int p) { for (auto& o : objs) if (o.path == p) return true; return false; }
    int free_path() { std::vector<int> v; for (int i = 0; i < 4; ++i) if (!in_use(i)) v.push_back(i); return v.empty() ? -1 : r.pick(v); }
    void observe(const char* when) {
        for (auto& p : paths) {
            struct stat st; bool ex = stat(p.name.c_str(), &st) == 0;
            if (ex != p.exists) { fail("existence", p.name + " " + when + " " + log); continue; }
            if (!ex) continue;
            auto disk = slurp(p.name.c_str()); size_t vis;
            ++counter("observations"); if (!p.pending.empty()) ++counter("observations_with_pending_bytes");
            if (!matches(p, disk, vis)) fail(p.pending.empty() ? "content-after-flush" : "content-between", fmt("%s %s: disk %zu bytes, required %zu, pending %zu; ", p.name.c_str(), when, disk.size(), p.base.size(), p.pending.size()) + dump_units(disk) + " expected " + dump_units(p.base) + " | " + (log.size() > 1200 ? "..." + log.substr(log.size() - 1200) : log));
            else if (vis && vis < p.pending.size()) ++counter("partly_visible_prefixes");
        }
    }
    void closed(Obj& o) { if (o.path >= 0) commit(paths[o.path]); o.path = -1; }
    void bytes(Obj& o, const std::vector<uint8_t>& v) { for (uint8_t b : v) { paths[o.path].pending.push_back({(size_t)o.pos++, b}); } }
    std::vector<uint8_t> fresh(size_t n) { std::vector<uint8_t> v; v.reserve(n + 1); v.resize(n); for (auto& b : v) b = (uint8_t)(++id * 37 + (id >> 8) * 11 + 1); return v; }
    void step() {
        int k = (int)r.below(objs.size()); Obj& o = objs[k];
        set_case("C12 " + (log.size() > 1900 ? log.substr(log.size() - 1900) : log));
        unsigned w = (unsigned)r.below(100);
        auto mode = [&](bool rw) { return rw ? cmp::access_mode::read_and_write : cmp::access_mode::write_only; };
        if (!o.f || w < 6) { // construct / replace by destruction
            if (o.f) { log += fmt(" ~%d", k); o.f.reset(); closed(o); observe("after destruction"); return; }
            int p = free_path(); if (p < 0) return;
            static const std::vector<size_t> caps{0, 1, 2, 3, 8, 16, 64, 1024}; o.cap = any_cap(r, caps); o.rw = r.chance(1, 2);
            log += fmt(" %d=file(p%d,cap %zu)", k, p, o.cap);
            o.f = std::make_unique<cmp::file>(paths[p].name, mode(o.rw), cmp::if_not_there::create, o.cap); o.path = p; o.pos = 0; paths[p].exists = true; ++counter("opens");
            if (!o.f->is_open()) fail("not-open", log);
        } else if (w < 12) { log += fmt(" close(%d)", k); o.f->close(); closed(o); ++counter("closes"); observe("after close"); if (r.chance(1, 4)) { log += " close again"; o.f->close(); o.f->flush(); observe("after a second close"); } }
        else if (w < 20) { int p = r.chance(1, 4) && o.path >= 0 ? o.path : free_path(); if (p < 0) return; log += fmt(" open(%d,p%d)", k, p); closed(o); o.rw = r.chance(1, 2); bool ok = o.f->open(paths[p].name, mode(o.rw), cmp::if_not_there::create); o.path = p; o.pos = 0; paths[p].exists = true; if (!ok) fail("reopen-failed", log); ++counter("reopens"); observe("after reopening"); }
        else if (w < 25) { log += fmt(" move-construct(%d)", k); auto n = std::make_unique<cmp::file>(std::move(*o.f)); if (r.chance(1, 2)) { o.f->flush(); o.f->close(); } o.f = std::move(n); ++counter("move_constructions"); observe("after move construction"); }
        else if (w < 31) { int j = (k + 1) % (int)objs.size(); Obj& t = objs[j]; if (!t.f) return; log += fmt(" %d=move(%d)", j, k); *t.f = std::move(*o.f); closed(t); t.path = o.path; t.pos = o.pos; t.cap = o.cap; t.rw = o.rw; o.path = -1; ++counter("move_assignments"); observe("after move assignment"); if (r.chance(1, 2)) { log += fmt(" ~%d", k); o.f.reset(); observe("after destroying the moved-from file"); } }
        else if (o.path < 0) return;
        else if (w < 62) { size_t n = r.chance(1, 3) ? r.below(4) : r.chance(1, 2) ? r.below(2 * std::min<size_t>(o.cap, 64) + 3) : o.cap > 64 && r.chance(1, 3) ? o.cap - 1 + r.below(3) : r.below(100); auto v = fresh(n); log += fmt(" write(%d,%zu)", k, n); size_t g = o.f->write((const std::byte*)v.data(), n); if (g != n) fail("write-count", log); bytes(o, v); ++counter("writes"); if (r.chance(1, 3)) observe("after write"); }
        else if (w < 72) { log += fmt(" flush(%d)", k); o.f->flush(); commit(paths[o.path]); ++counter("flushes"); observe("after flush"); if (r.chance(1, 4)) { o.f->flush(); observe("after a second flush"); } }
        else if (w < 78) { int64_t sz = (int64_t)paths[o.path].base.size() + (int64_t)paths[o.path].pending.size(); int64_t to = r.range(0, (int64_t)paths[o.path].base.size()); (void)sz; log += fmt(" seek(%d,%lld)", k, (long long)to); o.f->set_position(to, cmp::position_reference::begin); commit(paths[o.path]); o.pos = to; ++counter("seeks"); observe("after seeking"); }
        else if (w < 82 && o.rw) { std::byte b[16]; size_t n = r.below(16); log += fmt(" read(%d,%zu)", k, n); size_t g = o.f->read(b, n); commit(paths[o.path]); o.pos += (int64_t)g; ++counter("reads"); observe("after reading"); }
        else if (w < 92) { // a stream on top, destroyed or flushed
            bool text = r.chance(1, 2); std::vector<uint8_t> v; bool fl = r.chance(1, 2);
            log += fmt(" stream(%d,%s)", k, text ? "text" : "data");
            {
                size_t n = 1 + r.below(6);
                if (text) { cmp::text_output_stream<cmp::file> s{*o.f, cmp::encoding_form::utf8}; for (size_t i = 0; i < n; ++i) { std::u8string t = encode<std::u8string>(gen_text(r, 8)); s << t; v.insert(v.end(), t.begin(), t.end()); bytes(o, std::vector<uint8_t>(t.begin(), t.end())); if (fl && i == n / 2) { s << cmp::flush; commit(paths[o.path]); observe("after stream << flush"); } else if (r.chance(1, 5)) { s.flush(); commit(paths[o.path]); observe("after stream.flush()"); } } }
                else { cmp::data_output_stream<cmp::file> s{*o.f, std::endian::big}; for (size_t i = 0; i < n; ++i) { uint32_t x = (uint32_t)r.next(); uint8_t b[4]{(uint8_t)(x >> 24), (uint8_t)(x >> 16), (uint8_t)(x >> 8), (uint8_t)x}; s << x; bytes(o, std::vector<uint8_t>(b, b + 4)); if (fl && i == n / 2) { s << cmp::flush; commit(paths[o.path]); observe("after stream << flush"); } } }
            }
            commit(paths[o.path]); ++counter("streams"); observe("after destroying a stream");
        } else observe("at rest");
        ev(hash_bytes(log.data(), log.size()));
    }
    void end() { for (auto& o : objs) { o.f.reset(); closed(o); } log += " end"; observe("at the end"); }
};
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(12));
    size_t n = S().thorough ? 30000 : 1500;
    for (size_t i = 0; i < n; ++i) {
        World w(r); size_t steps = 10 + r.below(50);
        try { for (size_t s = 0; s < steps && !S().total_violations; ++s) w.step(); if (!S().total_violations) w.end(); } catch (const std::exception& e) { fail("threw", w.log + e.what()); }
        ++counter("histories"); if (i < 3) sample(w.log.substr(0, 300));
        if (S().total_violations) break;
    }
    return done();
}
