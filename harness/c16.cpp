#include "sinks.hpp"
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/output_stream.hpp>
#include <cmp/io/exceptions.hpp>
#include <cmp/io/file.hpp>
#include <bit>
#include <limits>
using namespace h;
template <class T> struct Tag { using type = T; };
constexpr int kTypes = 19;
template <class Fn> void with_type(int t, Fn fn) {
    switch (t) {
        case 0: fn(Tag<bool>{}); break; case 1: fn(Tag<char>{}); break; case 2: fn(Tag<signed char>{}); break; case 3: fn(Tag<unsigned char>{}); break;
        case 4: fn(Tag<short>{}); break; case 5: fn(Tag<unsigned short>{}); break; case 6: fn(Tag<int>{}); break; case 7: fn(Tag<unsigned>{}); break;
        case 8: fn(Tag<long>{}); break; case 9: fn(Tag<unsigned long>{}); break; case 10: fn(Tag<long long>{}); break; case 11: fn(Tag<unsigned long long>{}); break;
        case 12: fn(Tag<float>{}); break; case 13: fn(Tag<double>{}); break; case 14: fn(Tag<long double>{}); break;
        case 15: fn(Tag<char8_t>{}); break; case 16: fn(Tag<char16_t>{}); break; case 17: fn(Tag<char32_t>{}); break; default: fn(Tag<wchar_t>{}); break;
    }
}
struct Op { int type; uint8_t raw[16]; size_t size; std::endian e; bool set_e, flush; };
static Op gen_op(Rng& r, std::endian cur) {
    Op o{}; o.type = (int)r.below(kTypes); o.e = cur; o.flush = r.chance(1, 12);
    with_type(o.type, [&](auto tag) {
        using T = typename decltype(tag)::type; alignas(16) unsigned char st[16]{}; T v{};
        if constexpr (std::is_same_v<T, bool>) v = r.chance(1, 2);
        else if constexpr (std::is_floating_point_v<T>) { switch (r.below(8)) { case 0: v = 0; break; case 1: v = (T)-0.0; break; case 2: v = std::numeric_limits<T>::max(); break; case 3: v = std::numeric_limits<T>::denorm_min(); break; case 4: v = -std::numeric_limits<T>::infinity(); break; case 5: v = (T)1 / 3; break; default: v = (T)(int64_t)r.next() / (T)(1 + r.below(100000)); } }
        else { switch (r.below(5)) { case 0: v = (T)r.below(2); break; case 1: v = std::numeric_limits<T>::min(); break; case 2: v = std::numeric_limits<T>::max(); break; case 3: v = (T)0x0102030405060708ull; break; default: v = (T)r.next(); } }
        size_t n = std::is_same_v<T, long double> ? 10 : sizeof(T); std::memcpy(st, &v, n); // the padding of long double stays zero
        std::memcpy(o.raw, st, 16); o.size = sizeof(T);
    });
    return o;
}
static void expect(Bytes& b, const Op& o) { Bytes v(o.raw, o.raw + o.size); if (o.e != std::endian::native) std::reverse(v.begin(), v.end()); b.insert(b.end(), v.begin(), v.end()); }
static std::string show(const std::vector<Op>& ops, size_t upto = (size_t)-1) { std::string s; for (size_t i = 0; i < ops.size() && i <= upto && i < 30; ++i) s += fmt(" %d%c", ops[i].type, ops[i].e == std::endian::big ? 'B' : 'L'); return s; }
template <class St> void put_value(St& s, const Op& o, bool constant) {
    with_type(o.type, [&](auto tag) { using T = typename decltype(tag)::type; alignas(16) unsigned char st[16]; std::memcpy(st, o.raw, 16); T& v = *(T*)st; if (constant) { const T& c = v; s << c; } else s << v; if (std::memcmp(st, o.raw, o.size)) fail("write-changed-source", fmt("type %d", o.type)); });
}
// returns false when it threw read_past_end; `same` tells whether the value is right (or untouched after a throw)
template <class St> bool get_value(St& s, const Op& o, bool& same) {
    bool ok = true;
    with_type(o.type, [&](auto tag) {
        using T = typename decltype(tag)::type; alignas(16) unsigned char st[16]; std::memset(st, o.type == 0 ? 1 : 0x5B, 16); unsigned char before[16]; std::memcpy(before, st, 16); T& v = *(T*)st;
        try { s >> v; } catch (const cmp::read_past_end&) { ok = false; }
        size_t n = std::is_same_v<T, long double> ? 10 : sizeof(T);
        same = ok ? !std::memcmp(st, o.raw, n) : !std::memcmp(st, before, sizeof(T));
    });
    return ok;
}
// values, blocks, seeks and flushes mixed on one input/output stream (and on copies of it)
static void mixed(Rng& r) {
    for (size_t i = 0, m = S().thorough ? 60000 : 5000; i < m && !S().total_violations; ++i) {
        int kind = (int)r.below(3); size_t cap = gen_cap(r); std::string log = fmt("mixed, kind %d cap %zu:", kind, cap); Bytes d(r.below(120)); for (auto& x : d) x = (uint8_t)r.next(); Bytes model = d; size_t pos = 0;
        auto go = [&](auto& res) {
            using R = std::remove_reference_t<decltype(res)>; std::endian e0 = r.chance(1, 2) ? std::endian::big : std::endian::little, ei = e0, eo = e0; cmp::data_io_stream<R> s{res, e0};
            auto store = [&](const uint8_t* p, size_t n) { if (n && pos > model.size()) model.resize(pos); if (pos + n > model.size()) model.resize(pos + n); std::copy(p, p + n, model.begin() + (long)pos); pos += n; };
            auto value = [&](auto v, auto& st) { using T = decltype(v);
                if (r.chance(1, 2)) { uint8_t b[sizeof(T)]; std::memcpy(b, &v, sizeof v); if (eo != std::endian::native) std::reverse(b, b + sizeof v); log += fmt(" <<%zu", sizeof v); set_case("C16 " + log); st << v; store(b, sizeof v); ++counter("mixed_values_written"); }
                else if (pos + sizeof(T) <= model.size()) { uint8_t b[sizeof(T)]; std::copy_n(model.begin() + (long)pos, sizeof(T), b); if (ei != std::endian::native) std::reverse(b, b + sizeof v); T w{}; log += fmt(" >>%zu", sizeof v); set_case("C16 " + log); st >> w; if (std::memcmp(&w, b, sizeof w)) { fail("mixed-value", log); return; } pos += sizeof v; ++counter("mixed_values_read"); } };
            auto step = [&](auto& st) {
                switch (r.below(10)) {
                    case 0: value((uint8_t)r.next(), st); break; case 1: value((uint16_t)r.next(), st); break; case 2: value((int32_t)r.next(), st); break; case 3: value((uint64_t)r.next(), st); break;
                    case 4: { size_t n = r.below(r.chance(1, 8) ? 2 * cap % 5000 + 3 : 12); Bytes b(n); for (auto& x : b) x = (uint8_t)r.next(); std::unique_ptr<std::byte[]> q(new std::byte[n]); if (n) std::memcpy(q.get(), b.data(), n); log += fmt(" write(%zu)", n); set_case("C16 " + log); if (st.write(q.get(), n) != n) { fail("mixed-write-count", log); return; } store(b.data(), n); break; }
                    case 5: { size_t n = r.below(r.chance(1, 8) ? 2 * cap % 5000 + 3 : 12), there = pos < model.size() ? std::min(n, model.size() - pos) : 0; std::unique_ptr<std::byte[]> q(new std::byte[n]); log += fmt(" read(%zu)", n); set_case("C16 " + log); size_t g = st.read(q.get(), n); if (g != there) { fail("mixed-read-count", fmt("%zu instead of %zu; ", g, there) + log); return; } Bytes x((uint8_t*)q.get(), (uint8_t*)q.get() + g), y(model.begin() + (long)std::min(pos, model.size()), model.begin() + (long)(std::min(pos, model.size()) + g)); if (x != y && ei != std::endian::native) std::reverse(x.begin(), x.end()); if (x != y) { fail("mixed-read", log); return; } pos += g; break; }
                    case 6: pos = r.below(model.size() + 1); log += fmt(" seek(%zu)", pos); st->set_position((int64_t)pos, cmp::position_reference::begin); break;
                    case 7: log += " flush"; if (r.chance(1, 2)) st.flush(); else st << cmp::flush; break;
                    case 8: ei = r.chance(1, 2) ? std::endian::big : std::endian::little; st.cmp::template data_input_stream<R>::set_endianness(ei); log += ei == std::endian::big ? " in:big" : " in:little"; break;
                    default: eo = r.chance(1, 2) ? std::endian::big : std::endian::little; st.cmp::template data_output_stream<R>::set_endianness(eo); log += eo == std::endian::big ? " out:big" : " out:little";
                }
                if (r.chance(1, 3) && !S().total_violations && (size_t)st->get_position() != pos) fail("mixed-position", fmt("%lld instead of %zu; ", (long long)st->get_position(), pos) + log);
            };
            for (size_t k = 3 + r.below(30); k-- && !S().total_violations;) { step(s); if (r.chance(1, 20)) { log += " copy{"; std::endian a = ei, b = eo; { cmp::data_io_stream<R> t{s}; for (size_t n = r.below(4); n-- && !S().total_violations;) step(t); } ei = a; eo = b; log += " }"; ++counter("stream_copies"); } }
        };
        Bytes got;
        if (kind == 0) { cmp::opaque_container_io_resource<VB> q{bytes_as<VB>(d), cap}; go(q); got = as_bytes(q.grab_content()); }
        else if (kind == 1) { VB c = bytes_as<VB>(d); cmp::transparent_container_io_resource<VB> q{c, cap}; go(q); got = as_bytes(c); }
        else { put("io.bin", d); cmp::file q{"io.bin", cmp::access_mode::read_and_write, cmp::if_not_there::fail, cap}; go(q); got = slurp("io.bin"); }
        if (!S().total_violations && got != model) fail("mixed-content", log + " got " + dump_units(got) + " expected " + dump_units(model));
        ++counter("mixed_histories"); ev(hash_bytes(log.data(), log.size(), cap)); if (i < 2) sample(log.substr(0, 250));
    }
}
// blocks of every size through the streams, forwards and reversed
static void every_block(Rng& r) {
    auto sizes = request_sizes(); size_t which = 0;
    for (size_t cap : {(size_t)0, (size_t)5, (size_t)64, (size_t)1000, (size_t)1024, (size_t)8192}) for (bool rev : {false, true}) {
        if ((int)(which++ % (size_t)S().nshards) != S().shard) continue;
        int ok = (int)r.below(kOutKinds), ik = (int)r.below(kInKinds); std::string what = fmt("every size%s into %s, from %s, cap %zu", rev ? " reversed" : "", out_name(ok), in_name(ik), cap); set_case("C16 " + what); Bytes want; size_t at = 0;
        for (size_t n : sizes) { for (size_t i = 0; i < n; ++i) want.push_back(pattern(at + (rev ? n - 1 - i : i))); at += n; }
        Bytes got = with_output(ok, cap, [&](auto& res) { cmp::data_output_stream<std::remove_reference_t<decltype(res)>> s{res, std::endian::native}; size_t a = 0; for (size_t n : sizes) { std::unique_ptr<std::byte[]> d(new std::byte[n]); for (size_t i = 0; i < n; ++i) d[i] = (std::byte)pattern(a + i); a += n; size_t g = rev ? s.reverse_write(d.get(), n) : s.write(d.get(), n); ++counter("block_sizes"); if (g != n) { fail("every-block:write-count", what + fmt(": %zu of %zu", g, n)); return; } } });
        if (got != want) fail("every-block:bytes", what + fmt(" (%zu bytes, %zu expected)", got.size(), want.size()));
        with_input(ik, cap, want, [&](auto& res) { cmp::data_input_stream<std::remove_reference_t<decltype(res)>> s{res, std::endian::native}; size_t a = 0; for (size_t n : sizes) { std::unique_ptr<std::byte[]> d(new std::byte[n]); size_t g = s.read(d.get(), n); ++counter("block_sizes"); if (g != n || (n && std::memcmp(d.get(), want.data() + a, n))) { fail("every-block:read", what + fmt(": read(%zu) at %zu returned %zu", n, a, g)); return; } a += n; } if (!s.is_at_end()) fail("every-block:end", what); });
        ev(cap * 77 + rev + 16);
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(16));
    size_t n = S().thorough ? 80000 : 6000;
    for (size_t i = 0; i < n && !S().total_violations; ++i) {
        std::vector<Op> ops; size_t k = r.chance(1, 10) ? r.below(200) : r.below(20); std::endian first = r.chance(1, 2) ? std::endian::big : std::endian::little, cur = first;
        for (size_t j = 0; j < k; ++j) { bool sw = r.chance(1, 5); if (sw) cur = cur == std::endian::big ? std::endian::little : std::endian::big; Op o = gen_op(r, cur); o.set_e = sw; ops.push_back(o); }
        Bytes want; for (auto& o : ops) expect(want, o);
        int kind = (int)r.below(kOutKinds); size_t cap = gen_cap(r); bool cst = r.chance(1, 2);
        std::string what = fmt("%s cap %zu %s start %c:", out_name(kind), cap, cst ? "const" : "", first == std::endian::big ? 'B' : 'L') + show(ops); set_case("C16 write " + what);
        uint64_t hh = hash_bytes(want.data(), want.size(), cap * 31 + kind);
        try {
            Bytes got = with_output(kind, cap, [&](auto& res) { Hopping<cmp::data_output_stream<std::remove_reference_t<decltype(res)>>> hs{res, first}; for (auto& o : ops) { hs.maybe_hop(r); auto& s = *hs; if (o.set_e) s.set_endianness(o.e); put_value(s, o, cst); if (o.flush) s << cmp::flush; } if ((*hs).get_endianness() != cur) fail("get_endianness", what); });
            if (got != want) fail("written-bytes", what + " got " + dump_units(got) + " expected " + dump_units(want));
            ++counter("streams_written"); counter("values_written") += ops.size(); ev(hh, !ops.empty());
            // read back, complete and cut at every kind of place
            for (int cut = 0; cut < 2; ++cut) {
                Bytes src = want; if (cut) { if (src.empty()) break; src.resize(r.below(src.size())); }
                kind = (int)r.below(kInKinds); cap = gen_cap(r); what = fmt("%s cap %zu start %c, %zu of %zu bytes:", in_name(kind), cap, first == std::endian::big ? 'B' : 'L', src.size(), want.size()) + show(ops); set_case("C16 read " + what);
                with_input(kind, cap, src, [&](auto& res) {
                    Hopping<cmp::data_input_stream<std::remove_reference_t<decltype(res)>>> hs{res, first}; size_t pos = 0;
                    for (size_t j = 0; j < ops.size(); ++j) {
                        hs.maybe_hop(r); auto& s = *hs;
                        auto& o = ops[j]; if (o.set_e) s.set_endianness(o.e);
                        if (r.chance(1, 4) && s.is_at_end() != (pos >= src.size())) { fail("is_at_end", what); return; }
                        bool same, ok = get_value(s, o, same), there = pos + o.size <= src.size();
                        if (ok != there) { fail(ok ? "value-from-missing-bytes" : "premature-read_past_end", fmt("value %zu (type %d) ", j, o.type) + what); return; }
                        if (!same) { fail(ok ? "value" : "target-touched", fmt("value %zu (type %d, %s) ", j, o.type, o.e == std::endian::big ? "big" : "little") + what); return; }
                        if (!ok) { ++counter("reads_past_the_end"); return; }
                        pos += o.size; ++counter("values_read");
                    }
                    if (!(*hs).is_at_end() && pos >= src.size()) fail("end-after-reading", what);
                });
                ev(hh ^ mix64(src.size() * 64 + kind * 8 + cut), !ops.empty());
            }
            // an input/output stream over one resource
            if (r.chance(1, 2)) {
                kind = 3 + (int)r.below(3); cap = gen_cap(r); what = fmt("data_io_stream on %s cap %zu:", out_name(kind), cap) + show(ops); set_case("C16 io " + what);
                auto go = [&](auto& res) {
                    using R = std::remove_reference_t<decltype(res)>;
                    cmp::data_io_stream<R> s{res, first};
                    for (auto& o : ops) { if (o.set_e) { s.cmp::template data_output_stream<R>::set_endianness(o.e); } put_value(s, o, cst); if (r.chance(1, 15)) { int64_t p = s->get_position(); s->set_position(0, cmp::position_reference::begin); s->set_position(p, cmp::position_reference::begin); } }
                    s->set_position(0, cmp::position_reference::begin);
                    s.cmp::template data_input_stream<R>::set_endianness(first);
                    for (size_t j = 0; j < ops.size(); ++j) { auto& o = ops[j]; if (o.set_e) s.cmp::template data_input_stream<R>::set_endianness(o.e); bool same, ok = get_value(s, o, same); if (!ok || !same) { fail("io-value", fmt("value %zu (type %d) %s ", j, o.type, ok ? "differs" : "missing") + what); return; } }
                    bool same; Op o = gen_op(r, cur); if (get_value(s, o, same)) fail("io-past-end", what);
                };
                Bytes got;
                if (kind == 3) { cmp::opaque_container_io_resource<std::u8string> q{std::u8string{}, cap}; go(q); q.flush(); got = as_bytes(q.grab_content()); }
                else if (kind == 4) { VB c; { cmp::transparent_container_io_resource<VB> q{c, cap}; go(q); q.flush(); } got = as_bytes(c); }
                else { put("io.bin", {}); { cmp::file q{"io.bin", cmp::access_mode::read_and_write, cmp::if_not_there::fail, cap}; go(q); } got = slurp("io.bin"); }
                if (got != want) fail("io-bytes", what + " got " + dump_units(got) + " expected " + dump_units(want));
                ++counter("io_streams"); ev(hh + 5, !ops.empty());
            }
        } catch (const std::exception& e) { fail("threw", what + " " + e.what()); }
        if (i < 3) sample(what.substr(0, 200));
    }
    // blocks of bytes through the streams themselves
    for (size_t i = 0, m = S().thorough ? 8000 : 400; i < m && !S().total_violations; ++i) {
        size_t kinds = r.chance(1, 30) ? 3 : r.chance(1, 4) ? 2 : 1; std::vector<std::pair<Bytes, int>> blocks(1 + r.below(kinds == 3 ? 2 : 6)); Bytes want;
        for (auto& b : blocks) { b.first.resize(kinds == 3 ? 60000 + r.below(80000) : kinds == 2 ? r.below(1200) : r.below(40)); for (auto& x : b.first) x = (uint8_t)r.next(); b.second = (int)r.below(3); if (b.second == 2) want.insert(want.end(), b.first.rbegin(), b.first.rend()); else want.insert(want.end(), b.first.begin(), b.first.end()); }
        int kind = (int)r.below(kOutKinds); size_t cap = gen_cap(r); std::endian e = r.chance(1, 2) ? std::endian::big : std::endian::little; std::string what = fmt("%zu blocks, %zu bytes into %s cap %zu", blocks.size(), want.size(), out_name(kind), cap); set_case("C16 blocks " + what);
        try {
            Bytes got = with_output(kind, cap, [&](auto& res) { cmp::data_output_stream<std::remove_reference_t<decltype(res)>> s{res, e}; for (auto& b : blocks) { std::unique_ptr<std::byte[]> d(new std::byte[b.first.size()]); if (!b.first.empty()) std::memcpy(d.get(), b.first.data(), b.first.size()); size_t g = b.second == 2 ? s.reverse_write(d.get(), b.first.size()) : s.write(d.get(), b.first.size()); if (g != b.first.size()) { fail("block-write-count", what + fmt(": %zu of %zu", g, b.first.size())); return; } } });
            if (got != want) fail("block-bytes", what);
            kind = (int)r.below(kInKinds); cap = gen_cap(r); what += fmt(", read from %s cap %zu", in_name(kind), cap); set_case("C16 blocks " + what);
            with_input(kind, cap, want, [&](auto& res) { cmp::data_input_stream<std::remove_reference_t<decltype(res)>> s{res, e}; size_t pos = 0;
                for (int k = 0; k < 40 && pos <= want.size(); ++k) { size_t q = r.chance(1, 3) ? r.below(want.size() + 10) : r.below(kinds == 3 ? 100000 : 50) + 1, there = std::min(q, want.size() - pos); std::unique_ptr<std::byte[]> d(new std::byte[q]); size_t g = s.read(d.get(), q); if (g != there) { fail("block-read-count", what + fmt(": read(%zu) at %zu gave %zu instead of %zu", q, pos, g, there)); return; }
                    Bytes x((uint8_t*)d.get(), (uint8_t*)d.get() + g), y(want.begin() + pos, want.begin() + pos + g); if (x != y && e != std::endian::native) std::reverse(x.begin(), x.end()); if (x != y) { fail("block-read", what + fmt(": read(%zu) at %zu", q, pos)); return; } pos += g; ++counter("blocks_read"); if (pos == want.size() && q > there) break; } });
            counter("blocks_written") += blocks.size(); ev(hash_bytes(want.data(), want.size(), cap + i));
        } catch (const std::exception& x) { fail("threw", what + " " + x.what()); }
    }
    // streams that are not told an endianness: big for output and input/output streams, native for input streams
    for (size_t cap : {(size_t)0, (size_t)3, (size_t)64}) {
        set_case("C16 default endianness"); std::u8string c; const uint32_t v = 0x01020304; const Bytes big{1, 2, 3, 4}; uint32_t w = 0;
        { cmp::transparent_container_io_resource<std::u8string> q{c, cap}; cmp::data_output_stream o{q}; o << v; o.flush(); if (as_bytes(c) != big || o.get_endianness() != std::endian::big) fail("default-endianness:output", dump_units(as_bytes(c))); }
        { cmp::transparent_container_io_resource<std::u8string> q{c, cap}; cmp::data_input_stream i{q}; i >> w; uint32_t n; std::memcpy(&n, c.data(), 4); if (w != n || i.get_endianness() != std::endian::native) fail("default-endianness:input", fmt("%X", w)); }
        { c.clear(); cmp::transparent_container_io_resource<std::u8string> q{c, cap}; cmp::data_io_stream s{q}; s << v; s->flush(); if (as_bytes(c) != big) fail("default-endianness:io", dump_units(as_bytes(c))); s->set_position(0, cmp::position_reference::begin); w = 0; s >> w; if (w != v) fail("default-endianness:io-read", fmt("%X", w)); }
        ++counter("default_endianness_probes"); ++S().evaluations;
    }
    { Rng q(shard_seed(1600)); try { every_block(q); mixed(q); } catch (const std::exception& x) { fail("mixed-threw", std::string(g_case) + x.what()); } }
    unlink("sink.bin"); unlink("source.bin"); unlink("io.bin");
    return done();
}
