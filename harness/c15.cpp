#include "resmodel.hpp"
#include "hugemem.hpp"
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <array>
using namespace h;
struct Tri { uint8_t b[3]; };
template <class C> std::vector<uint8_t> bytes(const C& c) { using E = typename C::value_type; std::vector<uint8_t> v(c.size() * sizeof(E)); if (!v.empty()) std::memcpy(v.data(), c.data(), v.size()); return v; }
template <class C> C make(Rng& r, size_t n) { C c; c.resize(n); auto p = (uint8_t*)c.data(); for (size_t i = 0; i < n * sizeof(typename C::value_type); ++i) p[i] = (uint8_t)r.next(); return c; }
static const std::vector<size_t> caps{0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 1024};
template <class C> struct Run {
    using E = typename C::value_type;
    static HistoryOptions opts(Rng& r, size_t cap) { HistoryOptions o; o.cap = cap; o.ops = 4 + r.below(r.chance(1, 10) ? 120 : 30); o.maxreq = r.chance(1, 8) ? 2500 : r.chance(1, 2) ? 12 : 40; return o; }
    static ByteModel model(const C& c) { ByteModel m; m.d = bytes(c); m.elem = sizeof(E); m.exact_end = m.d.size(); return m; }
    static void one(Rng& r, const char* tn) {
        size_t cap = any_cap(r, caps); HistoryOptions o = opts(r, cap);
        C init = make<C>(r, r.chance(1, 6) ? 0 : gen_size(r, cap, 50) / sizeof(E) + r.below(2));
        ByteModel m = model(init); std::string log = fmt("%s of %zu elements, cap %zu;", tn, init.size(), cap);
        try {
            switch (r.below(10)) {
                case 8: case 9:
                case 6: copies(r, tn, init, m, o, log); break;
                case 0: case 1: { cmp::opaque_container_io_resource<C> res{init, cap}; drive(res, m, r, o, std::string("opaque-io<") + tn + ">", [&] { return bytes(res.grab_content()); }, log); res.flush(); CHECK(bytes(res.grab_content()) == m.d, "opaque-io:final", log); break; }
                case 2: case 3: { C c = init; cmp::transparent_container_io_resource<C> res{c, cap}; drive(res, m, r, o, std::string("transparent-io<") + tn + ">", [&] { return bytes(c); }, log); res.flush(); CHECK(bytes(c) == m.d, "transparent-io:final", log); CHECK(&res.grab_content() == &c, "transparent-io:content-object", log); break; }
                case 4: { o.can_write = false; if (r.chance(1, 2)) { cmp::opaque_container_input_resource<C> res{init, cap}; drive(res, m, r, o, std::string("opaque-in<") + tn + ">", [&] { return bytes(res.grab_content()); }, log); CHECK(bytes(res.grab_content()) == m.d, "opaque-in:changed", log); } else { C c = init; cmp::transparent_container_input_resource<C> res{c, cap}; drive(res, m, r, o, std::string("transparent-in<") + tn + ">", [&] { return bytes(c); }, log); CHECK(bytes(c) == m.d, "transparent-in:changed", log); } break; }
                case 5: { o.can_read = false; if (r.chance(1, 2)) { cmp::opaque_container_output_resource<C> res{init, cap}; drive(res, m, r, o, std::string("opaque-out<") + tn + ">", [&] { return bytes(res.grab_content()); }, log); res.flush(); CHECK(bytes(res.grab_content()) == m.d, "opaque-out:final", log); } else { C c = init; cmp::transparent_container_output_resource<C> res{c, cap}; drive(res, m, r, o, std::string("transparent-out<") + tn + ">", [&] { return bytes(c); }, log); res.flush(); CHECK(bytes(c) == m.d, "transparent-out:final", log); } break; }
                default: { // the caller changes a transparent container between operations
                    o.ops = 3 + r.below(6); C c = init; cmp::transparent_container_io_resource<C> res{c, cap};
                    for (int k = 0; k < 4; ++k) {
                        drive(res, m, r, o, std::string("transparent-shared<") + tn + ">", [&] { return bytes(c); }, log);
                        res.set_position(0, cmp::position_reference::begin); m.seek(0, cmp::position_reference::begin); // empties the buffer
                        if (bytes(c) != m.d) { fail("transparent-shared:content", log); break; }
                        c = make<C>(r, r.below(30)); m.d = bytes(c); m.exact_end = m.d.size(); log += fmt(" [caller stores %zu elements]", c.size()); ++counter("external_changes");
                    }
                }
            }
        } catch (const std::exception& e) { fail("threw", log + e.what()); }
        ++counter("histories");
        if (S().samples.size() < 4) sample(log.substr(0, 260));
    }
    template <class R> static void split(Rng& r, R& a, R& b, ByteModel ma, ByteModel mb, const HistoryOptions& o, const std::string& tag, std::string log) {
        for (int k = 0; k < 3; ++k) { drive(a, ma, r, o, tag + "-first", [&] { return bytes(std::as_const(a).grab_content()); }, log); drive(b, mb, r, o, tag + "-second", [&] { return bytes(std::as_const(b).grab_content()); }, log); }
        if constexpr (requires { a.flush(); }) { a.flush(); b.flush(); }
        CHECK(bytes(std::as_const(a).grab_content()) == ma.d && bytes(std::as_const(b).grab_content()) == mb.d, tag + ":final", log);
    }
    template <class R> static std::unique_ptr<R> built(Rng& r, const C& init, size_t cap, std::string& log) { // every way to make one with this content
        switch (r.below(init.empty() ? 4 : 3)) {
            case 0: log += " [made from a copy]"; return std::make_unique<R>(init, cap);
            case 1: { log += " [made from an rvalue]"; C c = init; auto p = std::make_unique<R>(std::move(c), cap); c = make<C>(r, 5); return p; }
            case 2: { log += " [content stored through grab_content]"; auto p = std::make_unique<R>(C{}, cap); if constexpr (requires { p->grab_content() = init; }) { p->grab_content() = init; return p; } else return std::make_unique<R>(init, cap); }
            default: log += " [made with a capacity only]"; return std::make_unique<R>(cap);
        }
    }
    template <class R> static void finish(Rng& r, R& b, ByteModel& m, const HistoryOptions& o, const std::string& tag, std::string log) {
        drive(b, m, r, o, tag, [&] { return bytes(std::as_const(b).grab_content()); }, log); if constexpr (requires { b.flush(); }) b.flush(); CHECK(bytes(std::as_const(b).grab_content()) == m.d, tag + ":final", log);
    }
    template <class R> static void copy_of(Rng& r, const char* kind, const C& init, ByteModel m, HistoryOptions o, std::string log) {
        o.ops = 2 + r.below(10); std::string tag = std::string("copy-") + kind; int how = (int)r.below(8); log += fmt(" [%s how %d]", kind, how);
        auto a = built<R>(r, init, o.cap, log);
        drive(*a, m, r, o, tag, [&] { return bytes(std::as_const(*a).grab_content()); }, log);
        ++counter("copies_and_moves");
        auto used = [&](R& b) { // an object that already has a history of its own, which the assignment replaces
            C other = make<C>(r, r.below(20)); ByteModel mo = model(other); HistoryOptions oo = o; oo.cap = 3; oo.ops = r.below(6); b = R{other, 3}; std::string l2 = log + " [target's own history]"; drive(b, mo, r, oo, tag + "-target", [&] { return bytes(std::as_const(b).grab_content()); }, l2); };
        if (how == 0) { R b{*a}; split(r, *a, b, m, m, o, tag, log); }
        else if (how == 1) { R b{C{}, 3}; if (r.chance(1, 2)) used(b); b = *a; split(r, *a, b, m, m, o, tag, log); }
        else if (how == 2) { R b{std::move(*a)}; a.reset(); finish(r, b, m, o, tag + "-moved", log); }
        else if (how == 3) { auto b = std::make_unique<R>(*a); ByteModel mb = m; a.reset(); finish(r, *b, mb, o, tag + "-outlives", log); }
        else if (how == 4) { R b{C{}, 3}; if (r.chance(1, 2)) used(b); b = std::move(*a); if (r.chance(1, 2)) a.reset(); finish(r, b, m, o, tag + "-move-assigned", log); }
        else if (how == 5) { R& self = *a; *a = self; finish(r, *a, m, o, tag + "-self-assigned", log); }
        else if (how == 6) { R b{C{}, 3}; ByteModel mb = model(C{}); std::swap(*a, b); finish(r, b, m, o, tag + "-swapped", log); HistoryOptions ob = o; ob.cap = 3; finish(r, *a, mb, ob, tag + "-swapped-back", log); }
        else { std::vector<R> v; v.push_back(std::move(*a)); a.reset(); v.emplace_back(C{}, 2); v.emplace_back(v[0]); v.erase(v.begin()); ByteModel mb = m; finish(r, v[1], mb, o, tag + "-in-vector", log); }
    }
    template <class R> static void transparent_copy(Rng& r, const char* kind, const C& init, ByteModel m, HistoryOptions o, std::string log) {
        o.ops = 2 + r.below(10); std::string tag = std::string("transparent-copy-") + kind; int how = (int)r.below(5); log += fmt(" [%s how %d]", kind, how);
        C c = init, unrelated = make<C>(r, r.below(9)); const auto ubytes = bytes(unrelated);
        auto a = std::make_unique<R>(c, o.cap); auto content = [&] { return bytes(c); };
        drive(*a, m, r, o, tag, content, log); ++counter("transparent_copies_and_moves");
        std::unique_ptr<R> b;
        if (how == 0) b = std::make_unique<R>(*a);
        else if (how == 1) b = std::make_unique<R>(std::move(*a));
        else if (how == 2) { b = std::make_unique<R>(unrelated, 3); *b = *a; }
        else if (how == 3) { b = std::make_unique<R>(unrelated, 3); *b = std::move(*a); }
        else { R& self = *a; *a = self; b = std::move(a); }
        a.reset();
        drive(*b, m, r, o, tag + "-second", content, log); if constexpr (requires { b->flush(); }) b->flush();
        CHECK(bytes(c) == m.d, tag + ":final", log); CHECK(&std::as_const(*b).grab_content() == &c, tag + ":content-object", log); CHECK(bytes(unrelated) == ubytes, tag + ":unrelated", log);
    }
    static void copies(Rng& r, const char* tn, const C& init, const ByteModel& m, HistoryOptions o, const std::string& log) {
        switch (r.below(6)) {
            case 3: transparent_copy<cmp::transparent_container_io_resource<C>>(r, "io", init, m, o, log); break;
            case 4: o.can_write = false; transparent_copy<cmp::transparent_container_input_resource<C>>(r, "in", init, m, o, log); break;
            case 5: o.can_read = false; transparent_copy<cmp::transparent_container_output_resource<C>>(r, "out", init, m, o, log); break;
            case 0: copy_of<cmp::opaque_container_io_resource<C>>(r, "io", init, m, o, log); break;
            case 1: o.can_write = false; copy_of<cmp::opaque_container_input_resource<C>>(r, "in", init, m, o, log); break;
            default: o.can_read = false; copy_of<cmp::opaque_container_output_resource<C>>(r, "out", init, m, o, log);
        }
    }
};
template <class R> static void far_positions(const char* kind) { // positions beyond 32 bits, never written to
    set_case(std::string("C15 far positions ") + kind);
    for (size_t cap : {(size_t)0, (size_t)5, (size_t)64}) for (int64_t far : {0x7FFFFFFFll, 0x80000000ll, 0xFFFFFFFFll, 0x100000000ll, 0x100000001ll, 0x7FFFFFFFFFFFll, 0x1234567890123ll}) {
        typename R::content_type init; init.resize(10); for (size_t i = 0; i < 10; ++i) init[i] = (typename R::content_type::value_type)(i + 1);
        const int64_t size = 10 * (int64_t)sizeof(init[0]); R res{init, cap}; std::byte b[4]; std::string w = fmt("%s cap %zu far %llx", kind, cap, (long long)far);
        if constexpr (requires { res.read(b, 1); }) CHECK(res.read(b, 2) == 2, "far:read", w); else res.go_forward(2);
        res.set_position(far, cmp::position_reference::begin); CHECK(res.get_position() == far && res.is_at_end(), "far:begin", w);
        res.set_position(2, cmp::position_reference::begin); res.go_forward(far); CHECK(res.get_position() == far + 2 && res.is_at_end(), "far:current", w);
        if constexpr (requires { res.read(b, 1); }) CHECK(res.read(b, 4) == 0 && res.get_position() == far + 2, "far:read-at-end", w);
        res.go_back(far - 1); CHECK(res.get_position() == 3 && !res.is_at_end(), "far:back", w);
        if constexpr (requires { res.read(b, 1); }) CHECK(res.read(b, 1) == 1 && res.get_position() == 4, "far:read-back", w);
        res.set_position(far, cmp::position_reference::end); CHECK(res.get_position() == far + size && res.is_at_end(), "far:end", w);
        res.set_position(-far, cmp::position_reference::end); CHECK(res.get_position() == 0, "far:before-begin", w);
        ++counter("far_position_probes"); ev((uint64_t)far * 31 + cap);
    }
}
template <class R> static void huge_requests(const char* kind) { // requests of more than 4 GiB into memory that is never touched
    Huge mem; if (!mem.p) { ++counter("huge_unsupported"); return; }
    typename R::content_type init; init.resize(1000); for (size_t i = 0; i < init.size(); ++i) init[i] = (typename R::content_type::value_type)(i * 7 + 1);
    auto d = bytes(init);
    for (size_t cap : {(size_t)0, (size_t)16, (size_t)8192}) for (size_t n : {(size_t)0x7FFFFFFF, (size_t)0x80000001, (size_t)0xFFFFFFFF, (size_t)0x100000000, (size_t)0x100000003}) for (size_t first : {(size_t)0, (size_t)3}) {
        std::string w = fmt("%s read(0x%zX) after %zu, cap %zu", kind, n, first, cap); set_case("C15 huge " + w); std::memset(mem.p, 0, 8192);
        R res{init, cap}; size_t a = res.read(mem.p, first), g = res.read(mem.p + first, n);
        CHECK(a == first && g == d.size() - first && std::memcmp(mem.p, d.data(), d.size()) == 0 && res.get_position() == (int64_t)d.size() && res.is_at_end(), "huge:read", w + fmt(" returned %zu", g));
        ++counter("huge_requests"); ev(n * 31 + cap + first);
    }
}
// resources that are not told a buffer capacity hold nothing back
template <class C> static void unbuffered_by_default() {
    using E = typename C::value_type; C init; init.resize(3); for (size_t i = 0; i < 3; ++i) init[i] = (E)(i + 1); set_case("C15 default capacity");
    std::byte one[sizeof(E) + 1]; for (size_t i = 0; i <= sizeof(E); ++i) one[i] = (std::byte)(0x41 + i);
    auto outputs = [&](auto& res, auto content, const char* kind) { auto want = bytes(init); for (size_t i = 0; i < 3; ++i) { res.write(one + i % sizeof(E), 1); want[i] = (uint8_t)one[i % sizeof(E)]; CHECK(bytes(content()) == want, "default-capacity:held-back", fmt("%s byte %zu", kind, i)); } if constexpr (requires { res.read(one, 1); }) { std::byte b{}; CHECK(res.read(&b, 1) == 1 && (uint8_t)b == want[3 % want.size()] , "default-capacity:read", kind); } ++counter("default_capacity_probes"); ++S().evaluations; };
    auto inputs = [&](auto& res, auto change, const char* kind) { std::byte b{}; CHECK(res.read(&b, 1) == 1 && (uint8_t)b == bytes(init)[0], "default-capacity:read", kind); change(); CHECK(res.read(&b, 1) == 1 && (uint8_t)b == 0x77, "default-capacity:stale", kind); ++counter("default_capacity_probes"); ++S().evaluations; };
    if (sizeof(E) * 3 > 3) {
        { cmp::opaque_container_io_resource<C> a{init}; outputs(a, [&]() -> const C& { return a.grab_content(); }, "opaque-io copy"); }
        { C t = init; cmp::opaque_container_io_resource<C> a{std::move(t)}; outputs(a, [&]() -> const C& { return a.grab_content(); }, "opaque-io rvalue"); }
        { cmp::opaque_container_io_resource<C> a; a.grab_content() = init; outputs(a, [&]() -> const C& { return a.grab_content(); }, "opaque-io empty"); }
        { C t = init; cmp::transparent_container_io_resource<C> a{t}; outputs(a, [&]() -> const C& { return t; }, "transparent-io"); }
    }
    { cmp::opaque_container_output_resource<C> a{init}; outputs(a, [&]() -> const C& { return a.grab_content(); }, "opaque-out copy"); }
    { C t = init; cmp::opaque_container_output_resource<C> a{std::move(t)}; outputs(a, [&]() -> const C& { return a.grab_content(); }, "opaque-out rvalue"); }
    { cmp::opaque_container_output_resource<C> a; a.grab_content() = init; outputs(a, [&]() -> const C& { return a.grab_content(); }, "opaque-out empty"); }
    { C t = init; cmp::transparent_container_output_resource<C> a{t}; outputs(a, [&]() -> const C& { return t; }, "transparent-out"); }
    auto poke = [](C& c) { ((uint8_t*)c.data())[1] = 0x77; };
    { C t = init; cmp::transparent_container_input_resource<C> a{t}; inputs(a, [&] { poke(t); }, "transparent-in"); }
    { C t = init; cmp::transparent_container_io_resource<C> a{t}; inputs(a, [&] { poke(t); }, "transparent-io"); }
    { cmp::opaque_container_io_resource<C> a{init}; inputs(a, [&] { poke(a.grab_content()); }, "opaque-io"); }
    if constexpr (requires (cmp::opaque_container_input_resource<C> a) { poke(a.grab_content()); }) {
        { cmp::opaque_container_input_resource<C> a{init}; inputs(a, [&] { poke(a.grab_content()); }, "opaque-in copy"); }
        { C t = init; cmp::opaque_container_input_resource<C> a{std::move(t)}; inputs(a, [&] { poke(a.grab_content()); }, "opaque-in rvalue"); }
        { cmp::opaque_container_input_resource<C> a; a.grab_content() = init; inputs(a, [&] { poke(a.grab_content()); }, "opaque-in empty"); }
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    if (S().shard == 2 % S().nshards) {
#if PART == 0
        unbuffered_by_default<std::string>();
#elif PART == 1
        unbuffered_by_default<std::u32string>();
#else
        unbuffered_by_default<std::vector<uint16_t>>();
#endif
    }
    if (S().shard == 0) {
        using C = std::conditional_t<PART == 0, std::string, std::conditional_t<PART == 1, std::u32string, std::vector<uint16_t>>>;
        far_positions<cmp::opaque_container_io_resource<C>>("opaque-io"); far_positions<cmp::opaque_container_input_resource<C>>("opaque-in"); far_positions<cmp::opaque_container_output_resource<C>>("opaque-out");
        far_positions<cmp::transparent_container_io_resource<C>>("transparent-io"); far_positions<cmp::transparent_container_input_resource<C>>("transparent-in"); far_positions<cmp::transparent_container_output_resource<C>>("transparent-out");
    }
    if (S().shard == 1 % S().nshards) { using C = std::conditional_t<PART == 0, std::string, std::conditional_t<PART == 1, std::u32string, std::vector<uint16_t>>>;
        huge_requests<cmp::opaque_container_io_resource<C>>("opaque-io"); huge_requests<cmp::opaque_container_input_resource<C>>("opaque-in"); huge_requests<cmp::transparent_container_io_resource<C>>("transparent-io"); huge_requests<cmp::transparent_container_input_resource<C>>("transparent-in"); }
    { int id = 0; using C = std::conditional_t<PART == 0, std::string, std::conditional_t<PART == 1, std::u32string, std::vector<uint16_t>>>; using E = typename C::value_type;
        for (size_t cap : {0, 1, 2, 7, 64, 333, 1023, 1024, 1100, 4096, 8192, 65536}) if (id++ % S().nshards == S().shard) {
        std::string what = fmt("requests of every size, cap %zu", cap); set_case("C15 " + what); C c; size_t total; auto bytes = [](const C& x) { const uint8_t* p = (const uint8_t*)x.data(); return std::vector<uint8_t>(p, p + x.size() * sizeof(E)); };
        { cmp::transparent_container_io_resource<C> q{c, cap}; total = write_every_size(q, "transparent " + what); q.flush(); } auto b = bytes(c); b.resize(std::min(b.size(), total));
        CHECK(S().total_violations || (is_pattern(b, total) && c.size() == (total + sizeof(E) - 1) / sizeof(E)), "every-size:content", what);
        { cmp::opaque_container_io_resource<C> q{C{}, cap}; total = write_every_size(q, "opaque " + what); q.flush(); CHECK(S().total_violations || bytes(q.grab_content()) == bytes(c), "every-size:content-opaque", what); }
        if (total % sizeof(E) == 0) { { cmp::transparent_container_input_resource<C> q{c, cap}; read_every_size(q, total, "transparent " + what); } { cmp::opaque_container_input_resource<C> q{c, cap}; read_every_size(q, total, "opaque " + what); } } ev(cap * 77 + 15 + PART); } }
    Rng r(shard_seed(15 + PART * 100));
    size_t n = S().thorough ? 100000 : 6000;
    for (size_t i = 0; i < n; ++i) {
#if PART == 0
        Run<std::vector<std::byte>>::one(r, "vector<byte>"); Run<std::string>::one(r, "string"); Run<std::vector<Tri>>::one(r, "vector<3 bytes>");
#elif PART == 1
        Run<std::u16string>::one(r, "u16string"); Run<std::u32string>::one(r, "u32string"); Run<std::vector<uint64_t>>::one(r, "vector<uint64>");
#else
        Run<std::u8string>::one(r, "u8string"); Run<std::wstring>::one(r, "wstring"); Run<std::vector<uint16_t>>::one(r, "vector<uint16>");
#endif
    }
    return done();
}
