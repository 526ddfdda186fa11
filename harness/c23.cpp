// C23: test modules run every test once, in order, and report every outcome.
#include "common.hpp"
#include <deque>
#include <iostream>
#include <sstream>
#include <cmp/core/test_module.hpp>
using namespace h;
struct Plan { bool ok; unsigned stages; const char* name; int fn; unsigned ops; bool logs; };
struct Script { std::vector<Plan> tests; };
static Rng* R;
static const char* kNames[] = {"a", "constructor", "a longer name with spaces", "", "quote ' inside", "Test #1 - 'x' succeeded", "%s%n", "n\xC3\xA9", "====", "0123456789012345678901234567890123456789012345678901234567890123456789"};
struct Mod : cmp::test_module<Mod> {
    using base = cmp::test_module<Mod>; using M = base::message; using D = base::dummy;
    Script* script; std::vector<int> called; std::string cerr_expected; std::string cout_extra;
    explicit Mod(std::vector<test_function_pointer> f, Script* s) : base{std::move(f)}, script{s} {}
    std::string* expected = nullptr;
    unsigned width = 1;
    bool body(int k) {
        size_t i = called.size(); called.push_back(k);
        if (i >= script->tests.size()) { fail("too-many-calls", fmt("function %d called as test %zu of %zu", k, i, script->tests.size())); return true; }
        const Plan& p = script->tests[i];
        CHECK(p.fn == k, "wrong-order", fmt("test %zu ran function %d instead of %d", i, k, p.fn));
        if (i) CHECK(get_message_count() == 0, "queue-not-emptied", fmt("%u messages at the start of test %zu", get_message_count(), i));
        else clear_message_queue();
        start_test(p.name);
        std::string num = std::to_string(i + 1); num = std::string(width > num.size() ? width - num.size() : 0, '0') + num;
        *expected += "Test #" + num + " - '" + p.name + "' starting.\n";
        dummies(p.ops);
        for (unsigned s = 1; s <= p.stages; ++s) { end_stage(); *expected += "Stage " + std::to_string(s) + " completed successfully.\n"; if (p.logs && s == 1) log(); }
        *expected += "Test #" + num + " - '" + p.name + "' " + (p.ok ? "succeeded" : "failed") + " with " + std::to_string(p.stages) + (p.stages == 1 ? " successful stage.\n" : " successful stages.\n");
        *expected += std::string(6 + num.size(), '=') + "\n";
        return p.ok;
    }
    void log() { log_info() << "x\n"; *expected += "info: x\n"; log_error() << "y\n"; cerr_expected += "error: y\n"; ++counter("log_lines"); }
    void dummies(unsigned ops) {
        Rng& r = *R; std::deque<M> q; std::vector<std::pair<std::unique_ptr<D>, int>> live;
        auto chk = [&] { CHECK(get_message_count() == q.size(), "message-count", fmt("%u instead of %zu", get_message_count(), q.size())); };
        for (unsigned o = 0; o < ops; ++o) {
            ++counter("message_operations"); ev(mix64(r.s) ^ o);
            switch (r.below(9)) {
                case 0: { int v = (int)r.next(); live.emplace_back(std::make_unique<D>(this, v), v); q.push_back(M::constructor_called); break; }
                case 1: { live.emplace_back(std::make_unique<D>(this), int(D::default_value)); q.push_back(M::constructor_called); break; }
                case 2: if (!live.empty()) { auto& s = live[r.below(live.size())]; int v = s.second; auto d = std::make_unique<D>(*s.first); q.push_back(M::copy_constructor_called);
                        CHECK(d->get_value() == v && s.first->get_value() == v, "dummy-copy-value", fmt("%d", d->get_value())); live.emplace_back(std::move(d), v); } break;
                case 3: if (!live.empty()) { auto& s = live[r.below(live.size())]; int v = s.second; auto d = std::make_unique<D>(std::move(*s.first)); q.push_back(M::move_constructor_called);
                        CHECK(d->get_value() == v && s.first->get_value() == D::default_value, "dummy-move-value", fmt("%d %d", d->get_value(), s.first->get_value())); s.second = int(D::default_value); live.emplace_back(std::move(d), v); } break;
                case 4: if (!live.empty()) { size_t k = r.below(live.size()); live.erase(live.begin() + (long)k); q.push_back(M::destructor_called); } break;
                case 5: if (!live.empty()) { auto& s = live[r.below(live.size())]; s.second = (int)r.next(); s.first->set_value(s.second); } break;
                case 6: { M m = pop_message(); M e = q.empty() ? M::empty : q.front(); if (!q.empty()) q.pop_front(); CHECK(m == e, "pop-order", fmt("popped %d instead of %d", (int)m, (int)e)); break; }
                case 7: { M m = (M)r.below(5); push_message(m); q.push_back(m); break; }
                default: if (r.chance(1, 6)) { clear_message_queue(); q.clear(); } break;
            }
            for (auto& s : live) CHECK(s.first->get_value() == s.second, "dummy-value", fmt("%d instead of %d", s.first->get_value(), s.second));
            chk();
        }
        bool drain = r.chance(1, 2);
        while (!live.empty()) { live.pop_back(); q.push_back(M::destructor_called); }
        chk();
        if (drain) while (!q.empty()) { M m = pop_message(), e = q.front(); q.pop_front(); CHECK(m == e, "pop-order", fmt("popped %d instead of %d", (int)m, (int)e)); }
        else if (!q.empty()) ++counter("tests_leaving_messages");
    }
    template <int K> bool t() { return body(K); }
};
static const std::vector<Mod::test_function_pointer> kFns{&Mod::t<0>, &Mod::t<1>, &Mod::t<2>, &Mod::t<3>, &Mod::t<4>, &Mod::t<5>, &Mod::t<6>};
static Script gen(Rng& r, size_t n, bool small) {
    Script s; int bias = (int)r.below(4);
    for (size_t i = 0; i < n; ++i) {
        bool ok = bias == 0 ? true : bias == 1 ? false : r.chance(bias == 2 ? 1 : 9, bias == 2 ? 2 : 10);
        unsigned st = small ? (unsigned)r.below(2) : r.chance(1, 40) ? (unsigned)r.below(300) : (unsigned)r.below(5);
        s.tests.push_back({ok, st, kNames[r.below(10)], (int)r.below(kFns.size()), small ? 0 : (unsigned)r.below(r.chance(1, 5) ? 60 : 8), !small && r.chance(1, 8)});
    }
    return s;
}
static void one(Rng& r, size_t n, bool small, int runs) {
    std::ostringstream out, err; auto* ob = std::cout.rdbuf(out.rdbuf()); auto* eb = std::cerr.rdbuf(err.rdbuf());
    Script s = gen(r, n, small); std::vector<Mod::test_function_pointer> f; for (auto& p : s.tests) f.push_back(kFns[(size_t)p.fn]);
    Mod first{f, &s}; std::string expected;
    Mod copy = r.chance(1, 2) ? Mod(first) : Mod(std::move(first)); bool use_copy = r.chance(1, 2);
    Mod second{f, &s}; if (r.chance(1, 3)) { second = use_copy ? copy : second; ++counter("copied_or_moved_modules"); }
    Mod& m = use_copy ? copy : second;
    m.width = (unsigned)std::to_string(n).size();
    for (int k = 0; k < runs; ++k) {
        set_case(fmt("module of %zu tests, run %d", n, k + 1)); if (k) ++counter("repeated_runs");
        if (k) for (auto& p : s.tests) if (r.chance(1, 3)) p.ok = !p.ok;
        expected.clear(); m.expected = &expected; m.called.clear(); m.cerr_expected.clear(); out.str(""); err.str("");
        uint64_t h0 = mix64(n * 77 + (uint64_t)k); for (auto& p : s.tests) h0 = mix64(h0 ^ p.ok ^ p.stages * 2 ^ (uint64_t)p.fn << 40);
        int failed = m.run_tests(), want = 0;
        for (auto& p : s.tests) want += !p.ok;
        std::string tail = "Successful tests: " + std::to_string(n - (size_t)want) + "\nFailed tests: " + std::to_string(want) + "\n\n";
        for (size_t i = 0; i < n; ++i) if (!s.tests[i].ok) tail += "Test #" + std::to_string(i + 1) + " - '" + s.tests[i].name + "' failed on stage " + std::to_string(s.tests[i].stages + 1) + "\n";
        expected += tail;
        std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
        CHECK(failed == want, "returned-count", fmt("returned %d, %d failed", failed, want));
        CHECK(m.called.size() == n, "calls", fmt("%zu calls for %zu tests", m.called.size(), n));
        std::string got = out.str();
        if (got != expected) { size_t d = 0; while (d < got.size() && d < expected.size() && got[d] == expected[d]) ++d; size_t b = d > 40 ? d - 40 : 0;
            fail("output", fmt("differs at %zu: ...%s instead of ...%s", d, got.substr(b, 90).c_str(), expected.substr(b, 90).c_str())); }
        CHECK(err.str() == m.cerr_expected, "error-output", err.str().substr(0, 80));
        ev(h0); counter("tests_run") += n; counter("failed_tests") += (uint64_t)want; ++counter("modules_run"); if (want == 0) ++counter("all_passed"); if (want == (int)n && n) ++counter("all_failed");
        if (r.chance(1, 4000)) sample(fmt("%zu tests, %d failing", n, want));
        std::cout.rdbuf(out.rdbuf()); std::cerr.rdbuf(err.rdbuf());
    }
    std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
}
// a second run of a module must report that run only; the known finding is that numbering, counts and failures go on from the first
static void probe_second_run() {
    set_case("second run"); std::ostringstream out; auto* ob = std::cout.rdbuf(out.rdbuf());
    Script s; s.tests = {{true, 1, "p", 0, 0, false}, {false, 2, "q", 1, 0, false}, {true, 0, "r", 2, 0, false}};
    std::vector<Mod::test_function_pointer> f{kFns[0], kFns[1], kFns[2]}; std::string expected, scratch;
    { Mod m{f, &s}; m.expected = &expected; m.run_tests(); } expected = out.str(); // what a first run prints
    Mod m{f, &s}; m.expected = &scratch; m.run_tests(); m.called.clear(); out.str(""); int second = m.run_tests(); std::cout.rdbuf(ob);
    std::string known = expected; auto sub = [&](const std::string& a, const std::string& b) { for (size_t p = 0; (p = known.find(a, p)) != std::string::npos; p += b.size()) known.replace(p, a.size(), b); };
    sub("Test #1", "Test #4"); sub("Test #2", "Test #5"); sub("Test #3", "Test #6"); sub("Successful tests: 2", "Successful tests: 4"); sub("Failed tests: 1", "Failed tests: 2"); sub("Test #5 - 'q' failed on", "Test #2 - 'q' failed on stage 3\nTest #5 - 'q' failed on");
    CHECK(m.called == (std::vector<int>{0, 1, 2}), "second-run-calls", "");
    ++counter("repeated_runs"); ev(0x2323);
    if (second == 1 && out.str() == expected) return;
    if (second == 2 && out.str() == known) fail("second-run-continues-first", fmt("returned %d for 1 failing test of 3 and numbered them from 4", second));
    else fail("second-run", fmt("returned %d, printed %s", second, out.str().substr(0, 200).c_str()));
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(shard_seed(23)); R = &r;
    std::vector<size_t> sizes; for (size_t i = 0; i < 130; ++i) sizes.push_back(i); for (size_t x : {254, 255, 256, 257, 300, 511, 512, 999, 1000, 1001, 1023, 1024, 1025}) sizes.push_back(x);
    for (size_t i = 0; i < sizes.size(); ++i) if ((int)(i % (size_t)S().nshards) == S().shard) { one(r, sizes[i], false, 1); ++counter("sizes_enumerated"); }
    std::vector<size_t> big{9999, 10000, 10001, 32767, 32768, 40000, 65534, 65535};
    for (size_t i = 0; i < big.size(); ++i) if ((int)(i % (size_t)S().nshards) == S().shard) { one(r, big[i], true, 1); ++counter("large_modules"); }
    probe_second_run();
    int n = S().thorough ? 20000 : 600;
    for (int i = 0; i < n; ++i) one(r, r.below(r.chance(1, 10) ? 120 : 14), false, 1);
    return done();
}
