// C22: one program over all three packages, two translation units; prints a digest per section and seed to --out.
#include "c22.hpp"
static Global g_global{u8"global 1"};
struct TM : cmp::test_module<TM> { TM() : test_module({&TM::a, &TM::b, &TM::a}) {} bool a() { start_test("a"); end_stage(); dummy d{this, 3}; dummy e{std::move(d)}; return e.get_value() == 3 && d.get_value() == 0; } bool b() { start_test("b"); return pop_message() != message::empty; } };
int main(int argc, char** argv) {
    std::string outp; uint64_t seed = 1; int n = 0;
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i]; if (a == "--out") outp = argv[i + 1]; if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10); if (a == "--count") n = atoi(argv[i + 1]); }
    FILE* f = fopen(outp.c_str(), "w"); if (!f) return 99;
    setvbuf(f, nullptr, _IOLBF, 4096);
    cmp::application app{argc, argv};
    Seen s = other_unit_sees();
    fprintf(f, "shared-uin %d\nshared-uout %d\nshared-uerr %d\nshared-app %d\n", s.in == &cmp::uin, s.out == &cmp::uout, s.err == &cmp::uerr, s.app == &app);
    int caught = 0; try { other_unit_throws(); } catch (const cmp::parse_failed& e) { caught = e.get_type() == cmp::parse_failed::type::empty_input; } catch (...) {} fprintf(f, "exception-across-units %d\n", caught);
    for (auto& l : {g_global.line, other_unit_line()}) { w::Acc a; a.str(l); fprintf(f, "line-read-before-main %llx %zu\n", (unsigned long long)a.v, l.size()); }
    const w::Shared sh(seed); w::Env e{"w_", &sh};
    for (int i = 0; i < n; ++i) for (int k = 0; k < w::kSections; ++k) {
        uint64_t sd = seed * 1000003 + (uint64_t)i; w::Acc a = w::section(k, sd, e); fprintf(f, "%s/%d %llx %llu\n", w::section_name(k), i, (unsigned long long)a.v, (unsigned long long)a.n);
        if (i % 8 == 0) { w::Acc b = other_unit_section(k, sd, e); fprintf(f, "units-agree:%s/%d %d\n", w::section_name(k), i, a.v == b.v && a.n == b.n); }
    }
    for (int i = 0; i < 40; ++i) { // both units talk through the same standard streams
        cmp::uout << u8"unit 1: " << i << u8" "; other_unit_prints(i); if (i % 7 == 0) cmp::uerr << u8"err 1\n";
        std::u8string l; if (i % 2) cmp::uin.read_line(l); else l = other_unit_reads();
        w::Acc a; a.str(l); fprintf(f, "line/%d %llx %zu\n", i, (unsigned long long)a.v, l.size());
    }
    cmp::uout << cmp::flush; cmp::uerr << cmp::flush;
    TM t; int failed = t.run_tests(); fprintf(f, "test-module %d\n", failed); std::cout.flush();
    cmp::uout << u8"end\n";
    fprintf(f, "end 1\n"); fclose(f);
    return 0;
}
