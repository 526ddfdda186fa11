// C21: threads on distinct objects, sharing only constant data, behave as if alone and race nowhere.
#include "workload.hpp"
#include <atomic>
#include <barrier>
#include <thread>
using namespace w;
int main(int argc, char** argv) {
    init(argc, argv);
    const int T = 6; int rounds = S().thorough ? 12000 : 700;
    Rng r(shard_seed(21)); const Shared sh(mix64(S().seed));
    struct Job { int k; uint64_t seed; Acc got; };
    for (int round = 0; round < rounds; ++round) {
        // same section everywhere (contention on one part), or a mix
        int mode = (int)r.below(3); int sec = (round / 2 + S().shard) % kSections; std::vector<std::vector<Job>> jobs(T);
        uint64_t common = r.next();
        for (int t = 0; t < T; ++t) for (int j = 0; j < 8; ++j) { int k = mode == 0 ? sec : mode == 1 ? (sec + j) % kSections : (int)r.below(kSections); jobs[(size_t)t].push_back({k, r.chance(1, 4) ? common : r.next(), {}}); }
        set_case(fmt("round %d mode %d section %s", round, mode, section_name(sec)));
        std::barrier gate(T); std::vector<std::thread> th;
        for (int t = 0; t < T; ++t) th.emplace_back([&, t] { Env e{"t" + std::to_string(t) + "_", &sh}; gate.arrive_and_wait(); for (auto& j : jobs[(size_t)t]) j.got = section(j.k, j.seed, e); });
        for (auto& x : th) x.join();
        // alone, afterwards, so that nothing was initialised for the threads in advance
        for (int t = 0; t < T; ++t) for (auto& j : jobs[(size_t)t]) {
            Env e{"seq_", &sh}; Acc a = section(j.k, j.seed, e);
            if (a.v != j.got.v || a.n != j.got.n) fail(std::string("result-differs:") + section_name(j.k), fmt("thread %d seed %llu: %llu observations, digest %llx; alone %llu, %llx", t, (unsigned long long)j.seed, (unsigned long long)j.got.n, (unsigned long long)j.got.v, (unsigned long long)a.n, (unsigned long long)a.v));
            ev(mix64(j.seed) + (uint64_t)j.k); counter("observations") += a.n; ++counter((std::string("sections_") + section_name(j.k)).c_str());
        }
        ++counter("rounds"); counter("concurrent_jobs") += T * 8;
        if (round < 3) sample(g_case);
    }
    return done();
}
