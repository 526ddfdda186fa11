// C15: containers of more than 4 GiB (address space without memory behind it; only pages that are written take any)
#include "common.hpp"
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <sys/mman.h>
#include <map>
using namespace h;
template <class E> struct Sparse { // a container as the resources need it
    using value_type = E; using size_type = size_t; using difference_type = std::ptrdiff_t; using reference = E&; using const_reference = const E&; using iterator = E*; using const_iterator = const E*;
    static constexpr size_t bytes_max = 0x280000000ull;
    E* p = nullptr; size_t n = 0;
    Sparse() { void* q = mmap(nullptr, bytes_max, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q != MAP_FAILED) p = (E*)q; }
    Sparse(const Sparse&) = delete; Sparse& operator=(const Sparse&) = delete;
    ~Sparse() { if (p) munmap(p, bytes_max); }
    size_t size() const noexcept { return n; } size_t max_size() const noexcept { return bytes_max / sizeof(E); } size_t capacity() const noexcept { return max_size(); } bool empty() const noexcept { return !n; }
    E* data() noexcept { return p; } const E* data() const noexcept { return p; } E* begin() noexcept { return p; } E* end() noexcept { return p + n; } const E* begin() const noexcept { return p; } const E* end() const noexcept { return p + n; } const E* cbegin() const noexcept { return p; } const E* cend() const noexcept { return p + n; }
    E& operator[](size_t i) { return p[i]; } const E& operator[](size_t i) const { return p[i]; } E& back() { return p[n - 1]; } void push_back(E e) { resize(n + 1); p[n - 1] = e; } void reserve(size_t) {}
    void resize(size_t k) { if (k > max_size()) throw std::length_error("too long"); n = k; } void resize(size_t k, E) { resize(k); } // fresh pages are zero
};
template <class E, class R> static void run(Rng& r, const char* kind, size_t cap) {
    for (size_t base : {0x7FFFFFF0ull, 0xFFFFFFF0ull, 0x17FFFFFF8ull, 0x200000000ull}) {
        Sparse<E> c; if (!c.p) { ++counter("huge_unsupported"); return; } c.resize(base / sizeof(E)); size_t size = c.n * sizeof(E); std::map<size_t, uint8_t> m; size_t at = 0; uint8_t* raw = (uint8_t*)c.p;
        auto val = [&](size_t i) -> uint8_t { auto f = m.find(i); return f == m.end() ? 0 : f->second; };
        for (size_t q : {(size_t)0, size - 1, size - 5, size - 100, (size_t)0x7FFFFFFF, (size_t)0x80000000, (size_t)0xFFFFFFFE, (size_t)0x100000001}) if (q < size) m[q] = raw[q] = (uint8_t)(1 + r.below(255));
        R res{c, cap}; std::string log = fmt("%s of %zu-byte elements, 0x%zX bytes, cap %zu:", kind, sizeof(E), size, cap);
        for (int k = 0; k < 60 && !S().total_violations; ++k) {
            set_case("C15 huge container " + (log.size() > 1500 ? log.substr(log.size() - 1500) : log));
            switch (r.below(5)) {
                case 0: { static const std::vector<size_t> pts{0, 0x7FFFFFF0, 0x80000000, 0xFFFFFFF0, 0x100000000ull, 0x17FFFFFF0ull}; size_t t = r.chance(1, 2) ? r.pick(pts) + r.below(32) : size - r.below(40); if (t > size) t = size - r.below(9); at = t;
                    switch (r.below(3)) { case 0: res.set_position((int64_t)t, cmp::position_reference::begin); break; case 1: if constexpr (requires (std::byte b) { res.write(&b, 1); }) res.flush(); size = c.n * sizeof(E); if (at > size) at = size; res.set_position((int64_t)at - (int64_t)size, cmp::position_reference::end); break; default: res.set_position((int64_t)t - res.get_position(), cmp::position_reference::current); } log += fmt(" seek(0x%zX)", at); break; }
                case 1: case 2: if constexpr (requires (std::byte* b) { res.read(b, 1); }) { std::byte b[64]; size_t q = 1 + r.below(60), total = std::max(size, c.n * sizeof(E)), want = std::min(q, total > at ? total - at : 0), g = res.read(b, q); log += fmt(" read(%zu)=%zu", q, g); if (g != want) { fail("huge-container:read-count", fmt("%zu instead of %zu; ", g, want) + log); return; } for (size_t j = 0; j < g; ++j) if ((uint8_t)b[j] != val(at + j)) { fail("huge-container:read", fmt("byte %zu; ", j) + log); return; } at += g; ++counter("huge_container_reads"); } break;
                default: if constexpr (requires (std::byte b) { res.write(&b, 1); }) { std::byte b[64]; size_t q = 1 + r.below(60); for (size_t j = 0; j < q; ++j) { b[j] = (std::byte)r.next(); m[at + j] = (uint8_t)b[j]; } size_t g = res.write(b, q); log += fmt(" write(%zu)", q); if (g != q) { fail("huge-container:write-count", log); return; } at += q; size = std::max(size, (at + sizeof(E) - 1) / sizeof(E) * sizeof(E)); ++counter("huge_container_writes"); }
            }
            if (res.get_position() != (int64_t)at) { fail("huge-container:position", fmt("0x%llX instead of 0x%zX; ", (long long)res.get_position(), at) + log); return; }
            if constexpr (!requires (std::byte b) { res.write(&b, 1); }) if (res.is_at_end() != (at >= size)) { fail("huge-container:end", log); return; }
            ev(hash_bytes(log.data(), log.size()));
        }
        if constexpr (requires (std::byte b) { res.write(&b, 1); }) res.flush();
        if (c.n * sizeof(E) != size) { fail("huge-container:size", fmt("0x%zX instead of 0x%zX; ", c.n * sizeof(E), size) + log); return; }
        for (auto& x : m) if (raw[x.first] != x.second) { fail("huge-container:content", fmt("byte 0x%zX; ", x.first) + log); return; }
        ++counter("huge_containers"); sample(log.substr(0, 200));
    }
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(shard_seed(1500));
    try {
        for (size_t k = 0; k < (S().thorough ? 20u : 2u); ++k) for (size_t cap : {(size_t)0, (size_t)1, (size_t)7, (size_t)64, (size_t)8192}) {
            run<uint8_t, cmp::transparent_container_input_resource<Sparse<uint8_t>>>(r, "input", cap); run<uint8_t, cmp::transparent_container_output_resource<Sparse<uint8_t>>>(r, "output", cap); run<uint8_t, cmp::transparent_container_io_resource<Sparse<uint8_t>>>(r, "io", cap);
            run<uint32_t, cmp::transparent_container_input_resource<Sparse<uint32_t>>>(r, "input", cap); run<uint64_t, cmp::transparent_container_io_resource<Sparse<uint64_t>>>(r, "io", cap);
        }
    } catch (const std::exception& e) { fail("threw", std::string(g_case) + e.what()); }
    return done();
}
