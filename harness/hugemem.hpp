// More than 4 GiB of address space without memory behind it: only pages that are written take any.
#pragma once
#include <sys/mman.h>
#include <cstddef>
namespace h {
struct Huge {
    std::byte* p = nullptr; static constexpr size_t size = 0x100010000ull;
    Huge() { void* q = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q != MAP_FAILED) p = (std::byte*)q; }
    ~Huge() { if (p) munmap(p, size); }
};
} // namespace h
