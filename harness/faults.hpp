// Stand-ins for the transfer system calls: the library under test, linked into the harness,
// calls these. They perform the real transfer but may shorten it, interrupt it (EINTR) or fail
// it, as the current plan says, and record what really went through.
#pragma once
#include "fsutil.hpp"
#include <errno.h>
#include <sys/syscall.h>
#include <sys/uio.h>
namespace h {
enum Act : uint8_t { FULL, SHORT1, SHORT2, SHORT3, INTR, HARD };
struct Faults {
    bool on = false; std::vector<uint8_t> plan; size_t next = 0; // scripted prefix; then: random with the probabilities below
    unsigned p_short = 0, p_intr = 0; int hard_errno = 5; bool dead_after_hard = true, dead = false;
    uint64_t rng = 1; uint64_t calls = 0, shorts = 0, intrs = 0, hards = 0; uint64_t moved_in = 0, moved_out = 0;
    void clear() { on = false; plan.clear(); next = 0; p_short = p_intr = 0; dead = false; moved_in = moved_out = 0; }
    Act pick() {
        if (dead) return HARD;
        if (next < plan.size()) return (Act)plan[next++];
        rng = mix64(rng); unsigned v = (unsigned)(rng >> 20) % 100;
        return v < p_intr ? INTR : v < p_intr + p_short ? (Act)(SHORT1 + (rng >> 40) % 3) : FULL;
    }
};
inline Faults& F() { static Faults f; return f; }
// decides the fate of a transfer of n bytes; returns the allowed length or -1 with errno set
inline ssize_t fate(size_t n) {
    Faults& f = F(); if (!f.on) return (ssize_t)n;
    ++f.calls;
    if (n == 0) return 0;
    switch (f.pick()) {
        case INTR: ++f.intrs; errno = EINTR; return -1;
        case HARD: ++f.hards; if (f.dead_after_hard) f.dead = true; errno = f.hard_errno; return -1;
        case SHORT1: if (n > 1) { ++f.shorts; return 1; } break;
        case SHORT2: if (n > 2) { ++f.shorts; return 2; } break;
        case SHORT3: if (n > 1) { ++f.shorts; return (ssize_t)(n - n / 3 - (n < 3)); } break;
        default: break;
    }
    return (ssize_t)n;
}
inline bool ours(int fd) { struct stat st; return syscall(SYS_fstat, fd, &st) == 0 && (S_ISREG(st.st_mode) || S_ISFIFO(st.st_mode)); }
} // namespace h
// The kernel writes into a block of its own; the memcpy to or from the caller's memory is what
// the address sanitizer checks.
static ssize_t in(long nr, int fd, void* p, size_t n, off_t o, bool pos) {
    ssize_t k = h::ours(fd) ? h::fate(n) : (ssize_t)n; if (k < 0) return -1;
    std::unique_ptr<char[]> b(new char[(size_t)k + 1]);
    ssize_t r = pos ? syscall(nr, fd, b.get(), (size_t)k, o) : syscall(nr, fd, b.get(), (size_t)k);
    if (r > 0) { std::memcpy(p, b.get(), (size_t)r); if (h::F().on) h::F().moved_in += (uint64_t)r; }
    return r;
}
static ssize_t out(long nr, int fd, const void* p, size_t n, off_t o, bool pos) {
    ssize_t k = h::ours(fd) ? h::fate(n) : (ssize_t)n; if (k < 0) return -1;
    std::unique_ptr<char[]> b(new char[(size_t)k + 1]);
    if (k) std::memcpy(b.get(), p, (size_t)k);
    ssize_t r = pos ? syscall(nr, fd, b.get(), (size_t)k, o) : syscall(nr, fd, b.get(), (size_t)k);
    if (r > 0 && h::F().on) h::F().moved_out += (uint64_t)r;
    return r;
}
extern "C" {
ssize_t read(int fd, void* p, size_t n) { return in(SYS_read, fd, p, n, 0, false); }
ssize_t write(int fd, const void* p, size_t n) { return out(SYS_write, fd, p, n, 0, false); }
ssize_t pread(int fd, void* p, size_t n, off_t o) { return in(SYS_pread64, fd, p, n, o, true); }
ssize_t pread64(int fd, void* p, size_t n, off_t o) { return in(SYS_pread64, fd, p, n, o, true); }
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return out(SYS_pwrite64, fd, p, n, o, true); }
ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) { return out(SYS_pwrite64, fd, p, n, o, true); }
ssize_t readv(int fd, const struct iovec* v, int n) { for (int i = 0; i < n; ++i) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t writev(int fd, const struct iovec* v, int n) { for (int i = 0; i < n; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }
}
