#pragma once
#include "common.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
namespace h {
inline std::vector<uint8_t> slurp(const char* p) {
    std::vector<uint8_t> v; int fd = ::open(p, O_RDONLY | O_CLOEXEC); if (fd < 0) return v; struct stat st; fstat(fd, &st); v.resize((size_t)st.st_size);
    size_t o = 0; while (o < v.size()) { ssize_t k = pread(fd, v.data() + o, v.size() - o, (off_t)o); if (k <= 0) break; o += (size_t)k; } ::close(fd); return v; }
inline void put(const char* p, const std::vector<uint8_t>& v) {
    int fd = ::open(p, O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600); if (fd < 0) { perror(p); _exit(99); }
    size_t o = 0; while (o < v.size()) { ssize_t k = pwrite(fd, v.data() + o, v.size() - o, (off_t)o); if (k <= 0) { perror("put"); _exit(99); } o += (size_t)k; } ::close(fd); }
// descriptor number -> (device, inode) of every open descriptor
inline std::map<int, std::pair<uint64_t, uint64_t>> open_fds() {
    std::map<int, std::pair<uint64_t, uint64_t>> m; 
    for (int fd = 0; fd < 256; ++fd) { struct stat st; if (fstat(fd, &st) == 0) m[fd] = {st.st_dev, st.st_ino}; }
    return m; }
} // namespace h
