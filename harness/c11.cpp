#include "resmodel.hpp"
#include "hugemem.hpp"
#include <cmp/io/file.hpp>
#include <cmp/io/io_buffer.hpp>
#include <fcntl.h>
#include <sys/stat.h>
using namespace h;
static std::vector<uint8_t> slurp(const char* p) { std::vector<uint8_t> v; int fd = ::open(p, O_RDONLY); if (fd < 0) return v; struct stat st; fstat(fd, &st); v.resize((size_t)st.st_size); size_t o = 0; while (o < v.size()) { ssize_t k = pread(fd, v.data() + o, v.size() - o, (off_t)o); if (k <= 0) break; o += (size_t)k; } ::close(fd); return v; }
static void put(const char* p, const std::vector<uint8_t>& v) { int fd = ::open(p, O_CREAT | O_TRUNC | O_WRONLY, 0600); size_t o = 0; while (o < v.size()) { ssize_t k = ::write(fd, v.data() + o, v.size() - o); if (k <= 0) { perror("put"); _exit(99); } o += (size_t)k; } ::close(fd); }
static void big_offsets() { // positions beyond 32 bits on a sparse file
    set_case("C11 big offsets");
    const char* p = "sparse.bin"; put(p, {1, 2, 3});
    for (size_t cap : {(size_t)0, (size_t)16, (size_t)4096}) for (int64_t base : {0x7FFFFFF0ll, 0x80000000ll, 0xFFFFFFF8ll, 0x100000000ll, 0x2FFFFFFF0ll}) {
        if (truncate(p, 3) != 0) return;
        { int fd = ::open(p, O_WRONLY); bool okfs = pwrite(fd, "x", 1, base + 40) == 1; ::close(fd); if (!okfs) { ++counter("sparse_unsupported"); return; } }
        cmp::file f{p, cmp::access_mode::read_and_write, cmp::if_not_there::fail, cap};
        std::byte d[8]; std::memset(d, 0x5C, 8);
        f.set_position(base, cmp::position_reference::begin);
        CHECK(f.get_position() == base, "big:position", fmt("%llx", (long long)base));
        CHECK(!f.is_at_end(), "big:end", fmt("%llx", (long long)base));
        CHECK(f.write(d, 8) == 8 && f.get_position() == base + 8, "big:write", fmt("%llx", (long long)base));
        f.go_back(8); std::byte e[8]{}; CHECK(f.read(e, 8) == 8 && std::memcmp(d, e, 8) == 0 && f.get_position() == base + 8, "big:read", fmt("%llx cap %zu", (long long)base, cap));
        f.go_forward(33); CHECK(f.is_at_end() && f.get_position() == base + 41 && f.read(e, 8) == 0, "big:at-end", fmt("%llx", (long long)base));
        f.set_position(-(base + 41), cmp::position_reference::end); CHECK(f.get_position() == 0, "big:from-end", fmt("%llx", (long long)base));
        CHECK(f.read(e, 3) == 3 && e[0] == std::byte{1} && e[2] == std::byte{3}, "big:start", "");
        f.set_position(base, cmp::position_reference::current); CHECK(f.get_position() == base + 3, "big:current", "");
        ++counter("big_offset_probes"); ev((uint64_t)base * 31 + cap);
    }
    unlink(p);
}
static void huge_requests() { // requests of more than 4 GiB into memory that is never touched
    Huge mem; if (!mem.p) { ++counter("huge_unsupported"); return; }
    std::vector<uint8_t> d(5000); for (size_t i = 0; i < d.size(); ++i) d[i] = (uint8_t)(i * 7 + (i >> 8)); put("huge.bin", d);
    for (size_t cap : {(size_t)0, (size_t)16, (size_t)8192}) for (size_t n : {(size_t)0x7FFFFFFF, (size_t)0x80000001, (size_t)0xFFFFFFFF, (size_t)0x100000000, (size_t)0x100000003}) for (size_t first : {(size_t)0, (size_t)3}) {
        std::string w = fmt("read(0x%zX) after %zu, cap %zu", n, first, cap); set_case("C11 huge " + w);
        cmp::file f{"huge.bin", cmp::access_mode::read_only, cmp::if_not_there::fail, cap}; std::memset(mem.p, 0, 8192);
        size_t a = f.read(mem.p, first); size_t g = f.read(mem.p + first, n); CHECK(a == first && g == d.size() - first && std::memcmp(mem.p, d.data(), d.size()) == 0 && f.get_position() == (int64_t)d.size() && f.is_at_end(), "huge:read", w + fmt(" returned %zu", g));
        cmp::file o{"/dev/null", cmp::access_mode::write_only, cmp::if_not_there::fail, cap}; w = fmt("write(0x%zX) after %zu, cap %zu", n, first, cap); set_case("C11 huge " + w);
        if (o.is_open()) { a = o.write(mem.p, first); g = o.write(mem.p, n); CHECK(a == first && g == n, "huge:write", w + fmt(" returned 0x%zX", g)); }
        ++counter("huge_requests"); ev(n * 31 + cap + first);
    }
    unlink("huge.bin");
    // more than 2 GiB really delivered by one request, from a sparse file
    for (size_t size : {(size_t)0x80000011}) {
        int fd = ::open("sparse.bin", O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0) return; bool ok = ::ftruncate(fd, (off_t)size) == 0 && ::pwrite(fd, "begin", 5, 0) == 5 && ::pwrite(fd, "mid", 3, (off_t)size / 2) == 3 && ::pwrite(fd, "end", 3, (off_t)size - 3) == 3; ::close(fd);
        if (ok) { std::string w = fmt("read(0x%zX) of a sparse file of 0x%zX", size + 5, size); set_case("C11 " + w); cmp::file f{"sparse.bin", cmp::access_mode::read_only, cmp::if_not_there::fail, 64};
            size_t a = f.read(mem.p, 2), g = f.read(mem.p + 2, size + 5); CHECK(a == 2 && g == size - 2 && !std::memcmp(mem.p, "begin", 5) && !std::memcmp(mem.p + size / 2, "mid", 3) && !std::memcmp(mem.p + size - 3, "end", 3) && f.get_position() == (int64_t)size && f.is_at_end(), "huge:delivered", w + fmt(" returned 0x%zX", g)); ++counter("huge_delivered"); ev(size); }
        ::unlink("sparse.bin"); ::madvise(mem.p, Huge::size, MADV_DONTNEED);
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(11));
    size_t n = S().thorough ? 150000 : 10000;
    static const std::vector<size_t> caps{0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 1024};
    for (size_t i = 0; i < n; ++i) {
        size_t cap = any_cap(r, caps); HistoryOptions o; o.cap = cap; o.ops = 5 + r.below(r.chance(1, 400) ? 4000 : r.chance(1, 10) ? 200 : 40); o.maxreq = r.chance(1, 8) ? 3000 : r.chance(1, 2) ? 12 : 40;
        std::vector<uint8_t> init(r.chance(1, 8) ? 0 : gen_size(r, cap, r.chance(1, 6) ? 5000 : 60)); for (auto& c : init) c = (uint8_t)r.next();
        const char* p = "f.bin"; put(p, init);
        int mode = (int)r.below(5); auto am = mode == 0 ? cmp::access_mode::read_only : mode == 1 ? cmp::access_mode::write_only : cmp::access_mode::read_and_write;
        o.can_read = mode != 1; o.can_write = mode != 0;
        ByteModel m; m.d = init; m.exact_end = init.size(); std::string log = fmt("open(%zu bytes, mode %d, cap %zu)", init.size(), mode, cap);
        try {
            bool standard = r.chance(1, 20); if (standard) { o.cap = cmp::io_buffer::default_buffer_capacity; log += " [default capacity]"; ++counter("default_capacity"); }
            auto make = [&](const char* q) { return standard ? std::make_unique<cmp::file>(q, am, cmp::if_not_there::fail) : std::make_unique<cmp::file>(q, am, cmp::if_not_there::fail, cap); };
            auto f = make(p);
            CHECK(f->is_open(), "not-open", log);
            if (r.chance(1, 6)) { // two files used alternately
                put("g.bin", init); auto g = make("g.bin"); ByteModel mg = m; std::string lg = log + " [second]"; o.ops = 1 + r.below(6);
                for (int k = 0; k < 8; ++k) { drive(*f, m, r, o, "file-1", [&] { return slurp(p); }, log); drive(*g, mg, r, o, "file-2", [&] { return slurp("g.bin"); }, lg); if (S().total_violations) break; }
                g.reset(); if (!S().total_violations) CHECK(slurp("g.bin") == mg.d, "file-2:final-content", lg); ++counter("alternating_files");
            } else drive(*f, m, r, o, "file", [&] { return slurp(p); }, log);
        } catch (const std::exception& e) { fail("file:threw", log + " " + e.what()); }
        if (!S().total_violations) CHECK(slurp(p) == m.d, "file:final-content", log);
        ++counter("histories");
        if (i < 3) sample(log.substr(0, 300));
    }
    { int id = 0; for (size_t cap : {0, 1, 2, 7, 64, 333, 1023, 1024, 1100, 4096, 8192, 65536}) if (id++ % S().nshards == S().shard) {
        std::string what = fmt("requests of every size, cap %zu", cap); set_case("C11 " + what); put("f.bin", {}); size_t total;
        { cmp::file f{"f.bin", cmp::access_mode::read_and_write, cmp::if_not_there::fail, cap}; total = write_every_size(f, what); }
        CHECK(S().total_violations || is_pattern(slurp("f.bin"), total), "every-size:content", what);
        { cmp::file f{"f.bin", cmp::access_mode::read_only, cmp::if_not_there::fail, cap}; read_every_size(f, total, what); CHECK(S().total_violations || f.is_at_end(), "every-size:end", what); } ev(cap * 77 + 11); } }
    if (S().shard == 0) big_offsets();
    if (S().shard == 1 % S().nshards) huge_requests();
    unlink("f.bin"); unlink("g.bin");
    return done();
}
