#include "faults.hpp"
#include "resmodel.hpp"
#include <cmp/io/file.hpp>
#include <cmp/io/uio.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/output_stream.hpp>
#include <cmp/io/exceptions.hpp>
using namespace h;
static std::string plan_name(const std::vector<uint8_t>& p) { std::string o; for (uint8_t a : p) o += "F12SEX"[a]; return o; }
static std::vector<uint8_t> slurp_real(const char* p) { bool on = F().on; F().on = false; auto v = slurp(p); F().on = on; return v; }
struct Armed { Armed() { F().on = true; } ~Armed() { F().on = false; } };
static const std::vector<size_t> kCaps{0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 1024};
// --- random histories on a file: every observation as if no fault had happened
static void histories(Rng& r) {
    size_t n = S().thorough ? 60000 : 5000;
    for (size_t i = 0; i < n && !S().total_violations; ++i) {
        size_t cap = any_cap(r, kCaps); HistoryOptions o; o.cap = cap; o.ops = 5 + r.below(30); o.maxreq = r.chance(1, 8) ? 3000 : r.chance(1, 2) ? 12 : 40;
        std::vector<uint8_t> init(gen_size(r, cap, 60)); for (auto& c : init) c = (uint8_t)r.next();
        const char* p = "f.bin"; put(p, init);
        int mode = (int)r.below(5); auto am = mode == 0 ? cmp::access_mode::read_only : mode == 1 ? cmp::access_mode::write_only : cmp::access_mode::read_and_write;
        o.can_read = mode != 1; o.can_write = mode != 0;
        F().clear(); F().rng = r.next(); F().p_short = 10 + (unsigned)r.below(60); F().p_intr = (unsigned)r.below(30); uint64_t s0 = F().shorts, e0 = F().intrs;
        ByteModel m; m.d = init; m.exact_end = init.size(); std::string log = fmt("open(%zu bytes, mode %d, cap %zu, %u%% short, %u%% EINTR)", init.size(), mode, cap, F().p_short, F().p_intr);
        try {
            Armed a;
            cmp::file f{p, am, cmp::if_not_there::fail, cap};
            drive(f, m, r, o, "faulty-file", [&] { return slurp_real(p); }, log);
        } catch (const std::exception& e) { fail("faulty-file:threw", log + " " + e.what()); }
        if (!S().total_violations) CHECK(slurp(p) == m.d, "faulty-file:final-content", log);
        ++counter("histories_under_faults"); counter("injected_short") += F().shorts - s0; counter("injected_eintr") += F().intrs - e0;
        if (i < 2) sample(log.substr(0, 300));
    }
}
// --- every fault plan of a given length over one transfer
static void enumerate() {
    size_t len = S().thorough ? 6 : 4; const std::vector<uint8_t> alpha{FULL, SHORT1, SHORT2, INTR};
    size_t total = 1; for (size_t i = 0; i < len; ++i) total *= alpha.size();
    for (size_t id = (size_t)S().shard; id < total; id += (size_t)S().nshards) {
        std::vector<uint8_t> plan; for (size_t i = 0, v = id; i < len; ++i, v /= alpha.size()) plan.push_back(alpha[v % alpha.size()]);
        for (size_t cap : {(size_t)0, (size_t)1, (size_t)3, (size_t)8}) for (size_t size : {(size_t)1, (size_t)2, (size_t)3, (size_t)5, (size_t)9, (size_t)12}) for (size_t chunk : {(size_t)1, (size_t)4, (size_t)12}) {
            std::vector<uint8_t> data(size); for (size_t i = 0; i < size; ++i) data[i] = (uint8_t)(0x41 + i * 7 + id);
            std::string what = fmt("plan %s cap %zu size %zu chunk %zu", plan_name(plan).c_str(), cap, size, chunk); set_case("C13 " + what);
            // write
            put("e.bin", {});
            F().clear(); F().plan = plan;
            { Armed a; cmp::file f{"e.bin", cmp::access_mode::write_only, cmp::if_not_there::fail, cap};
              for (size_t o = 0; o < size; o += chunk) { size_t k = std::min(chunk, size - o); std::unique_ptr<std::byte[]> b(new std::byte[k]); std::memcpy(b.get(), data.data() + o, k); size_t g = f.write(b.get(), k); if (g != k) fail("enumerated-write-count", what + fmt(" returned %zu of %zu", g, k)); }
            }
            if (slurp("e.bin") != data) fail("enumerated-write", what + " stored " + dump_units(slurp("e.bin")) + " expected " + dump_units(data));
            // read
            put("e.bin", data);
            F().clear(); F().plan = plan;
            std::vector<uint8_t> got;
            { Armed a; cmp::file f{"e.bin", cmp::access_mode::read_only, cmp::if_not_there::fail, cap};
              for (;;) { std::unique_ptr<std::byte[]> b(new std::byte[chunk]); size_t g = f.read(b.get(), chunk); size_t want = std::min(chunk, size - got.size()); if (g != want) { fail("enumerated-read-count", what + fmt(" returned %zu of %zu at %zu", g, want, got.size())); break; } if (!g) break; got.insert(got.end(), (uint8_t*)b.get(), (uint8_t*)b.get() + g); }
            }
            if (got != data) fail("enumerated-read", what);
            // standard output
            { int fd = ::open("e.bin", O_RDWR | O_TRUNC | O_CLOEXEC); F().clear(); F().plan = plan;
              { Armed a; cmp::stdout_resource o{fd, cap};
                for (size_t q = 0; q < size; q += chunk) { size_t k = std::min(chunk, size - q); std::unique_ptr<std::byte[]> b(new std::byte[k]); std::memcpy(b.get(), data.data() + q, k); size_t g = o.write(b.get(), k); if (g != k) fail("enumerated-stdout-count", what + fmt(" returned %zu of %zu", g, k)); }
                o.flush(); }
              ::close(fd); if (slurp("e.bin") != data) fail("enumerated-stdout", what + " stored " + dump_units(slurp("e.bin")) + " expected " + dump_units(data)); }
            // standard input
            { put("e.bin", data); int fd = ::open("e.bin", O_RDONLY | O_CLOEXEC); dup2(fd, 0); ::close(fd); F().clear(); F().plan = plan; got.clear();
              { Armed a; cmp::stdin_resource in{cap};
                for (;;) { std::unique_ptr<std::byte[]> b(new std::byte[chunk]); size_t g = in.read(b.get(), chunk); if (g > chunk) { fail("enumerated-stdin-count", what); break; } if (!g) break; got.insert(got.end(), (uint8_t*)b.get(), (uint8_t*)b.get() + g); } }
              if (got != data) fail("enumerated-stdin", what + " delivered " + dump_units(got) + " expected " + dump_units(data)); }
            ++counter("enumerated_plans"); ev(hash_bytes(what.data(), what.size()));
        }
    }
}
// --- a transfer fails for good at every call
static void hard() {
    for (size_t at = 0; at < 6; ++at) for (uint8_t before : {FULL, SHORT1, SHORT2, INTR}) for (int en : {EIO, ENOSPC, EAGAIN, EBADF}) for (size_t cap : {(size_t)0, (size_t)1, (size_t)4, (size_t)8, (size_t)64}) for (size_t size : {(size_t)1, (size_t)6, (size_t)9, (size_t)20, (size_t)100}) for (size_t chunk : {(size_t)1, (size_t)5, (size_t)32}) {
        if (((at * 31 + size + cap + chunk + before) % (size_t)S().nshards) != (size_t)S().shard) continue;
        std::vector<uint8_t> plan(at, before); plan.push_back(HARD);
        std::vector<uint8_t> data(size); for (size_t i = 0; i < size; ++i) data[i] = (uint8_t)(3 + i * 13 + at);
        std::string what = fmt("plan %s errno %d cap %zu size %zu chunk %zu", plan_name(plan).c_str(), en, cap, size, chunk); set_case("C13 hard " + what);
        // reads: what is delivered is a prefix of the content, no longer than what the system handed over, and the position agrees
        for (int kind = 0; kind < 2; ++kind) {
            put("h.bin", data); int fd = ::open("h.bin", O_RDONLY | O_CLOEXEC); dup2(fd, 0); ::close(fd);
            F().clear(); F().plan = plan; F().hard_errno = en; uint64_t h0 = F().hards;
            Armed a; cmp::file f{"h.bin", cmp::access_mode::read_only, cmp::if_not_there::fail, cap}; cmp::stdin_resource in{cap};
            std::vector<uint8_t> got; bool ok = true;
            for (int i = 0; i < 130 && ok; ++i) {
                std::unique_ptr<std::byte[]> b(new std::byte[chunk]); std::memset(b.get(), 0xA5, chunk); size_t g = kind ? in.read(b.get(), chunk) : f.read(b.get(), chunk);
                if (g > chunk) { fail("hard-read-count", what + fmt(" %s read(%zu) returned %zu", kind ? "stdin" : "file", chunk, g)); ok = false; break; }
                for (size_t k = g; k < chunk; ++k) if ((uint8_t)b[k] != 0xA5) { fail("hard-read-touched-rest", what + fmt(" %s read(%zu) returned %zu and changed byte %zu", kind ? "stdin" : "file", chunk, g, k)); ok = false; break; }
                if (!g) break;
                got.insert(got.end(), (uint8_t*)b.get(), (uint8_t*)b.get() + g);
                if (F().hards > h0 && i > 120) { fail("hard-read-endless", what); ok = false; }
            }
            if (ok) {
                if (got.size() > data.size() || !std::equal(got.begin(), got.end(), data.begin())) fail("hard-read-bytes", what + " delivered " + dump_units(got));
                if (got.size() > F().moved_in) fail("hard-read-invented", what + fmt(" delivered %zu of %llu transferred", got.size(), (unsigned long long)F().moved_in));
                if (!kind && f.get_position() != (int64_t)got.size()) fail("hard-read-position", what + fmt(" position %lld after %zu bytes", (long long)f.get_position(), got.size()));
            }
            if (F().hards > h0) ++counter("reads_failed_for_good");
            ev(hash_bytes(what.data(), what.size(), 77 + kind));
        }
        // writes: unbuffered requests report exactly what the system took, the stored bytes are a prefix of those written
        for (int kind = 0; kind < 2; ++kind) {
            put("h.bin", {}); int fd = ::open("h.bin", O_WRONLY | O_CLOEXEC);
            F().clear(); F().plan = plan; F().hard_errno = en; uint64_t h0 = F().hards; bool ok = true;
            { Armed a; cmp::file f{"h.bin", cmp::access_mode::write_only, cmp::if_not_there::fail, cap}; cmp::stdout_resource o{fd, cap};
              size_t accepted = 0;
              for (size_t q = 0; q < size && ok; q += chunk) {
                  size_t k = std::min(chunk, size - q); std::unique_ptr<std::byte[]> b(new std::byte[k]); std::memcpy(b.get(), data.data() + q, k);
                  uint64_t m0 = F().moved_out; uint64_t hb = F().hards; size_t g = kind ? o.write(b.get(), k) : f.write(b.get(), k);
                  if (g > k) { fail("hard-write-count", what + fmt(" %s write(%zu) returned %zu", kind ? "stdout" : "file", k, g)); ok = false; break; }
                  bool direct = cap == 0 || (k > cap && q == 0); // nothing buffered before, nothing buffered by this call
                  if (direct && g != F().moved_out - m0) { fail("hard-write-reported", what + fmt(" %s write(%zu) returned %zu but %llu were transferred", kind ? "stdout" : "file", k, g, (unsigned long long)(F().moved_out - m0))); ok = false; }
                  if (std::memcmp(b.get(), data.data() + q, k)) { fail("hard-write-changed-source", what); ok = false; }
                  accepted += g; if (F().hards > hb) break; // the outcome of later requests is not specified
              }
            }
            ::close(fd);
            auto d = slurp("h.bin"); if (ok && (d.size() > data.size() || !std::equal(d.begin(), d.end(), data.begin()))) fail("hard-write-stored", what + " stored " + dump_units(d));
            if (F().hards > h0) ++counter("writes_failed_for_good");
            ev(hash_bytes(what.data(), what.size(), 99 + kind));
        }
    }
}
// --- a transfer fails now and then; the caller goes on from the count it was given
static void transient(Rng& r) {
    size_t n = S().thorough ? 40000 : 4000;
    for (size_t i = 0; i < n && !S().total_violations; ++i) {
        static const std::vector<size_t> caps{0, 0, 1, 3, 8, 16}; size_t cap = any_cap(r, caps); std::vector<uint8_t> data(1 + r.below(r.chance(1, 20) ? 6000 : 60)); for (auto& c : data) c = (uint8_t)r.next();
        std::vector<uint8_t> plan(1 + r.below(14)); for (auto& a : plan) a = (uint8_t)r.below(6); int kind = (int)r.below(4);
        std::string what = fmt("transient kind %d cap %zu size %zu plan %s", kind, cap, data.size(), plan_name(plan).c_str()); set_case("C13 " + what);
        F().clear(); F().plan = plan; F().hard_errno = EIO; F().dead_after_hard = false;
        if (kind < 2) {
            put("t.bin", data); int fd = ::open("t.bin", O_RDONLY | O_CLOEXEC); dup2(fd, 0); ::close(fd);
            std::vector<uint8_t> got; Armed a; cmp::file f{"t.bin", cmp::access_mode::read_only, cmp::if_not_there::fail, cap}; cmp::stdin_resource in{cap};
            for (int zero = 0; zero < 40 && got.size() <= data.size();) { size_t k = 1 + r.below(data.size() > 100 ? 2000 : 20); std::unique_ptr<std::byte[]> b(new std::byte[k]); size_t g = kind ? in.read(b.get(), k) : f.read(b.get(), k); if (g > k) { fail("transient-read-count", what); break; } if (!g) ++zero; got.insert(got.end(), (uint8_t*)b.get(), (uint8_t*)b.get() + g); }
            if (got != data) fail("transient-read", what + " delivered " + dump_units(got) + " expected " + dump_units(data));
            ++counter("reads_continued_after_failures");
        } else {
            cap = 0; put("t.bin", {}); int fd = ::open("t.bin", O_WRONLY | O_CLOEXEC); size_t q = 0;
            { Armed a; cmp::file f{"t.bin", cmp::access_mode::write_only, cmp::if_not_there::fail, cap}; cmp::stdout_resource o{fd, cap};
              for (int tries = 0; q < data.size() && tries < 2000; ++tries) { size_t k = std::min<size_t>(1 + r.below(data.size() > 100 ? 2000 : 20), data.size() - q); std::unique_ptr<std::byte[]> b(new std::byte[k]); std::memcpy(b.get(), data.data() + q, k); size_t g = kind == 3 ? o.write(b.get(), k) : f.write(b.get(), k); if (g > k) { fail("transient-write-count", what); break; } q += g; } }
            ::close(fd); if (slurp("t.bin") != data) fail("transient-write", what + " stored " + dump_units(slurp("t.bin")) + " expected " + dump_units(data));
            ++counter("writes_continued_after_failures");
        }
        F().dead_after_hard = true; ev(hash_bytes(what.data(), what.size(), hash_bytes(data.data(), data.size())));
    }
}
// --- the standard streams, random text, random faults
static void standard(Rng& r) {
    size_t n = S().thorough ? 30000 : 3000;
    for (size_t i = 0; i < n && !S().total_violations; ++i) {
        std::string log = fmt("std %zu:", i); unsigned ps = 10 + (unsigned)r.below(70), pe = (unsigned)r.below(30); uint64_t s0 = F().shorts, e0 = F().intrs;
        { // output through uout (whose buffer is shared by all histories) on a scratch file
            int save = dup(1); int fd = ::open("o.txt", O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600); dup2(fd, 1); ::close(fd);
            std::u8string want; F().clear(); F().rng = r.next(); F().p_short = ps; F().p_intr = pe;
            { Armed a; size_t k = r.below(12);
              for (size_t j = 0; j < k; ++j) { U32 t = r.chance(1, 6) ? gen_text(r, 1500) : gen_text(r, 20); want += encode<std::u8string>(t); log += fmt(" << %zu", t.size()); set_case("C13 " + log);
                switch (r.below(4)) { case 0: cmp::uout << encode<std::u8string>(t); break; case 1: cmp::uout << encode<std::u16string>(t); break; case 2: cmp::uout << encode<std::u32string>(t); break; default: for (char32_t c : t) cmp::uout << c; }
                if (r.chance(1, 4)) { cmp::uout << cmp::flush; log += " flush"; auto d = slurp_real("o.txt"); if (d.size() != want.size() || (d.size() && std::memcmp(d.data(), want.data(), d.size()))) fail("stdout-after-flush", log); } }
              cmp::uout.flush(); }
            dup2(save, 1); ::close(save);
            auto d = slurp("o.txt"); if (d.size() != want.size() || (d.size() && std::memcmp(d.data(), want.data(), d.size()))) fail("stdout-content", log + fmt(" stored %zu of %zu bytes", d.size(), want.size()));
            ++counter("stdout_histories");
        }
        { // input through uin
            U32 t = r.chance(1, 5) ? gen_text(r, 2500) : gen_text(r, 60); for (auto& c : t) if (c == '\r') c = 'r';
            auto s = encode<std::u8string>(t); put("i.txt", std::vector<uint8_t>(s.begin(), s.end())); int fd = ::open("i.txt", O_RDONLY | O_CLOEXEC); dup2(fd, 0); ::close(fd);
            F().clear(); F().rng = r.next(); F().p_short = ps; F().p_intr = pe; set_case("C13 stdin " + dump_units(t)); U32 got; bool raw = r.chance(1, 3); std::vector<uint8_t> bytes;
            { Armed a;
              if (raw) for (;;) { size_t k = 1 + r.below(r.chance(1, 4) ? 3000 : 30); std::unique_ptr<std::byte[]> b(new std::byte[k]); size_t g = cmp::uin_resource.read(b.get(), k); if (g > k) { fail("stdin-count", log); break; } if (!g) break; bytes.insert(bytes.end(), (uint8_t*)b.get(), (uint8_t*)b.get() + g); }
              else try { for (;;) { char32_t c; cmp::uin >> c; got += c; if (got.size() > t.size()) break; } } catch (const cmp::read_past_end&) {} catch (const std::exception& e) { fail("stdin-threw", dump_units(t) + e.what()); } }
            if (raw ? !(bytes.size() == s.size() && (s.empty() || !std::memcmp(bytes.data(), s.data(), s.size()))) : got != t) fail("stdin-content", fmt("raw %d, %zu of %zu ", raw, raw ? bytes.size() : got.size(), raw ? s.size() : t.size()) + dump_units(got) + " expected " + dump_units(t));
            ++counter("stdin_histories"); ev(hash_bytes(s.data(), s.size(), raw));
        }
        counter("injected_short") += F().shorts - s0; counter("injected_eintr") += F().intrs - e0; ev(hash_bytes(log.data(), log.size(), ps * 131 + pe));
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(13));
    histories(r); enumerate(); hard(); transient(r); standard(r);
    F().on = false;
    return done();
}
