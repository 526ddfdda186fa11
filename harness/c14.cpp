#include "fsutil.hpp"
#include <cmp/io/file.hpp>
#include <cmp/io/exceptions.hpp>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace h;
struct Obj { std::unique_ptr<cmp::file> f; int path = -1; cmp::access_mode mode = cmp::access_mode::read_only; bool known_mode = false; };
struct World {
    Rng& r; std::string log; std::vector<std::string> names; std::vector<std::vector<uint8_t>> content; std::vector<bool> exists; std::vector<Obj> objs; std::set<int> made;
    std::map<int, std::pair<uint64_t, uint64_t>> sentinels; // descriptors that belong to the harness
    std::map<int, std::pair<uint64_t, uint64_t>> initial;
    explicit World(Rng& rr) : r(rr) {
        ::mkdir("deep", 0700); ::mkdir("deep/er \xC3\xA9", 0700); ::mkdir("deep/er \xC3\xA9/est", 0700); char cwd[2000]; if (!getcwd(cwd, sizeof cwd)) abort();
        for (int i = 0; i < 4; ++i) {
            switch (r.below(9)) { // plain, long, nested, absolute, through links, with characters of every length and of doubtful taste
                case 0: names.push_back(fmt("q%d", i) + std::string(100 + r.below(140), 'n') + ".bin"); break; case 1: names.push_back(fmt("deep/er \xC3\xA9/est/q%d \xF0\x9F\x98\x80\xE2\x82\xAC.bin", i)); break;
                case 2: names.push_back(std::string(cwd) + fmt("/q%d.bin", i)); break; case 3: names.push_back(fmt("./deep/../q%d a'b\"c\\d%%s*?.bin", i)); break; case 4: names.push_back(fmt("-q%d", i)); break; case 5: { std::string l = fmt("link%d", i), t = fmt("deep/target%d.bin", i); unlink(l.c_str()); unlink(t.c_str()); if (symlink(t.c_str(), l.c_str()) == 0) ++counter("links"); names.push_back(l); break; } default: names.push_back(fmt("q%d.bin", i)); }
            if (names.back().size() > 40 || names.back()[0] != 'q') ++counter("unusual_names"); content.emplace_back(); exists.push_back(i < 3); if (i < 3) { content[i].resize(r.chance(1, 6) ? 0 : r.chance(1, 20) ? 5000 : 1 + r.below(40)); for (auto& c : content[i]) c = (uint8_t)r.next(); put(names[i].c_str(), content[i]); } else if (names[i].compare(0, 4, "link")) unlink(names[i].c_str()); }
        objs.resize(4); initial = open_fds();
    }
    ~World() { for (auto& s : sentinels) ::close(s.first); }
    std::string tail() { return log.size() > 1200 ? "..." + log.substr(log.size() - 1200) : log; }
    void check() {
        // every harness descriptor is still what it was, every other descriptor belongs to exactly one open file object
        auto now = open_fds(); std::map<std::pair<uint64_t, uint64_t>, int> want;
        for (auto& s : initial) { if (!now.count(s.first) || now[s.first] != s.second) { fail("foreign-descriptor", fmt("descriptor %d that existed before was closed or replaced; ", s.first) + tail()); return; } now.erase(s.first); }
        for (auto& s : sentinels) { if (!now.count(s.first) || now[s.first] != s.second) { fail("foreign-descriptor", fmt("the caller's descriptor %d was closed or replaced; ", s.first) + tail()); return; } now.erase(s.first); }
        size_t n = 0;
        for (size_t k = 0; k < objs.size(); ++k) if (objs[k].f) {
            bool op = objs[k].f->is_open();
            if (op != (objs[k].path >= 0)) { fail("is_open", fmt("object %zu is_open %d expected %d; ", k, op, objs[k].path >= 0) + tail()); return; }
            if (objs[k].path >= 0) { struct stat st; if (stat(names[objs[k].path].c_str(), &st) == 0) { ++want[{st.st_dev, st.st_ino}]; ++n; } if (objs[k].f->get_access_mode() != objs[k].mode) fail("access-mode", fmt("object %zu; ", k) + tail()); }
        }
        std::map<std::pair<uint64_t, uint64_t>, int> have; for (auto& f : now) ++have[f.second];
        if (have != want) { fail(now.size() > n ? "descriptor-leak" : "descriptor-missing", fmt("%zu descriptors open beyond the harness's, %zu file objects open; ", now.size(), n) + tail()); return; }
        ++counter("descriptor_audits"); if (n) ++counter("audits_with_open_files"); if (!sentinels.empty()) ++counter("audits_with_caller_descriptors");
        for (size_t i = 0; i < names.size(); ++i) {
            struct stat st; bool ex = stat(names[i].c_str(), &st) == 0;
            if (ex != exists[i]) { fail(ex ? "created-unasked" : "not-created", names[i] + " " + tail()); exists[i] = ex; }
            if (ex && made.count((int)i)) { made.erase((int)i); if ((st.st_mode & 0700) < 0600 || !S_ISREG(st.st_mode)) fail("created-file-mode", fmt("%o ", (unsigned)st.st_mode) + names[i] + " " + tail()); ++counter("created_files_examined"); }
            if (ex && exists[i] && slurp(names[i].c_str()) != content[i]) { fail("content-changed", names[i] + " " + tail()); content[i] = slurp(names[i].c_str()); }
        }
    }
    bool opened(Obj& o, int p, cmp::access_mode m, bool create) { bool ok = p < 4 ? exists[p] || create : false; if (ok && p < 4) { if (!exists[p]) made.insert(p); exists[p] = true; } o.path = ok ? p : -1; if (ok) o.mode = m; return ok; }
    std::string pathname(int p) { return p < 4 ? names[p] : p == 4 ? std::string("no-such-dir/x.bin") : p == 5 ? std::string("") : std::string("."); }
    void step() {
        set_case("C14 " + (log.size() > 1900 ? log.substr(log.size() - 1900) : log));
        int k = (int)r.below(objs.size()); Obj& o = objs[k]; unsigned w = (unsigned)r.below(100);
        cmp::access_mode m = (cmp::access_mode)0; switch (r.below(3)) { case 0: m = cmp::access_mode::read_only; break; case 1: m = cmp::access_mode::write_only; break; default: m = cmp::access_mode::read_and_write; }
        bool create = r.chance(1, 2); int p = r.chance(1, 8) ? 4 + (int)r.below(3) : (int)r.below(4); if (p == 6) { m = cmp::access_mode::read_and_write; } // "." cannot be opened for writing
        auto ifnt = create ? cmp::if_not_there::create : cmp::if_not_there::fail;
        static const std::vector<size_t> caps{0, 1, 8, 1024};
        if (!o.f) { if (r.chance(1, 5)) { log += fmt(" %d=file()", k); o.f = std::make_unique<cmp::file>(); o.path = -1; } else { log += fmt(" %d=file(%s,%d,%s)", k, pathname(p).c_str(), (int)m, create ? "create" : "fail"); o.f = std::make_unique<cmp::file>(pathname(p), m, ifnt, r.pick(caps)); opened(o, p, m, create); } ++counter("constructions"); }
        else if (w < 22) { log += fmt(" open(%d,%s,%d,%s)", k, pathname(p).c_str(), (int)m, create ? "create" : "fail"); bool ok = o.f->open(pathname(p), m, ifnt); bool want = opened(o, p, m, create); if (ok != want) fail("open-result", fmt("open returned %d expected %d; ", ok, want) + tail()); ++counter(ok ? "opens" : "failed_opens"); }
        else if (w < 34) { log += fmt(" close(%d)", k); o.f->close(); o.path = -1; ++counter("closes"); }
        else if (w < 44) { log += fmt(" ~%d", k); o.f.reset(); o.path = -1; ++counter("destructions"); }
        else if (w < 54) { log += fmt(" move-construct(%d)", k); auto n = std::make_unique<cmp::file>(std::move(*o.f)); if (o.f->is_open()) fail("moved-from-open", tail()); if (r.chance(1, 3)) { log += " old.close"; o.f->close(); } o.f = std::move(n); ++counter("move_constructions"); }
        else if (w < 66) { int j = (int)r.below(objs.size()); Obj& t = objs[j]; if (!t.f) return; log += fmt(" %d=move(%d)", j, k); *t.f = std::move(*o.f); if (j != k) { t.path = o.path; t.mode = o.mode; o.path = -1; } ++counter("move_assignments"); }
        else if (w < 74) { int fd = ::open("sentinel.bin", O_CREAT | O_RDWR | O_CLOEXEC, 0600); struct stat st; fstat(fd, &st); sentinels[fd] = {st.st_dev, st.st_ino}; log += fmt(" [caller opens %d]", fd); if (sentinels.size() > 6) { int f = sentinels.begin()->first; ::close(f); sentinels.erase(f); log += fmt(" [caller closes %d]", f); } }
        else if (w < 88 && o.path >= 0) { // access mode
            std::byte b[8]; std::memset(b, 0x77, 8); size_t n = r.below(9); bool rd = r.chance(1, 2), threw = false; int64_t before = o.f->get_position();
            log += fmt(" %s(%d,%zu)", rd ? "read" : "write", k, n);
            bool allowed = rd ? o.mode != cmp::access_mode::write_only : o.mode != cmp::access_mode::read_only;
            if (allowed && !rd) return; // real writes are the business of other properties
            try { if (rd) o.f->read(b, n); else o.f->write(b, n); } catch (const cmp::invalid_access_mode&) { threw = true; }
            if (threw == allowed) fail("access-mode-enforcement", fmt("%s on mode %d %s; ", rd ? "read" : "write", (int)o.mode, threw ? "threw" : "was allowed") + tail());
            if (threw) { ++counter("forbidden_accesses_rejected"); if (o.f->get_position() != before) fail("access-mode-position", tail()); o.f->flush(); }
        } else if (w < 90) { // no descriptor to be had: the open fails and leaves nothing behind
            if (p >= 4 || o.path >= 0) return; struct rlimit l, z; getrlimit(RLIMIT_NOFILE, &l); z = l; z.rlim_cur = 0; log += fmt(" open-without-descriptors(%d,%s)", k, pathname(p).c_str());
            setrlimit(RLIMIT_NOFILE, &z); bool ok = o.f->open(pathname(p), m, ifnt), op = o.f->is_open(); setrlimit(RLIMIT_NOFILE, &l); if (ok || op) { fail("open-result", "open succeeded without a descriptor; " + tail()); return; } struct stat st; if (!exists[(size_t)p] && stat(names[(size_t)p].c_str(), &st) == 0) unlink(names[(size_t)p].c_str()); ++counter("opens_without_descriptors");
        } else if (w < 93) { log += fmt(" flush(%d)", k); o.f->flush(); }
        else if (o.path < 0) { std::byte b[4]; log += fmt(" read-closed(%d)", k); try { size_t g = o.f->read(b, 4); if (g) fail("read-from-closed", tail()); } catch (const cmp::invalid_access_mode&) {} ++counter("reads_of_closed_files"); }
        check(); ev(hash_bytes(log.data(), log.size()));
    }
};
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(shard_seed(14));
    size_t n = S().thorough ? 30000 : 1500;
    for (size_t i = 0; i < n && !S().total_violations; ++i) {
        unlink("sentinel.bin");
        if (i == n / 2) { ::close(0); ++counter("shards_with_descriptor_0_free"); } // from now on files can get descriptor 0
        World w(r); size_t steps = 10 + r.below(60);
        try { for (size_t s = 0; s < steps && !S().total_violations; ++s) w.step(); for (auto& o : w.objs) { o.f.reset(); o.path = -1; } w.log += " end"; if (!S().total_violations) w.check(); } catch (const std::exception& e) { fail("threw", w.log + e.what()); }
        ++counter("histories"); if (i < 3) sample(w.log.substr(0, 300));
    }
    return done();
}
