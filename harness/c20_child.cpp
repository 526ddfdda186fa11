// Executes a script of standard stream operations in a process of its own.
#include <cmp/io/uio.hpp>
#include <cmp/io/output_stream.hpp>
#include <cmp/io/exceptions.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
static std::u8string unhex(const char* p) { std::u8string s; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (; p[0] && p[1] && p[0] != '\n'; p += 2) s += (char8_t)(v(p[0]) * 16 + v(p[1])); return s; }
static void loghex(FILE* f, const std::u8string& s) { for (unsigned char c : s) fprintf(f, "%02x", c); fputc('\n', f); fflush(f); }
int main(int argc, char** argv) {
    FILE* in = fopen(argv[1], "r"); FILE* log = fopen(argv[2], "w"); static char line[1 << 20]; if (!in || !log) return 99;
    while (fgets(line, sizeof line, in)) {
        const char* a = line + 2; std::u8string s;
        try { switch (line[0]) {
            case 'o': cmp::uout << unhex(a); break;
            case 'n': { long v = atol(a); cmp::uout << v; break; }
            case 'e': cmp::uerr << unhex(a); break;
            case 'f': cmp::uout << cmp::flush; fprintf(log, "f\n"); fflush(log); break;
            case 'g': cmp::uerr << cmp::flush; break;
            case 'l': fprintf(log, "?\n"); fflush(log); cmp::uin.read_line(s); loghex(log, s); break;
            case 'w': fprintf(log, "?\n"); fflush(log); cmp::uin >> s; loghex(log, s); break;
            case 'c': { fprintf(log, "?\n"); fflush(log); char32_t c; cmp::uin >> c; cmp::append_code_point(s, c); loghex(log, s); break; }
            case 'a': { std::byte b[700]; for (;;) { size_t n = cmp::uin.read(b, sizeof b); if (!n) break; s.append((const char8_t*)b, n); } loghex(log, s); break; }
            case 'x': fclose(in); std::exit(0);
            default: break;
        } } catch (const cmp::read_past_end&) { fprintf(log, "EOF "); loghex(log, s); }
    }
    fclose(in); fclose(log);
    return 0;
}
