#include "c22.hpp"
static Global g_global{u8"global 2"};
Seen other_unit_sees() { return {&cmp::uin, &cmp::uout, &cmp::uerr, cmp::app()}; }
void other_unit_prints(int i) { cmp::uout << u8"unit 2: " << i << U'\u00e9' << u8"\n"; if (i % 5 == 0) cmp::uerr << u"err 2: " << i << u8"\n"; }
std::u8string other_unit_reads() { std::u8string s; cmp::uin.read_line(s); return s; }
w::Acc other_unit_section(int k, uint64_t seed, const w::Env& e) { return w::section(k, seed, e); }
void other_unit_throws() { (void)cmp::parse_integer<int>(std::u8string_view(u8""), cmp::integer_format{}); }
const std::u8string& other_unit_line() { return g_global.line; }
