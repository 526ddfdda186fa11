// For builds with -fshort-wchar: the C library's wide functions are for 4-byte wchar_t,
// so the ones that std::wstring and std::wstring_view need are defined here for 2-byte ones.
typedef unsigned short W; typedef __SIZE_TYPE__ N;
#define KEEP asm volatile("" ::: "memory")
extern "C" {
W* wmemcpy(W* d, const W* s, N n) { for (N i = 0; i < n; ++i) { d[i] = s[i]; KEEP; } return d; }
W* wmemmove(W* d, const W* s, N n) { if (d <= s) { for (N i = 0; i < n; ++i) { d[i] = s[i]; KEEP; } } else while (n--) { d[n] = s[n]; KEEP; } return d; }
W* wmemset(W* d, W c, N n) { for (N i = 0; i < n; ++i) { d[i] = c; KEEP; } return d; }
int wmemcmp(const W* a, const W* b, N n) { for (; n--; ++a, ++b) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
N wcslen(const W* s) { N n = 0; for (; s[n]; ++n) KEEP; return n; }
W* wmemchr(const W* s, W c, N n) { for (; n--; ++s) if (*s == c) return (W*)s; return 0; }
}
