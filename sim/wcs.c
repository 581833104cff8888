// 2-byte wchar_t versions of the C library's wide-character functions (glibc's expect 4 bytes).
#include <stddef.h>
typedef unsigned short W;
size_t wcslen(const W *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t wcsnlen(const W *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int wcscmp(const W *a, const W *b) { for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
int wcsncmp(const W *a, const W *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
W *wcschr(const W *s, int ci) { W c = ci; for (;; s++) { if (*s == c) return (W *)s; if (!*s) return 0; } }
W *wcsrchr(const W *s, int ci) { W c = ci; W *r = 0; for (;; s++) { if (*s == c) r = (W *)s; if (!*s) return r; } }
W *wcscpy(W *d, const W *s) { W *r = d; while ((*d++ = *s++)) {} return r; }
W *wcscat(W *d, const W *s) { wcscpy(d + wcslen(d), s); return d; }
W *wcsncpy(W *d, const W *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W *wmemcpy(W *d, const W *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
W *wmemmove(W *d, const W *s, size_t n) { if (d < s) for (size_t i = 0; i < n; i++) d[i] = s[i]; else for (size_t i = n; i-- > 0;) d[i] = s[i]; return d; }
W *wmemset(W *d, int c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int wmemcmp(const W *a, const W *b, size_t n) { for (; n; a++, b++, n--) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
W *wmemchr(const W *s, int ci, size_t n) { W c = ci; for (; n; s++, n--) if (*s == c) return (W *)s; return 0; }
W *wcsstr(const W *h, const W *n) { size_t k = wcslen(n); for (;; h++) { if (!wcsncmp(h, n, k)) return (W *)h; if (!*h) return 0; } }
unsigned long wcstoul(const W *s, W **e, int base) { char b[64]; int i = 0; while (i < 63 && s[i] && s[i] < 128) { b[i] = s[i]; i++; } b[i] = 0; char *x; extern unsigned long strtoul(const char *, char **, int); unsigned long r = strtoul(b, &x, base); if (e) *e = (W *)s + (x - b); return r; }
