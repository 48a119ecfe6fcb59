/* C library functions for the symbolic executor. */
#include <stddef.h>
#define W __attribute__((weak))
#undef strlen
#undef strcpy
W size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
W int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *(const unsigned char *)a - *(const unsigned char *)b; }
W int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? *(const unsigned char *)a - *(const unsigned char *)b : 0; }
W char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
W char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
W char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
W char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
W void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
W int isxdigit(int c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F'); }
W int isdigit(int c) { return (c >= '0') & (c <= '9'); }
W int isspace(int c) { return (c == ' ') | (c >= 9 && c <= 13); }
W int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
W int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
void *malloc(size_t);
W char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = malloc(n); if (d) for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
W char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return 0; } }
static int err_;
W int *__errno_location(void) { return &err_; }
W long strtol(const char *s, char **e, int b)
{
    const char *t = s;
    long v = 0; int neg = 0, any = 0;
    while (*t == ' ' || (*t >= 9 && *t <= 13)) t++;
    if (*t == '-' || *t == '+') neg = *t++ == '-';
    for (;; t++) {
        int d = *t >= '0' && *t <= '9' ? *t - '0' : *t >= 'a' && *t <= 'z' ? *t - 'a' + 10 : *t >= 'A' && *t <= 'Z' ? *t - 'A' + 10 : 99;
        if (d >= (b ? b : 10)) break;
        v = v * (b ? b : 10) + d; any = 1;
    }
    if (e) *e = (char *)(any ? t : s);
    return neg ? -v : v;
}
W unsigned long strtoul(const char *s, char **e, int b) { return strtol(s, e, b); }
W int atoi(const char *s) { return strtol(s, 0, 10); }
