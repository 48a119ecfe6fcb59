/* sprintf for the formats the library uses: %s %d %u %x with a zero-padded width */
#include <stdarg.h>
#ifdef VP_SYM
unsigned long vp_vararg(unsigned i);
#define ARG_INIT unsigned arg_ = 0
#define ARG(T) ((T)vp_vararg(arg_++))
#define ARG_END
#else
#define ARG_INIT va_list ap_; va_start(ap_, fmt)
#define ARG(T) va_arg(ap_, T)
#define ARG_END va_end(ap_)
#endif
static size_t vp_num(char *d, unsigned v, unsigned base, unsigned width)
{
    char t[12];
    unsigned n = 0;
    if (base == 16) {
        unsigned digits = width;
        if (width == 0 || (width < 8 && v >> (4 * width))) { digits = 1; while (digits < 8 && v >> (4 * digits)) digits++; }
        for (; n < digits; n++) { unsigned h = v >> (4 * n) & 15; t[n] = h + (h > 9 ? 'a' - 10 : '0'); }
    } else {
        do { t[n++] = '0' + v % 10; v /= 10; } while (v);
        while (n < width) t[n++] = '0';
    }
    for (unsigned i = 0; i < n; i++) d[i] = t[n - 1 - i];
    return n;
}
#define VP_FORMAT \
    for (; *fmt; fmt++) { \
        if (*fmt != '%') { *d++ = *fmt; continue; } \
        unsigned width = 0; \
        for (fmt++; *fmt >= '0' && *fmt <= '9'; fmt++) width = width * 10 + (*fmt - '0'); \
        if (*fmt == 's') { const char *s = ARG(const char *); while (*s) *d++ = *s++; } \
        else if (*fmt == 'x') d += vp_num(d, ARG(unsigned), 16, width); \
        else if (*fmt == 'u') d += vp_num(d, ARG(unsigned), 10, width); \
        else if (*fmt == 'd') { int v = ARG(int); if (v < 0) { *d++ = '-'; v = -v; } d += vp_num(d, v, 10, width); } \
        else VP_ASSERT(0, "format the model knows"); \
    } \
    *d = 0
int vp_sprintf(char *d, const char *fmt, ...)
{
    char *o = d;
    ARG_INIT;
    VP_FORMAT;
    ARG_END;
    return d - o;
}
int vp_snprintf(char *out, size_t max, const char *fmt, ...)
{
    char buf[512], *d = buf;
    ARG_INIT;
    VP_FORMAT;
    ARG_END;
    size_t n = d - buf;
    for (size_t i = 0; i < max && i <= n; i++) out[i] = i + 1 == max ? 0 : buf[i];
    return n;
}
