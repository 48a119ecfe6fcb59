/* Hex text codecs. */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"

int MD5_Update(MD5_CTX *c, const void *p, size_t n) { (void)c; (void)p; (void)n; return 1; }

static int hexval(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

void harness(void)
{
    /* bytes -> text -> bytes */
    size_t n = nd_range(0, N);
    unsigned char *in = vp_tail(N, n), *out = vp_tail(N, n);
    char *text = vp_tail(2 * N + 1, 2 * n + 1);
    nd_bytes(in, n);
    dump_hex(text, in, n);
    for (size_t i = 0; i < n; i++) {
        VP_ASSERT(hexval(text[2 * i]) == in[i] >> 4 && hexval(text[2 * i + 1]) == (in[i] & 15), "dump_hex digits");
        VP_ASSERT((text[2 * i] < 'A' || text[2 * i] > 'F') && (text[2 * i + 1] < 'A' || text[2 * i + 1] > 'F'), "lower case");
    }
    VP_ASSERT(text[2 * n] == 0, "dump_hex terminates");
    VP_ASSERT(parse_hex(out, text) == (ssize_t)n, "parse_hex length");
    for (size_t i = 0; i < n; i++)
        VP_ASSERT(out[i] == in[i], "hex round trip");
    if (n == N) VP_REACH("roundtrip");

    /* arbitrary text */
    char s[2 * N + 2];
    size_t m = nd_range(0, 2 * N);
    bool ok = true;
    for (size_t i = 0; i < m; i++) {
        s[i] = nd_u8();
        VP_ASSUME(s[i] != 0);
        if (i < m / 2 * 2 && hexval(s[i]) < 0)
            ok = false;
    }
    s[m] = 0;
    unsigned char *d = vp_tail(N, m / 2);
    ssize_t r = parse_hex(d, s);
    VP_ASSERT(r == (ok ? (ssize_t)(m / 2) : -1), "parse_hex accepts exactly hexadecimal text");
    if (ok)
        for (size_t i = 0; i < m / 2; i++)
            VP_ASSERT(d[i] == hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1]), "parse_hex value");
    if (ok && m >= 2) VP_REACH("accept");
    if (!ok) VP_REACH("reject");

    /* parse_hexnum on 8 characters, as in a cpio header */
    char h8[8];
    uint64_t want = 0;
    bool ok8 = true;
    for (int i = 0; i < 8; i++) {
        h8[i] = nd_u8();
        int v = hexval(h8[i]);
        if (v < 0) ok8 = false;
        want = want * 16 + (v & 15);
    }
    ssize_t r8 = parse_hexnum(h8, 8);
    VP_ASSERT(r8 == (ok8 ? (ssize_t)want : -1), "parse_hexnum value");
    if (ok8 && r8 == 0xfedcba98) VP_REACH("hexnum");
}
