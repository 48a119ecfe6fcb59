/* Digest text parsing: accepts exactly digests of the right length and never
 * writes outside the 16 / 32 byte destination, whatever the text. */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"

int MD5_Update(MD5_CTX *c, const void *p, size_t n) { (void)c; (void)p; (void)n; return 1; }

#define MAXL 68

void harness(void)
{
    char *s = vp_alloc(MAXL + 1);
    size_t m = nd_range(0, MAXL);
    size_t bad = nd_u8();
    char badc = nd_u8();
    VP_ASSUME(badc != 0);
    bool isbad = !((badc >= '0' && badc <= '9') || (badc >= 'a' && badc <= 'f') || (badc >= 'A' && badc <= 'F'));
    /* every character a hex digit except possibly one arbitrary one */
    for (size_t i = 0; i < MAXL; i++) {
        uint8_t v = nd_u8();
        char c = v < 10 ? '0' + v : 'a' + (v % 6);
        s[i] = i < m ? (i == bad ? badc : c) : 0;
    }
    s[MAXL] = 0;
    bool hexok = !(isbad && bad < m);

    unsigned char md5[16 + 1], sha[32 + 1];
    md5[16] = sha[32] = 0xA5;
    /* exact-size heap destinations make any overrun visible */
    unsigned char *dm = vp_alloc(16), *ds = vp_alloc(32);
    bool a = parse_md5(dm, s);
    bool b = parse_sha256(ds, s);
    VP_ASSERT(!a || (m == 32 && hexok), "md5: wrong text refused");
    VP_ASSERT(!b || (m == 64 && hexok), "sha256: wrong text refused");
    VP_ASSERT(a || m != 32 || !hexok, "md5: good text accepted");
    VP_ASSERT(b || m != 64 || !hexok, "sha256: good text accepted");
    size_t k = nd_range(0, 31);
    char h = s[2 * k], l = s[2 * k + 1];
    unsigned hv = h <= '9' ? h - '0' : (h | 32) - 'a' + 10, lv = l <= '9' ? l - '0' : (l | 32) - 'a' + 10;
    if (a && k < 16) { VP_ASSERT(dm[k] == hv * 16 + lv, "md5 value"); VP_REACH("md5"); }
    if (b) { VP_ASSERT(ds[k] == hv * 16 + lv, "sha256 value"); VP_REACH("sha"); }
    if (!a && !b && m > 64) VP_REACH("long");
}
