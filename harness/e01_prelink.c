/* E01: is_prelinked() on an arbitrary start of a file; the section headers and
 * the section name table are what pread() delivers. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"

#ifndef FAIL
#define FAIL 0
#endif
int MD5_Init(MD5_CTX *c) { (void)c; return 1; }
int MD5_Update(MD5_CTX *c, const void *p, size_t n) { (void)c; (void)p; (void)n; return 1; }
int MD5_Final(unsigned char *o, MD5_CTX *c) { (void)c; (void)o; return 1; }

#define SECTS 2
static unsigned char buf[128], sh[SECTS][64], names[64];
static unsigned snum, ssiz, stridx;
static bool le, is64;
static int preads;
static uint64_t want_off;
static unsigned want_len;
static bool short_read;
extern bool vp_oom_hit;

static uint64_t num(const unsigned char *p, unsigned n)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < n; i++) v |= (uint64_t)p[i] << 8 * (le ? i : n - 1 - i);
    return v;
}

static void put(unsigned char *p, uint64_t v, unsigned n)
{
    for (unsigned i = 0; i < n; i++) p[le ? i : n - 1 - i] = v >> 8 * i;
}

ssize_t vp_pread(int fd, void *b, size_t n, off_t off)
{
    VP_ASSERT(fd == 9, "the file looked at");
    preads++;
    if (preads == 1) {
        VP_ASSERT(n == (size_t)snum * ssiz && (uint64_t)off == num(buf + (is64 ? 40 : 32), is64 ? 8 : 4), "section headers are read from where the file header says");
        if (nd_bool()) { short_read = true; return nd_bool() ? -1 : (ssize_t)(n - 1); }
        for (unsigned i = 0; i < snum; i++)
            for (unsigned k = 0; k < 64 && k < ssiz; k++) ((unsigned char *)b)[(size_t)i * ssiz + k] = sh[i][k];
        return n;
    }
    const unsigned char *s = sh[stridx];
    VP_ASSERT(preads == 2 && n == num(s + (is64 ? 32 : 20), is64 ? 8 : 4) && (uint64_t)off == num(s + (is64 ? 24 : 16), is64 ? 8 : 4), "section names are read from where their header says");
    if (nd_bool() || n > sizeof names) { short_read = true; return nd_bool() ? -1 : n ? (ssize_t)(n - 1) : -1; }
    memcpy(b, names, n);
    return n;
}

void harness(void)
{
    static const unsigned short lens[] = { 0, 3, 0x33, 0x34, 0x3f, 0x40, 128 };
    size_t len = lens[vp_choose(0, 6)];
    unsigned char *b = vp_alloc(len ? len : 1);
    nd_bytes(buf, len);
    VP_ASSUME((len > 4 && buf[4] == 2) == IS64 && (len > 5 && buf[5] != 2) == LE);
    is64 = IS64;
    le = LE;
    bool elf = len >= (is64 ? 0x40 : 0x34) && buf[0] == 0x7f && buf[1] == 'E' && buf[2] == 'L' && buf[3] == 'F';
    if (elf) {
        unsigned h = is64 ? 0x40 : 0x34;
        static const unsigned sizes[] = { 0, 39, 40, 41, 63, 64, 65, 32767, 32768, 65535 };
        ssiz = sizes[vp_choose(0, 9)];
        put(buf + h - 6, ssiz, 2);
        snum = vp_choose(0, SECTS);
        put(buf + h - 4, snum, 2);
        stridx = vp_choose(0, SECTS);
        if (stridx == SECTS) VP_ASSUME((stridx = num(buf + h - 2, 2)) >= SECTS);
        else put(buf + h - 2, stridx, 2);
        if (stridx < snum) {
            nd_bytes(sh[0], sizeof sh);
            static const uint32_t lens[] = { 0, 17, 18, 20, 0x7fffffff, 0x80000000, 0xffffffff };
            put(sh[stridx] + (is64 ? 32 + (le ? 0 : 4) : 20), lens[vp_choose(0, 6)], 4);
            nd_bytes(names, 20);
        }
    }
    memcpy(b, buf, len);
    vp_oom = FAIL;
    vp_cap = 1 << 20;
    bool r = nd_bool();
    int e = is_prelinked(&r, 9, b, len);
    VP_ASSERT(vp_live == 0, "nothing left behind");
    if (vp_oom_hit) {
        VP_ASSERT(e != DRPM_ERR_OK, "failures are reported");
#if FAIL
        VP_REACH("failure");
#endif
        return;
    }
    bool yes = false, big = false;
    if (elf && ssiz >= (is64 ? 64 : 40) && ssiz < 32768 && stridx < snum && !short_read && preads == 2) {
        const unsigned char *s = sh[stridx];
        uint64_t sl = num(s + (is64 ? 32 : 20), is64 ? 8 : 4);
        if (num(s + 4, 4) == 3)
            for (unsigned i = 0; i < snum; i++) {
                uint64_t o = num(sh[i], 4);
                if (o + 18 <= sl && memcmp(names + o, ".gnu.prelink_undo", 18) == 0) yes = true;
            }
    }
    if (elf && ssiz >= (is64 ? 64 : 40) && ssiz < 32768 && stridx < snum && preads == 1 && !short_read) {
        /* stopped after the section headers: only for a reason */
        const unsigned char *s = sh[stridx];
        uint64_t sl = num(s + (is64 ? 32 : 20), is64 ? 8 : 4), so = num(s + (is64 ? 24 : 16), is64 ? 8 : 4);
        big = e == DRPM_ERR_MEMORY && sl > vp_cap;
        VP_ASSERT(num(s + 4, 4) != 3 || sl > 0x7fffffff || so > 0x7fffffff || big, "section names are looked at");
    }
    VP_ASSERT(e == (big ? DRPM_ERR_MEMORY : DRPM_ERR_OK), "no other errors");
    if (e == DRPM_ERR_OK) VP_ASSERT(r == yes, "prelinked exactly if there is a section of that name");
#if !FAIL
    if (yes && stridx == 1) VP_REACH("prelinked");
    if (preads == 2 && !yes) VP_REACH("not prelinked");
#endif
}
