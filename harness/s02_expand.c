/* S02: expand_sequence() on an arbitrary sequence and file list.
 * The digest is an opaque function of what is fed to it (logged). */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#include <sys/stat.h>
#include "md5log.h"
#include "seqref.h"

#ifndef FILES
#define FILES 3
#endif
#ifndef SEQ
#define SEQ 3
#endif
#ifndef TYPES       /* arbitrary file types and contents, or directories only */
#define TYPES 0
#endif
#ifndef ALGO
#define ALGO 1
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef LONGNUM     /* this many nibbles at the start all say "more follows" */
#define LONGNUM 0
#endif
#define DLEN (ALGO == 1 ? 16 : 32)

static unsigned char want[MD5_LOGMAX];
static size_t wn;
static void w32(uint32_t v) { want[wn++] = v >> 24; want[wn++] = v >> 16; want[wn++] = v >> 8; want[wn++] = v; }
static unsigned hexval(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static bool ishex(char c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'f'); }

static char names[FILES][4], links[FILES][3], sums[FILES][72];
static struct file_info files[FILES];
static bool sum_ok[FILES];

void harness(void)
{
    size_t count = vp_choose(0, FILES);
    for (size_t i = 0; i < count; i++) {
        size_t nl = TYPES ? vp_choose(0, 2) : 2, ll = TYPES ? vp_choose(0, 1) : 0;
        for (size_t k = 0; k < nl; k++) { names[i][k] = nd_u8(); VP_ASSUME(names[i][k] != 0); }
        for (size_t k = 0; k < ll; k++) { links[i][k] = nd_u8(); VP_ASSUME(links[i][k] != 0); }
        files[i].name = names[i];
        files[i].linkto = links[i];
        files[i].md5 = sums[i];
        files[i].mode = S_IFDIR | 0755;
        if (TYPES) {
            /* any type, any permissions */
            files[i].mode = nd_u16();
            files[i].rdev = nd_u16();
            files[i].size = nd_u32();
            /* content digest: right length or one byte short, one character arbitrary */
            size_t dl = nd_bool() ? 2 * DLEN : 2 * DLEN - 2;
            for (size_t k = 0; k < dl; k++) sums[i][k] = "0f9aA5"[k % 6];
            char c = nd_u8();
            VP_ASSUME(c != 0);
            sums[i][i == 0 ? 0 : dl - 1] = c;
            sum_ok[i] = dl == 2 * DLEN && ishex(c);
        }
    }
    size_t sl = vp_choose(0, SEQ);
    unsigned char *seq = vp_alloc(16 + sl);
    nd_bytes(seq, 16 + sl);
    if (LONGNUM) {
        VP_ASSUME(sl == SEQ);
        for (size_t k = 0; k < LONGNUM; k++)
            VP_ASSUME((k % 2 ? seq[16 + k / 2] & 15 : seq[16 + k / 2] >> 4) & 8);
    }
    int differs = vp_choose(0, 2);          /* digest: equal, differs at the start, at the end */
    for (int i = 0; i < 16; i++) md5_out[i] = seq[i];
    if (differs) {
        unsigned char d = nd_u8();
        VP_ASSUME(d != 0);
        md5_out[differs == 1 ? 0 : 15] ^= d;
    }
    struct cpio_file *cf = NULL;
    size_t cn = 0;
    bool want_files = nd_bool();
    vp_oom = md5_fail = FAIL;
    extern bool vp_oom_hit;
    int e = expand_sequence(want_files ? &cf : NULL, want_files ? &cn : NULL, seq, 16 + sl, files, count,
                            ALGO == 1 ? DIGESTALGO_MD5 : DIGESTALGO_SHA256, DRPM_CHECK_NONE);
    if (e != DRPM_ERR_OK) VP_ASSERT(vp_live == 0 && cf == NULL && cn == 0, "nothing left behind after an error");
    if (vp_oom_hit || md5_failed) { VP_ASSERT(e != DRPM_ERR_OK, "failures are reported"); return; }

    size_t pos[FILES + 1], n = 0;
    int r = seq_decode(seq + 16, sl, count, pos, count, &n);
    for (size_t k = 0; k < n && r == DRPM_ERR_OK; k++) {
        struct file_info *f = &files[pos[k]];
        const char *nm = f->name[0] == '/' ? f->name + 1 : f->name;
        bool reg = (f->mode & S_IFMT) == S_IFREG, lnk = (f->mode & S_IFMT) == S_IFLNK;
        bool dev = (f->mode & S_IFMT) == S_IFBLK || (f->mode & S_IFMT) == S_IFCHR;
        uint32_t size = reg ? f->size : lnk ? strlen(f->linkto) : 0;
        for (size_t c = 0; c == 0 || nm[c - 1]; c++) want[wn++] = nm[c];
        w32(f->mode); w32(size); w32(dev ? f->rdev : 0);
        if (lnk) for (size_t c = 0; c == 0 || f->linkto[c - 1]; c++) want[wn++] = f->linkto[c];
        if (reg && size > 0) {
            if (!sum_ok[pos[k]]) r = DRPM_ERR_FORMAT;
            else for (size_t c = 0; c < DLEN; c++) want[wn++] = hexval(f->md5[2 * c]) << 4 | hexval(f->md5[2 * c + 1]);
        }
    }
    if (r == DRPM_ERR_OK) {
        VP_ASSERT(md5_state == 2 && md5_n == wn, "digest over the listed files: length");
        bool same = true;
        for (size_t i = 0; i < wn; i++) same &= md5_log[i] == want[i];
        VP_ASSERT(same, "digest over the listed files: names, modes, sizes, devices, links and digests");
        if (differs) r = DRPM_ERR_MISMATCH;
    }
    VP_ASSERT(e == r, "accepted exactly if well-formed and the digest matches");
    if (e == DRPM_ERR_MISMATCH && !LONGNUM) VP_REACH("mismatch");
    if (e == DRPM_ERR_FORMAT) VP_REACH("refused");
    if (e != DRPM_ERR_OK || !want_files) return;
    VP_ASSERT(cn == n + 1 && cf != NULL && vp_live == 1, "one archive entry per listed file, and the trailer");
    size_t off = 0;
    for (size_t k = 0; k <= n; k++) {
        size_t h, c = 0;
        if (k == n) {
            VP_ASSERT(cf[k].index == -1, "trailer");
            h = 110 + 11;
        } else {
            struct file_info *f = &files[pos[k]];
            const char *nm = f->name[0] == '/' ? f->name + 1 : f->name;
            VP_ASSERT(cf[k].index == (ssize_t)pos[k], "entry for the listed file");
            h = 110 + 2 + strlen(nm) + 1;
            c = (f->mode & S_IFMT) == S_IFREG ? f->size : (f->mode & S_IFMT) == S_IFLNK ? strlen(f->linkto) : 0;
        }
        h = (h + 3) / 4 * 4;
        c = (c + 3) / 4 * 4;
        VP_ASSERT(cf[k].header_len == h && cf[k].content_len == c && cf[k].offset == off, "entry sizes and offset");
        off += h + c;
    }
    if (n >= 2 || (TYPES && n == FILES)) VP_REACH("expanded");
    free(cf);
}
