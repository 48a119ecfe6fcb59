/* Z02: decompression streams deliver exactly the decompressed bytes. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#include <openssl/md5.h>
#include <unistd.h>
#ifndef NMIN
#define NMIN 8
#endif
#ifndef NMAX
#define NMAX 9
#endif
#include "codec_dec.h"

static unsigned char file[NMAX];
static size_t n, fpos, mdlen;
static unsigned char mdlog[NMAX];
static bool io_err, md_err;

int MD5_Update(MD5_CTX *c, const void *p, size_t k)
{
    VP_ASSERT(mdlen + k <= n, "digest covers no more than the input");
    memcpy(mdlog + mdlen, p, k);
    mdlen += k;
    if (c_failures && nd_bool()) { md_err = true; return 0; }
    return 1;
}
ssize_t vp_read(int fd, void *b, size_t k)
{
    VP_ASSERT(fd == 5, "reads from its file");
    if (c_failures && nd_bool()) { io_err = true; return -1; }
    if (k > n - fpos) k = n - fpos;
#if SHORT
    if (k) k = vp_choose(1, k);
#endif
    memcpy(b, file + fpos, k);
    fpos += k;
    return k;
}
off_t vp_lseek(int fd, off_t o, int w)
{
    VP_ASSERT(fd == 5 && w == SEEK_CUR && fpos + o <= n, "seek");
    if (c_failures && nd_bool()) { io_err = true; return -1; }
    fpos += o;
    return fpos;
}
int read_be64(int fd, uint64_t *v)
{
    unsigned char b[8];
    VP_ASSERT(fd == 5 && fpos == 0, "reads the magic");
    if (c_failures && nd_bool()) { io_err = true; return DRPM_ERR_IO; }
    memcpy(b, file, 8);
    fpos = 8;
    *v = parse_be64(b);
    return DRPM_ERR_OK;
}

void harness(void)
{
    static const unsigned char magic[][6] = {{0}, {0x1F, 0x8B}, {0x42, 0x5A, 0x68}, {0x5D, 0, 0}, {0xFD, 0x37, 0x7A, 0x58, 0x5A, 0}, {0x4C, 0x5A, 0x49, 0x50}, {0x28, 0xB5, 0x2F, 0xFD}};
    static const int mlen[] = {1, 2, 3, 3, 6, 4, 4};
    static const int comps[] = {DRPM_COMP_NONE, DRPM_COMP_GZIP, DRPM_COMP_BZIP2, DRPM_COMP_LZMA, DRPM_COMP_XZ, DRPM_COMP_LZIP, DRPM_COMP_ZSTD};
    nd_bytes(file, NMAX);
    for (int i = 0; i < mlen[METHOD]; i++) file[i] = magic[METHOD][i];
    n = vp_choose(NMIN, NMAX);
    if (METHOD == 0) {
        c_olen = c_clen = n;
    } else {
        nd_bytes(c_out, OMAX);
        c_olen = vp_choose(0, OMAX);
        c_clen = vp_choose(METHOD == 6 ? n : 1, n + 1);   /* cut short if longer than the input; what follows a zstd frame must be a frame */
    }
    const unsigned char *want = METHOD ? c_out : file;
    c_failures = FAIL;
    vp_oom = FAIL;
    bool from_fd = vp_choose(0, 1), use_md = METHOD == 5 ? from_fd : vp_choose(0, 1);
    MD5_CTX ctx;
    struct decompstrm *s = NULL;
    unsigned short comp = 99;
    int e = decompstrm_init(&s, from_fd ? 5 : -1, &comp, use_md ? &ctx : NULL, from_fd ? NULL : file, from_fd ? 0 : n);
    if (e != DRPM_ERR_OK) {
        VP_ASSERT(FAIL, "opening fails only when something failed");
        VP_ASSERT(vp_live == 0 && c_open == 0, "nothing left open");
        return;
    }
    VP_ASSERT(comp == comps[METHOD], "compression recognised");
    size_t pos = 0;
    bool bad = false;
    extern bool vp_oom_hit;
    for (int i = 0; i < READS && !bad; i++) {
        unsigned char buf[9];
        size_t k = vp_choose(0, i == 0 ? 3 : 2);
        bool skip = vp_choose(0, 1);
        e = decompstrm_read(s, k, skip ? NULL : buf);
        if (e == DRPM_ERR_OK) {
            VP_ASSERT(pos + k <= c_olen, "no more than there is");
            if (!skip) for (size_t j = 0; j < k; j++) VP_ASSERT(buf[j] == want[pos + j], "bytes in order");
            pos += k;
            if (pos >= 4) VP_REACH("several reads");
        } else bad = true;
        if (e != DRPM_ERR_OK && !FAIL)
            VP_ASSERT(pos + k > c_olen || c_clen > n, "a read within the data succeeds");
    }
    if (!bad) {
        size_t len = 77;
        unsigned char *rest = NULL;
        e = decompstrm_read_until_eof(s, &len, &rest);
        if (e == DRPM_ERR_OK) {
            if (METHOD) VP_ASSERT(c_ended(), "truncated or corrupt data is not taken for the end");
            VP_ASSERT(len == c_olen - pos, "all the rest");
            for (size_t j = 0; j < len; j++) VP_ASSERT(rest[j] == want[pos + j], "rest in order");
            if (len >= 2) VP_REACH("rest");
            free(rest);
            size_t cs;
            VP_ASSERT(decompstrm_get_comp_size(s, &cs) == DRPM_ERR_OK && cs == n, "compressed size is that of the input");
            if (use_md) {
                VP_ASSERT(mdlen == n, "digest over all of the input");
                for (size_t j = 0; j < n; j++) VP_ASSERT(mdlog[j] == file[j], "digest over the input in order");
            }
        } else {
            if (!FAIL) VP_ASSERT(c_clen > n, "reading everything succeeds");
            bad = true;
        }
    }
    if (FAIL && (c_failed || c_nomem || io_err || md_err || vp_oom_hit)) VP_ASSERT(bad, "failures are reported");
    for (size_t j = 0; j < c_used && METHOD; j++) VP_ASSERT(c_inlog[j] == file[j], "the decompressor gets the input in order");
#if FAIL
    if (c_failed) VP_REACH("corrupt data");
#endif
    VP_ASSERT(decompstrm_destroy(&s) == DRPM_ERR_OK && s == NULL, "closed");
    VP_ASSERT(vp_live == 0, "nothing left allocated");
    VP_ASSERT(c_open == 0, "decompressor closed");
}
