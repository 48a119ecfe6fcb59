/* H01: a package is read into its parts, which are measured, delivered and
 * written with exactly their own bytes. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#include <openssl/md5.h>
#include <fcntl.h>
#ifndef FAIL
#define FAIL 0
#endif
static bool may_fail;
#define RPM_FAIL (FAIL && may_fail)
#include "rpm_env.h"
extern bool vp_oom_hit;

static bool failed;
static bool fails(void) { if (FAIL && may_fail && nd_bool()) { failed = true; return true; } return false; }

/* digests, each with a log of its own */
#define DIGESTS 3
static unsigned char dlog[DIGESTS][320], dout[DIGESTS][16];
static size_t dlen[DIGESTS];
static int dstate[DIGESTS + 1], digests;
int MD5_Init(MD5_CTX *c)
{
    if (fails()) return 0;
    VP_ASSERT(digests < DIGESTS, "digests");
    c->num = digests;
    dlen[digests] = 0;
    nd_bytes(dout[digests], 16);
    dstate[digests++] = 1;
    return 1;
}
int MD5_Update(MD5_CTX *c, const void *p, size_t n)
{
    VP_ASSERT(c->num < DIGESTS && dstate[c->num] == 1, "digest started");
    if (fails()) return 0;
    for (size_t i = 0; i < n; i++) { VP_ASSERT(dlen[c->num] < 320, "room"); dlog[c->num][dlen[c->num]++] = ((const unsigned char *)p)[i]; }
    return 1;
}
int MD5_Final(unsigned char *o, MD5_CTX *c)
{
    VP_ASSERT(c->num < DIGESTS && dstate[c->num] == 1, "digest started");
    if (fails()) return 0;
    memcpy(o, dout[c->num], 16);
    dstate[c->num] = 2;
    return 1;
}

/* the file */
static const char fname[] = "in.rpm", oname[] = "out.rpm";
static unsigned char file[320], out[320];
static size_t filen, hpos, apos, siglen, hdrlen, pos, outn;
static bool good_magic, bad_sig, bad_hdr, err_flag;
static int f_open, o_open, fd_open;
struct _FD_s { int which; } rd_fd = { 1 }, wr_fd = { 2 };
FD_t Fopen(const char *n, const char *m)
{
    if (fails()) return NULL;
    if (!strcmp(n, fname)) { VP_ASSERT(m[0] == 'r' && !f_open, "opened to be read"); f_open = 1; pos = 0; return &rd_fd; }
    VP_ASSERT(!strcmp(n, oname) && m[0] == 'w' && !o_open, "opened to be written");
    o_open = 1;
    outn = 0;
    return &wr_fd;
}
ssize_t Fread(void *b, size_t s, size_t n, FD_t f)
{
    VP_ASSERT(f == &rd_fd && f_open && s == 1, "open file");
    if (fails()) { err_flag = true; return nd_bool() ? -1 : 0; }
    size_t k = MIN(n, filen - pos);
    memcpy(b, file + pos, k);
    pos += k;
    return k;
}
ssize_t Fwrite(const void *b, size_t s, size_t n, FD_t f)
{
    VP_ASSERT(f == &wr_fd && o_open && s == 1, "open file");
    if (fails()) return vp_choose(0, 1) && n ? (ssize_t)n - 1 : -1;
    VP_ASSERT(outn + n <= sizeof out, "room");
    memcpy(out + outn, b, n);
    outn += n;
    return n;
}
off_t Ftell(FD_t f) { VP_ASSERT(f == &rd_fd && f_open, "open file"); if (fails()) return -1; return pos; }
int Fseek(FD_t f, off_t o, int w)
{
    VP_ASSERT(f == &rd_fd && f_open && w == SEEK_CUR && o >= 0, "skip forward");
    if (fails()) return -1;
    pos += o;
    return 0;
}
int Ferror(FD_t f) { VP_ASSERT(f == &rd_fd && f_open, "open file"); return err_flag; }
int Fclose(FD_t f)
{
    VP_ASSERT(f == &rd_fd ? f_open : o_open, "open file");
    if (f == &rd_fd) f_open = 0; else o_open = 0;
    if (f == &wr_fd && fails()) return -1;
    return 0;
}
Header headerRead(FD_t f, int magic)
{
    VP_ASSERT(f == &rd_fd && f_open && magic == HEADER_MAGIC_YES, "headers with magic");
    if (fails()) { err_flag = nd_bool(); return NULL; }
    if (pos == 96 && !bad_sig) { pos += 8 + siglen; return hdr_make(file + 96 + 8, siglen); }
    if (pos == hpos && !bad_hdr) { pos += 8 + hdrlen; return hdr_make(file + hpos + 8, hdrlen); }
    VP_ASSERT(pos == 96 || pos == hpos, "headers read where they are");
    return NULL;
}

/* the same file, by descriptor */
static size_t fpos;
int vp_open(const char *n, int fl, ...)
{
    VP_ASSERT(!strcmp(n, fname) && fl == O_RDONLY && !fd_open, "package opened to be read");
    if (fails()) return -1;
    fd_open = 1;
    fpos = 0;
    return 7;
}
off_t lseek(int fd, off_t o, int w)
{
    VP_ASSERT(fd == 7 && fd_open && w == SEEK_SET, "open file");
    if (fails()) return -1;
    fpos = o;
    return o;
}
ssize_t read(int fd, void *b, size_t n)
{
    VP_ASSERT(fd == 7 && fd_open, "open file");
    if (fails()) return -1;
    size_t k = MIN(n, filen - fpos);
    if (k) k = vp_choose(1, k);
    memcpy(b, file + fpos, k);
    fpos += k;
    return k;
}
int close(int fd) { VP_ASSERT(fd == 7 && fd_open, "closed once"); fd_open = 0; return 0; }

/* decompression stream: decided by Z02 */
static int strm;
static MD5_CTX *strm_md5;
static unsigned char plain[6];
static size_t plainn;
static unsigned short the_comp;
int decompstrm_init(struct decompstrm **s, int fd, unsigned short *c, MD5_CTX *m, const unsigned char *b, size_t n)
{
    VP_ASSERT(fd == 7 && fd_open && fpos == apos && b == NULL && n == 0, "decompression starts at the archive");
    if (fails()) { *s = NULL; return DRPM_ERR_FORMAT; }
    strm = 1;
    strm_md5 = m;
    if (c) *c = the_comp;
    *s = (struct decompstrm *)&strm;
    return DRPM_ERR_OK;
}
int decompstrm_read_until_eof(struct decompstrm *s, size_t *n, unsigned char **b)
{
    VP_ASSERT(s == (struct decompstrm *)&strm && strm == 1, "open stream");
    if (fails()) return DRPM_ERR_FORMAT;
    if (b) {
        unsigned char *p = malloc(plainn ? plainn : 1);
        if (!p) return DRPM_ERR_MEMORY;
        memcpy(p, plain, plainn);
        *b = p;
    }
    if (n) *n = plainn;
    if (strm_md5 && MD5_Update(strm_md5, file + apos, filen - apos) != 1) return DRPM_ERR_OTHER;
    return DRPM_ERR_OK;
}
int decompstrm_get_comp_size(struct decompstrm *s, size_t *n) { VP_ASSERT(s == (struct decompstrm *)&strm && strm == 1, "open stream"); *n = filen - apos; return DRPM_ERR_OK; }
int decompstrm_destroy(struct decompstrm **s) { VP_ASSERT(*s == (struct decompstrm *)&strm && strm == 1, "stream released once"); strm = 0; *s = NULL; return fails() ? DRPM_ERR_OTHER : DRPM_ERR_OK; }

static void nothing_left(void)
{
    VP_ASSERT(!f_open && !o_open && !fd_open && !strm, "files and streams are closed");
    VP_ASSERT(vp_live == 0 && hdr_live == 0, "memory and headers are released");
}
static bool clean(void) { return !failed && !rpm_failed && !vp_oom_hit; }
static void reset(void) { failed = rpm_failed = vp_oom_hit = false; }

void harness(void)
{
    static const unsigned char magic[4] = { 0xED, 0xAB, 0xEE, 0xDB };
    siglen = FAIL || WHAT == 3 ? 17 : vp_choose(16, 23);
    hdrlen = 16 + 3;
    nd_bytes(file, 96);
    memcpy(file + 96, rpm_header_magic, 8);
    nd_bytes(file + 104, siglen);
    hpos = (104 + siglen + 7) / 8 * 8;
    memcpy(file + hpos, rpm_header_magic, 8);
    nd_bytes(file + hpos + 8, hdrlen);
    apos = filen = hpos + 8 + hdrlen;
    filen += FAIL ? 3 : vp_choose(0, WHAT == 3 ? 4 : 2);
    nd_bytes(file + apos, filen - apos);
    nd_bytes(plain, plainn = FAIL ? 1 : vp_choose(0, WHAT == 3 ? 4 : 2));
    the_comp = nd_u16();
    unsigned bad = FAIL || WHAT > 0 ? 0 : vp_choose(0, 4);
    if (bad == 1) bad_sig = true;
    if (bad == 2) bad_hdr = true;
    if (bad == 3) filen = apos = 50;
    if (bad == 4) VP_ASSUME(memcmp(file, magic, 4) != 0); else memcpy(file, magic, 4);

    struct rpm *r = (struct rpm *)&r;
    unsigned short comp = 9;
    unsigned char sd[16], fd[16];
    int mode = vp_choose(0, 2), a, b;
    static const int modes[3] = { RPM_ARCHIVE_DONT_READ, RPM_ARCHIVE_READ_UNCOMP, RPM_ARCHIVE_READ_DECOMP };
    bool want_seq = WHAT > 0 ? false : vp_choose(0, 1), want_full = WHAT > 0 ? false : vp_choose(0, 1);
    if (mode == 2 && want_seq && want_full) return;     /* not supported: see the comment in rpm_read_archive() */
    vp_oom = may_fail = FAIL && WHAT == 0;
    int e = rpm_read(&r, fname, modes[mode], mode == 2 ? &comp : NULL, want_seq ? sd : NULL, want_full ? fd : NULL);
    vp_oom = may_fail = false;
    VP_ASSERT(!f_open && !fd_open && !strm, "files and streams are closed");
    if (e != DRPM_ERR_OK) {
        VP_ASSERT(bad || !clean(), "a package that can be read is read");
        if (bad) VP_ASSERT(e == DRPM_ERR_FORMAT, "what is no package is wrong format");
#if FAIL && WHAT == 0
        VP_REACH("reading failed");
#endif
        if (r) rpm_destroy(&r);
        nothing_left();
        return;
    }
    VP_ASSERT(!bad && clean(), "failures are reported");
    size_t alen = mode ? filen - apos : 0;
    if (mode == 2) VP_ASSERT(comp == the_comp, "compression of the archive");
    if (want_seq) {
        size_t n = 8 + hdrlen + alen;
        VP_ASSERT(dlen[0] == n && !memcmp(dlog[0], file + hpos, n) && !memcmp(sd, dout[0], 16), "digest over header and archive");
    }
    if (want_full) {
        int d = want_seq;
        size_t n = hpos + 8 + hdrlen + alen;
        VP_ASSERT(dlen[d] == n && !memcmp(dlog[d], file, n) && !memcmp(fd, dout[d], 16), "digest over the whole file");
    }
    VP_ASSERT(rpm_size_full(r) == apos + alen, "size of the file");
    VP_ASSERT(rpm_size_header(r) == 8 + hdrlen, "size of the header");

#if !FAIL && (WHAT == 0 || WHAT == 1)
    if (alen) VP_REACH("package read");
#endif
    /* parts */
    const unsigned char *arch = mode == 2 ? plain : file + apos;
    size_t archn = mode == 2 ? plainn : alen, len = 7777;
    unsigned char *p = NULL;
    uint32_t l32 = 7777;
    vp_oom = may_fail = FAIL;
    switch (WHAT) {
    case 1:
        e = rpm_fetch_lead_and_signature(r, &p, &l32);
        if (e == DRPM_ERR_OK) VP_ASSERT(l32 == hpos && !memcmp(p, file, hpos), "lead and signature with padding");
        free(p);
        p = NULL;
        if (e != DRPM_ERR_OK) break;
        e = rpm_fetch_header(r, &p, &l32);
        if (e == DRPM_ERR_OK) VP_ASSERT(l32 == 8 + hdrlen && !memcmp(p, file + hpos, l32), "header with magic");
        free(p);
        p = NULL;
        if (e != DRPM_ERR_OK) break;
        e = rpm_fetch_archive(r, &p, &len);
        if (e == DRPM_ERR_OK) VP_ASSERT(len == archn && !memcmp(p, arch, len), "archive");
        break;
    case 3: {
        size_t at = 0;
        static unsigned char buf[8];
        for (int i = 0; i < 3; i++) {
            if (i == 2) { VP_ASSERT(rpm_archive_rewind(r) == DRPM_ERR_OK, "rewound"); at = 0; }
            static const size_t counts[4] = { 0, 1, 2, 4 };
            unsigned k0 = vp_choose(0, 4);
            uint64_t c = k0 == 4 ? nd_u64() : counts[k0];
            bool skip = i == 1, fits = c <= archn - at;
            if (!fits) memset(buf, 0x55, 8);
            e = rpm_archive_read_chunk(r, skip || k0 == 4 ? NULL : buf, c);
            VP_ASSERT(e == (fits ? DRPM_ERR_OK : DRPM_ERR_FORMAT), "reads inside the archive succeed, no others");
            if (fits) {
                if (!skip && k0 < 4) for (size_t k = 0; k < c; k++) VP_ASSERT(buf[k] == arch[at + k], "bytes of the archive in order");
                at += c;
            }
        }
        e = DRPM_ERR_OK;
#if !FAIL && WHAT == 3
        if (at) VP_REACH("read");
#endif
        break;
    }
    case 4: {
        bool incl = vp_choose(0, 1), full = vp_choose(0, 1), dig = vp_choose(0, 1);
        unsigned char wd[16];
        int d = digests;
        e = rpm_write(r, oname, incl, dig ? wd : NULL, full);
        if (e == DRPM_ERR_OK) {
            VP_ASSERT(clean(), "failures are reported");
            size_t n = apos + (incl ? archn : 0), from = full ? 0 : hpos;
            VP_ASSERT(outn == n, "length of what is written");
            VP_ASSERT(!memcmp(out, file, apos) && (!incl || !memcmp(out + apos, arch, archn)), "parts written one after the other");
            if (dig) VP_ASSERT(dlen[d] == n - from && !memcmp(dlog[d], out + from, n - from) && !memcmp(wd, dout[d], 16), "digest over what is written");
#if !FAIL && WHAT == 4
            if (incl && dig) VP_REACH("written");
#endif
        }
        break;
    }
    }
    vp_oom = may_fail = false;
    if (e != DRPM_ERR_OK) VP_ASSERT(!clean(), "parts are delivered");
    else VP_ASSERT(clean(), "failures are reported");
#if FAIL && (WHAT == 1 || WHAT == 4)
    if (e != DRPM_ERR_OK) VP_REACH("failed");
#endif
    free(p);
    VP_ASSERT(rpm_destroy(&r) == DRPM_ERR_OK && r == NULL, "released");
    nothing_left();
}
