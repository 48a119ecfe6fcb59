/* F01: writing a delta fails cleanly.
 * WHAT 0: the delta, 1: the sequence file */
#include "vp.h"
#include "vp_mem.h"
void *vp_malloc(size_t);
#include <stdio.h>
#include "drpm.h"
#include "drpm_private.h"
#include <fcntl.h>
extern bool vp_oom_hit;
static bool failed;
static bool fails(void) { if (FAIL && nd_bool()) { failed = true; return true; } return false; }
static void *own(size_t n) { bool o = vp_oom; vp_oom = false; void *p = vp_malloc(n); vp_oom = o; return p; }

static int md5_state;
int MD5_Init(MD5_CTX *c) { (void)c; md5_state = 1; return !fails(); }
int MD5_Update(MD5_CTX *c, const void *p, size_t n) { (void)c; (void)p; (void)n; VP_ASSERT(md5_state == 1, "digest started"); return !fails(); }
int MD5_Final(unsigned char *d, MD5_CTX *c) { (void)c; memset(d, 7, 16); return !fails(); }

static unsigned char out[64];
static size_t outn;
static int fd_open, made;
int vp_open(const char *n, int fl, ...)
{
    VP_ASSERT(!strcmp(n, "d") && (fl & O_ACCMODE) == O_WRONLY && (fl & O_APPEND), "appended to");
    VP_ASSERT(made, "after the package was written");
    if (fails()) return -1;
    VP_ASSERT(!fd_open, "opened once");
    fd_open = 1;
    return 7;
}
int vp_creat(const char *n, mode_t m) { (void)m; VP_ASSERT(!strcmp(n, "d") && !fd_open, "created"); if (fails()) return -1; fd_open = 1; made++; return 7; }
int vp_close(int fd)
{
    if (fd == -1) return -1;
    VP_ASSERT(fd == 7 && fd_open, "closed once");
    fd_open = 0;
    return fails() ? -1 : 0;
}
ssize_t vp_write(int fd, const void *p, size_t n)
{
    VP_ASSERT(fd == 7 && fd_open, "open file");
    if (fails()) return n && nd_bool() ? (ssize_t)n - 1 : -1;
    VP_ASSERT(outn + n <= sizeof out, "room");
    memcpy(out + outn, p, n);
    outn += n;
    return n;
}

struct compstrm { int x; };
static int streams;
static bool finished;
int compstrm_init(struct compstrm **s, int fd, unsigned short comp, int level)
{
    VP_ASSERT(fd == -1, "into memory");
    (void)comp; (void)level;
    *s = NULL;
    if (fails()) return DRPM_ERR_MEMORY;
    *s = own(sizeof **s);
    streams++;
    return DRPM_ERR_OK;
}
int compstrm_destroy(struct compstrm **s)
{
    if (!s || !*s) return DRPM_ERR_PROG;
    VP_ASSERT(streams == 1, "stream released once");
    streams--;
    free(*s);
    *s = NULL;
    return fails() ? DRPM_ERR_OTHER : DRPM_ERR_OK;
}
static int wr(struct compstrm *s) { VP_ASSERT(s && streams == 1 && !finished, "stream in use"); return fails() ? DRPM_ERR_OTHER : DRPM_ERR_OK; }
int compstrm_write(struct compstrm *s, size_t n, const void *p) { (void)n; (void)p; return wr(s); }
int compstrm_write_be32(struct compstrm *s, uint32_t v) { (void)v; return wr(s); }
int compstrm_write_be64(struct compstrm *s, uint64_t v) { (void)v; return wr(s); }
int compstrm_finish(struct compstrm *s, unsigned char **d, size_t *l)
{
    int e = wr(s);
    if (e) return e;
    finished = true;
    *d = own(2);
    (*d)[0] = 'X'; (*d)[1] = 'Y';
    *l = 2;
    return DRPM_ERR_OK;
}
struct rpm { int x; };
static struct rpm the_rpm;
static int ok(struct rpm *r) { VP_ASSERT(r == &the_rpm, "package"); return fails() ? DRPM_ERR_OTHER : DRPM_ERR_OK; }
int rpm_fetch_header(struct rpm *r, unsigned char **h, uint32_t *l) { int e = ok(r); if (e) return e; *h = own(3); memset(*h, 1, 3); *l = 3; return DRPM_ERR_OK; }
static uint32_t sig_size;
int rpm_signature_empty(struct rpm *r) { return ok(r); }
int rpm_signature_set_size(struct rpm *r, uint32_t n) { sig_size = n; return ok(r); }
int rpm_signature_set_md5(struct rpm *r, unsigned char *m) { VP_ASSERT(m[0] == 7, "digest"); return ok(r); }
int rpm_signature_reload(struct rpm *r) { return ok(r); }
int rpm_write(struct rpm *r, const char *fn, bool arch, unsigned char *md5, bool full) { VP_ASSERT(!arch && !md5 && !full && !strcmp(fn, "d"), "package without archive"); made++; return ok(r); }
int rpm_destroy(struct rpm **r) { (void)r; return 0; }

/* the sequence file */
static int file_open;
static FILE *const the_file = (FILE *)&file_open;
FILE *vp_fopen(const char *n, const char *m) { VP_ASSERT(!strcmp(n, "q") && m[0] == 'w', "created"); if (fails()) return NULL; file_open++; return the_file; }
int vp_fclose(FILE *f) { VP_ASSERT(f == the_file && file_open == 1, "closed once"); file_open--; return fails() ? -1 : 0; }
#ifdef VP_SYM
unsigned long vp_vararg(unsigned i);
#endif
static int text(const char *s) { VP_ASSERT(file_open == 1, "open file"); while (*s) out[outn++] = *s++; return 0; }
#include <stdarg.h>
int vp_fprintf(FILE *f, const char *fmt, ...)
{
    VP_ASSERT(f == the_file, "file");
    if (fails()) return -1;
    size_t was = outn;
#ifdef VP_SYM
    unsigned k = 0;
#define NEXT ((const char *)vp_vararg(k++))
#else
    va_list ap;
    va_start(ap, fmt);
#define NEXT va_arg(ap, const char *)
#endif
    for (; *fmt; fmt++) {
        if (*fmt == '%') { fmt++; VP_ASSERT(*fmt == 's', "format the model knows"); text(NEXT); }
        else out[outn++] = *fmt;
    }
    return outn - was;
}

void harness(void)
{
    struct deltarpm d = {0};
    static unsigned char sq[18], ls[112];
    for (int i = 0; i < 18; i++) sq[i] = 0x3C + 29 * i;
    if (WHAT) sq[vp_choose(0, 15)] = nd_u8();
    d.filename = "d";
    d.type = vp_choose(0, 1) ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
    d.version = 3;
    d.src_nevr = "s";
    if (d.type == DRPM_TYPE_RPMONLY) d.head.tgt_nevr = "t"; else d.head.tgt_rpm = &the_rpm;
    d.sequence_len = WHAT ? vp_choose(16, 18) : 16;
    d.sequence = sq;
    d.tgt_comp = DRPM_COMP_GZIP;
    d.tgt_leadsig_len = 112;
    d.tgt_leadsig = ls;
    static uint32_t two[2];
    d.int_copies = d.ext_copies = d.offadj_elems = two;
    d.int_copies_count = d.ext_copies_count = d.offadj_elems_count = 1;
    unsigned char c = 0;
    const unsigned char *ptrs[1] = { &c };
    d.int_data_as_ptrs = true;
    d.int_data.ptrs = ptrs;
    d.add_data = &c;
    d.add_data_len = 1;
#if FAIL
    vp_oom = true;
#endif
    int e;
#if WHAT == 0
    e = write_deltarpm(&d);
    vp_oom = false;
    VP_ASSERT(!streams && !fd_open, "stream and file closed");
    if (e == DRPM_ERR_OK) {
        VP_ASSERT(made == 1, "file made once");
        VP_ASSERT(outn >= 2 && out[outn - 2] == 'X' && out[outn - 1] == 'Y', "data comes last");
        if (d.type == DRPM_TYPE_STANDARD) VP_ASSERT(outn == 2 && sig_size == 3 + 2, "size of header and data in the signature");
        VP_REACH("written");
    }
#else
    e = write_seqfile(&d, "q");
    vp_oom = false;
    VP_ASSERT(!file_open, "file closed");
    if (e == DRPM_ERR_OK) {
        VP_ASSERT(outn == 2 + 2 * d.sequence_len + 1 && out[0] == 's' && out[1] == '-' && out[outn - 1] == '\n', "name and sequence");
        for (size_t i = 0; i < d.sequence_len; i++)
            for (int h = 0; h < 2; h++) {
                unsigned v = h ? sq[i] & 15 : sq[i] >> 4;
                VP_ASSERT(out[2 + 2 * i + h] == (v > 9 ? v - 10 + 'a' : v + '0'), "sequence in hexadecimal");
            }
        VP_REACH("written");
    }
#endif
    if (failed || vp_oom_hit) VP_ASSERT(e != DRPM_ERR_OK, "failures are reported");
    else VP_ASSERT(e == DRPM_ERR_OK, "written");
    VP_ASSERT(vp_live == 0, "nothing left");
}
