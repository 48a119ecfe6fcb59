/* What drpm.c calls when applying and checking, by contract: delta files
 * (R01/R02), packages (H01, librpm), sequences (S02), old data (A02), add block
 * (Z02), output (Z03) and MD5. Everything may fail if may_fail is set. */
#include <openssl/md5.h>
#include <fcntl.h>
#include <stdarg.h>
#include "md5log.h"
void *vp_malloc(size_t);
void vp_free(void *);
extern bool vp_oom_hit;

static bool may_fail, failed;
static bool fails(void) { if (may_fail && nd_bool()) { failed = true; return true; } return false; }
static int anyerr(void) { int e = nd_u8(); VP_ASSUME(e > DRPM_ERR_OK && e <= DRPM_ERR_NOINSTALL); return e; }

/* ---- packages ---- */
struct rpm { int kind; bool leadsig; char format; };
enum { OLD = 1, OLD_HDR, TGT };
static int rpms;
static char old_nevr[4];
static bool old_has_md5, tgt_is_source;
static unsigned char old_sig[16], new_sig[16];
static bool new_has_md5;
static int read_mode = -1;
static const char *want_old_name, *want_header_nevr;
static struct rpm *rpm_new(int kind)
{
    struct rpm *r = vp_malloc(sizeof *r);
    if (r) { r->kind = kind; r->leadsig = false; r->format = 'd'; rpms++; }
    return r;
}
int rpm_destroy(struct rpm **r)
{
    if (!*r) return DRPM_ERR_PROG;
    rpms--;
    vp_free(*r);
    *r = NULL;
    return DRPM_ERR_OK;
}
int rpm_read(struct rpm **r, const char *name, int mode, unsigned short *comp, unsigned char *seq, unsigned char *full)
{
    *r = NULL;
    VP_ASSERT(name == want_old_name && !comp && !seq && !full, "the old package is read");
    if (nd_bool() && fails()) return anyerr();
    if (!(*r = rpm_new(OLD))) return DRPM_ERR_MEMORY;
    read_mode = mode;
    /* drpm_rpm.c may leave an incomplete object for the caller to destroy */
    return fails() ? anyerr() : DRPM_ERR_OK;
}
int rpm_read_header(struct rpm **r, const char *nevr, const char *path)
{
    *r = NULL;
    VP_ASSERT(path == NULL && !strcmp(nevr, want_header_nevr), "the installed package of that name is looked up");
    if (fails()) return anyerr();
    if (!(*r = rpm_new(OLD_HDR))) return DRPM_ERR_MEMORY;
    return DRPM_ERR_OK;
}
int rpm_get_nevr(struct rpm *r, char **n)
{
    VP_ASSERT(r && (r->kind == OLD || r->kind == OLD_HDR) && !r->leadsig, "name of the old package");
    *n = NULL;
    if (fails()) return anyerr();
    if (!(*n = vp_malloc(sizeof old_nevr))) return DRPM_ERR_MEMORY;
    memcpy(*n, old_nevr, sizeof old_nevr);
    return DRPM_ERR_OK;
}
int rpm_signature_get_md5(struct rpm *r, unsigned char *md5, bool *has)
{
    VP_ASSERT(r && r->kind <= OLD_HDR, "signature of the old or rebuilt package");
    if (fails()) return anyerr();
    VP_ASSERT(r->kind == OLD || r->leadsig, "installed packages have no lead and signature of their own");
    *has = r->leadsig ? new_has_md5 : old_has_md5;
    if (*has) memcpy(md5, r->leadsig ? new_sig : old_sig, 16);
    return DRPM_ERR_OK;
}
bool rpm_is_sourcerpm(struct rpm *r) { VP_ASSERT(r && r->kind == TGT, "new package"); return tgt_is_source; }

/* ---- file list and sequence ---- */
static unsigned char seq[40];
static size_t seq_len;
static bool seq_bad;
static int want_mode;
static struct file_info *files_given;
static struct cpio_file *cpio_given;
static bool expanded;
int rpm_get_file_info(struct rpm *r, struct file_info **f, size_t *n, bool *colors)
{
    VP_ASSERT(r && (r->kind == OLD || r->kind == OLD_HDR) && !colors, "files of the old package");
    *f = NULL;
    *n = 0;
    if (fails()) return anyerr();
    if (!(*f = vp_malloc(sizeof **f))) return DRPM_ERR_MEMORY;
    memset(*f, 0, sizeof **f);
    files_given = *f;
    if (!((*f)->name = vp_malloc(1))) { vp_free(*f); *f = NULL; return DRPM_ERR_MEMORY; }
    *n = 1;
    return DRPM_ERR_OK;
}
int rpm_get_digest_algo(struct rpm *r, unsigned short *a)
{
    VP_ASSERT(r && (r->kind == OLD || r->kind == OLD_HDR), "digest algorithm of the old package");
    if (fails()) return anyerr();
    *a = 42;
    return DRPM_ERR_OK;
}
int expand_sequence(struct cpio_file **c, size_t *cn, const unsigned char *s, uint32_t sn, const struct file_info *f, size_t n, unsigned short algo, int mode)
{
    VP_ASSERT(sn == seq_len && memcmp(s, seq, seq_len) == 0, "the recorded sequence is expanded");
    VP_ASSERT(f == files_given && n == 1 && algo == 42 && mode == want_mode, "files and digest algorithm of the old package, requested check");
    VP_ASSERT((want_mode == DRPM_CHECK_NONE && c && cn) || !c, "entries only when needed");
    expanded = true;
    if (fails()) return anyerr();
    if (seq_bad) return DRPM_ERR_MISMATCH;
    if (c) {
        if (!(*c = vp_malloc(sizeof **c))) return DRPM_ERR_MEMORY;
        cpio_given = *c;
        *cn = 1;
    }
    return DRPM_ERR_OK;
}
