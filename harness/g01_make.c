/* G01/F01: what drpm_make() hands to the writer is what was asked for, and
 * what remains when something fails.
 * WHAT: 0 two packages, 1 one package, 2 two packages rpm-only, 3 one package rpm-only */
#include "vp.h"
#include "vp_mem.h"
void *vp_malloc(size_t);
void vp_free(void *);
#include "drpm.h"
#define parse_cpio_from_rpm_filedata real_parse_cpio_from_rpm_filedata
#define patches_read real_patches_read
#define patches_check_nevr real_patches_check_nevr
#define patches_destroy real_patches_destroy
#include "drpm_private.h"
#include "drpm_make.c"
#undef parse_cpio_from_rpm_filedata
#undef patches_read
#undef patches_check_nevr
#undef patches_destroy
#ifndef FAIL
#define FAIL 0
#endif
#define ALONE (WHAT & 1)
#define RPMONLY (WHAT >= 2)
#define NODIFF (WHAT == 3)
extern bool vp_oom_hit;
static void *own(size_t n) { bool o = vp_oom; vp_oom = false; void *p = vp_malloc(n); vp_oom = o; return p; }
static bool failed;
static bool fails(void) { if (FAIL && nd_bool()) { failed = true; return true; } return false; }

static drpm_make_options opts;      /* what is in effect */
static int calls;

/* packages */
#define OLD 0
#define NEW 1
#define TGT (ALONE ? OLD : NEW)
static const char *const fn[] = { "old", "new" };
static const char *const nevr[] = { "o-1", "n-2" };
struct rpm { int which; bool good, patched; };
static int lives[2];
static uint32_t full_size[2], header_size[2], fmt_off[2];
static unsigned short comp[2], level[2], format;
static unsigned char md5s[2][16], seqmd5[2][16];
static unsigned char hdr[2][3], arch[2][3], sig[2][4];
static size_t archn[2];
int rpm_read(struct rpm **r, const char *name, int mode, unsigned short *c, unsigned char *seq, unsigned char *full)
{
    calls++;
    int w = !strcmp(name, fn[NEW]) && !ALONE;
    VP_ASSERT(!strcmp(name, fn[w]) && lives[w] == 0, "each package is read once");
    VP_ASSERT(mode == (NODIFF ? RPM_ARCHIVE_READ_UNCOMP : RPM_ARCHIVE_READ_DECOMP), "archive read");
    bool f = fails();
    *r = NULL;
    if (f && vp_choose(0, 1)) return DRPM_ERR_MEMORY;
    *r = own(sizeof **r);
    (*r)->which = w;
    (*r)->good = !f;
    (*r)->patched = false;
    lives[w]++;
    if (f) return DRPM_ERR_IO;      /* what was allocated is still to be destroyed */
    if (c) *c = comp[w];
    if (seq) memcpy(seq, seqmd5[w], 16);
    if (full) memcpy(full, md5s[w], 16);
    return DRPM_ERR_OK;
}
int rpm_destroy(struct rpm **r)
{
    if (!r || !*r) return DRPM_ERR_PROG;
    VP_ASSERT(lives[(*r)->which] == 1, "package released once");
    lives[(*r)->which]--;
    free(*r);
    *r = NULL;
    return DRPM_ERR_OK;
}
#define USE(r) VP_ASSERT((r) && (r)->good && lives[(r)->which], "package in use")
static unsigned char *dup_bytes(const void *p, size_t n)
{
    unsigned char *d = vp_malloc(n);
    if (d) memcpy(d, p, n);
    return d;
}
int rpm_get_payload_format(struct rpm *r, unsigned short *v) { USE(r); if (fails()) return DRPM_ERR_FORMAT; if (r->which == TGT) *v = format; else *v = RPM_PAYLOAD_FORMAT_CPIO; return DRPM_ERR_OK; }
int rpm_get_comp_level(struct rpm *r, unsigned short *v) { USE(r); if (fails()) return DRPM_ERR_FORMAT; *v = level[r->which]; return DRPM_ERR_OK; }
int rpm_get_nevr(struct rpm *r, char **n) { USE(r); if (!(*n = (char *)dup_bytes(nevr[r->which], 4))) return DRPM_ERR_MEMORY; return DRPM_ERR_OK; }
int rpm_fetch_lead_and_signature(struct rpm *r, unsigned char **p, uint32_t *n)
{
    USE(r);
    *p = NULL;
    *n = 0;
    if (fails()) return DRPM_ERR_OTHER;
    if (!(*p = dup_bytes(sig[r->which], 4))) return DRPM_ERR_MEMORY;
    *n = 4;
    return DRPM_ERR_OK;
}
uint32_t rpm_size_full(struct rpm *r) { USE(r); return full_size[r->which]; }
uint32_t rpm_size_header(struct rpm *r) { USE(r); return header_size[r->which]; }
int rpm_fetch_header(struct rpm *r, unsigned char **p, uint32_t *n)
{
    USE(r);
    if (fails() || !(*p = dup_bytes(hdr[r->which], r->which + 2))) return DRPM_ERR_MEMORY;
    *n = r->which + 2;
    return DRPM_ERR_OK;
}
int rpm_fetch_archive(struct rpm *r, unsigned char **p, size_t *n)
{
    USE(r);
    if (!(*p = dup_bytes(arch[r->which], archn[r->which]))) return DRPM_ERR_MEMORY;
    *n = archn[r->which];
    return DRPM_ERR_OK;
}
int rpm_patch_payload_format(struct rpm *r, const char *f)
{
    USE(r);
    VP_ASSERT(r->which == TGT && !RPMONLY && !strcmp(f, "drpm"), "payload format of a standard delta");
    if (fails()) return DRPM_ERR_OTHER;
    r->patched = true;
    return DRPM_ERR_OK;
}
int rpm_find_payload_format_offset(struct rpm *r, uint32_t *o)
{
    USE(r);
    VP_ASSERT(r->which == TGT, "offset in the new package");
    if (fails()) return DRPM_ERR_FORMAT;
    *o = fmt_off[r->which] + (r->patched != !RPMONLY);
    return DRPM_ERR_OK;
}

/* patches */
static bool patches_live;
int patches_read(const char *print, const char *patch, struct rpm_patches **p)
{
    calls++;
    VP_ASSERT(!RPMONLY, "patches of standard deltas only");
    *p = NULL;
    if (!print || !patch) { VP_ASSERT(!opts.oldrpmprint, "asked for patches"); return DRPM_ERR_OK; }
    VP_ASSERT(opts.oldrpmprint && !strcmp(print, opts.oldrpmprint) && !strcmp(patch, opts.oldpatchrpm), "patches asked for");
    if (fails()) return DRPM_ERR_IO;
    *p = own(1);
    patches_live = true;
    return DRPM_ERR_OK;
}
static bool other_patches;
static int checked;
int patches_check_nevr(const struct rpm_patches *p, const char *n)
{
    VP_ASSERT(p && patches_live && !strcmp(n, nevr[OLD]), "patches for the old package");
    checked++;
    return other_patches ? DRPM_ERR_ARGS : DRPM_ERR_OK;
}
int patches_destroy(struct rpm_patches **p)
{
    if (!p || !*p) return DRPM_ERR_PROG;
    VP_ASSERT(patches_live, "patches released once");
    patches_live = false;
    free(*p);
    *p = NULL;
    return DRPM_ERR_OK;
}

static unsigned char cpio[3], seq[20];
static uint32_t adj[2], adjn;
static size_t cpion;
int parse_cpio_from_rpm_filedata(struct rpm *r, unsigned char **c, size_t *cn, unsigned char **s, uint32_t *sn, uint32_t **a, uint32_t *an, const struct rpm_patches *p)
{
    USE(r);
    VP_ASSERT(r->which == OLD && !RPMONLY && !r->patched, "archive of the old package");
    VP_ASSERT((p != NULL) == patches_live && (!p || checked), "patches taken into account");
    VP_ASSERT((a != NULL) == (opts.version >= 3) && (an != NULL) == (a != NULL), "offset adjustments from version 3 on");
    *c = NULL; *cn = 0; *s = NULL; *sn = 0;
    if (a) { *a = NULL; *an = 0; }
    if (fails()) return DRPM_ERR_FORMAT;
    *c = dup_bytes(cpio, cpion);
    *s = *c ? dup_bytes(seq, 18) : NULL;
    if (a && *s && adjn) *a = (uint32_t *)dup_bytes(adj, 8);
    if (!*c || !*s || (a && adjn && !*a)) { vp_free(*c); vp_free(*s); *c = *s = NULL; return DRPM_ERR_MEMORY; }
    *cn = cpion;
    *sn = 18;
    if (a) *an = adjn;
    return DRPM_ERR_OK;
}

static const unsigned char *newp;
static uint32_t xcopies[2], icopies[2];
static unsigned char addb[3];
static int diffs;
int make_diff(const unsigned char *o, size_t on, const unsigned char *n, size_t nn, const unsigned char ***ip, uint64_t *in,
              uint32_t **xc, uint32_t *xn, uint32_t **ic, uint32_t *icn, unsigned char **ab, uint32_t *abn, unsigned short ac, int al)
{
    diffs++;
    VP_ASSERT((ab != NULL) == opts.addblk && (abn != NULL) == opts.addblk, "add block as asked for");
    if (ab) VP_ASSERT(ac == opts.addblk_comp && al == opts.addblk_comp_level, "its compression as asked for");
    size_t h[2] = { RPMONLY ? 2 : 0, RPMONLY ? 3 : 0 };
    const unsigned char *oa = RPMONLY ? arch[OLD] : cpio;
    size_t oan = RPMONLY ? archn[OLD] : cpion;
    VP_ASSERT(on == h[OLD] + oan && nn == h[NEW] + archn[TGT], "lengths of what is compared");
    if (RPMONLY) VP_ASSERT(!memcmp(o, hdr[OLD], 2) && !memcmp(n, hdr[NEW], 3), "headers come first");
    VP_ASSERT(!memcmp(o + h[OLD], oa, oan) && !memcmp(n + h[NEW], arch[TGT], archn[TGT]), "archives compared");
    newp = n;
    bool f = fails();
    *xc = (uint32_t *)dup_bytes(xcopies, 8);
    if (!*xc) return DRPM_ERR_MEMORY;
    *ic = (uint32_t *)dup_bytes(icopies, 8);
    if (!*ic) return DRPM_ERR_MEMORY;
    *ip = vp_malloc(sizeof **ip);
    if (!*ip) return DRPM_ERR_MEMORY;
    if (f) return DRPM_ERR_OTHER;
    if (ab && !(*ab = dup_bytes(addb, 3))) return DRPM_ERR_MEMORY;
    (*ip)[0] = n;
    *in = icopies[1];
    *xn = *icn = 1;
    if (ab) *abn = 3;
    return DRPM_ERR_OK;
}

static int written, seqs;
static const char out[] = "delta";
int write_deltarpm(struct deltarpm *d)
{
    VP_ASSERT(++written == 1, "written once");
    VP_ASSERT(!strcmp(d->filename, out), "name of the delta");
    VP_ASSERT(d->type == (RPMONLY ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD) && d->version == opts.version, "type and version asked for");
    if (!opts.comp_from_rpm) VP_ASSERT(d->comp == opts.comp && d->comp_level == opts.comp_level, "compression asked for");
    else if (NODIFF) VP_ASSERT(d->comp == DRPM_COMP_GZIP && d->comp_level == DRPM_COMP_LEVEL_DEFAULT, "default compression");
    else VP_ASSERT(d->comp == comp[TGT] && d->comp_level == level[TGT], "compression of the new package");
    if (RPMONLY) VP_ASSERT(d->head.tgt_nevr && !strcmp(d->head.tgt_nevr, nevr[TGT]), "name of the new package");
    else { USE(d->head.tgt_rpm); VP_ASSERT(d->head.tgt_rpm->which == TGT && d->head.tgt_rpm->patched, "new package, marked as delta"); }
    VP_ASSERT(d->src_nevr && !strcmp(d->src_nevr, nevr[OLD]), "name of the old package");
    VP_ASSERT(!memcmp(d->tgt_md5, md5s[TGT], 16) && d->tgt_size == full_size[TGT], "digest and size of the new package");
    VP_ASSERT(d->tgt_leadsig_len == 4 && !memcmp(d->tgt_leadsig, sig[TGT], 4), "lead and signature of the new package");
    if (NODIFF) VP_ASSERT(d->tgt_comp == DRPM_COMP_NONE, "the archive is taken as it is");
    else VP_ASSERT(d->tgt_comp == comp[TGT] && d->tgt_comp_level == level[TGT] && d->payload_fmt_off == fmt_off[TGT], "compression and payload format of the new package");
    VP_ASSERT(d->tgt_comp_param_len == 0, "no parameters");
    if (RPMONLY) {
        VP_ASSERT(d->sequence_len == 16 && !memcmp(d->sequence, seqmd5[OLD], 16), "digest of the old package");
        VP_ASSERT(d->tgt_header_len == (NODIFF ? header_size[TGT] : 3), "length of the new header");
        VP_ASSERT(d->offadj_elems_count == 0, "no adjustments");
    } else {
        VP_ASSERT(d->sequence_len == 18 && !memcmp(d->sequence, seq, 18), "sequence");
        VP_ASSERT(d->offadj_elems_count == (opts.version >= 3 ? adjn : 0), "adjustments");
        if (d->offadj_elems_count) VP_ASSERT(!memcmp(d->offadj_elems, adj, 8), "adjustments");
        VP_ASSERT(d->tgt_header_len == 0, "header not part of the difference");
    }
    if (NODIFF) {
        VP_ASSERT(diffs == 0 && d->ext_data_len == 0 && d->int_data_len == 0 && d->int_copies_count == 0 && d->ext_copies_count == 0 && d->add_data_len == 0, "nothing to copy");
    } else {
        VP_ASSERT(diffs == 1 && d->ext_copies_count == 1 && d->int_copies_count == 1 && !memcmp(d->ext_copies, xcopies, 8) && !memcmp(d->int_copies, icopies, 8), "copies found");
        VP_ASSERT(d->int_data_as_ptrs && d->int_data_len == icopies[1] && d->int_data.ptrs[0] == newp && (archn[TGT] == 0 || newp[RPMONLY ? 3 : 0] == arch[TGT][0]), "new data");
        VP_ASSERT(d->ext_data_len == (RPMONLY ? 2 + archn[OLD] : cpion), "length of the old data");
        VP_ASSERT(d->add_data_len == (opts.addblk ? 3 : 0), "add block");
        if (opts.addblk) VP_ASSERT(!memcmp(d->add_data, addb, 3), "add block");
    }
    return fails() ? DRPM_ERR_IO : DRPM_ERR_OK;
}
int write_seqfile(struct deltarpm *d, const char *name)
{
    VP_ASSERT(written == 1 && ++seqs == 1 && d->sequence && opts.seqfile && !strcmp(name, opts.seqfile), "sequence file asked for");
    return fails() ? DRPM_ERR_IO : DRPM_ERR_OK;
}

void harness(void)
{
    for (int w = 0; w < 2; w++) {
        full_size[w] = nd_u32(); header_size[w] = nd_u32(); fmt_off[w] = nd_u32(); comp[w] = nd_u16(); level[w] = nd_u16();
        nd_bytes(md5s[w], 16); nd_bytes(seqmd5[w], 16); nd_bytes(hdr[w], 3); nd_bytes(arch[w], 3); nd_bytes(sig[w], 4);
        archn[w] = FAIL ? 2 : vp_choose(0, 2);
        VP_ASSUME(full_size[w] < 0xFFFFFFFF && fmt_off[w] < 0xFFFFFFFF);
    }
    nd_bytes(cpio, 3);
    nd_bytes(seq, 20);
    nd_bytes((unsigned char *)adj, 8);
    nd_bytes((unsigned char *)xcopies, 8);
    nd_bytes((unsigned char *)icopies, 8);
    nd_bytes(addb, 3);
    cpion = FAIL ? 3 : vp_choose(1, 3);
    adjn = FAIL ? 1 : vp_choose(0, 1);
    format = FAIL ? RPM_PAYLOAD_FORMAT_CPIO : vp_choose(0, 1) ? RPM_PAYLOAD_FORMAT_CPIO : RPM_PAYLOAD_FORMAT_XAR;
    bool bad = format != RPM_PAYLOAD_FORMAT_CPIO && !NODIFF;

    /* options, or none */
    static char sf[3], a[3], b[3];
    bool none = !RPMONLY && !FAIL && vp_choose(0, 1);
    opts.rpm_only = RPMONLY;
    opts.version = 3;
    opts.comp_from_rpm = true;
    opts.comp_level = DRPM_COMP_LEVEL_DEFAULT;
    opts.addblk = true;
    opts.addblk_comp = DRPM_COMP_BZIP2;
    opts.addblk_comp_level = DRPM_COMP_LEVEL_DEFAULT;
    if (!none) {
        opts.version = FAIL ? 3 : vp_choose(1, 3);
        opts.comp_from_rpm = nd_bool();
        opts.comp = nd_u16();
        opts.comp_level = nd_u16();
        opts.addblk = vp_choose(0, 1);
        opts.addblk_comp = nd_u16();
        opts.addblk_comp_level = nd_u16();
        if (FAIL || vp_choose(0, 1)) { sf[0] = 's'; sf[1] = nd_u8(); opts.seqfile = sf; }
        if (FAIL || vp_choose(0, 1)) { a[0] = 'a'; a[1] = nd_u8(); b[0] = 'b'; b[1] = nd_u8(); opts.oldrpmprint = a; opts.oldpatchrpm = b; }
        other_patches = opts.oldrpmprint && !RPMONLY && !FAIL && vp_choose(0, 1);
        if (other_patches) bad = true;
    }
    bool refused = RPMONLY && opts.version < 3;
    int args = FAIL ? 0 : vp_choose(0, 2);      /* no delta, no package */
    bool second = ALONE && vp_choose(0, 1);
#if FAIL
    vp_oom = true;
#endif
    int e = drpm_make(args == 2 || second ? NULL : fn[OLD], args == 2 ? NULL : second ? fn[OLD] : ALONE ? NULL : fn[NEW], args == 1 ? NULL : out, none ? NULL : &opts);
    vp_oom = false;
    VP_ASSERT(!lives[OLD] && !lives[NEW], "packages released");
    VP_ASSERT(!patches_live, "patches released");
    VP_ASSERT(vp_live == 0, "nothing left");
    if (args || refused) VP_ASSERT(e == DRPM_ERR_ARGS && calls == 0 && !written, "unsuitable arguments are refused");
    else if (bad) VP_ASSERT(e != DRPM_ERR_OK && !written, "unsuitable packages are refused");
    else if (failed || vp_oom_hit) VP_ASSERT(e != DRPM_ERR_OK, "failures are reported");
    else {
        VP_ASSERT(e == DRPM_ERR_OK && written == 1, "a delta is written");
        VP_ASSERT(seqs == (opts.seqfile != NULL), "sequence file if asked for");
        VP_REACH("made");
    }
}
