/* delta creation options against a reference model, for any sequence of calls */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#include <limits.h>

#ifndef CALLS
#define CALLS 3
#endif
#define L 2

struct ref { bool rpm_only, from_rpm, addblk; unsigned version, comp, level, acomp, alevel, mb; char seq[L + 1], rp[L + 1], pp[L + 1]; bool hseq, hpat; };

static void check(const struct drpm_make_options *o, const struct ref *r)
{
    VP_ASSERT(o->rpm_only == r->rpm_only && o->version == r->version && o->comp_from_rpm == r->from_rpm, "type, version, compression source");
    VP_ASSERT(r->from_rpm || (o->comp == r->comp && o->comp_level == r->level), "delta compression");
    VP_ASSERT(o->addblk == r->addblk && o->addblk_comp == r->acomp && o->addblk_comp_level == r->alevel, "add block");
    VP_ASSERT(o->mbytes == r->mb, "memory limit");
    VP_ASSERT((o->seqfile != NULL) == r->hseq && (!r->hseq || strcmp(o->seqfile, r->seq) == 0), "sequence file");
    VP_ASSERT((o->oldrpmprint != NULL) == r->hpat || !r->hpat, "patches");
    VP_ASSERT(!r->hpat || (strcmp(o->oldrpmprint, r->rp) == 0 && strcmp(o->oldpatchrpm, r->pp) == 0), "patch files");
    VP_ASSERT(r->hpat || (o->oldrpmprint == NULL || o->oldpatchrpm == NULL), "no patch files");
}

static void defaults(struct ref *r)
{
    struct ref d = {0};
    d.version = 3; d.from_rpm = true; d.addblk = true; d.acomp = DRPM_COMP_BZIP2; d.alevel = DRPM_COMP_LEVEL_DEFAULT;
    *r = d;
}

static bool comp_ok(unsigned c)
{
    return c == DRPM_COMP_NONE || c == DRPM_COMP_GZIP || c == DRPM_COMP_BZIP2 || c == DRPM_COMP_LZMA || c == DRPM_COMP_XZ || c == DRPM_COMP_LZIP
#ifdef WITH_ZSTD
        || c == DRPM_COMP_ZSTD
#endif
        ;
}
static bool level_ok(unsigned l) { return l == DRPM_COMP_LEVEL_DEFAULT || (l >= 1 && l <= 9); }

static void str(char *s) { size_t n = nd_range(0, L); nd_bytes((unsigned char *)s, L); for (size_t i = 0; i < L; i++) { if (i >= n) s[i] = 0; else VP_ASSUME(s[i] != 0); } s[L] = 0; }

/* one arbitrary call on options o with model r */
static void call(struct drpm_make_options *o, struct ref *r)
{
    char s[L + 1], t[L + 1];
    unsigned short a = nd_u16(), b = nd_u16();
    int e;
    switch (nd_range(0, 9)) {
    case 0: e = drpm_make_options_defaults(o); VP_ASSERT(e == DRPM_ERR_OK, "defaults"); defaults(r); break;
    case 1: e = drpm_make_options_set_type(o, a);
        VP_ASSERT((e == DRPM_ERR_OK) == (a == DRPM_TYPE_STANDARD || a == DRPM_TYPE_RPMONLY), "type accepted or refused");
        if (e == DRPM_ERR_OK) r->rpm_only = a == DRPM_TYPE_RPMONLY; break;
    case 2: e = drpm_make_options_set_version(o, a);
        VP_ASSERT((e == DRPM_ERR_OK) == (a >= 1 && a <= 3), "version accepted or refused");
        if (e == DRPM_ERR_OK) r->version = a; break;
    case 3: e = drpm_make_options_set_delta_comp(o, a, b);
        VP_ASSERT((e == DRPM_ERR_OK) == (comp_ok(a) && level_ok(b)), "compression accepted or refused");
        if (e == DRPM_ERR_OK) { r->comp = a; r->level = b; r->from_rpm = false; } break;
    case 4: e = drpm_make_options_get_delta_comp_from_rpm(o); VP_ASSERT(e == DRPM_ERR_OK, "compression from rpm"); r->from_rpm = true; break;
    case 5: e = drpm_make_options_forbid_addblk(o); VP_ASSERT(e == DRPM_ERR_OK, "forbid"); r->addblk = false; break;
    case 6: e = drpm_make_options_set_addblk_comp(o, a, b);
        VP_ASSERT((e == DRPM_ERR_OK) == (comp_ok(a) && level_ok(b)), "add block compression accepted or refused");
        if (e == DRPM_ERR_OK) { r->acomp = a; r->alevel = b; r->addblk = true; } break;
    case 7: str(s);
        if (nd_bool()) { e = drpm_make_options_set_seqfile(o, NULL); VP_ASSERT(e == DRPM_ERR_OK, "no sequence file"); r->hseq = false; }
        else { e = drpm_make_options_set_seqfile(o, s); VP_ASSERT(e == DRPM_ERR_OK || e == DRPM_ERR_MEMORY, "sequence file");
               if (e == DRPM_ERR_OK) { memcpy(r->seq, s, L + 1); r->hseq = true; VP_REACH("seqfile"); } }
        memset(s, '#', L); break;
    case 8: str(s); str(t);
        e = drpm_make_options_add_patches(o, s, t); VP_ASSERT(e == DRPM_ERR_OK || e == DRPM_ERR_MEMORY, "patches");
        if (e == DRPM_ERR_OK) { memcpy(r->rp, s, L + 1); memcpy(r->pp, t, L + 1); r->hpat = true; }
        memset(s, '#', L); memset(t, '#', L);
        VP_ASSERT(drpm_make_options_add_patches(o, NULL, t) == DRPM_ERR_ARGS && drpm_make_options_add_patches(o, s, NULL) == DRPM_ERR_ARGS, "half a patch pair is refused");
        break;
    default: { unsigned m = nd_u32(); e = drpm_make_options_set_memlimit(o, m); VP_ASSERT(e == DRPM_ERR_OK, "memory limit"); r->mb = m; }
    }
}

void harness(void)
{
    struct drpm_make_options *o = NULL, *p = NULL;
    struct ref r, q;
    vp_oom = OOM;
    VP_ASSERT(drpm_make_options_init(NULL) == DRPM_ERR_ARGS && drpm_make_options_destroy(NULL) == DRPM_ERR_ARGS &&
              drpm_make_options_defaults(NULL) == DRPM_ERR_ARGS && drpm_make_options_copy(NULL, NULL) == DRPM_ERR_ARGS &&
              drpm_make_options_set_type(NULL, 0) == DRPM_ERR_ARGS && drpm_make_options_set_seqfile(NULL, NULL) == DRPM_ERR_ARGS &&
              drpm_make_options_set_version(NULL, 3) == DRPM_ERR_ARGS && drpm_make_options_forbid_addblk(NULL) == DRPM_ERR_ARGS &&
              drpm_make_options_set_delta_comp(NULL, 1, 1) == DRPM_ERR_ARGS && drpm_make_options_set_addblk_comp(NULL, 1, 1) == DRPM_ERR_ARGS &&
              drpm_make_options_get_delta_comp_from_rpm(NULL) == DRPM_ERR_ARGS && drpm_make_options_set_memlimit(NULL, 1) == DRPM_ERR_ARGS, "null options are refused");
    if (drpm_make_options_init(&o) != DRPM_ERR_OK) { VP_ASSERT(vp_live == 0, "nothing left"); VP_ASSERT(OOM, "init works"); return; }
    defaults(&r);
    check(o, &r);
    VP_ASSERT(o->seqfile == NULL && o->oldrpmprint == NULL && o->oldpatchrpm == NULL, "fresh options have no files");
    for (int i = 0; i < CALLS; i++) { call(o, &r); check(o, &r); }
    VP_ASSERT(drpm_make_options_copy(o, NULL) == DRPM_ERR_ARGS && drpm_make_options_copy(NULL, o) == DRPM_ERR_ARGS, "null options are not copied");
    if (drpm_make_options_init(&p) == DRPM_ERR_OK) {
        defaults(&q);
        call(p, &q);
        check(p, &q);
        int e = drpm_make_options_copy(p, o);
        VP_ASSERT(e == DRPM_ERR_OK || e == DRPM_ERR_MEMORY, "copy");
        VP_ASSERT(OOM || e == DRPM_ERR_OK, "copying works");
        if (e == DRPM_ERR_OK) {
            check(p, &r);
            VP_REACH("copied");
            VP_ASSERT((!p->seqfile || p->seqfile != o->seqfile) && (!p->oldrpmprint || p->oldrpmprint != o->oldrpmprint) && (!p->oldpatchrpm || p->oldpatchrpm != o->oldpatchrpm), "the copy is independent");
        }
        check(o, &r);
        VP_ASSERT(drpm_make_options_destroy(&p) == DRPM_ERR_OK && p == NULL, "destroyed");
    }
    VP_ASSERT(drpm_make_options_destroy(&o) == DRPM_ERR_OK && o == NULL, "destroyed");
    VP_ASSERT(vp_live == 0, "everything is released");
    VP_REACH("end");
}
