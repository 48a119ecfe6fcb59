/* H01: replacing, building and patching signature and header. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#ifndef FAIL
#define FAIL 0
#endif
static bool may_fail;
#define RPM_FAIL (FAIL && may_fail)
#include "rpm_env.h"
#include "drpm_rpm.c"
extern bool vp_oom_hit;

static long td_live;
rpmtd rpmtdNew(void) { rpmtd t = rpm_alloc(sizeof *t); memset(t, 0, sizeof *t); t->ix = -1; td_live++; return t; }
rpmtd rpmtdFree(rpmtd t) { if (t) { td_live--; free(t); } return NULL; }
static long data_live;
void rpmtdFreeData(rpmtd t)
{
    if (t->flags & RPMTD_ALLOCED) { data_live--; free(t->data); }
    memset(t, 0, sizeof *t);
    t->ix = -1;
}

/* entries; a header with a region also has it under the region's tag */
static Header import_of;
int headerGet(Header h, rpmTagVal tag, rpmtd td, headerGetFlags f)
{
    VP_ASSERT(h && h->refs > 0, "header in use");
    memset(td, 0, sizeof *td);
    td->ix = -1;
    td->tag = tag;
    if (tag == RPMTAG_HEADERIMMUTABLE) {
        if (h->region != tag) return 0;
        td->type = RPM_BIN_TYPE;
        td->count = h->size;
        td->data = rpm_alloc(h->size);
        memcpy(td->data, h->blob, h->size);
        td->flags = RPMTD_ALLOCED;
        data_live++;
        import_of = headerLink(h);
        return 1;
    }
    for (unsigned i = 0; i < h->ents; i++)
        if (h->ent[i].tag == tag) {
            td->type = h->ent[i].type;
            td->count = h->ent[i].count;
            td->data = h->ent[i].data;
            if (f == HEADERGET_DEFAULT || f & HEADERGET_ALLOC) { td->data = rpm_alloc(16); memcpy(td->data, h->ent[i].data, 16); td->flags = RPMTD_ALLOCED; data_live++; }
            return 1;
        }
    return 0;
}
static unsigned size_of(rpm_tagtype_t t, rpm_count_t n, const void *d)
{
    return t == RPM_INT32_TYPE ? 4 * n : t == RPM_STRING_TYPE ? strlen(d) + 1 : n;
}
int headerPut(Header h, rpmtd td, headerPutFlags f)
{
    VP_ASSERT(h && h->refs > 0 && h->region == 0 && h->ents < 4, "entries added to a loose header");
    unsigned n = size_of(td->type, td->count, td->data);
    VP_ASSERT(n <= 16, "room");
    memcpy(h->ent[h->ents].data, td->data, n);
    h->ent[h->ents].tag = td->tag;
    h->ent[h->ents].type = td->type;
    h->ent[h->ents++].count = td->count;
    return 1;
}
int headerPutString(Header h, rpmTagVal tag, const char *v)
{
    if (rpm_fails()) return 0;
    struct rpmtd_s td = { .tag = tag, .type = RPM_STRING_TYPE, .count = 1, .data = (void *)v };
    return headerPut(h, &td, HEADERPUT_DEFAULT);
}
int headerDel(Header h, rpmTagVal tag)
{
    VP_ASSERT(h && h->refs > 0, "header in use");
    for (unsigned i = 0; i < h->ents; i++)
        if (h->ent[i].tag == tag) {
            for (unsigned k = i + 1; k < h->ents; k++) h->ent[k - 1] = h->ent[k];
            h->ents--;
            return 0;
        }
    return 1;
}
Header headerReload(Header h, rpmTagVal tag)
{
    VP_ASSERT(h && h->refs == 1, "header in use");
    Header n = hdr_make(h->blob, h->size);
    memcpy(n->ent, h->ent, sizeof n->ent);
    n->ents = h->ents;
    n->region = tag;
    headerFree(h);
    return n;
}
struct headerIterator_s { Header h; unsigned i; };
static int iter_live;
HeaderIterator headerInitIterator(Header h)
{
    if (!h) return NULL;
    HeaderIterator i = rpm_alloc(sizeof *i);
    i->h = headerLink(h);
    i->i = 0;
    iter_live++;
    return i;
}
HeaderIterator headerFreeIterator(HeaderIterator i) { if (i) { headerFree(i->h); free(i); iter_live--; } return NULL; }
int headerNext(HeaderIterator i, rpmtd td)
{
    if (!i) return 0;
    memset(td, 0, sizeof *td);
    td->ix = -1;
    if (i->i >= i->h->ents) return 0;
    td->tag = i->h->ent[i->i].tag;
    td->type = i->h->ent[i->i].type;
    td->count = i->h->ent[i->i].count;
    td->data = i->h->ent[i->i++].data;
    return 1;
}

/* librpm takes the length of what it imports from its first bytes when it is not told */
static const unsigned char *imp;
static size_t imp_avail;
Header headerImport(void *b, unsigned int n, headerImportFlags f)
{
    const unsigned char *p = b;
    VP_ASSERT(f == HEADERIMPORT_COPY, "copied");
    if (import_of) {            /* a region taken from a header: its entries come with it */
        Header h = import_of;
        import_of = NULL;
        VP_ASSERT(n == 0 || n == h->size, "as long as it is");
        for (unsigned i = 0; i < h->size; i++) VP_ASSERT(p[i] == h->blob[i], "the region of the header");
        return h;
    }
    VP_ASSERT(p == imp, "imported from the text given");
    if (n) VP_ASSERT(n <= imp_avail, "import stays inside what was given");
    uint32_t il = (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3], dl = (uint32_t)p[4] << 24 | p[5] << 16 | p[6] << 8 | p[7];
    if (il > 0xffff || dl > 0x0fffffff) return NULL;
    uint64_t all = 8 + 16 * (uint64_t)il + dl;
    if (n && all != n) return NULL;
    VP_ASSERT(all <= imp_avail, "import stays inside what was given");
    if (nd_bool()) return NULL;
    return hdr_make(p, all);
}

static void nothing_left(void)
{
    if (import_of) { headerFree(import_of); import_of = NULL; }
    VP_ASSERT(td_live == 0 && data_live == 0 && iter_live == 0, "data of librpm is released");
    VP_ASSERT(vp_live == 0 && hdr_live == 0, "memory and headers are released");
}
static struct rpm *package(void)
{
    struct rpm *r = malloc(sizeof *r);
    rpm_init(r);
    return r;
}

void harness(void)
{
    struct rpm *r = package();
    int e;
#if WHAT == 0       /* replacing lead and signature */
    static unsigned char was[96];
    nd_bytes(was, 96);
    memcpy(r->lead, was, 96);
    r->signature = hdr_make(NULL, 16);
    size_t n = vp_choose(0, 1) ? vp_choose(110, 113) : vp_choose(126, 134);
    unsigned char *ls = malloc(n);
    nd_bytes(ls, n);
    imp = ls + 104;
    imp_avail = n < 104 ? 0 : n - 104;
    e = rpm_replace_lead_and_signature(r, ls, n);
    bool magic = n >= 112 && !memcmp(ls + 96, rpm_header_magic, 4);
    uint64_t il = n >= 112 ? parse_be32(ls + 104) : 0, dl = n >= 112 ? parse_be32(ls + 108) : 0;
    if (e == DRPM_ERR_OK) {
        VP_ASSERT(n >= 112 && magic && 8 + 16 * il + dl <= n - 104, "what is too short or inconsistent is refused");
        VP_ASSERT(!memcmp(r->lead, ls, 96), "lead replaced");
        VP_ASSERT(r->signature->size == 8 + 16 * il + dl && !memcmp(r->signature->blob, ls + 104, r->signature->size), "signature replaced");
        VP_REACH("replaced");
    } else if (n < 112) VP_ASSERT(e == DRPM_ERR_PROG, "too short");
    else VP_ASSERT(e == DRPM_ERR_FORMAT, "inconsistent");
    free(ls);
#elif WHAT == 1     /* where the payload format is recorded */
    unsigned il = vp_choose(0, 3), dl = vp_choose(0, 5);
    unsigned char blob[8 + 3 * 16 + 5];
    size_t n = 8 + 16 * il + dl;
    nd_bytes(blob, n);
    bool honest = vp_choose(0, 1);
    if (honest) { create_be32(il, blob); create_be32(dl, blob + 4); }
    r->header = hdr_make(blob, n);
    uint32_t off = 12345;
    may_fail = vp_oom = FAIL;
    e = rpm_find_payload_format_offset(r, &off);
    may_fail = vp_oom = false;
    int found = -1;
    for (unsigned i = 0; i < 3 && found < 0; i++)
        if (i < parse_be32(blob) && 8 + 16 * (i + 1) <= n && parse_be32(blob + 8 + 16 * i) == RPMTAG_PAYLOADFORMAT) found = i;
    if (e == DRPM_ERR_OK) {
        VP_ASSERT(found >= 0 && off == parse_be32(blob + 8 + 16 * found + 8), "offset of the payload format");
        VP_REACH("found");
    } else {
        VP_ASSERT(e == DRPM_ERR_FORMAT ? found < 0 : rpm_failed || vp_oom_hit, "missing payload format is wrong format");
    }
#elif WHAT == 2     /* a signature with size and digest */
    uint32_t sz = nd_u32();
    unsigned char d[16], got[16];
    bool has = false, md5 = vp_choose(0, 1), size = vp_choose(0, 1);
    nd_bytes(d, 16);
    r->signature = hdr_make(NULL, 16);
    VP_ASSERT(rpm_signature_empty(r) == DRPM_ERR_OK && r->signature->is_new && r->signature->ents == 0, "empty signature");
    if (size) VP_ASSERT(rpm_signature_set_size(r, sz) == DRPM_ERR_OK, "size set");
    if (md5) VP_ASSERT(rpm_signature_set_md5(r, d) == DRPM_ERR_OK, "digest set");
    VP_ASSERT(rpm_signature_reload(r) == DRPM_ERR_OK && r->signature->region == RPMTAG_HEADERSIGNATURES, "reloaded as a signature");
    VP_ASSERT(r->signature->ents == md5 + size, "nothing but what was set");
    for (unsigned i = 0; i < r->signature->ents; i++) {
        if (r->signature->ent[i].tag == RPMSIGTAG_SIZE)
            VP_ASSERT(size && r->signature->ent[i].type == RPM_INT32_TYPE && r->signature->ent[i].count == 1 && !memcmp(r->signature->ent[i].data, &sz, 4), "size");
        else
            VP_ASSERT(md5 && r->signature->ent[i].tag == RPMSIGTAG_MD5 && r->signature->ent[i].type == RPM_BIN_TYPE && r->signature->ent[i].count == 16
                      && !memcmp(r->signature->ent[i].data, d, 16), "digest");
    }
    if (md5 && vp_choose(0, 1)) r->signature->ent[size].count = nd_u32();
    unsigned cnt = md5 ? r->signature->ent[size].count : 16;
    e = rpm_signature_get_md5(r, got, &has);
    VP_ASSERT((e == DRPM_ERR_OK) == (cnt == 16), "a digest of another length is refused");
    if (e == DRPM_ERR_OK) {
        VP_ASSERT(has == md5 && (!md5 || !memcmp(got, d, 16)), "digest of the signature");
        VP_REACH("digest");
    }
#else               /* another payload format */
    r->header = hdr_make(NULL, 16);
    nd_bytes(r->header->blob, 16);
    unsigned n = vp_choose(0, 3), fmt = vp_choose(0, 3);
    bool region = vp_choose(0, 1);
    r->header->region = region ? RPMTAG_HEADERIMMUTABLE : 0;
    r->header->ents = n;
    static unsigned char data[3][16];
    for (unsigned i = 0; i < n; i++) {
        r->header->ent[i].tag = i == fmt ? RPMTAG_PAYLOADFORMAT : 5000 + i;
        r->header->ent[i].type = i == fmt ? RPM_STRING_TYPE : RPM_BIN_TYPE;
        r->header->ent[i].count = i == fmt ? 1 : 16;
        nd_bytes(data[i], 16);
        if (i == fmt) memcpy(data[i], "cpio", 5);
        memcpy(r->header->ent[i].data, data[i], 16);
    }
    may_fail = FAIL;
    e = rpm_patch_payload_format(r, "drpm");
    may_fail = false;
    if (e == DRPM_ERR_OK) {
        VP_ASSERT(fmt < n && !rpm_failed, "there is a format to be replaced");
        VP_ASSERT(r->header->region == RPMTAG_HEADERIMMUTABLE && r->header->ents == n, "as many entries, reloaded");
        for (unsigned i = 0; i < n; i++) {
            unsigned k = i < fmt ? i : i + 1 < n ? i + 1 : fmt;
            VP_ASSERT(r->header->ent[i].tag == (k == fmt ? RPMTAG_PAYLOADFORMAT : 5000 + k), "same entries");
            if (k == fmt) VP_ASSERT(r->header->ent[i].type == RPM_STRING_TYPE && !strcmp((char *)r->header->ent[i].data, "drpm"), "new format");
            else VP_ASSERT(r->header->ent[i].count == 16 && !memcmp(r->header->ent[i].data, data[k], 16), "other entries unchanged");
        }
        VP_REACH("patched");
    } else
        VP_ASSERT(fmt >= n || rpm_failed, "the format is replaced");
#endif
    rpm_destroy(&r);
    nothing_left();
}
