/* H02: attributes of a package are what its header says. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#ifndef FAIL
#define FAIL 0
#endif
static bool may_fail;
#define RPM_FAIL (FAIL && may_fail)
#include "rpm_env.h"
#include "drpm_rpm.c"
extern bool vp_oom_hit;

static long td_live, data_live;
rpmtd rpmtdNew(void) { rpmtd t = rpm_alloc(sizeof *t); memset(t, 0, sizeof *t); t->ix = -1; td_live++; return t; }
rpmtd rpmtdFree(rpmtd t) { if (t) { td_live--; free(t); } return NULL; }
void rpmtdFreeData(rpmtd t)
{
    if (t->flags & RPMTD_ALLOCED) { data_live--; free(t->data); }
    memset(t, 0, sizeof *t);
    t->ix = -1;
}
rpm_count_t rpmtdCount(rpmtd t) { return t->count; }
int rpmtdNext(rpmtd t)
{
    if (++t->ix < (int)t->count) return t->ix;
    t->ix = t->count;
    return -1;
}
#define OF(t) ((t)->ix >= 0 ? (t)->ix : 0)
uint32_t *rpmtdGetUint32(rpmtd t) { return t->type == RPM_INT32_TYPE && t->data ? (uint32_t *)t->data + OF(t) : NULL; }
uint16_t *rpmtdGetUint16(rpmtd t) { return t->type == RPM_INT16_TYPE && t->data ? (uint16_t *)t->data + OF(t) : NULL; }
const char *rpmtdGetString(rpmtd t) { return t->type == RPM_STRING_ARRAY_TYPE && t->data ? ((const char **)t->data)[OF(t)] : NULL; }
uint32_t *rpmtdNextUint32(rpmtd t) { return rpmtdNext(t) >= 0 ? rpmtdGetUint32(t) : NULL; }
const char *rpmtdNextString(rpmtd t) { return rpmtdNext(t) >= 0 ? rpmtdGetString(t) : NULL; }

/* what the header has */
#define N 2
static char names[N][4], md5s[N][4], links[N][4], text[8], nevr_text[] = "n-1-2";
static const char *names_p[N], *md5s_p[N], *links_p[N];
static uint32_t flags[N], sizes[N], verify[N], colors[N], algo[1];
static uint16_t rdevs[N], modes[N];
static struct { rpmTagVal tag; rpm_tagtype_t type; const void *data; rpm_count_t count; bool has; } tags[] = {
    { RPMTAG_FILENAMES, RPM_STRING_ARRAY_TYPE, names_p }, { RPMTAG_FILEFLAGS, RPM_INT32_TYPE, flags },
    { RPMTAG_FILEMD5S, RPM_STRING_ARRAY_TYPE, md5s_p }, { RPMTAG_FILERDEVS, RPM_INT16_TYPE, rdevs },
    { RPMTAG_FILESIZES, RPM_INT32_TYPE, sizes }, { RPMTAG_FILEMODES, RPM_INT16_TYPE, modes },
    { RPMTAG_FILEVERIFYFLAGS, RPM_INT32_TYPE, verify }, { RPMTAG_FILELINKTOS, RPM_STRING_ARRAY_TYPE, links_p },
    { RPMTAG_FILECOLORS, RPM_INT32_TYPE, colors }, { RPMTAG_FILEDIGESTALGO, RPM_INT32_TYPE, algo } };
#define TAGS (sizeof tags / sizeof *tags)
static rpmTagVal text_tag;
static bool has_text;
int headerGet(Header h, rpmTagVal tag, rpmtd td, headerGetFlags f)
{
    VP_ASSERT(h && h->refs > 0, "header in use");
    memset(td, 0, sizeof *td);
    td->ix = -1;
    for (unsigned i = 0; i < TAGS; i++)
        if (tags[i].tag == tag && tags[i].has) {
            td->tag = tag;
            td->type = tags[i].type;
            td->count = tags[i].count;
            size_t el = td->type == RPM_INT32_TYPE ? 4 : td->type == RPM_INT16_TYPE ? 2 : sizeof(char *);
            /* with MINMEM integers may point into the header */
            if (td->type == RPM_STRING_ARRAY_TYPE || !(f & HEADERGET_MINMEM)) {
                td->data = rpm_alloc(N * el);
                memcpy(td->data, tags[i].data, N * el);
                td->flags = RPMTD_ALLOCED;
                data_live++;
            } else td->data = (void *)tags[i].data;
            return 1;
        }
    return 0;
}
const char *headerGetString(Header h, rpmTagVal tag)
{
    VP_ASSERT(h && h->refs > 0 && tag == text_tag, "attribute asked for");
    return has_text ? text : NULL;
}
char *headerGetAsString(Header h, rpmTagVal tag)
{
    VP_ASSERT(h && h->refs > 0 && tag == RPMTAG_NEVR, "attribute asked for");
    if (rpm_fails()) return NULL;
    char *p = rpm_alloc(sizeof nevr_text);
    memcpy(p, nevr_text, sizeof nevr_text);
    return p;
}

/* the database: its iterator owns the headers it delivers */
static int ts_live, it_live;
static Header db_header;
static bool in_db;
static char want[4][8];
static bool has_epoch;
static int asked;
int rpmReadConfigFiles(const char *a, const char *b) { (void)a; (void)b; return 0; }
rpmts rpmtsCreate(void) { ts_live++; return (rpmts)&ts_live; }
rpmts rpmtsFree(rpmts t) { if (t) { VP_ASSERT(ts_live == 1, "transaction set released once"); ts_live--; } return NULL; }
rpmdbMatchIterator rpmtsInitIterator(const rpmts t, rpmDbiTagVal tag, const void *k, size_t n)
{
    VP_ASSERT(ts_live == 1 && tag == RPMDBI_NAME && n == 0 && !strcmp(k, want[0]), "looked up by name");
    if (rpm_fails()) return NULL;
    it_live++;
    return (rpmdbMatchIterator)&it_live;
}
int rpmdbSetIteratorRE(rpmdbMatchIterator i, rpmTagVal tag, rpmMireMode m, const char *p)
{
    if (!i || !p) return 0;         /* no pattern: not restricted */
    VP_ASSERT(m == RPMMIRE_STRCMP, "exact");
    int k = tag == RPMTAG_EPOCH ? 1 : tag == RPMTAG_VERSION ? 2 : 3;
    VP_ASSERT(tag == RPMTAG_EPOCH || tag == RPMTAG_VERSION || tag == RPMTAG_RELEASE, "epoch, version or release");
    VP_ASSERT(!strcmp(p, want[k]), "restricted to what the name says");
    asked |= 1 << k;
    return 0;
}
Header rpmdbNextIterator(rpmdbMatchIterator i) { return i && in_db ? db_header : NULL; }
rpmdbMatchIterator rpmdbFreeIterator(rpmdbMatchIterator i)
{
    if (i) {
        VP_ASSERT(it_live == 1, "iterator released once");
        it_live--;
        headerFree(db_header);
        db_header = NULL;
    }
    return NULL;
}
Header headerImport(void *b, unsigned int n, headerImportFlags f)
{
    VP_ASSERT(f == HEADERIMPORT_COPY && n == 0, "copied");
    if (rpm_fails()) return NULL;
    return hdr_make(b, 20);
}

static void sym_text(char *s, size_t max)
{
    size_t n = vp_choose(0, max);
    for (size_t i = 0; i < n; i++) { s[i] = nd_u8(); VP_ASSUME(s[i] != 0); }
    s[n] = 0;
}

void harness(void)
{
    struct rpm *r = NULL;
    int e;
#if WHAT < 6
    r = malloc(sizeof *r);
    rpm_init(r);
    r->header = hdr_make(NULL, 16);
    unsigned short v = 7777;
#endif
#if WHAT == 0       /* compression */
    static const char *const cn[] = { "gzip", "bzip2", "lzip", "lzma", "xz", "zstd", "lz", "xzz", "", "GZIP" };
    static const unsigned short cv[] = { DRPM_COMP_GZIP, DRPM_COMP_BZIP2, DRPM_COMP_LZIP, DRPM_COMP_LZMA, DRPM_COMP_XZ, DRPM_COMP_ZSTD };
    text_tag = RPMTAG_PAYLOADCOMPRESSOR;
    has_text = vp_choose(0, 1);
    int k = vp_choose(0, 10);
    if (k < 10) strcpy(text, cn[k]); else sym_text(text, 6);
    e = rpm_get_comp(r, &v);
    int is = -1;
    for (int i = 0; i < 6; i++) if (!strcmp(text, cn[i])) is = i;
    VP_ASSERT(e == (has_text && is >= 0 ? DRPM_ERR_OK : DRPM_ERR_FORMAT), "known compressors only");
    if (e == DRPM_ERR_OK) { VP_ASSERT(v == cv[is], "compressor named in the header"); VP_REACH("known"); }
#elif WHAT == 1     /* level */
    text_tag = RPMTAG_PAYLOADFLAGS;
    has_text = vp_choose(0, 1);
    sym_text(text, 4);
    e = rpm_get_comp_level(r, &v);
    size_t n = strlen(text);
    if (!has_text || n > 2) VP_ASSERT(e == DRPM_ERR_FORMAT, "no level of more than two digits");
    bool d0 = n > 0 && text[0] >= '0' && text[0] <= '9', d1 = n == 2 && text[1] >= '0' && text[1] <= '9';
    if (has_text && n <= 2 && d0 && (n == 1 || d1)) {
        VP_ASSERT(e == DRPM_ERR_OK && v == (d1 ? (text[0] - '0') * 10 + (text[1] - '0') : text[0] - '0'), "level recorded in the header");
        VP_REACH("level");
    }
    if (e == DRPM_ERR_OK) VP_ASSERT(v <= 99, "a level of at most two digits");
#elif WHAT == 2     /* digest algorithm */
    unsigned t = TAGS - 1;
    tags[t].has = vp_choose(0, 1);
    tags[t].count = vp_choose(0, 1);
    tags[t].type = vp_choose(0, 1) ? RPM_INT32_TYPE : RPM_INT16_TYPE;
    algo[0] = nd_u32();
    e = rpm_get_digest_algo(r, &v);
    if (!tags[t].has) VP_ASSERT(e == DRPM_ERR_OK && v == DIGESTALGO_MD5, "MD5 unless recorded otherwise");
    else if (tags[t].count && tags[t].type == RPM_INT32_TYPE && (algo[0] == 1 || algo[0] == 8)) {
        VP_ASSERT(e == DRPM_ERR_OK && v == (algo[0] == 1 ? DIGESTALGO_MD5 : DIGESTALGO_SHA256), "recorded algorithm");
        VP_REACH("recorded");
    } else VP_ASSERT(e == DRPM_ERR_FORMAT, "other algorithms are refused");
#elif WHAT == 3     /* payload format, kind of package, name */
    int k = vp_choose(0, 2);
    has_text = vp_choose(0, 1);
    if (k == 0) {
        static const char *const fn[] = { "drpm", "cpio", "xar", "cpi", "cpioo", "" };
        int i = vp_choose(0, 6);
        if (i < 6) strcpy(text, fn[i]); else sym_text(text, 5);
        text_tag = RPMTAG_PAYLOADFORMAT;
        e = rpm_get_payload_format(r, &v);
        int is = !strcmp(text, "drpm") ? RPM_PAYLOAD_FORMAT_DRPM : !strcmp(text, "cpio") ? RPM_PAYLOAD_FORMAT_CPIO : !strcmp(text, "xar") ? RPM_PAYLOAD_FORMAT_XAR : -1;
        VP_ASSERT((e == DRPM_ERR_OK) == (has_text && is >= 0), "known payload formats only");
        if (e == DRPM_ERR_OK) { VP_ASSERT(v == is, "payload format named in the header"); VP_REACH("format"); }
    } else if (k == 1) {
        text_tag = RPMTAG_SOURCERPM;
        VP_ASSERT(rpm_is_sourcerpm(r) == !has_text, "packages without source package are source packages");
    } else {
        char *nv = NULL;
        may_fail = FAIL;
        e = rpm_get_nevr(r, &nv);
        may_fail = false;
        VP_ASSERT(e == DRPM_ERR_OK ? nv && !strcmp(nv, nevr_text) : rpm_failed, "name of the package");
        free(nv);
    }
#elif WHAT == 4     /* file list */
    for (int i = 0; i < N; i++) {
        names_p[i] = names[i]; md5s_p[i] = md5s[i]; links_p[i] = links[i];
        for (int j = 0; j < 3; j++) { names[i][j] = nd_u8(); md5s[i][j] = nd_u8(); links[i][j] = nd_u8(); }
        flags[i] = nd_u32(); sizes[i] = nd_u32(); verify[i] = nd_u32(); colors[i] = nd_u32(); rdevs[i] = nd_u16(); modes[i] = nd_u16();
        if (FAIL) names[i][1] = md5s[i][1] = links[i][0] = 0;
    }
    rpm_count_t n = vp_choose(0, N);
    int odd = FAIL ? -1 : (int)vp_choose(0, TAGS - 1), how = vp_choose(0, FAIL ? 0 : 3);
    for (unsigned i = 0; i < TAGS - 1; i++) { tags[i].has = true; tags[i].count = n; }
    if (odd == TAGS - 1) odd = -1;
    else if (odd >= 0) {
        if (how == 0) tags[odd].has = false;
        else if (how == 1) tags[odd].count = (n + 1) % (N + 1);
        else if (how == 2) tags[odd].type = tags[odd].type == RPM_INT32_TYPE ? RPM_INT16_TYPE : RPM_INT32_TYPE;
        else odd = -1;
    }
    struct file_info *f = NULL;
    size_t fn = 77;
    bool col = false, want_col = vp_choose(0, 1);
    vp_oom = FAIL;
    e = rpm_get_file_info(r, &f, &fn, want_col ? &col : NULL);
    vp_oom = false;
    bool none = odd >= 0 && odd < 8 && how == 0, wrong = odd >= 0 && how > 0 && (odd < 8 || want_col) && (how == 1 || n > 0);
    if (e != DRPM_ERR_OK) {
        VP_ASSERT(vp_oom_hit ? e == DRPM_ERR_MEMORY : wrong && e == DRPM_ERR_FORMAT, "only inconsistent lists are refused");
        f = NULL;
    } else if (none) {
        VP_ASSERT(fn == 0 && f == NULL, "a package without files");
    } else {
        VP_ASSERT(!wrong && !vp_oom_hit && fn == n, "as many files as listed");
        if (want_col) VP_ASSERT(col == tags[8].has, "whether there are colors");
        for (size_t i = 0; i < n; i++) {
            VP_ASSERT(!strcmp(f[i].name, names[i]) && !strcmp(f[i].md5, md5s[i]) && !strcmp(f[i].linkto, links[i]), "name, digest and link target");
            VP_ASSERT(f[i].flags == flags[i] && f[i].size == sizes[i] && f[i].verify == verify[i] && f[i].rdev == rdevs[i] && f[i].mode == modes[i], "attributes");
            VP_ASSERT(f[i].color == (want_col && col ? colors[i] : 0), "color");
            free(f[i].name); free(f[i].md5); free(f[i].linkto);
        }
        if (n == 2) VP_REACH("two files");
        free(f);
    }
#elif WHAT == 6     /* installed package by name */
    static char text_in[10];
    size_t n = vp_choose(0, 9);
    static const char set[] = "-:a1";
    for (size_t i = 0; i < n; i++) text_in[i] = FAIL ? "nn-2-3:4-5"[i] : set[vp_choose(0, 2)];
    text_in[n] = 0;
    /* name - [epoch :] version - release, split at the last dashes and the last colon before the release */
    static char s[10];
    strcpy(s, text_in);
    bool ok = true;
    char *rel = strrchr(s, '-'), *ver = NULL, *ep = NULL;
    if (!rel || rel == s) ok = false;
    if (ok) {
        *rel++ = 0;
        ver = strrchr(s, ':');
        if (ver == s) ok = false;
        else if (ver) {
            *ver++ = 0;
            ep = strrchr(s, '-');
            if (!ep || ep == s) ok = false;
            else { *ep++ = 0; has_epoch = true; }
        } else {
            ver = strrchr(s, '-');
            if (!ver || ver == s) ok = false;
            else *ver++ = 0;
        }
    }
    if (ok) { strncpy(want[0], s, 7); strncpy(want[2], ver, 7); strncpy(want[3], rel, 7); if (ep) strncpy(want[1], ep, 7); }
    unsigned char blob[20];
    nd_bytes(blob, 20);
    db_header = hdr_make(blob, 20);
    in_db = vp_choose(0, 1);
    vp_oom = may_fail = FAIL;
    e = rpm_read_header(&r, text_in, NULL);
    vp_oom = may_fail = false;
    if (e == DRPM_ERR_OK) {
        VP_ASSERT(ok && in_db && r, "an installed package");
        VP_ASSERT(asked == (4 | 8 | (has_epoch ? 2 : 0)), "by epoch, version and release");
        VP_ASSERT(r->header && r->header->refs == 1 && !memcmp(r->header->blob + 8 - 8, blob, 20), "its header");
        VP_ASSERT(!r->signature && !r->archive && r->archive_size == 0, "nothing but the header");
        VP_REACH("found");
        VP_ASSERT(rpm_destroy(&r) == DRPM_ERR_OK, "released");
    } else {
        VP_ASSERT(r == NULL, "nothing delivered");
        VP_ASSERT(!ok ? e == DRPM_ERR_FORMAT || vp_oom_hit : !in_db || rpm_failed || vp_oom_hit, "what is installed is found");
        if (ok && !in_db && !rpm_failed && !vp_oom_hit) VP_ASSERT(e == DRPM_ERR_NOINSTALL, "not installed");
    }
    if (db_header) headerFree(db_header);
    db_header = NULL;
    VP_ASSERT(ts_live == 0 && it_live == 0, "database released");
#endif
    if (r) rpm_destroy(&r);
    VP_ASSERT(td_live == 0 && data_live == 0, "data of librpm is released");
    VP_ASSERT(vp_live == 0 && hdr_live == 0, "memory and headers are released");
}
