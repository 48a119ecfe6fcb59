/* deltarpm_to_drpm and every query function, on arbitrary delta contents.
 * Real code: drpm.c (queries), drpm_read.c (conversion), drpm_utils.c. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"

struct rpm { int x; };
static struct rpm the_rpm;
static char tgt[4];
static long extra;
void *vp_malloc(size_t);
int rpm_get_nevr(struct rpm *r, char **n)
{
    VP_ASSERT(r == &the_rpm, "name of the target package");
    if (OOM && nd_bool()) return DRPM_ERR_MEMORY;
    *n = vp_malloc(4);
    if (*n == NULL) return DRPM_ERR_MEMORY;
    memcpy(*n, tgt, 4);
    return DRPM_ERR_OK;
}

/* Lengths are fixed per variant (LEN), contents are symbolic. strlen/strcpy of
 * texts whose length the harness knows return it after checking that it is right. */
static const char *known[12];
static size_t known_len[12], nknown;
static void know(const char *s, size_t n) { known[nknown] = s; known_len[nknown++] = n; }
size_t vp_strlen(const char *s)
{
    size_t n = 0;
    for (size_t i = 0; i < nknown; i++)
        if (s == known[i]) {
            for (size_t k = 0; k < known_len[i]; k++) VP_ASSERT(s[k] != 0, "text has no early end");
            VP_ASSERT(s[known_len[i]] == 0, "text ends");
            return known_len[i];
        }
    while (s[n]) n++;
    return n;
}
char *vp_strcpy(char *d, const char *s)
{
    size_t n = vp_strlen(s);
    for (size_t i = 0; i <= n; i++) d[i] = s[i];
    return d;
}
static bool same(const char *a, const char *b, size_t n)
{
    bool ok = true;
    for (size_t i = 0; i <= n; i++) if (a[i] != b[i]) ok = false;
    return ok;
}

static void str(char *s, size_t n)      /* any text of n characters */
{
    for (size_t i = 0; i < n; i++) { s[i] = nd_u8(); VP_ASSUME(s[i] != 0); }
    s[n] = 0;
    know(s, n);
}

#define N 3

static char hexd(unsigned v) { return v < 10 ? '0' + v : 'a' + v - 10; }

static void check_hex(const char *s, const unsigned char *b, size_t n, const char *what)
{
    (void)what;
    VP_ASSERT(s != NULL, "text present");
    for (size_t i = 0; i < n; i++)
        VP_ASSERT(s[2 * i] == hexd(b[i] >> 4) && s[2 * i + 1] == hexd(b[i] & 15), "lower case hexadecimal");
    VP_ASSERT(s[2 * n] == 0, "text ends");
}

void harness(void)
{
    struct deltarpm d = {0};
    struct drpm r;
    char fn[N + 1], src[N + 1], nevr[N + 1];
    unsigned char seq[18], lead[N], par[N];
    uint32_t adj[4], ic[4], ec[4];
    str(fn, LEN); str(src, LEN); str(nevr, LEN); str(tgt, 3);
    d.filename = fn; d.src_nevr = src;
    d.type = RPMONLY ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
    if (d.type == DRPM_TYPE_RPMONLY) d.head.tgt_nevr = nevr; else d.head.tgt_rpm = &the_rpm;
    d.comp = nd_u16(); d.version = nd_u16();
    nd_bytes(seq, 18); d.sequence = seq; d.sequence_len = 16 + LEN % 3;
    nd_bytes(d.tgt_md5, 16);
    d.tgt_size = nd_u32(); d.tgt_comp = nd_u16(); d.tgt_header_len = nd_u32(); d.payload_fmt_off = nd_u32();
    d.ext_data_len = nd_u64(); d.int_data_len = nd_u64();
    nd_bytes(lead, N); d.tgt_leadsig = lead; d.tgt_leadsig_len = LEN ? LEN : 1;
    nd_bytes(par, N); d.tgt_comp_param_len = LEN; d.tgt_comp_param = d.tgt_comp_param_len ? par : NULL;
    for (int i = 0; i < 4; i++) { adj[i] = nd_u32(); ic[i] = nd_u32(); ec[i] = nd_u32(); }
    d.offadj_elems_count = (LEN + 0) % 3; d.offadj_elems = adj;
    d.int_copies_count = (LEN + 1) % 3; d.int_copies = ic;
    d.ext_copies_count = (LEN + 2) % 3; d.ext_copies = ec;

    vp_oom = OOM;
    int err = deltarpm_to_drpm(&d, &r);
    if (err != DRPM_ERR_OK) {
        VP_ASSERT(err == DRPM_ERR_MEMORY && vp_live == 0, "nothing is left after a failed conversion");
#if OOM
        VP_REACH("failed");
#endif
        return;
    }
    vp_oom = false;
#if OOM   /* the queries are decided by the variants without failing allocations */
    VP_REACH("converted");
    drpm_free(&r);
    VP_ASSERT(vp_live == 0, "everything converted is released");
#else
    /* an independent copy: later changes of the source have no effect */
    uint32_t want_adj[4], want_ic[4], want_ec[4];
    memcpy(want_adj, adj, 16); memcpy(want_ic, ic, 16); memcpy(want_ec, ec, 16);
    for (int i = 0; i < 4; i++) adj[i] = ic[i] = ec[i] = 0;

    if (r.sequence) know(r.sequence, 2 * d.sequence_len);
    know(r.tgt_md5, 32);
    if (r.tgt_leadsig) know(r.tgt_leadsig, 2 * d.tgt_leadsig_len);
    if (d.tgt_comp_param_len) know(r.tgt_comp_param, 2 * d.tgt_comp_param_len);
    know(r.filename, LEN); know(r.src_nevr, LEN); know(r.tgt_nevr, d.type == DRPM_TYPE_RPMONLY ? LEN : 3);

    for (int tag = 0; tag <= 18; tag++) {
        unsigned u = 0; unsigned long ul = 0; unsigned long long ull = 0;
        uint64_t want = tag == DRPM_TAG_VERSION ? d.version : tag == DRPM_TAG_TYPE ? d.type : tag == DRPM_TAG_COMP ? d.comp : tag == DRPM_TAG_TGTSIZE ? d.tgt_size : tag == DRPM_TAG_TGTCOMP ? d.tgt_comp :
                        tag == DRPM_TAG_TGTHEADERLEN ? d.tgt_header_len : tag == DRPM_TAG_PAYLOADFMTOFF ? d.payload_fmt_off : tag == DRPM_TAG_EXTDATALEN ? d.ext_data_len : d.int_data_len;
        bool ok1 = tag == DRPM_TAG_VERSION || tag == DRPM_TAG_TYPE || tag == DRPM_TAG_COMP || tag == DRPM_TAG_TGTSIZE || tag == DRPM_TAG_TGTCOMP;
        bool ok2 = ok1 || tag == DRPM_TAG_TGTHEADERLEN || tag == DRPM_TAG_PAYLOADFMTOFF;
        bool ok3 = ok2 || tag == DRPM_TAG_EXTDATALEN || tag == DRPM_TAG_INTDATALEN;
        VP_ASSERT(drpm_get_uint(&r, tag, &u) == (ok1 ? DRPM_ERR_OK : DRPM_ERR_ARGS) && (!ok1 || u == want), "unsigned query");
        VP_ASSERT(drpm_get_ulong(&r, tag, &ul) == (ok2 ? DRPM_ERR_OK : DRPM_ERR_ARGS) && (!ok2 || ul == want), "unsigned long query");
        VP_ASSERT(drpm_get_ullong(&r, tag, &ull) == (ok3 ? DRPM_ERR_OK : DRPM_ERR_ARGS) && (!ok3 || ull == want), "unsigned long long query");

        char *s = NULL; int e = drpm_get_string(&r, tag, &s);
        bool ok = tag == DRPM_TAG_FILENAME || tag == DRPM_TAG_SEQUENCE || tag == DRPM_TAG_SRCNEVR || tag == DRPM_TAG_TGTNEVR || tag == DRPM_TAG_TGTMD5 || tag == DRPM_TAG_TGTCOMPPARAM || tag == DRPM_TAG_TGTLEAD;
        VP_ASSERT(e == (ok ? DRPM_ERR_OK : DRPM_ERR_ARGS), "string: exactly the tags of the query");
        if (ok) {
            if (tag == DRPM_TAG_FILENAME) VP_ASSERT(same(s, fn, LEN), "file name");
            else if (tag == DRPM_TAG_SRCNEVR) VP_ASSERT(same(s, src, LEN), "source name");
            else if (tag == DRPM_TAG_TGTNEVR) VP_ASSERT(d.type == DRPM_TYPE_RPMONLY ? same(s, nevr, LEN) : same(s, tgt, 3), "target name");
            else if (tag == DRPM_TAG_SEQUENCE) check_hex(s, seq, d.sequence_len, "sequence");
            else if (tag == DRPM_TAG_TGTMD5) check_hex(s, d.tgt_md5, 16, "md5");
            else if (tag == DRPM_TAG_TGTLEAD) check_hex(s, lead, d.tgt_leadsig_len, "lead");
            else if (d.tgt_comp_param_len) check_hex(s, par, d.tgt_comp_param_len, "param");
            else VP_ASSERT(s == NULL, "no parameters, no text");
            if (s) VP_ASSERT(s != r.filename && s != r.sequence && s != r.src_nevr && s != r.tgt_nevr && s != r.tgt_md5 && s != r.tgt_leadsig && s != r.tgt_comp_param, "the text is a copy");
            if (s) extra++;
        }
        unsigned long *a = NULL, n = 77;
        e = drpm_get_ulong_array(&r, tag, &a, &n);
        ok = tag == DRPM_TAG_ADJELEMS || tag == DRPM_TAG_INTCOPIES || tag == DRPM_TAG_EXTCOPIES;
        VP_ASSERT(e == (ok ? DRPM_ERR_OK : DRPM_ERR_ARGS), "array: exactly the tags of the query");
        if (ok) {
            const uint32_t *w = tag == DRPM_TAG_ADJELEMS ? want_adj : tag == DRPM_TAG_INTCOPIES ? want_ic : want_ec;
            uint32_t c = tag == DRPM_TAG_ADJELEMS ? d.offadj_elems_count : tag == DRPM_TAG_INTCOPIES ? d.int_copies_count : d.ext_copies_count;
            VP_ASSERT(n == 2 * c && (c == 0) == (a == NULL), "array: size");
            for (unsigned i = 0; i < 2 * c; i++) VP_ASSERT(a[i] == w[i], "array: elements");
            if (a) extra++;
        }
    }
    int tag = (int)nd_u32();
    VP_ASSUME(tag < 0 || tag > 18);
    unsigned u; unsigned long ul, *pul; unsigned long long ull; char *str_;
    VP_ASSERT(drpm_get_uint(&r, tag, &u) == DRPM_ERR_ARGS && drpm_get_ulong(&r, tag, &ul) == DRPM_ERR_ARGS && drpm_get_ullong(&r, tag, &ull) == DRPM_ERR_ARGS &&
              drpm_get_string(&r, tag, &str_) == DRPM_ERR_ARGS && drpm_get_ulong_array(&r, tag, &pul, &ul) == DRPM_ERR_ARGS, "unknown tags are refused");
    VP_ASSERT(drpm_get_uint(NULL, 1, &u) == DRPM_ERR_ARGS && drpm_get_uint(&r, 1, NULL) == DRPM_ERR_ARGS &&
              drpm_get_ulong(NULL, 1, &ul) == DRPM_ERR_ARGS && drpm_get_ulong(&r, 1, NULL) == DRPM_ERR_ARGS &&
              drpm_get_ullong(NULL, 1, &ull) == DRPM_ERR_ARGS && drpm_get_ullong(&r, 1, NULL) == DRPM_ERR_ARGS &&
              drpm_get_string(NULL, 4, &str_) == DRPM_ERR_ARGS && drpm_get_string(&r, 4, NULL) == DRPM_ERR_ARGS &&
              drpm_get_ulong_array(NULL, 15, &pul, &ul) == DRPM_ERR_ARGS && drpm_get_ulong_array(&r, 15, NULL, &ul) == DRPM_ERR_ARGS &&
              drpm_get_ulong_array(&r, 15, &pul, NULL) == DRPM_ERR_ARGS, "null arguments are refused");
    VP_REACH("queried");
    drpm_free(&r);
    VP_ASSERT(vp_live == extra, "everything converted is released; the caller owns only its own copies");
#endif
}
