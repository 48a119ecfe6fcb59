/* write_deltarpm followed by read_deltarpm.
 * Real code: drpm_write.c, drpm_read.c, drpm_deltarpm.c, drpm_utils.c.
 * Stubs: the (de)compressor is the identity on a byte buffer (Z01/Z02 decide
 * the streams), files are byte buffers, the package part of a standard delta
 * is a four byte stand-in starting with the package magic.
 */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"

#ifndef VERSION
#define VERSION 3
#endif
#ifndef RPMONLY
#define RPMONLY 0
#endif
#ifndef PTRS
#define PTRS 0
#endif
#define MAXIMG 420

static unsigned char img[MAXIMG];   /* the file */
static size_t img_len, img_pos;
static unsigned char strm[MAXIMG];  /* the compressed part being made */
static size_t strm_len;
static int nopen;

static void cpy(void *d, const void *s, size_t n)
{
    for (size_t i = 0; i < n; i++) ((unsigned char *)d)[i] = ((const unsigned char *)s)[i];
}

int MD5_Init(MD5_CTX *c) { (void)c; return 1; }
int MD5_Update(MD5_CTX *c, const void *p, size_t n) { (void)c; (void)p; (void)n; return 1; }
int MD5_Final(unsigned char *d, MD5_CTX *c) { (void)c; memset(d, 0, 16); return 1; }

int vp_open(const char *fn, int fl, ...) { (void)fn; (void)fl; nopen++; img_pos = 0; return 7; }
int vp_creat(const char *fn, mode_t m) { (void)fn; (void)m; nopen++; img_len = 0; return 7; }
int vp_close(int fd) { if (fd == 7) nopen--; return 0; }
off_t vp_lseek(int fd, off_t o, int w) { (void)fd; (void)w; img_pos = o; return o; }
ssize_t vp_write(int fd, const void *p, size_t n)
{
    VP_ASSERT(fd == 7 && nopen == 1, "file is open");
    VP_ASSERT(n <= MAXIMG - img_len, "harness: image large enough");
    cpy(img + img_len, p, n); img_len += n;
    return n;
}
ssize_t vp_read(int fd, void *p, size_t n)
{
    VP_ASSERT(fd == 7 && nopen == 1, "file is open");
    if (n > img_len - img_pos) n = img_len - img_pos;
    cpy(p, img + img_pos, n); img_pos += n;
    return n;
}

struct compstrm { int x; };
struct decompstrm { int x; };
static struct compstrm cs;
static struct decompstrm ds;
static unsigned short comp_used;

int compstrm_init(struct compstrm **s, int fd, unsigned short comp, int level)
{
    (void)level;
    VP_ASSERT(fd == -1, "compressed in memory");
    comp_used = comp; strm_len = 0; *s = &cs;
    return DRPM_ERR_OK;
}
int compstrm_destroy(struct compstrm **s) { if (s == NULL || *s == NULL) return DRPM_ERR_PROG; *s = NULL; return DRPM_ERR_OK; }
int compstrm_write(struct compstrm *s, size_t n, const void *p)
{
    (void)s;
    VP_ASSERT(n <= MAXIMG - strm_len, "harness: stream large enough");
    cpy(strm + strm_len, p, n);
    strm_len += n;
    return DRPM_ERR_OK;
}
int compstrm_write_be32(struct compstrm *s, uint32_t v) { unsigned char b[4] = {v >> 24, v >> 16, v >> 8, v}; return compstrm_write(s, 4, b); }
int compstrm_write_be64(struct compstrm *s, uint64_t v) { compstrm_write_be32(s, v >> 32); return compstrm_write_be32(s, (uint32_t)v); }
int compstrm_finish(struct compstrm *s, unsigned char **d, size_t *l)
{
    (void)s;
    *d = vp_alloc(MAXIMG); cpy(*d, strm, strm_len); *l = strm_len;
    return DRPM_ERR_OK;
}
int decompstrm_init(struct decompstrm **s, int fd, unsigned short *comp, MD5_CTX *m, const unsigned char *b, size_t l)
{
    (void)fd; (void)m; (void)b; (void)l;
    *comp = comp_used; *s = &ds;
    return DRPM_ERR_OK;
}
int decompstrm_destroy(struct decompstrm **s) { *s = NULL; return DRPM_ERR_OK; }
int decompstrm_read(struct decompstrm *s, size_t n, void *p)
{
    (void)s;
    if (n > img_len - img_pos) return DRPM_ERR_FORMAT;
    if (n && p == NULL) return DRPM_ERR_PROG;
    cpy(p, img + img_pos, n);
    img_pos += n;
    return DRPM_ERR_OK;
}
int decompstrm_read_be32(struct decompstrm *s, uint32_t *v)
{
    unsigned char b[4]; int e;
    if ((e = decompstrm_read(s, 4, b))) return e;
    *v = (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3];
    return DRPM_ERR_OK;
}
int decompstrm_read_be64(struct decompstrm *s, uint64_t *v)
{
    uint32_t h, l; int e;
    if ((e = decompstrm_read_be32(s, &h)) || (e = decompstrm_read_be32(s, &l))) return e;
    *v = (uint64_t)h << 32 | l;
    return DRPM_ERR_OK;
}

struct rpm { int x; };
static struct rpm the_rpm;
static unsigned short hdr_comp;
int rpm_read(struct rpm **r, const char *fn, int m, unsigned short *c, unsigned char *a, unsigned char *b)
{ (void)fn; (void)m; (void)c; (void)a; (void)b; *r = &the_rpm; return DRPM_ERR_OK; }
int rpm_destroy(struct rpm **r) { *r = NULL; return DRPM_ERR_OK; }
int rpm_get_comp(struct rpm *r, unsigned short *c) { (void)r; *c = hdr_comp; return DRPM_ERR_OK; }
uint32_t rpm_size_full(struct rpm *r) { (void)r; return 4; }
int rpm_get_nevr(struct rpm *r, char **n) { (void)r; (void)n; return DRPM_ERR_OTHER; }
int rpm_fetch_header(struct rpm *r, unsigned char **h, uint32_t *l) { (void)r; *h = vp_alloc(3); *l = 3; return DRPM_ERR_OK; }
int rpm_signature_empty(struct rpm *r) { (void)r; return DRPM_ERR_OK; }
int rpm_signature_set_size(struct rpm *r, uint32_t n) { (void)r; VP_ASSERT(n == 3 + strm_len, "signature size is header plus delta data"); return DRPM_ERR_OK; }
int rpm_signature_set_md5(struct rpm *r, unsigned char *m) { (void)r; (void)m; return DRPM_ERR_OK; }
int rpm_signature_reload(struct rpm *r) { (void)r; return DRPM_ERR_OK; }
int rpm_write(struct rpm *r, const char *fn, bool arch, unsigned char *md5, bool full)
{
    (void)r; (void)fn; (void)arch; (void)md5; (void)full;
    img[0] = 0xED; img[1] = 0xAB; img[2] = 0xEE; img[3] = 0xDB; img_len = 4;
    return DRPM_ERR_OK;
}

/* Lengths and counts follow a profile (so that every position in the file is
 * a constant for the solver); all values stay symbolic.
 * 0: all minimal, 1: all maximal, 2/3: alternating, 4: middle */
static size_t len(size_t lo, size_t hi)
{
    static unsigned k;
    k++;
    switch (PROF) {
    case 0: return lo;
    case 1: return hi;
    case 2: return k % 2 ? hi : lo;
    case 3: return k % 2 ? lo : hi;
    default: return (lo + hi) / 2;
    }
}

/* strlen of the harness's own strings is known, so that lengths stay constants */
static const char *known[2];
static size_t known_len[2], nknown;
size_t vp_strlen(const char *s)
{
    size_t n = 0;
#ifdef VP_CBMC
    for (size_t i = 0; i < nknown; i++) if (s == known[i]) return known_len[i];
#endif
    while (s[n]) n++;
    return n;
}

static char *name(size_t n)
{
    char *s = vp_alloc(n + 1);
    known[nknown] = s; known_len[nknown++] = n;
    for (size_t i = 0; i < n; i++) { s[i] = nd_u8(); VP_ASSUME(s[i] != 0); }
    s[n] = 0;
    return s;
}

#define MAXC 2

void harness(void)
{
    struct deltarpm d = {0}, r = {0};
    d.filename = "d";
    d.type = RPMONLY ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
    d.version = VERSION;
    d.comp = nd_range(0, 6);
    d.comp_level = nd_u8();
    hdr_comp = nd_range(0, 6);
    size_t srclen = len(0, 3), tgtlen = len(0, 3);
    d.src_nevr = name(srclen);
    if (RPMONLY) d.head.tgt_nevr = name(tgtlen); else d.head.tgt_rpm = &the_rpm;
    d.sequence_len = RPMONLY ? 16 : 16 + len(0, 2);
    d.sequence = vp_alloc(d.sequence_len); nd_bytes(d.sequence, d.sequence_len);
    nd_bytes(d.tgt_md5, 16);
    d.tgt_size = nd_u32();
    static const unsigned short comps[] = {DRPM_COMP_NONE, DRPM_COMP_GZIP, DRPM_COMP_BZIP2, DRPM_COMP_LZMA, DRPM_COMP_XZ, DRPM_COMP_ZSTD};
    d.tgt_comp = comps[COMP];   /* one per variant: C02 decides the codec for all values */
    d.tgt_comp_level = nd_u8();
    d.tgt_comp_param_len = len(0, 2);
    if (d.tgt_comp_param_len) { d.tgt_comp_param = vp_alloc(d.tgt_comp_param_len); nd_bytes(d.tgt_comp_param, d.tgt_comp_param_len); }
    d.tgt_header_len = nd_u32();
    if (RPMONLY) VP_ASSUME(d.tgt_header_len > 0);
    d.offadj_elems_count = VERSION == 3 ? len(0, MAXC) : 0;
    if (d.offadj_elems_count) {
        d.offadj_elems = vp_alloc(8 * MAXC);
        for (size_t i = 0; i < MAXC * 2; i++) d.offadj_elems[i] = nd_u32();
        for (size_t i = 0; i < MAXC; i++) VP_ASSUME(d.offadj_elems[2 * i + 1] != 0x80000000);  /* no such magnitude in the format */
    }
    d.tgt_leadsig_len = 112 + len(0, 2);
    d.tgt_leadsig = vp_alloc(d.tgt_leadsig_len); nd_bytes(d.tgt_leadsig, d.tgt_leadsig_len);
    d.payload_fmt_off = nd_u32();
    d.int_copies_count = len(0, MAXC);
    d.ext_copies_count = len(0, MAXC);
    uint64_t ilen = 0;
    if (d.int_copies_count) {
        d.int_copies = vp_alloc(8 * MAXC);
        for (size_t i = 0; i < MAXC; i++) {
            d.int_copies[2 * i] = nd_u32(); d.int_copies[2 * i + 1] = i < d.int_copies_count ? len(0, 2) : 0;
            ilen += d.int_copies[2 * i + 1];
        }
    }
#if VERSION == 3
    d.ext_data_len = nd_u64();
    VP_ASSUME(d.ext_data_len <= INT64_MAX);
#else   /* a range check on it would make every position symbolic; W02 takes all values */
    d.ext_data_len = PROF == 0 ? 0xFFFFFFFF : PROF == 1 ? 0x87654321 : PROF == 2 ? 0x12345678 : 0x01020304;
#endif
    if (d.ext_copies_count) {
        int64_t off = 0;
        d.ext_copies = vp_alloc(8 * MAXC);
        for (size_t i = 0; i < MAXC; i++) {
            uint32_t a = nd_u32(), l = nd_u32();
            d.ext_copies[2 * i] = a; d.ext_copies[2 * i + 1] = l;
            if (i >= d.ext_copies_count) continue;
            VP_ASSUME(a != 0x80000000);
            off += (int32_t)a; VP_ASSUME(off >= 0 && (uint64_t)off <= d.ext_data_len);
            off += l; VP_ASSUME(off > 0 && (uint64_t)off <= d.ext_data_len);
        }
    }
    d.add_data_len = len(0, 2);
    if (d.add_data_len || RPMONLY) { d.add_data = vp_alloc(2); nd_bytes(d.add_data, 2); }
    d.int_data_as_ptrs = PTRS;
    unsigned char idata[2 * MAXC];
    nd_bytes(idata, 2 * MAXC);
    const unsigned char *ptrs[MAXC];
    d.int_data_len = ilen;
    if (PTRS) {
        size_t o = 0;
        for (size_t i = 0; i < MAXC; i++) { ptrs[i] = idata + o; if (i < d.int_copies_count) o += d.int_copies[2 * i + 1]; }
        d.int_data.ptrs = ptrs;
    } else {
        if (d.int_copies_count == 0) d.int_data_len = len(0, 4);
        d.int_data.bytes = idata;
    }

    int err = write_deltarpm(&d);
    VP_ASSERT(err == DRPM_ERR_OK, "writing succeeds");
    VP_ASSERT(nopen == 0, "file closed");
    err = read_deltarpm(&r, "d");
    VP_ASSERT(err == DRPM_ERR_OK, "reading succeeds");
    VP_ASSERT(img_pos == img_len, "the whole file is read");
    VP_ASSERT(r.type == d.type && r.version == d.version && r.comp == d.comp, "type, version, compression");
    VP_ASSERT(!RPMONLY || memcmp(r.head.tgt_nevr, d.head.tgt_nevr, tgtlen + 1) == 0, "target name");
    VP_ASSERT(memcmp(r.src_nevr, d.src_nevr, srclen + 1) == 0, "source name");
    VP_ASSERT(r.sequence_len == d.sequence_len && memcmp(r.sequence, d.sequence, d.sequence_len) == 0, "sequence");
    VP_ASSERT(memcmp(r.tgt_md5, d.tgt_md5, 16) == 0, "digest");
    if (VERSION >= 2) {
        VP_ASSERT(r.tgt_size == d.tgt_size && r.tgt_comp == d.tgt_comp && r.tgt_comp_level == d.tgt_comp_level, "size and target compression");
        VP_ASSERT(r.tgt_comp_param_len == d.tgt_comp_param_len &&
                  (d.tgt_comp_param_len == 0 || memcmp(r.tgt_comp_param, d.tgt_comp_param, d.tgt_comp_param_len) == 0), "compression parameters");
    } else VP_ASSERT(r.tgt_comp == hdr_comp, "compression of the package header");
    if (VERSION >= 3) {
        VP_ASSERT(r.tgt_header_len == d.tgt_header_len, "header length");
        VP_ASSERT(r.offadj_elems_count == d.offadj_elems_count, "number of adjustments");
        for (size_t i = 0; i < 2 * MAXC; i++) if (i < 2 * d.offadj_elems_count) VP_ASSERT(r.offadj_elems[i] == d.offadj_elems[i], "adjustments");
    }
    VP_ASSERT(r.tgt_leadsig_len == d.tgt_leadsig_len && memcmp(r.tgt_leadsig, d.tgt_leadsig, d.tgt_leadsig_len) == 0, "lead and signature");
    VP_ASSERT(r.payload_fmt_off == d.payload_fmt_off, "payload format offset");
    VP_ASSERT(r.int_copies_count == d.int_copies_count && r.ext_copies_count == d.ext_copies_count, "numbers of copies");
    for (size_t i = 0; i < 2 * MAXC; i++) {
        if (i < 2 * d.int_copies_count) VP_ASSERT(r.int_copies[i] == d.int_copies[i], "internal copies");
        if (i < 2 * d.ext_copies_count) VP_ASSERT(r.ext_copies[i] == d.ext_copies[i], "external copies");
    }
    VP_ASSERT(r.ext_data_len == d.ext_data_len, "external data length");
    VP_ASSERT(r.add_data_len == d.add_data_len && (d.add_data_len == 0 || memcmp(r.add_data, d.add_data, d.add_data_len) == 0), "add data");
    VP_ASSERT(r.int_data_len == d.int_data_len && !r.int_data_as_ptrs, "internal data length");
    for (size_t i = 0; i < 2 * MAXC; i++) if (i < d.int_data_len) VP_ASSERT(r.int_data.bytes[i] == idata[i], "internal data");
    VP_REACH("end");
#if PROF == 1
    if (d.int_copies_count == MAXC && d.ext_copies_count == MAXC && (int32_t)d.ext_copies[2] < 0) VP_REACH("full");
#endif
}
