/* read_deltarpm on an arbitrary delta stream.
 * Real code: drpm_read.c, drpm_deltarpm.c, drpm_utils.c.
 * Stubs: the decompressor hands out arbitrary bytes and may fail at any read;
 * librpm access is an object that may fail. Every integer in the stream is a
 * fully unconstrained value; the number of successful reads is bounded, which
 * bounds the number of copies that are really present in the stream.
 */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"

#ifndef BUDGET
#define BUDGET 22
#endif

int MD5_Update(MD5_CTX *c, const void *p, size_t n) { (void)c; (void)p; (void)n; return 1; }

static int open_fds, streams, rpms;
static unsigned budget;
static bool closed_bad;

int vp_open(const char *fn, int fl, ...) { (void)fn; (void)fl; if (nd_bool()) return -1; open_fds++; return 7; }
int vp_close(int fd) { if (fd != 7) closed_bad = true; else open_fds--; return 0; }
off_t vp_lseek(int fd, off_t o, int w) { (void)fd; (void)o; (void)w; return nd_bool() ? (off_t)-1 : 0; }

/* n arbitrary bytes at p: the first and last really written, so that an
 * overrun is visible natively; all of them checked by the solver */
static void fill(unsigned char *p, size_t n)
{
    if (n == 0) return;
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_w_ok(p, n), "bytes are stored inside the buffer");
#else
    memset(p, 'x', n);
#endif
    if (n == 4) { p[0] = nd_u8(); p[1] = nd_u8(); p[2] = nd_u8(); p[3] = nd_u8(); }
    else p[n - 1] = nd_u8();
}

ssize_t vp_read(int fd, void *buf, size_t n)
{
    (void)fd;
    size_t got = nd_u64();
    if (nd_bool()) return -1;
    VP_ASSUME(got <= n);
#ifdef VP_CBMC
    VP_ASSERT(n == 0 || __CPROVER_w_ok(buf, n), "read() is given a buffer of that size");
#endif
    fill(buf, got);
    return got;
}

struct decompstrm { int x; };
static struct decompstrm the_stream;

int decompstrm_init(struct decompstrm **s, int fd, unsigned short *comp, MD5_CTX *m, const unsigned char *b, size_t l)
{
    (void)fd; (void)m; (void)b; (void)l;
    if (nd_bool()) return DRPM_ERR_FORMAT;
    *s = &the_stream; streams++;
    *comp = nd_range(0, 5);
    return DRPM_ERR_OK;
}
int decompstrm_destroy(struct decompstrm **s)
{
    if (s == NULL || *s == NULL) return DRPM_ERR_PROG;
    streams--; *s = NULL;
    return DRPM_ERR_OK;
}
static bool more(void) { if (budget == 0) return false; budget--; return !nd_bool(); }

int decompstrm_read(struct decompstrm *s, size_t n, void *buf)
{
    VP_ASSERT(s == &the_stream && streams == 1, "stream is live");
    /* a failing read may have stored part of the data */
    if (!more()) { if (n > 0 && nd_bool()) fill(buf, 1); return DRPM_ERR_FORMAT; }
    if (n > 0 && buf == NULL) return DRPM_ERR_PROG;
    fill(buf, n);
    return DRPM_ERR_OK;
}
int decompstrm_read_be32(struct decompstrm *s, uint32_t *v)
{
    VP_ASSERT(s == &the_stream && streams == 1, "stream is live");
    if (!more()) return DRPM_ERR_FORMAT;
    *v = nd_u32();
    return DRPM_ERR_OK;
}
int decompstrm_read_be64(struct decompstrm *s, uint64_t *v)
{
    VP_ASSERT(s == &the_stream && streams == 1, "stream is live");
    if (!more()) return DRPM_ERR_FORMAT;
    *v = nd_u64();
    return DRPM_ERR_OK;
}

struct rpm { int x; };
static struct rpm the_rpm;
int rpm_read(struct rpm **r, const char *fn, int m, unsigned short *c, unsigned char *a, unsigned char *b)
{
    (void)fn; (void)m; (void)c; (void)a; (void)b;
    *r = NULL;
    if (nd_bool()) return DRPM_ERR_FORMAT;
    *r = &the_rpm; rpms++;
    return DRPM_ERR_OK;
}
int rpm_destroy(struct rpm **r)
{
    if (r == NULL || *r == NULL) return DRPM_ERR_PROG;
    rpms--; *r = NULL;
    return DRPM_ERR_OK;
}
int rpm_get_comp(struct rpm *r, unsigned short *c) { VP_ASSERT(r == &the_rpm, "rpm is live"); if (nd_bool()) return DRPM_ERR_FORMAT; *c = nd_range(0, 6); return DRPM_ERR_OK; }
uint32_t rpm_size_full(struct rpm *r) { VP_ASSERT(r == &the_rpm, "rpm is live"); return nd_u32(); }
int rpm_get_nevr(struct rpm *r, char **n) { (void)r; (void)n; return DRPM_ERR_OTHER; }

void harness(void)
{
    struct deltarpm delta = {0};
    budget = nd_range(0, BUDGET);
    vp_oom = true;
    int err = read_deltarpm(&delta, "d");
    VP_ASSERT(open_fds == 0 && !closed_bad, "file closed");
    VP_ASSERT(streams == 0, "decompression stream destroyed");
    if (err != DRPM_ERR_OK) {
        VP_ASSERT(vp_live == 0, "nothing read stays allocated after an error");
        VP_ASSERT(rpms == 0, "package released after an error");
        VP_ASSERT(delta.src_nevr == NULL && delta.sequence == NULL && delta.tgt_comp_param == NULL && delta.offadj_elems == NULL &&
                  delta.tgt_leadsig == NULL && delta.int_copies == NULL && delta.ext_copies == NULL && delta.add_data == NULL &&
                  delta.int_data.bytes == NULL && delta.head.tgt_rpm == NULL, "nothing referenced after an error");
        VP_REACH("error");
        return;
    }
#ifdef CONSISTENCY
    VP_ASSERT(delta.type == DRPM_TYPE_STANDARD || delta.type == DRPM_TYPE_RPMONLY, "type");
    VP_ASSERT(delta.version >= 1 && delta.version <= 3, "version is 1, 2 or 3");
    VP_ASSERT(delta.type != DRPM_TYPE_RPMONLY || (delta.version == 3 && delta.tgt_header_len > 0 && delta.sequence_len == 16), "rpm-only invariants");
    VP_ASSERT(delta.sequence_len >= 16 && delta.sequence != NULL, "sequence");
    VP_ASSERT(delta.tgt_leadsig_len >= 112 && delta.tgt_leadsig != NULL, "leadsig");
    VP_ASSERT(delta.src_nevr != NULL, "name");
    VP_ASSERT(delta.offadj_elems_count == 0 || delta.offadj_elems != NULL, "adjustment array");
    VP_ASSERT(delta.int_copies_count == 0 || delta.int_copies != NULL, "internal copies array");
    VP_ASSERT(delta.ext_copies_count == 0 || delta.ext_copies != NULL, "external copies array");
    VP_ASSERT(delta.add_data_len == 0 || delta.add_data != NULL, "add data");
    VP_ASSERT(delta.int_data_len == 0 || delta.int_data.bytes != NULL, "internal data");
    VP_ASSERT(delta.type == DRPM_TYPE_STANDARD ? delta.head.tgt_rpm != NULL : delta.head.tgt_nevr != NULL, "target");
    VP_ASSERT(!delta.int_data_as_ptrs, "internal data is one block");
    uint64_t sum = 0;
    for (uint32_t i = 0; i < delta.int_copies_count; i++) {
        sum += delta.int_copies[2 * i + 1];
        VP_ASSERT(sum <= delta.int_data_len, "internal copies inside internal data");
    }
    __int128 off = 0;
    for (uint32_t i = 0; i < delta.ext_copies_count; i++) {
        off += (int32_t)delta.ext_copies[2 * i];
        VP_ASSERT(off >= 0, "external copy starts inside");
        off += delta.ext_copies[2 * i + 1];
        VP_ASSERT(off <= (__int128)delta.ext_data_len, "external copy ends inside");
    }
    if (delta.ext_copies_count == 1 && delta.int_copies_count == 1) VP_REACH("copies");
    if (delta.type == DRPM_TYPE_RPMONLY) VP_REACH("rpmonly");
    if (delta.type == DRPM_TYPE_STANDARD && delta.version == 1) VP_REACH("v1");
#else
    bool std = delta.type == DRPM_TYPE_STANDARD;
    free_deltarpm(&delta);
    VP_ASSERT(vp_live == 0, "everything is released when the delta is freed");
    VP_ASSERT(rpms == 0, "package released");
    if (std) VP_REACH("standard"); else VP_REACH("rpmonly");
#endif
}
