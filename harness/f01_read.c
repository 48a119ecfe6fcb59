/* F01: drpm_read() hands out a complete result or nothing. */
#include "vp.h"
#include "vp_mem.h"
void *vp_malloc(size_t);
#include "drpm.h"
#define read_deltarpm real_read_deltarpm
#include "drpm_private.h"
#include "drpm_read.c"
#undef read_deltarpm
extern bool vp_oom_hit;
static bool failed;
static bool fails(void) { if (FAIL && nd_bool()) { failed = true; return true; } return false; }
struct rpm { int dummy; };
static int rpms;
static void *own(size_t n) { bool o = vp_oom; vp_oom = false; void *p = vp_malloc(n); vp_oom = o; return p; }
static void *dup_bytes(const void *p, size_t n) { void *d = own(n); memcpy(d, p, n); return d; }
static unsigned char md5[16], sq[18], ls[3], cpar[2];
static uint32_t adj[4];
static unsigned short type;
static uint32_t ints[3];
static uint64_t longs[2];
static int how;     /* the reader fails with what it has so far */
int read_deltarpm(struct deltarpm *d, const char *name)
{
    VP_ASSERT(!strcmp(name, "delta"), "file asked for");
    d->filename = name;
    if (how == 0) return DRPM_ERR_IO;
    d->type = type;
    d->version = 3;
    d->src_nevr = dup_bytes("s", 2);
    if (type == DRPM_TYPE_RPMONLY) d->head.tgt_nevr = dup_bytes("t", 2);
    else { d->head.tgt_rpm = own(sizeof(struct rpm)); rpms++; }
    if (how == 1) return DRPM_ERR_FORMAT;
    d->sequence = dup_bytes(sq, d->sequence_len = 18);
    memcpy(d->tgt_md5, md5, 16);
    d->tgt_size = ints[0]; d->tgt_header_len = ints[1]; d->payload_fmt_off = ints[2];
    d->ext_data_len = longs[0]; d->int_data_len = longs[1];
    d->tgt_leadsig = dup_bytes(ls, d->tgt_leadsig_len = 3);
    if (how > 3) {
        d->tgt_comp_param = dup_bytes(cpar, d->tgt_comp_param_len = 2);
        d->offadj_elems = dup_bytes(adj, 8); d->offadj_elems_count = 1;
        d->int_copies = dup_bytes(adj, 8); d->int_copies_count = 1;
        d->ext_copies = dup_bytes(adj, 16); d->ext_copies_count = 2;
        d->add_data = own(1); d->add_data_len = 1;
        d->int_data.bytes = own(1);
    }
    return how == 2 ? DRPM_ERR_FORMAT : DRPM_ERR_OK;
}
int rpm_get_nevr(struct rpm *r, char **n)
{
    VP_ASSERT(r && rpms == 1, "package in use");
    if (fails()) return DRPM_ERR_MEMORY;
    *n = dup_bytes("t", 2);
    return DRPM_ERR_OK;
}
int rpm_destroy(struct rpm **r)
{
    if (!r || !*r) return DRPM_ERR_PROG;
    VP_ASSERT(rpms == 1, "package released once");
    rpms--;
    free(*r);
    *r = NULL;
    return DRPM_ERR_OK;
}

void harness(void)
{
    nd_bytes(md5, 16); nd_bytes(sq, 18); nd_bytes(ls, 3); nd_bytes((unsigned char *)adj, 16);
    for (int i = 0; i < 3; i++) ints[i] = nd_u32();
    for (int i = 0; i < 2; i++) longs[i] = nd_u64();
    how = vp_choose(0, 4);
    type = vp_choose(0, 1) ? DRPM_TYPE_STANDARD : DRPM_TYPE_RPMONLY;
    struct drpm *d = (struct drpm *)md5;
    int args = vp_choose(0, 2);
#if FAIL
    vp_oom = true;
#endif
    int e = drpm_read(args == 1 ? NULL : &d, args == 2 ? NULL : "delta");
    vp_oom = false;
    VP_ASSERT(rpms == 0, "package released");
    if (args) { VP_ASSERT(e == DRPM_ERR_ARGS && vp_live == 0, "unsuitable arguments are refused"); return; }
    if (how < 3) { VP_ASSERT(e != DRPM_ERR_OK, "unreadable files are refused"); }
    else if (failed || vp_oom_hit) VP_ASSERT(e != DRPM_ERR_OK, "failures are reported");
    else {
        VP_ASSERT(e == DRPM_ERR_OK, "read");
        unsigned long v = 0;
        unsigned long long w = 0;
        VP_ASSERT(drpm_get_ulong(d, DRPM_TAG_TGTSIZE, &v) == DRPM_ERR_OK && v == ints[0], "size");
        VP_ASSERT(drpm_get_ullong(d, DRPM_TAG_INTDATALEN, &w) == DRPM_ERR_OK && w == longs[1], "length");
        char *s = NULL;
        VP_ASSERT(drpm_get_string(d, DRPM_TAG_TGTNEVR, &s) == DRPM_ERR_OK && s && !strcmp(s, "t"), "name");
        free(s);
        VP_ASSERT(drpm_destroy(&d) == DRPM_ERR_OK && d == NULL, "released");
        VP_ASSERT(drpm_destroy(&d) == DRPM_ERR_ARGS, "only once");
        VP_REACH("read");
    }
    if (e != DRPM_ERR_OK) VP_ASSERT(d == NULL, "no result after a failure");
    VP_ASSERT(vp_live == 0, "nothing left");
}
