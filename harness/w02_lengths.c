/* write_deltarpm with lengths that the format version may not be able to hold.
 * The stream records the integers written; nothing else matters here. */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"

int MD5_Init(MD5_CTX *c) { (void)c; return 1; }
int MD5_Update(MD5_CTX *c, const void *p, size_t n) { (void)c; (void)p; (void)n; return 1; }
int MD5_Final(unsigned char *d, MD5_CTX *c) { (void)c; memset(d, 0, 16); return 1; }
int vp_open(const char *fn, int fl, ...) { (void)fn; (void)fl; return 7; }
int vp_creat(const char *fn, mode_t m) { (void)fn; (void)m; return 7; }
int vp_close(int fd) { (void)fd; return 0; }
static bool file_made;
ssize_t vp_write(int fd, const void *p, size_t n) { (void)fd; (void)p; file_made = true; return n; }

struct compstrm { int x; };
static struct compstrm cs;
static uint64_t ints[32], pieces;   /* every integer written, with its width */
static unsigned char width[32];
static size_t nints;

int compstrm_init(struct compstrm **s, int fd, unsigned short comp, int level) { (void)fd; (void)comp; (void)level; *s = &cs; return DRPM_ERR_OK; }
int compstrm_destroy(struct compstrm **s) { *s = NULL; return DRPM_ERR_OK; }
int compstrm_write(struct compstrm *s, size_t n, const void *p) { (void)s; (void)p; pieces += n; return DRPM_ERR_OK; }
int compstrm_write_be32(struct compstrm *s, uint32_t v) { (void)s; VP_ASSERT(nints < 32, "harness: enough room"); ints[nints] = v; width[nints++] = 4; return DRPM_ERR_OK; }
int compstrm_write_be64(struct compstrm *s, uint64_t v) { (void)s; VP_ASSERT(nints < 32, "harness: enough room"); ints[nints] = v; width[nints++] = 8; return DRPM_ERR_OK; }
int compstrm_finish(struct compstrm *s, unsigned char **d, size_t *l) { (void)s; *d = vp_alloc(1); *l = 1; return DRPM_ERR_OK; }
struct rpm { int x; };
static struct rpm the_rpm;
int rpm_fetch_header(struct rpm *r, unsigned char **h, uint32_t *l) { (void)r; *h = vp_alloc(3); *l = 3; return DRPM_ERR_OK; }
int rpm_signature_empty(struct rpm *r) { (void)r; return DRPM_ERR_OK; }
int rpm_signature_set_size(struct rpm *r, uint32_t n) { (void)r; (void)n; return DRPM_ERR_OK; }
int rpm_signature_set_md5(struct rpm *r, unsigned char *m) { (void)r; (void)m; return DRPM_ERR_OK; }
int rpm_signature_reload(struct rpm *r) { (void)r; return DRPM_ERR_OK; }
int rpm_write(struct rpm *r, const char *fn, bool arch, unsigned char *md5, bool full) { (void)r; (void)fn; (void)arch; (void)md5; (void)full; file_made = true; return DRPM_ERR_OK; }
int rpm_destroy(struct rpm **r) { (void)r; return 0; }

void harness(void)
{
    struct deltarpm d = {0};
    unsigned char seq[16] = {0}, leadsig[112] = {0};
    d.filename = "d";
    d.type = nd_bool() ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
    d.version = nd_range(1, 3);
    d.src_nevr = "s";
    if (d.type == DRPM_TYPE_RPMONLY) { d.head.tgt_nevr = "t"; d.version = 3; } else d.head.tgt_rpm = &the_rpm;
    d.sequence_len = 16; d.sequence = seq;
    d.tgt_comp = DRPM_COMP_GZIP;
    d.tgt_leadsig_len = 112; d.tgt_leadsig = leadsig;
    /* the data itself is never looked at by the stubbed compressor */
    unsigned char *data = vp_alloc(1);
    uint32_t copies[4] = {0, nd_u32(), 1, nd_u32()};
    const unsigned char *ptrs[2] = {data, data};
    d.ext_data_len = nd_u64();
    if (nd_bool()) {
        d.int_copies_count = 2; d.int_copies = copies;
        d.int_data_as_ptrs = true; d.int_data.ptrs = ptrs;
        d.int_data_len = (uint64_t)copies[1] + copies[3];
    } else {
        d.int_data_as_ptrs = false; d.int_data.bytes = data; d.int_data_len = nd_u64();
    }
    int err = write_deltarpm(&d);
    bool fits = d.version == 3 || (d.ext_data_len <= UINT32_MAX && d.int_data_len <= UINT32_MAX);
    if (!fits) {
        VP_ASSERT(err != DRPM_ERR_OK, "lengths that do not fit are refused");
        VP_ASSERT(!file_made, "no file is made");
        VP_REACH("refused");
        return;
    }
    VP_ASSERT(err == DRPM_ERR_OK, "lengths that fit are written");
    /* the last three integers are: external length, add length, internal length */
    VP_ASSERT(nints >= 3 && ints[nints - 3] == d.ext_data_len && ints[nints - 1] == d.int_data_len, "recorded lengths");
    VP_ASSERT(width[nints - 3] == (d.version == 3 ? 8 : 4) && width[nints - 1] == width[nints - 3] && width[nints - 2] == 4, "field widths");
    if (d.version < 3) VP_REACH("written32"); else if (d.ext_data_len > UINT32_MAX && d.int_data_len > UINT32_MAX) VP_REACH("written64");
}
