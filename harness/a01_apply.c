/* A01/A03: drpm_apply() over the contracts of the parts it puts together. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#define MD5_LOGMAX 16
#include "apply_env.h"

#ifndef TYPE            /* 0 standard, 1 rpm-only */
#define TYPE 0
#endif
#ifndef IDENT           /* arbitrary identities, or matching ones */
#define IDENT 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef COPIES          /* copies of each kind */
#define COPIES 2
#endif
#ifndef EXT             /* length of the old data */
#define EXT 4
#endif
#ifndef CLEN            /* length of one copy */
#define CLEN 2
#endif
#ifndef PROF            /* 0: offsets and lengths of external copies vary, 1: the interleaving varies */
#define PROF 0
#endif
#define INTMAX (COPIES * CLEN)
#define OUTMAX (2 * COPIES * CLEN)
#define BLK 2

static const char oldn[] = "o", deltan[] = "d", newn[] = "n";

/* the delta */
static unsigned nint, next_, todo[COPIES + 1], ilen[COPIES + 1], elen[COPIES + 1], eoff[COPIES + 1];
static int32_t ejump[COPIES + 1];
static unsigned char idata[INTMAX + 1], old[EXT + 1], add[OUTMAX + 1];
static unsigned ilen_total, addlen;
static bool have_add, no_full;
static char src_nevr[4];
static unsigned char leadsig[2], tgt_md5[16];
static uint32_t header_len;
static unsigned short tgt_comp, tgt_level;

static void *dup_(const void *p, size_t n) { void *q = vp_malloc(n ? n : 1); if (q && n) memcpy(q, p, n); return q; }

int read_deltarpm(struct deltarpm *d, const char *name)
{
    VP_ASSERT(name == deltan, "the delta is read");
    if (fails()) return anyerr();
    d->filename = name;
    d->type = TYPE ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
    d->version = 3;
    if (TYPE) d->head.tgt_nevr = dup_("x", 2);
    else d->head.tgt_rpm = rpm_new(TGT);
    d->src_nevr = dup_(src_nevr, sizeof src_nevr);
    d->sequence = dup_(seq, d->sequence_len = seq_len);
    memcpy(d->tgt_md5, tgt_md5, 16);
    d->tgt_comp = tgt_comp;
    d->tgt_comp_level = tgt_level;
    d->tgt_header_len = header_len;
    d->tgt_leadsig = dup_(leadsig, d->tgt_leadsig_len = sizeof leadsig);
    uint32_t c[2 * COPIES + 1];
    for (unsigned i = 0; i < nint; i++) { c[2 * i] = todo[i]; c[2 * i + 1] = ilen[i]; }
    d->int_copies_count = nint;
    if (nint) d->int_copies = dup_(c, nint * 8);
    for (unsigned i = 0; i < next_; i++) { c[2 * i] = ejump[i]; c[2 * i + 1] = elen[i]; }
    d->ext_copies_count = next_;
    if (next_) d->ext_copies = dup_(c, next_ * 8);
    d->ext_data_len = EXT;
    if (have_add) d->add_data = dup_(leadsig, d->add_data_len = 1);     /* opaque: what it unpacks to is add[] */
    d->int_data_len = ilen_total;
    d->int_data.bytes = dup_(idata, ilen_total);
    bool bad = !d->src_nevr || !d->sequence || !d->tgt_leadsig || (nint && !d->int_copies) || (next_ && !d->ext_copies) || (have_add && !d->add_data) || !d->int_data.bytes || (TYPE ? !d->head.tgt_nevr : !d->head.tgt_rpm);
    return bad ? DRPM_ERR_MEMORY : DRPM_ERR_OK;
}

/* the output file */
static unsigned char out[2 * 8];
static size_t outn;
static bool is_open, created, wrapped, whole;
int vp_creat(const char *n, mode_t m) { (void)m; VP_ASSERT(n == newn && !created, "output created once"); if (fails()) return -1; created = is_open = true; return 5; }
int vp_close(int fd) { VP_ASSERT(fd == 5 && is_open, "closed once"); is_open = false; if (fails()) return -1; return 0; }
ssize_t vp_write(int fd, const void *p, size_t n)
{
    VP_ASSERT(fd == 5 && is_open && !wrapped, "written to the open output");
    if (fails()) return nd_bool() && n > 0 ? (ssize_t)n - 1 : -1;
    VP_ASSERT(n <= sizeof out - outn, "room");
    memcpy(out + outn, p, n);
    outn += n;
    return n;
}
int rpm_replace_lead_and_signature(struct rpm *r, unsigned char *ls, size_t n)
{
    VP_ASSERT(r && r->kind <= OLD_HDR && n == sizeof leadsig && memcmp(ls, leadsig, n) == 0, "old package gets the new lead and signature");
    if (fails()) return anyerr();
    r->leadsig = true;
    return DRPM_ERR_OK;
}
int rpm_write(struct rpm *r, const char *name, bool archive, unsigned char *md5, bool full)
{
    VP_ASSERT(r && r->kind == OLD && r->leadsig && name == newn && archive && md5 && full == !no_full, "the whole package is written");
    VP_ASSERT(read_mode == RPM_ARCHIVE_READ_UNCOMP, "the archive is written as it is in the package");
    VP_ASSERT(!whole && outn == 0 && !wrapped, "nothing else is written");
    whole = true;
    if (fails()) return anyerr();
    memcpy(md5, md5_out, 16);
    return DRPM_ERR_OK;
}
static char hdr_format;
int rpm_patch_payload_format(struct rpm *r, const char *f)
{
    VP_ASSERT(r && r->kind == TGT, "new header");
    if (fails()) return anyerr();
    r->format = strcmp(f, "cpio") == 0 ? 'c' : '?';
    return DRPM_ERR_OK;
}
static unsigned char header[2];
int rpm_fetch_header(struct rpm *r, unsigned char **h, uint32_t *n)
{
    VP_ASSERT(r && r->kind == TGT, "new header");
    *h = NULL;
    *n = 0;
    hdr_format = r->format;
    if (fails()) return anyerr();
    if (!(*h = dup_(header, sizeof header))) return DRPM_ERR_MEMORY;
    *n = sizeof header;
    return DRPM_ERR_OK;
}

/* the old data */
struct blocks { int x; };
struct blocks *the_blocks;
static int blocks_live;
static const uint32_t *ext_given;
size_t block_size(void) { return BLK; }
size_t block_id(uint64_t o) { return o / BLK; }
int blocks_create(struct blocks **b, uint64_t n, const struct file_info *f, const struct cpio_file *c, size_t cn, const uint32_t *e, size_t en, struct rpm *r, bool rpmonly)
{
    VP_ASSERT(n == EXT && en == next_ && rpmonly == TYPE, "old data as recorded");
    VP_ASSERT(TYPE ? f == NULL && c == NULL && cn == 0 : f == files_given && c == cpio_given && cn == 1, "files and entries of the old package");
    VP_ASSERT(want_old_name ? r && r->kind == OLD && read_mode == RPM_ARCHIVE_READ_DECOMP : r == NULL, "decompressed archive of the old package, or the filesystem");
    for (unsigned i = 0; i < en; i++) VP_ASSERT((int32_t)e[2 * i] == ejump[i] && e[2 * i + 1] == elen[i], "external copies");
    *b = NULL;
    if (fails()) return anyerr();
    if (!(*b = vp_malloc(sizeof **b))) return DRPM_ERR_MEMORY;
    blocks_live++;
    return DRPM_ERR_OK;
}
int blocks_destroy(struct blocks **b) { if (!b || !*b) return DRPM_ERR_PROG; blocks_live--; vp_free(*b); *b = NULL; return DRPM_ERR_OK; }
int blocks_next(struct blocks *b, unsigned char *buf, size_t *len, uint64_t off, size_t n, size_t done, size_t id)
{
    VP_ASSERT(b && blocks_live == 1 && n > 0 && off < EXT && n <= EXT - off && id == off / BLK && done < next_, "a request for old data");
    if (fails()) return anyerr();
    size_t k = BLK - off % BLK;
    if (k > n) k = n;
    memcpy(buf, old + off, k);
    *len = k;
    return DRPM_ERR_OK;
}

/* the add block */
struct decompstrm { int x; };
static int decs;
static size_t addpos;
static bool add_short;
int decompstrm_init(struct decompstrm **s, int fd, unsigned short *comp, MD5_CTX *m, const unsigned char *b, size_t n)
{
    VP_ASSERT(fd == -1 && !comp && !m && n == 1 && b[0] == leadsig[0] && have_add, "add block as recorded");
    *s = NULL;
    if (fails()) return anyerr();
    if (!(*s = vp_malloc(sizeof **s))) return DRPM_ERR_MEMORY;
    decs++;
    return DRPM_ERR_OK;
}
int decompstrm_read(struct decompstrm *s, size_t n, void *buf)
{
    VP_ASSERT(s && decs == 1, "add block");
    if (fails()) return anyerr();
    if (n > addlen - addpos) { add_short = true; return DRPM_ERR_FORMAT; }
    memcpy(buf, add + addpos, n);
    addpos += n;
    return DRPM_ERR_OK;
}
int decompstrm_destroy(struct decompstrm **s) { if (!s || !*s) return DRPM_ERR_PROG; decs--; vp_free(*s); *s = NULL; return DRPM_ERR_OK; }

/* the output */
struct compstrm_wrapper { int x; };
static int wraps;
static unsigned char data[OUTMAX + 1], cdata[2];
static size_t datan, cdatan;
static bool finished;
int compstrm_wrapper_init(struct compstrm_wrapper **w, size_t h, int fd, unsigned short comp, int level)
{
    VP_ASSERT(fd == 5 && is_open && h == header_len && comp == tgt_comp && level == tgt_level, "output compressed as recorded");
    *w = NULL;
    if (fails()) return anyerr();
    if (!(*w = vp_malloc(sizeof **w))) return DRPM_ERR_MEMORY;
    wraps++;
    wrapped = true;
    return DRPM_ERR_OK;
}
int compstrm_wrapper_write(struct compstrm_wrapper *w, const unsigned char *p, size_t n)
{
    VP_ASSERT(w && wraps == 1 && !finished, "open output");
    if (fails()) return anyerr();
    VP_ASSERT(n <= OUTMAX - datan, "room");
    for (size_t i = 0; i < n; i++) data[datan++] = p[i];
    return DRPM_ERR_OK;
}
int compstrm_wrapper_finish(struct compstrm_wrapper *w, unsigned char **p, size_t *n)
{
    VP_ASSERT(w && wraps == 1 && !finished, "finished once");
    if (fails()) return anyerr();
    if (cdatan && !(*p = dup_(cdata, cdatan))) return DRPM_ERR_MEMORY;
    *n = cdatan;
    finished = true;
    return DRPM_ERR_OK;
}
int compstrm_wrapper_destroy(struct compstrm_wrapper **w) { if (!w || !*w) return DRPM_ERR_PROG; wraps--; vp_free(*w); *w = NULL; return DRPM_ERR_OK; }

void harness(void)
{
    bool from_rpm = IDENT ? nd_bool() : vp_choose(0, 1);
    if (TYPE && !IDENT) VP_ASSUME(from_rpm);
    const char *a[3] = { from_rpm ? oldn : NULL, deltan, newn };
    bool args_bad = false;
    if (IDENT) {
        unsigned k = vp_choose(0, 3);
        if (k & 1) a[1] = NULL;
        if (k & 2) a[2] = NULL;
        args_bad = k != 0;
    }
    want_old_name = a[0];
    want_header_nevr = src_nevr;
    want_mode = DRPM_CHECK_NONE;

    src_nevr[0] = 'a'; old_nevr[0] = 'a';
    nd_bytes(seq, 16);
    seq_len = TYPE ? 16 : 17;
    memcpy(old_sig, seq, 16);
    old_has_md5 = true;
    if (IDENT) {
        for (int i = 0; i < 2; i++) { src_nevr[i] = nd_u8(); old_nevr[i] = nd_u8(); }
        old_has_md5 = nd_bool();
        tgt_is_source = nd_bool();
        seq_bad = nd_bool();
        old_sig[0] ^= nd_u8();
        old_sig[15] ^= nd_u8();
    }
    /* digests: arbitrary, recorded ones may be absent */
    nd_bytes(md5_out, 16);
    no_full = vp_choose(0, 1);
    bool differs = false;
    if (!no_full) {
        unsigned char x = nd_u8();
        memcpy(tgt_md5, md5_out, 16);
        unsigned char y = nd_u8();
        tgt_md5[0] ^= x;
        tgt_md5[15] ^= y;
        differs = (x | y) != 0;
        unsigned char any = 0;
        for (int i = 0; i < 16; i++) any |= tgt_md5[i];
        VP_ASSUME(any != 0);
    } else {
        unsigned char x = nd_u8(), y = nd_u8();
        memcpy(new_sig, md5_out, 16);
        new_sig[0] ^= x;
        new_sig[15] ^= y;
        new_has_md5 = nd_bool();
        differs = new_has_md5 && (x | y) != 0;
    }
    nd_bytes(leadsig, sizeof leadsig);
    nd_bytes(header, sizeof header);
    nd_bytes(cdata, sizeof cdata);
    header_len = nd_u32();
    tgt_comp = nd_u16();
    VP_ASSUME(tgt_comp <= DRPM_COMP_ZSTD);
    tgt_level = nd_u16();
    nd_bytes(old, EXT);
    nd_bytes(add, OUTMAX);
    nd_bytes(idata, INTMAX);

    nint = vp_choose(0, PROF ? COPIES : 1);
    cdatan = nint ? sizeof cdata : 0;
    next_ = vp_choose(0, COPIES);
    unsigned pos = 0;
    for (unsigned i = 0; i < next_; i++) {
        eoff[i] = PROF ? 3 * i % (EXT - CLEN + 1) : vp_choose(0, EXT);
        elen[i] = PROF ? vp_choose(0, 1) * CLEN : vp_choose(0, CLEN);
        VP_ASSUME(elen[i] <= EXT - eoff[i]);
        ejump[i] = (int32_t)eoff[i] - (int32_t)pos;
        pos = eoff[i] + elen[i];
    }
    unsigned used = 0;
    bool bad_todo = false;
    have_add = vp_choose(0, 1);
    unsigned char ref[OUTMAX + 1];
    unsigned refn = 0, addn = 0;
    for (unsigned i = 0; i < nint; i++) {
        ilen[i] = PROF ? vp_choose(0, CLEN) : 1;
        todo[i] = nd_u32();
        if (!bad_todo) {
            if (todo[i] > next_ - used) bad_todo = true;
            else {
                unsigned k = vp_choose(0, next_ - used);
                VP_ASSUME(todo[i] == k);
                for (; k > 0; k--, used++)
                    for (unsigned b = 0; b < elen[used]; b++)
                        ref[refn++] = old[eoff[used] + b] + (have_add ? add[addn++] : 0);
            }
        }
        for (unsigned b = 0; b < ilen[i]; b++) ref[refn++] = idata[ilen_total + b];
        ilen_total += ilen[i];
    }
    addlen = have_add && addn > 0 ? addn - vp_choose(0, 1) : addn;     /* one byte short, perhaps */

    may_fail = md5_fail = vp_oom = FAIL;
    int e = drpm_apply(a[0], a[1], a[2]);

    VP_ASSERT(vp_live == 0 && rpms == 0 && blocks_live == 0 && decs == 0 && wraps == 0 && !is_open, "nothing left behind");
    if (args_bad) { VP_ASSERT(e == DRPM_ERR_ARGS && !created, "missing names are refused at once"); return; }
    if (failed || md5_failed || vp_oom_hit) { VP_ASSERT(e != DRPM_ERR_OK, "failures are reported"); return; }

    bool nodiff = TYPE && tgt_comp == DRPM_COMP_NONE && nint == 0 && next_ == 0;
    unsigned allowed = 0;
    if (!from_rpm && (TYPE || tgt_is_source)) allowed |= 1u << DRPM_ERR_ARGS;
    if (TYPE && from_rpm && !old_has_md5) allowed |= 1u << DRPM_ERR_FORMAT;
    if (TYPE && from_rpm && old_has_md5 && memcmp(seq, old_sig, 16) != 0) allowed |= 1u << DRPM_ERR_MISMATCH;
    if (strcmp(src_nevr, old_nevr) != 0) allowed |= 1u << DRPM_ERR_MISMATCH;
    if (!TYPE && seq_bad) allowed |= 1u << DRPM_ERR_MISMATCH;
    if (differs) allowed |= 1u << DRPM_ERR_MISMATCH;
    if (bad_todo || addlen < addn) allowed |= 1u << DRPM_ERR_FORMAT;
#if IDENT
    if (e == DRPM_ERR_MISMATCH) VP_REACH("mismatch");
    if (e == DRPM_ERR_ARGS) VP_REACH("not from the filesystem");
#elif !FAIL
    if (e == DRPM_ERR_FORMAT) VP_REACH("bad instructions");
#endif
    if (allowed) { VP_ASSERT(e >= 0 && e < 32 && (allowed >> e & 1), "what does not fit is refused, with the reason"); return; }
    VP_ASSERT(e == DRPM_ERR_OK, "applying succeeds");
    if (nodiff) {
        VP_ASSERT(whole && outn == 0 && !wrapped, "the package is written as a whole");
#if TYPE
        VP_REACH("whole");
#endif
        return;
    }
    VP_ASSERT(!whole && finished, "output finished");
    VP_ASSERT(TYPE || (expanded && hdr_format == 'c'), "cpio header of the new package");
    size_t hn = TYPE ? 0 : sizeof header;
    VP_ASSERT(outn == sizeof leadsig + hn, "lead, signature and header are written");
    VP_ASSERT(memcmp(out, leadsig, sizeof leadsig) == 0, "lead and signature");
    VP_ASSERT(memcmp(out + sizeof leadsig, header, hn) == 0, "header");
    VP_ASSERT(datan == refn, "length of the data");
    VP_ASSERT(memcmp(data, ref, refn) == 0, "data as instructed");
    size_t at = no_full ? 0 : sizeof leadsig;
    VP_ASSERT(md5_state == 2 && md5_n == at + hn + cdatan, "digest over what was written");
    VP_ASSERT(memcmp(md5_log, leadsig, at) == 0 && memcmp(md5_log + at, header, hn) == 0 && memcmp(md5_log + at + hn, cdata, cdatan) == 0, "digest over the bytes written, in order");
    if (refn >= (COPIES > 1 ? 4 : 2)) VP_REACH("rebuilt");
}
