/* A03/A04: drpm_check() and drpm_check_sequence() over the contracts of the
 * delta reader, package access and sequence expansion. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#include <limits.h>
#include "apply_env.h"

#ifndef PRE         /* arbitrary characters in front */
#define PRE 3
#endif
#ifndef FAIL
#define FAIL 0
#endif
static const char oldn[] = "o", deltan[] = "d";
static char name[PRE + 40];
static char src_nevr[4];
static int type;
static void *dup_(const void *p, size_t n) { void *q = vp_malloc(n ? n : 1); if (q && n) memcpy(q, p, n); return q; }
static bool ishex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static unsigned hexval(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static bool delta_read;
int read_deltarpm(struct deltarpm *d, const char *n)
{
    VP_ASSERT(n == deltan, "the delta is read");
    delta_read = true;
    if (fails()) return anyerr();
    d->type = type;
    if (type == DRPM_TYPE_RPMONLY) d->head.tgt_nevr = dup_("x", 2);
    else d->head.tgt_rpm = rpm_new(TGT);
    d->src_nevr = dup_(src_nevr, sizeof src_nevr);
    d->sequence = dup_(seq, d->sequence_len = seq_len);
    bool bad = !d->src_nevr || !d->sequence || (type == DRPM_TYPE_RPMONLY ? !d->head.tgt_nevr : !d->head.tgt_rpm);
    return bad ? DRPM_ERR_MEMORY : DRPM_ERR_OK;
}

void harness(void)
{
    unsigned allowed = 0;
    int mode = (int)nd_u32(), e;
    bool mode_ok;
    const char *oldname = NULL;
    want_mode = mode;
    for (int i = 0; i < 2; i++) { src_nevr[i] = nd_u8(); old_nevr[i] = nd_u8(); }
    seq_bad = nd_bool();
#if CHECK == 0          /* a delta */
    bool noname = vp_choose(0, 1);
    type = vp_choose(0, 1) ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
    nd_bytes(seq, 16);
    seq_len = type == DRPM_TYPE_RPMONLY ? 16 : 17;
    want_header_nevr = src_nevr;
    may_fail = vp_oom = FAIL;
    e = drpm_check(noname ? NULL : deltan, mode);
    mode_ok = !noname && (mode == DRPM_CHECK_FILESIZES || mode == DRPM_CHECK_FULL);
    bool need = type == DRPM_TYPE_STANDARD;
#else                   /* a sequence identifier */
    unsigned pre = vp_choose(0, PRE), hex = vp_choose(0, 4);
    hex = hex ? 30 + hex : 0;
    for (unsigned i = 0; i < pre; i++) { name[i] = nd_u8(); VP_ASSUME(name[i] != 0); }
    for (unsigned i = 0; i < hex; i++) name[pre + i] = "0f9aA5F1"[i % 8];
    if (hex) {
        /* one arbitrary character somewhere */
        unsigned at = vp_choose(0, 3);
        at = at == 0 ? 0 : at == 1 ? hex / 2 : hex - 4 + at;
        name[pre + at] = nd_u8();
        VP_ASSUME(name[pre + at] != 0);
    }
    bool noname = vp_choose(0, 1);
    if (vp_choose(0, 1)) oldname = oldn;
    want_old_name = oldname;
    /* what it should be taken for */
    unsigned dash = 0, total = pre + hex;
    for (unsigned i = 0; i < total; i++) if (name[i] == '-') dash = i;
    bool wf = dash > 0 && total - dash - 1 >= 32;
    /* the end of the line the identifier was read from is ignored; any other half a byte may be */
    if (wf && (total - dash - 1) % 2 && name[--total] != '\n') allowed |= 1u << DRPM_ERR_FORMAT;
    seq_len = 0;
    static char wantname[PRE + 40];
    if (wf) {
        for (unsigned i = dash + 1; i < total; i += 2) {
            if (!ishex(name[i]) || !ishex(name[i + 1])) wf = false;
            seq[seq_len++] = hexval(name[i]) << 4 | hexval(name[i + 1]);
        }
        for (unsigned i = 0; i < dash; i++) wantname[i] = name[i];
    }
    want_header_nevr = wantname;
    memcpy(src_nevr, wantname, 3);      /* names longer than any package's here differ anyway */
    bool fits = dash <= 3;
    for (int i = 0; i < 16; i++) old_sig[i] = seq[i];
    old_sig[0] ^= nd_u8();
    old_sig[15] ^= nd_u8();
    old_has_md5 = nd_bool();
    may_fail = vp_oom = FAIL;
    e = drpm_check_sequence(oldname, noname ? NULL : name, mode);
    mode_ok = !noname && (oldname ? mode == DRPM_CHECK_NONE : mode == DRPM_CHECK_NONE || mode == DRPM_CHECK_FILESIZES || mode == DRPM_CHECK_FULL);
    bool need = !(oldname && seq_len == 16 && old_has_md5 && memcmp(old_sig, seq, 16) == 0);
#endif
    VP_ASSERT(vp_live == 0 && rpms == 0, "nothing left behind");
    if (!mode_ok) { VP_ASSERT(e == DRPM_ERR_ARGS && !delta_read && !expanded, "bad arguments are refused at once"); return; }
    if (failed || vp_oom_hit) { VP_ASSERT(e != DRPM_ERR_OK, "failures are reported"); return; }
#if CHECK
    if (!wf) {
        VP_ASSERT(e == DRPM_ERR_FORMAT && !expanded, "what is no sequence identifier is refused");
        VP_REACH("refused");
        return;
    }
    if (!fits || strcmp(wantname, old_nevr) != 0) allowed |= 1u << DRPM_ERR_MISMATCH;
#else
    if (strcmp(src_nevr, old_nevr) != 0) allowed |= 1u << DRPM_ERR_MISMATCH;
#endif
    if (need && seq_bad) allowed |= 1u << DRPM_ERR_MISMATCH;
    if (e == DRPM_ERR_MISMATCH) VP_REACH("mismatch");
    if (allowed == 1u << DRPM_ERR_FORMAT && e == DRPM_ERR_OK) return;
    if (allowed) { VP_ASSERT(e >= 0 && e < 32 && (allowed >> e & 1), "what does not fit is refused, with the reason"); return; }
    VP_ASSERT(e == DRPM_ERR_OK && expanded == need, "confirmed, after looking at the files");
    VP_REACH("confirmed");
}
