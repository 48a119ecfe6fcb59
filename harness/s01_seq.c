/* S01: any list of file positions survives encoding. The encoder is used as
 * parse_cpio_from_rpm_filedata() uses it; the decoder is the reference that
 * S02 decides expand_sequence() against. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm_make.c"
#include "seqref.h"

void harness(void)
{
    size_t out[MAXPOS], n = 0, got = 0;
    struct files_seq seq = SEQ_INIT;
    unsigned char *buf = NULL;
    size_t len = 0;
    extern bool vp_oom_hit;
    size_t want[MAXPOS], next = 0;
    vp_oom = FAIL;
    int e = DRPM_ERR_OK;
#ifdef FIXED
    size_t runs = vp_choose(RUNS - 1, RUNS);
#else
    size_t runs = vp_choose(0, RUNS);
#endif
    for (size_t i = 0; i < runs && e == DRPM_ERR_OK; i++) {
        /* a run of positions starting anywhere (an archive lists each file, in any order) */
#ifdef FIXED    /* many positions far apart; only the last is arbitrary */
        size_t pos = i + 1 == runs ? nd_u32() : i % 2 ? i : MAXVAL - 1 - i;
        if (i + 1 == runs) VP_ASSUME(pos > RUNS && pos < MAXVAL - 1 - RUNS);
#else
        size_t pos = nd_u32();
        if (i > 0 && nd_bool()) { VP_ASSUME(pos > 0); pos += next; }    /* further on */
        else VP_ASSUME(i == 0 || pos < next);                           /* or back */
        VP_ASSUME(pos < MAXVAL);
#endif
        size_t l = vp_choose(1, i == 0 ? LEN : 2);
        for (size_t k = 0; k < l && e == DRPM_ERR_OK; k++) {
            want[n++] = pos + k;
            e = seq_add(&seq, pos + k);
        }
        next = pos + l;
    }
    if (e == DRPM_ERR_OK) e = seq_final(&seq, &buf, &len);
    VP_ASSERT((e == DRPM_ERR_OK) == !vp_oom_hit, "fails only for lack of memory");
    if (e != DRPM_ERR_OK) { free(seq.data); VP_ASSERT(vp_live == 0, "nothing lost"); return; }
    VP_ASSERT(n == 0 || len > 0, "something was encoded");
    int r = seq_decode(buf, len, (size_t)1 << 32, out, MAXPOS, &got);
    VP_ASSERT(r == DRPM_ERR_OK, "what was encoded can be decoded");
    VP_ASSERT(got == n, "as many positions");
    bool same = true;
    for (size_t i = 0; i < n; i++) same &= out[i] == want[i];
    VP_ASSERT(same, "the same positions in the same order");
    if (runs == RUNS) VP_REACH("runs");
    free(seq.data);
}
