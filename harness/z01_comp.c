/* Z01: compression streams pass on every byte to and from the compressor. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#include <unistd.h>
#include "codec_comp.h"

static unsigned char file[LOGMAX];
static size_t flen;
static bool io_err;
ssize_t vp_write(int fd, const void *b, size_t n)
{
    VP_ASSERT(fd == 6 && n > 0, "writes to its file");
    if (k_failures && nd_bool()) {
        io_err = true;
        return nd_bool() ? -1 : (ssize_t)(n - 1);
    }
    VP_ASSERT(flen + n <= LOGMAX, "room");
    memcpy(file + flen, b, n);
    flen += n;
    return n;
}

void harness(void)
{
    static const int comps[] = {DRPM_COMP_NONE, DRPM_COMP_GZIP, DRPM_COMP_BZIP2, DRPM_COMP_LZMA, DRPM_COMP_XZ, DRPM_COMP_LZIP, DRPM_COMP_ZSTD, 77};
    extern bool vp_oom_hit;
    nd_bytes(k_out, OMAX);
    k_olen = vp_choose(0, OMAX);
    k_failures = vp_oom = FAIL;
    int to_fd = vp_choose(0, 1) ? 6 : -1;
    int level = vp_choose(0, 1) ? DRPM_COMP_LEVEL_DEFAULT : (int)nd_u32();
    struct compstrm *s = NULL;
    int e = compstrm_init(&s, to_fd, comps[METHOD], level);
    if (e != DRPM_ERR_OK) {
        bool any = METHOD == 0 || METHOD == 5 || METHOD == 6;
        if (METHOD < 7 && !FAIL) VP_ASSERT(level < 0 || level > (any ? 99 : 9), "a stream of every method and level can be opened");
        VP_ASSERT(vp_live == 0 && k_open == 0 && s == NULL, "nothing left open");
        VP_REACH("refused");
        return;
    }
    VP_ASSERT(METHOD < 7, "unknown method is refused");
    VP_ASSERT(level >= 0 && level <= 99, "level is refused");
    VP_ASSERT(k_open == (METHOD != 0), "the compressor is open");
#if HUGE
    static unsigned char hb[1];
    uint64_t total = nd_range(1, (uint64_t)6 << 30);
    k_huge = hb;
    VP_ASSERT(compstrm_write(s, total, hb) == DRPM_ERR_OK && k_hugeused == total, "the compressor gets all of the data, however much it is");
    if (total > 0x100000000ull) VP_REACH("more than 4 GiB");
    compstrm_destroy(&s);
    return;
#endif
    unsigned char data[4 * WRITES], all[4 * WRITES + 8], b[8];
    size_t alln = 0;
    nd_bytes(data, sizeof data);
    bool bad = false;
    for (int i = 0; i < WRITES && !bad; i++) {
        size_t n = vp_choose(0, 3);
        if (i == 0 && METHOD < 2) {
            /* integers in network byte order */
            int w = vp_choose(0, 2);
            if (w == 1) { uint32_t v = nd_u32(); e = compstrm_write_be32(s, v); create_be32(v, b); n = 4; memcpy(all + alln, b, 4); }
            else if (w == 2) { uint64_t v = nd_u64(); e = compstrm_write_be64(s, v); create_be64(v, b); n = 8; memcpy(all + alln, b, 8); }
            else { e = compstrm_write(s, n, data); memcpy(all + alln, data, n); }
        } else {
            e = compstrm_write(s, n, data + 4 * i);
            memcpy(all + alln, data + 4 * i, n);
        }
        if (e != DRPM_ERR_OK) bad = true;
        else alln += n;
        VP_ASSERT(FAIL || !bad, "writing succeeds");
    }
    unsigned char *res = NULL;
    size_t rlen = 99;
    bool copy = vp_choose(0, 1);
    if (!bad) {
        e = compstrm_finish(s, copy ? &res : NULL, copy ? &rlen : NULL);
        if (e == DRPM_ERR_OK) {
            const unsigned char *o = METHOD ? k_out : all;
            size_t on = METHOD ? k_olen : alln;
            if (METHOD) {
                VP_ASSERT(k_done && k_used == alln, "the compressor got everything and was finished");
                for (size_t i = 0; i < alln; i++) VP_ASSERT(k_in[i] == all[i], "the compressor got the data in order");
            }
            if (copy) {
                VP_ASSERT(rlen == on, "everything is returned");
                for (size_t i = 0; i < on; i++) VP_ASSERT(res[i] == o[i], "the output is returned in order");
                free(res);
            }
            if (to_fd >= 0) {
                VP_ASSERT(flen == on, "everything is written");
                for (size_t i = 0; i < on; i++) VP_ASSERT(file[i] == o[i], "the output is written in order");
            }
            if (alln >= 4 && on >= 4) VP_REACH("done");
            VP_ASSERT(compstrm_finish(s, NULL, NULL) != DRPM_ERR_OK && compstrm_write(s, 1, data) != DRPM_ERR_OK, "finished only once");
        } else {
            VP_ASSERT(FAIL, "finishing succeeds");
            if (copy) free(res);
            bad = true;
        }
    }
    if (k_failed || io_err || vp_oom_hit) VP_ASSERT(bad, "failures are reported");
    VP_ASSERT(compstrm_destroy(&s) == DRPM_ERR_OK && s == NULL, "destroyed");
    VP_ASSERT(vp_live == 0, "nothing left allocated");
    VP_ASSERT(k_open == 0, "the compressor is closed");
}
