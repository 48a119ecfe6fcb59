/* Z03: the package header stays uncompressed, everything after it is compressed.
 * The compression stream (Z01) is a log of what it was given; its output is
 * arbitrary, written to the same file in any portions. */
#include "vp.h"
#include "vp_mem.h"
void *vp_malloc(size_t);
#include "drpm.h"
#include "drpm_private.h"
#include <unistd.h>

#define MAXB 16
static unsigned char file[2 * MAXB], in[MAXB], out[4];
static size_t flen, inlen, outlen, outdone;
static int opened;
static bool failed, finished;
struct compstrm { int x; };
static struct compstrm strm;

static bool fails(void) { if (FAIL && nd_bool()) { failed = true; return true; } return false; }
int compstrm_init(struct compstrm **s, int fd, unsigned short comp, int level)
{
    VP_ASSERT(fd == 6 && comp == 3 && level == 5, "stream as asked for");
    if (fails()) { *s = NULL; return DRPM_ERR_MEMORY; }
    VP_ASSERT(!opened, "opened once");
    opened = 1;
    *s = &strm;
    return DRPM_ERR_OK;
}
static void emit(size_t n) { while (n--) { VP_ASSERT(flen < sizeof file, "room"); file[flen++] = out[outdone++]; } }
int compstrm_write(struct compstrm *s, size_t n, const void *b)
{
    VP_ASSERT(s == &strm && opened && !finished, "open stream");
    if (n == 0) return DRPM_ERR_OK;
    VP_ASSERT(b != NULL, "data");
    if (fails()) return DRPM_ERR_IO;
    for (size_t i = 0; i < n; i++) { VP_ASSERT(inlen < MAXB, "room"); in[inlen++] = ((const unsigned char *)b)[i]; }
    emit(vp_choose(0, outlen - outdone));
    return DRPM_ERR_OK;
}
int compstrm_finish(struct compstrm *s, unsigned char **data, size_t *len)
{
    VP_ASSERT(s == &strm && opened && !finished, "open stream");
    *data = NULL;
    *len = 0;
    if (fails()) return DRPM_ERR_IO;
    finished = true;
    emit(outlen - outdone);
    if (outlen > 0) {
        if ((*data = vp_malloc(outlen)) == NULL) return DRPM_ERR_MEMORY;
        memcpy(*data, out, outlen);
        *len = outlen;
    }
    return DRPM_ERR_OK;
}
int compstrm_destroy(struct compstrm **s)
{
    VP_ASSERT(*s == &strm && opened, "destroyed once");
    opened = 0;
    *s = NULL;
    return DRPM_ERR_OK;
}
ssize_t vp_write(int fd, const void *b, size_t n)
{
    VP_ASSERT(fd == 6, "file");
    if (fails()) return nd_bool() ? -1 : (ssize_t)(n - 1);
    VP_ASSERT(flen + n <= sizeof file, "room");
    memcpy(file + flen, b, n);
    flen += n;
    return n;
}

void harness(void)
{
    extern bool vp_oom_hit;
    unsigned char data[MAXB];
    nd_bytes(data, MAXB);
    nd_bytes(out, sizeof out);
    outlen = vp_choose(0, 2);
    vp_oom = FAIL;
    size_t head = vp_choose(0, 4), total = 0;
    struct compstrm_wrapper *w = NULL;
    int e = compstrm_wrapper_init(&w, head, 6, 3, 5);
    if (e != DRPM_ERR_OK) {
        VP_ASSERT(FAIL && vp_live == 0 && !opened && w == NULL, "nothing left after failing");
        return;
    }
    bool bad = false;
    for (int i = 0; i < WRITES && !bad; i++) {
        size_t n = vp_choose(0, 3);
        if (compstrm_wrapper_write(w, data + total, n) != DRPM_ERR_OK) bad = true;
        else total += n;
    }
    VP_ASSERT(FAIL || !bad, "writing succeeds");
    unsigned char *res = NULL;
    size_t rl = 0;
    if (!bad) {
        e = compstrm_wrapper_finish(w, &res, &rl);
        if (e != DRPM_ERR_OK) bad = true;
        VP_ASSERT(FAIL || !bad || total < head, "finishing succeeds");
    }
    if (!bad) {
        size_t h = total < head ? total : head;
        VP_ASSERT(inlen == total - h, "everything after the header is compressed");
        for (size_t i = 0; i < inlen; i++) VP_ASSERT(in[i] == data[h + i], "compressed in order");
        VP_ASSERT(flen == h + outlen, "size of the output");
        for (size_t i = 0; i < h; i++) VP_ASSERT(file[i] == data[i], "header as it is");
        for (size_t i = 0; i < outlen; i++) VP_ASSERT(file[h + i] == out[i], "then what the compressor made");
        VP_ASSERT(rl == flen, "size of the data returned");
        for (size_t i = 0; i < rl; i++) VP_ASSERT(res[i] == file[i], "data returned is what was written");
        free(res);
        if (head == 4 && total > 4) VP_REACH("header and data");
    }
    if (failed || vp_oom_hit) VP_ASSERT(bad, "failures are reported");
    VP_ASSERT(compstrm_wrapper_destroy(&w) == DRPM_ERR_OK, "destroyed");
    VP_ASSERT(vp_live == 0 && !opened, "nothing left");
}
