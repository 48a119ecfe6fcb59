/* Compression libraries by their documented contract: what they are given is
 * logged, and they hand out arbitrary bytes in any portions their contract
 * allows: a call ends because its input is used up or its output space is
 * full; finishing ends when everything is out. */
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <lzlib.h>
#include <zstd.h>
#ifndef OMAX
#define OMAX 5
#endif
#define LOGMAX 24
static unsigned char k_in[LOGMAX], k_out[OMAX + 1];
static size_t k_used, k_given, k_olen;
static int k_open;
static bool k_finishing, k_done, k_failed, k_failures;
static const unsigned char *k_huge;            /* a buffer that is too large to look into */
static uint64_t k_hugeused;

static int codec_open(bool bad_level)
{
    VP_ASSERT(k_open == 0, "opened once");
    if (bad_level) return 4;
    if (k_failures && nd_bool()) { k_failed = true; return 3; }
    k_open = 1;
    return 0;
}
static void codec_close(void) { VP_ASSERT(k_open == 1, "closed once, after it was opened"); k_open = 0; }

/* 0 ok, 1 finished, 3 failure */
static int codec_run(const void **in, size_t *in_len, void *out, size_t *out_len, bool finish, bool can_fail)
{
    VP_ASSERT(k_open == 1, "the stream is initialised");
    if (finish) { VP_ASSERT(*in_len == 0, "nothing new when finishing"); k_finishing = true; }
    else VP_ASSERT(!k_finishing, "nothing is compressed after finishing");
    if (can_fail && k_failures && nd_bool()) { k_failed = true; return 3; }
    size_t out_can = k_olen - k_given, k, p;
    if (finish) {
        k = 0;
        if (out_can > *out_len) p = *out_len;
        else p = out_can;
    } else if (out_can >= *out_len && nd_bool()) {
        p = *out_len;                              /* output space is used up */
        k = k_huge ? 0 : vp_choose(0, *in_len);
    } else {
        k = *in_len;                               /* input is used up */
        p = out_can < *out_len ? out_can : *out_len;
        if (p == *out_len) p--;
        p = vp_choose(0, p);
    }
    if (k_huge) {
        VP_ASSERT((const unsigned char *)*in == k_huge + k_hugeused || k == 0, "the next input");
        k_hugeused += k;
    } else
        for (size_t i = 0; i < k; i++) { VP_ASSERT(k_used < LOGMAX, "room"); k_in[k_used++] = ((const unsigned char *)*in)[i]; }
    for (size_t i = 0; i < p; i++) ((unsigned char *)out)[i] = k_out[k_given++];
    *in = (const unsigned char *)*in + k;
    *in_len -= k;
    *out_len -= p;
    if (finish && k_given == k_olen) { k_done = true; return 1; }
    return 0;
}

/* zlib */
int deflateInit2_(z_streamp s, int level, int m, int bits, int mem, int strat, const char *v, int n)
{
    VP_ASSERT(m == Z_DEFLATED && bits == 16 + MAX_WBITS, "gzip format");
    VP_ASSERT(s->zalloc == Z_NULL && s->zfree == Z_NULL, "default allocation");
    int r = codec_open(level < -1 || level > 9);
    return r == 0 ? Z_OK : r == 4 ? Z_STREAM_ERROR : nd_bool() ? Z_MEM_ERROR : Z_VERSION_ERROR;
}
int deflate(z_streamp s, int flush)
{
    VP_ASSERT(flush == Z_NO_FLUSH || flush == Z_FINISH, "flush mode");
    const void *in = s->next_in; size_t a = s->avail_in, o = s->avail_out;
    int r = codec_run(&in, &a, s->next_out, &o, flush == Z_FINISH, false);
    s->next_in = (unsigned char *)in; s->avail_in = a; s->next_out += s->avail_out - o; s->avail_out = o;
    return r ? Z_STREAM_END : Z_OK;
}
int deflateEnd(z_streamp s) { codec_close(); return Z_OK; }

/* bzlib */
int BZ2_bzCompressInit(bz_stream *s, int level, int verb, int work)
{
    VP_ASSERT(s->bzalloc == NULL && s->bzfree == NULL, "default allocation");
    int r = codec_open(level < 1 || level > 9);
    return r == 0 ? BZ_OK : r == 4 ? BZ_PARAM_ERROR : nd_bool() ? BZ_MEM_ERROR : BZ_CONFIG_ERROR;
}
int BZ2_bzCompress(bz_stream *s, int action)
{
    VP_ASSERT(action == BZ_RUN || action == BZ_FINISH, "action");
    if (k_done) return BZ_SEQUENCE_ERROR;
    if (action == BZ_RUN && s->avail_in == 0) { s->avail_in = 0; }
    const void *in = s->next_in; size_t a = s->avail_in, o = s->avail_out;
    int r = codec_run(&in, &a, s->next_out, &o, action == BZ_FINISH, false);
    s->next_in = (char *)in; s->avail_in = a; s->next_out += s->avail_out - o; s->avail_out = o;
    return r ? BZ_STREAM_END : action == BZ_FINISH ? BZ_FINISH_OK : BZ_RUN_OK;
}
int BZ2_bzCompressEnd(bz_stream *s) { codec_close(); return BZ_OK; }

/* liblzma */
lzma_bool lzma_lzma_preset(lzma_options_lzma *o, uint32_t level)
{
    if (level > 9) return 1;
    o->dict_size = 4096;
    return 0;
}
lzma_ret lzma_alone_encoder(lzma_stream *s, const lzma_options_lzma *o)
{
    VP_ASSERT(s->allocator == NULL && s->internal == NULL, "fresh stream");
    VP_ASSERT(o->dict_size == 4096, "options were filled in");
    int r = codec_open(false);
    return r == 0 ? LZMA_OK : nd_bool() ? LZMA_MEM_ERROR : LZMA_OPTIONS_ERROR;
}
lzma_ret lzma_easy_encoder(lzma_stream *s, uint32_t level, lzma_check c)
{
    VP_ASSERT(s->allocator == NULL && s->internal == NULL, "fresh stream");
    int r = codec_open(level > 9);
    return r == 0 ? LZMA_OK : r == 4 ? LZMA_OPTIONS_ERROR : nd_bool() ? LZMA_MEM_ERROR : LZMA_UNSUPPORTED_CHECK;
}
lzma_ret lzma_code(lzma_stream *s, lzma_action act)
{
    VP_ASSERT(act == LZMA_RUN || act == LZMA_FINISH, "action");
    const void *in = s->next_in; size_t a = s->avail_in, o = s->avail_out;
    int r = codec_run(&in, &a, s->next_out, &o, act == LZMA_FINISH, true);
    s->next_in = in; s->avail_in = a; s->next_out += s->avail_out - o; s->avail_out = o;
    return r == 0 ? LZMA_OK : r == 1 ? LZMA_STREAM_END : nd_bool() ? LZMA_MEM_ERROR : LZMA_PROG_ERROR;
}
void lzma_end(lzma_stream *s) { codec_close(); }

/* zstd */
size_t ZSTD_CStreamOutSize(void) { return 2; }
ZSTD_CCtx *ZSTD_createCCtx(void) { static char c; return codec_open(false) ? NULL : (ZSTD_CCtx *)&c; }
size_t ZSTD_freeCCtx(ZSTD_CCtx *d) { codec_close(); return 0; }
size_t ZSTD_CCtx_setParameter(ZSTD_CCtx *c, ZSTD_cParameter p, int v)
{
    VP_ASSERT(p == ZSTD_c_compressionLevel, "only the level is set");
    if (k_failures && nd_bool()) { k_failed = true; return (size_t)-42; }
    return 0;
}
size_t ZSTD_compressStream2(ZSTD_CCtx *c, ZSTD_outBuffer *ob, ZSTD_inBuffer *ib, ZSTD_EndDirective d)
{
    VP_ASSERT(d == ZSTD_e_continue || d == ZSTD_e_end, "directive");
    const void *in = (const char *)ib->src + ib->pos; size_t a = ib->size - ib->pos, o = ob->size - ob->pos;
    int r = codec_run(&in, &a, (char *)ob->dst + ob->pos, &o, d == ZSTD_e_end, true);
    ib->pos = ib->size - a; ob->pos = ob->size - o;
    return r == 3 ? (size_t)-1 : r == 1 ? 0 : d == ZSTD_e_end ? k_olen - k_given : (size_t)nd_range(0, 9);
}
unsigned ZSTD_isError(size_t c) { return c > (size_t)-100; }

/* lzlib */
static int l_err;
static bool l_full;
struct LZ_Encoder *LZ_compress_open(int dict, int match, unsigned long long member)
{
    static char c;
    if (codec_open(false)) { if (nd_bool()) return NULL; k_open = 1; l_err = 1; }
    return (struct LZ_Encoder *)&c;
}
int LZ_compress_close(struct LZ_Encoder *d) { codec_close(); return 0; }
enum LZ_Errno LZ_compress_errno(struct LZ_Encoder *d) { return l_err == 1 ? LZ_mem_error : l_err == 2 ? LZ_library_error : LZ_ok; }
int LZ_compress_finish(struct LZ_Encoder *d) { VP_ASSERT(k_open, "open"); k_finishing = true; if (k_given == k_olen) k_done = true; return 0; }
int LZ_compress_finished(struct LZ_Encoder *d) { return k_finishing && k_given == k_olen; }
int LZ_compress_write_size(struct LZ_Encoder *d) { l_full = k_used > 0 && k_given < k_olen && vp_choose(0, 1); return l_full ? 0 : 7; }
int LZ_compress_write(struct LZ_Encoder *d, const uint8_t *b, int n)
{
    VP_ASSERT(k_open && !k_finishing && !l_full && n > 0, "writing allowed");
    if (k_failures && nd_bool()) { k_failed = true; l_err = 2; return -1; }
    static int partial;      /* not everything is taken, twice at most */
    size_t k = n;
    if (!k_huge && n > 1 && partial < 2 && vp_choose(0, 1)) { partial++; k = vp_choose(1, n - 1); }
    if (k_huge) { VP_ASSERT(b == k_huge + k_hugeused, "the next input"); k_hugeused += k; }
    else for (size_t i = 0; i < k; i++) { VP_ASSERT(k_used < LOGMAX, "room"); k_in[k_used++] = b[i]; }
    return k;
}
int LZ_compress_read(struct LZ_Encoder *d, uint8_t *b, int n)
{
    VP_ASSERT(k_open, "open");
    if (k_failures && nd_bool()) { k_failed = true; l_err = vp_choose(0, 2); return -1; }
    size_t can = k_olen - k_given;
    if (can > (size_t)n) can = n;
    size_t k = vp_choose(can && (l_full || k_finishing) ? 1 : 0, can);
    l_full = false;
    for (size_t i = 0; i < k; i++) b[i] = k_out[k_given++];
    if (k_finishing && k_given == k_olen) k_done = true;
    return k;
}
