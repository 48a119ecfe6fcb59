/* Decompression libraries by their documented contract: a stream of CLEN
 * compressed bytes (1..; may be longer than the input: truncated) stands for
 * OLEN output bytes; the library consumes input and hands out output in any
 * portions that its contract allows, and may find the data corrupt or run out
 * of memory at any call. */
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <lzlib.h>
#include <zstd.h>
#ifndef OMAX
#define OMAX 5
#endif
#ifndef INMAX
#define INMAX 16
#endif
static unsigned char c_out[OMAX + 1], c_inlog[INMAX];
static size_t c_olen, c_clen;              /* what the stream stands for */
static size_t c_used, c_given;             /* consumed / handed out so far */
static int c_open;                         /* library states open */
static bool c_failed, c_nomem, c_failures; /* reported corruption / memory; may fail */
static bool c_short;                       /* last byte is only consumed when all output is out */

static bool c_ended(void) { return c_used == c_clen && c_given == c_olen; }

/* one call: 0 ok, 1 end of stream, 2 corrupt, 3 out of memory */
static int codec_run(const void **in, size_t *in_len, void *out, size_t *out_len)
{
    VP_ASSERT(c_open == 1, "the stream is initialised");
    if (c_failures && nd_bool()) {
        if (nd_bool()) { c_failed = true; return 2; }
        c_nomem = true;
        return 3;
    }
    if (c_ended()) return 1;
    size_t in_can = c_clen - c_used, out_can = c_olen - c_given;
    if (in_can > *in_len) in_can = *in_len;
    size_t k, p;
    if (out_can >= *out_len && *out_len > 0 && (out_can > *out_len || nd_bool())) {
        /* output space ends the call */
        p = *out_len;
        k = vp_choose(0, in_can);
        if (c_short && c_given + p < c_olen) VP_ASSUME(c_used + k < c_clen);
    } else {
        /* input is used up */
        k = in_can;
        if (c_used + k == c_clen) {
            p = out_can;
            VP_ASSUME(p <= *out_len);
        } else {
            p = out_can < *out_len ? out_can : *out_len;
            p = vp_choose(0, p);
        }
    }
    if (c_used == 0 && p > 0) VP_ASSUME(k > 0);
    for (size_t i = 0; i < k; i++) { VP_ASSERT(c_used < INMAX, "room"); c_inlog[c_used++] = ((const unsigned char *)*in)[i]; }
    for (size_t i = 0; i < p; i++) ((unsigned char *)out)[i] = c_out[c_given++];
    *in = (const unsigned char *)*in + k;
    *in_len -= k;
    *out_len -= p;
    return c_ended() ? 1 : 0;
}
static int codec_init(void)
{
    VP_ASSERT(c_open == 0, "opened once");
    if (c_failures && nd_bool()) { c_nomem = true; return 3; }
    c_open = 1;
    return 0;
}
static void codec_end(void) { VP_ASSERT(c_open == 1, "closed once, after it was opened"); c_open = 0; }

/* zlib */
int inflateInit2_(z_streamp s, int bits, const char *v, int n)
{
    VP_ASSERT(bits == 16 + MAX_WBITS, "gzip format");
    VP_ASSERT(s->zalloc == Z_NULL && s->zfree == Z_NULL, "default allocation");
    return codec_init() ? Z_MEM_ERROR : Z_OK;
}
int inflate(z_streamp s, int flush)
{
    const void *in = s->next_in; size_t a = s->avail_in, o = s->avail_out;
    int r = codec_run(&in, &a, s->next_out, &o);
    s->next_in = (unsigned char *)in; s->avail_in = a; s->next_out += s->avail_out - o; s->avail_out = o;
    return r == 0 ? Z_OK : r == 1 ? Z_STREAM_END : r == 2 ? (nd_bool() ? Z_DATA_ERROR : Z_NEED_DICT) : Z_MEM_ERROR;
}
int inflateEnd(z_streamp s) { codec_end(); return Z_OK; }

/* bzlib */
int BZ2_bzDecompressInit(bz_stream *s, int verb, int small)
{
    VP_ASSERT(s->bzalloc == NULL && s->bzfree == NULL, "default allocation");
    return codec_init() ? BZ_MEM_ERROR : BZ_OK;
}
int BZ2_bzDecompress(bz_stream *s)
{
    if (c_ended()) return BZ_SEQUENCE_ERROR;
    const void *in = s->next_in; size_t a = s->avail_in, o = s->avail_out;
    int r = codec_run(&in, &a, s->next_out, &o);
    s->next_in = (char *)in; s->avail_in = a; s->next_out += s->avail_out - o; s->avail_out = o;
    return r == 0 ? BZ_OK : r == 1 ? BZ_STREAM_END : r == 2 ? (nd_bool() ? BZ_DATA_ERROR : BZ_DATA_ERROR_MAGIC) : BZ_MEM_ERROR;
}
int BZ2_bzDecompressEnd(bz_stream *s) { codec_end(); return BZ_OK; }

/* liblzma */
lzma_ret lzma_auto_decoder(lzma_stream *s, uint64_t mem, uint32_t flags)
{
    VP_ASSERT(s->allocator == NULL && s->internal == NULL, "fresh stream");
    return codec_init() ? LZMA_MEM_ERROR : LZMA_OK;
}
lzma_ret lzma_code(lzma_stream *s, lzma_action act)
{
    VP_ASSERT(act == LZMA_RUN, "running");
    const void *in = s->next_in; size_t a = s->avail_in, o = s->avail_out;
    int r = codec_run(&in, &a, s->next_out, &o);
    s->next_in = in; s->avail_in = a; s->next_out += s->avail_out - o; s->avail_out = o;
    if (r == 2) switch (vp_choose(0, 2)) { case 0: return LZMA_DATA_ERROR; case 1: return LZMA_FORMAT_ERROR; default: return LZMA_OPTIONS_ERROR; }
    return r == 0 ? LZMA_OK : r == 1 ? LZMA_STREAM_END : LZMA_MEM_ERROR;
}
void lzma_end(lzma_stream *s) { codec_end(); }

/* zstd */
size_t ZSTD_DStreamOutSize(void) { return 3; }
ZSTD_DCtx *ZSTD_createDCtx(void) { static char c; return codec_init() ? NULL : (ZSTD_DCtx *)&c; }
size_t ZSTD_freeDCtx(ZSTD_DCtx *d) { codec_end(); return 0; }
size_t ZSTD_decompressStream(ZSTD_DStream *d, ZSTD_outBuffer *ob, ZSTD_inBuffer *ib)
{
    c_short = true;
    if (c_ended()) return (size_t)-10;       /* what follows the frame is not a frame */
    const void *in = (const char *)ib->src + ib->pos; size_t a = ib->size - ib->pos, o = ob->size - ob->pos;
    int r = codec_run(&in, &a, (char *)ob->dst + ob->pos, &o);
    ib->pos = ib->size - a; ob->pos = ob->size - o;
    return r == 0 ? 1 : r == 1 ? 0 : (size_t)-10;
}
unsigned ZSTD_isError(size_t c) { return c > (size_t)-100; }

/* lzlib */
static bool l_finish;
static int l_err;
struct LZ_Decoder *LZ_decompress_open(void) { static char c; if (codec_init()) { if (nd_bool()) return NULL; c_open = 1; l_err = 1; } return (struct LZ_Decoder *)&c; }
int LZ_decompress_close(struct LZ_Decoder *d) { codec_end(); return 0; }
enum LZ_Errno LZ_decompress_errno(struct LZ_Decoder *d) { return l_err == 1 ? LZ_mem_error : l_err == 2 ? LZ_data_error : l_err == 3 ? LZ_unexpected_eof : LZ_ok; }
int LZ_decompress_finish(struct LZ_Decoder *d) { l_finish = true; return 0; }
int LZ_decompress_finished(struct LZ_Decoder *d) { return l_finish && c_ended(); }
static bool l_full;
int LZ_decompress_write_size(struct LZ_Decoder *d) { l_full = c_used > 0 && c_given < c_olen && vp_choose(0, 1); return l_full ? 0 : 7; }
int LZ_decompress_write(struct LZ_Decoder *d, const uint8_t *b, int n)
{
    VP_ASSERT(!l_finish && n > 0, "writing allowed");
    static int partial;      /* not everything is taken, twice at most */
    size_t k = n;
    if (n > 1 && partial < 2 && vp_choose(0, 1)) { partial++; k = vp_choose(1, n - 1); }
    for (size_t i = 0; i < k; i++) if (c_used < c_clen) { VP_ASSERT(c_used < INMAX, "room"); c_inlog[c_used++] = b[i]; }
    return k;
}
int LZ_decompress_read(struct LZ_Decoder *d, uint8_t *b, int n)
{
    if (c_failures && nd_bool()) { c_failed = true; l_err = nd_bool() ? 1 : 2; return -1; }
    size_t can = c_olen - c_given;
    if (l_finish && c_used < c_clen && nd_bool()) { l_err = 3; return -1; }
    if (c_used == 0) can = 0;
    if (can > (size_t)n) can = n;
    size_t lo = 0;
    if (can && (l_full || l_finish)) lo = 1;
    if (l_finish && c_used < c_clen && can == 0) { l_err = 3; return -1; }
    size_t k = vp_choose(lo, can);
    for (size_t i = 0; i < k; i++) b[i] = c_out[c_given++];
    return k;
}
