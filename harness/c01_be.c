/* Integer codecs: big-endian parse/create are inverse for every value, and
 * they put the most significant byte first. */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"

static unsigned char md5_in[16];
static size_t md5_in_len;
int MD5_Update(MD5_CTX *c, const void *p, size_t n)
{
    (void)c;
    VP_ASSERT(n <= 16 - md5_in_len, "md5 update length");
    memcpy(md5_in + md5_in_len, p, n);
    md5_in_len += n;
    return 1;
}

void harness(void)
{
    unsigned char b[10];
    uint32_t v32 = nd_u32();
    uint64_t v64 = nd_u64();

    nd_bytes(b, sizeof b);
    unsigned char g0 = b[0], g9 = b[9];
    create_be32(v32, b + 1);
    VP_ASSERT(b[1] == (v32 >> 24) && b[2] == ((v32 >> 16) & 0xff) &&
              b[3] == ((v32 >> 8) & 0xff) && b[4] == (v32 & 0xff), "create_be32 is network byte order");
    VP_ASSERT(parse_be32(b + 1) == v32, "be32 round trip");
    create_be64(v64, b + 1);
    for (int i = 0; i < 8; i++)
        VP_ASSERT(b[1 + i] == (unsigned char)(v64 >> (56 - 8 * i)), "create_be64 is network byte order");
    VP_ASSERT(parse_be64(b + 1) == v64, "be64 round trip");
    VP_ASSERT(b[0] == g0 && b[9] == g9, "no byte outside the field is touched");
    VP_ASSERT(parse_be16(b + 1) == (((unsigned)b[1] << 8) | b[2]), "be16 is network byte order");

    MD5_CTX ctx;
    memset(&ctx, 0, sizeof ctx);
    VP_ASSERT(md5_update_be32(&ctx, v32) == 1 && md5_in_len == 4 && parse_be32(md5_in) == v32,
              "md5_update_be32 feeds the four big-endian bytes");
    VP_REACH("end");
}
