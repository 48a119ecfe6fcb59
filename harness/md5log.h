/* MD5 as an opaque function: what is fed in is logged, the digest is chosen by
 * the harness (md5_out) when it asks for it. */
#include <openssl/md5.h>
#ifndef MD5_LOGMAX
#define MD5_LOGMAX 512
#endif
static unsigned char md5_log[MD5_LOGMAX], md5_out[MD5_DIGEST_LENGTH];
static size_t md5_n;
static int md5_state;
static bool md5_fail, md5_failed;
int MD5_Init(MD5_CTX *c)
{
    if (md5_fail && nd_bool()) { md5_failed = true; return 0; }
    VP_ASSERT(md5_state == 0, "one digest at a time");
    md5_state = 1;
    md5_n = 0;
    c->num = 77;
    return 1;
}
int MD5_Update(MD5_CTX *c, const void *d, size_t n)
{
    if (md5_fail && nd_bool()) { md5_failed = true; return 0; }
    VP_ASSERT(md5_state == 1 && c->num == 77, "digest started");
    VP_ASSERT(n <= MD5_LOGMAX - md5_n, "room in the log");
    for (size_t i = 0; i < n; i++) md5_log[md5_n++] = ((const unsigned char *)d)[i];
    return 1;
}
int MD5_Final(unsigned char *out, MD5_CTX *c)
{
    if (md5_fail && nd_bool()) { md5_failed = true; return 0; }
    VP_ASSERT(md5_state == 1 && c->num == 77, "digest started");
    md5_state = 2;
    for (int i = 0; i < MD5_DIGEST_LENGTH; i++) out[i] = md5_out[i];
    return 1;
}
