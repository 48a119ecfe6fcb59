/* P01: reading arbitrary text as an archive entry header. */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"

static int val(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
void harness(void)
{
    char *b = vp_alloc(110);
    nd_bytes((unsigned char *)b, 110);
    bool ok = b[0] == '0' && b[1] == '7' && b[2] == '0' && b[3] == '7' && b[4] == '0' && b[5] == '1';
    unsigned f[12];
    for (int i = 0; i < 12; i++) {
        f[i] = 0;
        for (int d = 0; d < 8; d++) {
            int v = val(b[6 + 8 * i + d]);
            if (v < 0) ok = false;
            f[i] = f[i] << 4 | (v & 15);
        }
    }
    struct cpio_header h = {0};
    int e = cpio_header_read(&h, b);
    VP_ASSERT((e == DRPM_ERR_OK) == ok, "accepted exactly if it is a header");
    VP_ASSERT(e == DRPM_ERR_OK || e == DRPM_ERR_FORMAT, "otherwise wrong format");
    if (e != DRPM_ERR_OK) { VP_REACH("refused"); return; }
    VP_REACH("read");
    VP_ASSERT(h.filesize == f[6], "file size");
    VP_ASSERT(h.mtime == f[5], "time");
    VP_ASSERT(h.namesize == (uint16_t)f[11], "name size");
    VP_ASSERT(h.ino == (uint16_t)f[0] && h.mode == (uint16_t)f[1] && h.uid == (uint16_t)f[2] && h.gid == (uint16_t)f[3] && h.nlink == (uint16_t)f[4], "numbers");
    VP_ASSERT(h.devmajor == (uint8_t)f[7] && h.devminor == (uint8_t)f[8] && h.rdevmajor == (uint8_t)f[9] && h.rdevminor == (uint8_t)f[10], "devices");
}
