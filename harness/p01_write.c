/* P01: the text of an archive entry header. */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"
#include "vp_sprintf.h"

static char hexdig(unsigned v) { v &= 15; return v + (v > 9 ? 'a' - 10 : '0'); }
void harness(void)
{
    struct cpio_header h;
    h.ino = nd_u16(); h.mode = nd_u16(); h.uid = nd_u16(); h.gid = nd_u16(); h.nlink = nd_u16();
    h.mtime = nd_u32(); h.filesize = nd_u32();
    h.devmajor = nd_u8(); h.devminor = nd_u8(); h.rdevmajor = nd_u8(); h.rdevminor = nd_u8();
    h.namesize = nd_u16();
    unsigned f[13] = { h.ino, h.mode, h.uid, h.gid, h.nlink, h.mtime, h.filesize, h.devmajor, h.devminor, h.rdevmajor, h.rdevminor, h.namesize, 0 };
    char *b = vp_alloc(111);
    cpio_header_write(&h, b);
    VP_ASSERT(b[0] == '0' && b[1] == '7' && b[2] == '0' && b[3] == '7' && b[4] == '0' && b[5] == '1', "magic of the new ASCII format");
    bool ok = true;
    for (int i = 0; i < 13; i++)
        for (int d = 0; d < 8; d++)
            ok &= b[6 + 8 * i + d] == hexdig(f[i] >> (28 - 4 * d));
    VP_ASSERT(ok, "every field in its place");
    VP_ASSERT(b[110] == 0, "nothing more");
    VP_REACH("written");
}
