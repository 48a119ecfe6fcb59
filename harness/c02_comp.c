/* compression identifiers */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"
int rpm_destroy(struct rpm **r) { (void)r; return 0; }

void harness(void)
{
    unsigned short comp = nd_u16(), level = nd_u16(), c2 = 0xAAAA, l2 = 0xAAAA;
    VP_ASSUME(level <= 255);
    uint32_t id = 0x12345678;
    bool known = comp == DRPM_COMP_NONE || comp == DRPM_COMP_GZIP || comp == DRPM_COMP_BZIP2 || comp == DRPM_COMP_LZMA || comp == DRPM_COMP_XZ
#ifdef WITH_ZSTD
        || comp == DRPM_COMP_ZSTD
#endif
        ;
    bool ok = deltarpm_encode_comp(&id, comp, level);
    VP_ASSERT(ok == known, "exactly the storable methods are encoded");
    if (ok) {
        bool dec = deltarpm_decode_comp(id, &c2, &l2);
        VP_ASSERT(dec && c2 == comp && l2 == level, "decoding gives the same method and level");
        unsigned short c3 = 0xAAAA;
        VP_ASSERT(deltarpm_decode_comp(id, &c3, NULL) && c3 == comp, "the level is optional");
        VP_ASSERT(id >> 16 == 0, "only method and level are stored");
        VP_REACH("roundtrip");
    } else VP_ASSERT(id == 0x12345678, "nothing is returned for a method that cannot be stored");

    /* deltarpm's own numbering */
    uint32_t any = nd_u32();
    unsigned short ac = 0xAAAA, al = 0xAAAA;
    bool adec = deltarpm_decode_comp(any, &ac, &al);
    static const int map[8] = {DRPM_COMP_NONE, DRPM_COMP_GZIP, DRPM_COMP_BZIP2, DRPM_COMP_GZIP, DRPM_COMP_BZIP2, DRPM_COMP_LZMA, DRPM_COMP_XZ,
#ifdef WITH_ZSTD
        DRPM_COMP_ZSTD
#else
        -1
#endif
    };
    unsigned algo = any & 255;
    VP_ASSERT(adec == (algo < 8 && map[algo] >= 0), "exactly the known identifiers are decoded");
    if (adec) { VP_ASSERT(ac == map[algo] && al == ((any >> 8) & 255), "method and level of an identifier"); VP_REACH("decode"); }
    else { VP_ASSERT(ac == 0xAAAA && al == 0xAAAA, "nothing is returned for an unknown identifier"); VP_REACH("unknown"); }
}
