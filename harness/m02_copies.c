/* M02: copies describe exactly the intended regions, for data of any size. */
#include "vp.h"
#include "vp_mem.h"
#define malloc vp_m_malloc   /* only create_int_data_array allocates itself */
static void *vp_m_malloc(size_t);
#include "drpm_diff.c"
#undef malloc

#ifndef REGIONS
#define REGIONS 2
#endif
/* limits in GiB */
#ifndef OFF
#define OFF 3
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef NLEN
#define NLEN 3
#endif
#define MAXC (REGIONS * ((OFF + LEN) / 2 + LEN / 2 + 2) + 1)
#define GIB(x) ((uint64_t)(x) << 30)

static uint32_t ebuf[2 * MAXC], ibuf[2 * MAXC];
static const unsigned char *ptrs[MAXC];
static void *vp_m_malloc(size_t n) { VP_ASSERT(n <= sizeof ptrs, "pointer array size"); return ptrs; }

/* fixed space instead of growing arrays; the growth itself is decided by M01 */
static void **first_;
bool resize16(void **p, size_t n, size_t m)
{
    VP_ASSERT(m == 4, "element size");
    VP_ASSERT(n + 2 <= 2 * MAXC, "number of copies");
    if (*p == NULL) {
        if (first_ == NULL) { first_ = p; *p = ebuf; }
        else *p = ibuf;
    }
    return true;
}
bool resize32(void **p, size_t n, size_t m) { return resize16(p, n, m); }

void harness(void)
{
    struct diff_copy r[REGIONS], w[REGIONS];
    for (int i = 0; i < REGIONS; i++) {
        r[i].old_off = nd_range(0, GIB(OFF));
        r[i].old_len = nd_range(0, GIB(LEN));
        r[i].new_off = nd_range(0, GIB(8));
        r[i].new_len = nd_range(0, GIB(NLEN));
        w[i] = r[i];
    }
    uint32_t *ec = NULL, *ic = NULL, ecn = 0, icn = 0;
    int err = create_diff_copies(r, REGIONS, &ec, &ecn, &ic, &icn);
    VP_ASSERT(err == DRPM_ERR_OK, "copies are made");
    VP_ASSERT(ecn <= MAXC && icn <= MAXC, "not more copies than needed");
    static unsigned char base[1];
    const unsigned char **id = NULL;
    uint64_t idl = 0, ptr[MAXC];
    err = create_int_data_array(r, base, ic, icn, &id, &idl);
    VP_ASSERT(err == DRPM_ERR_OK, "internal data array is made");
    for (int q = 0; q < MAXC; q++) ptr[q] = (uint64_t)((uintptr_t)ptrs[q] - (uintptr_t)base);
    uint64_t off = 0, total = 0;
    uint32_t e = 0;
    unsigned k = 0;
    bool big = false;
    uint32_t i = 0, j = 0;
    for (unsigned t = 0; t < 2 * MAXC && i < icn; t++) {
        uint32_t n;
        if (j < ic[2 * i]) {
            VP_ASSERT(e < ecn, "no more external copies used than there are");
            VP_ASSERT(ec[2 * e] != 0x80000000u && ec[2 * e + 1] <= 0x7fffffffu, "copy can be stored and carried out");
            off += (int64_t)(int32_t)ec[2 * e];
            n = ec[2 * e + 1];
            if (n) {
                if (k < REGIONS && w[k].old_len == 0 && w[k].new_len == 0) k++;
                if (k < REGIONS && w[k].old_len == 0 && w[k].new_len == 0) k++;
                VP_ASSERT(k < REGIONS && w[k].old_len >= n && w[k].old_off == off, "external copy is exactly the next part of the old region");
                w[k].old_len -= n;
                w[k].old_off += n;
            }
            off += n;
            j++; e++;
        } else {
            n = ic[2 * i + 1];
            total += n;
            if (n) {
                if (k < REGIONS && w[k].old_len == 0 && w[k].new_len == 0) k++;
                if (k < REGIONS && w[k].old_len == 0 && w[k].new_len == 0) k++;
                VP_ASSERT(k < REGIONS && w[k].old_len == 0 && w[k].new_len >= n && n <= 0x7fffffffu, "internal copy is exactly the next part of the new region");
                VP_ASSERT(ptr[i] == r[k].new_off + r[k].new_len - w[k].new_len, "internal copy points at its data");
                w[k].new_len -= n;
            }
            j = 0; i++;
        }
    }
    VP_ASSERT(i == icn && idl == total, "internal data length");
    while (k < REGIONS && w[k].old_len == 0 && w[k].new_len == 0) k++;
    VP_ASSERT(k == REGIONS && e == ecn, "every region is described completely");

#if LEN > 4
    if (r[0].old_len > 0xffffffffull && r[1].new_len > 0xffffffffull && r[1].old_len) VP_REACH("lengths beyond 4 GiB");
#else
    if (r[0].old_off > 0xffffffffull && r[1].old_off < 0xffff && r[1].old_len && r[0].old_len) VP_REACH("offsets beyond 4 GiB");
#endif
}
