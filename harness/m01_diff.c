/* M01: the instructions make_diff() produces rebuild the new data.
 *
 * The match search is replaced by its contract (decided by M03): any true match
 * at or after the scan start, or none. The compressor is the identity. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"

#ifndef ADDBLK
#define ADDBLK 1
#endif
#ifndef OLD
#define OLD 3
#endif
#ifndef NEW
#define NEW 4
#endif
#ifndef OOM
#define OOM 0
#endif

static unsigned char old_[OLD ? OLD : 1], new_[NEW];
static unsigned char addb[2 * NEW + 2];
static size_t addn;
static bool strm_open, lib_fails;
static int hash_open;
static unsigned char *fin;

int hash_create(struct hash **h, const unsigned char *o, size_t n)
{
    VP_ASSERT(o == old_ && n == OLD, "the search index is built over the old data");
    if (lib_fails && nd_bool()) { *h = (struct hash *)1; return DRPM_ERR_MEMORY; }
    *h = (struct hash *)&hash_open;
    hash_open = 1;
    return DRPM_ERR_OK;
}
void hash_free(struct hash **h)
{
    VP_ASSERT(*h == (struct hash *)&hash_open && hash_open == 1, "the search index is released once");
    hash_open = 0;
}
size_t hash_search(struct hash *h, const unsigned char *o, size_t ol, const unsigned char *n, size_t nl,
                   size_t last, size_t scan, size_t *pos, size_t *len)
{
    (void)last;
    VP_ASSERT(h == (struct hash *)&hash_open && hash_open && o == old_ && ol == OLD && n == new_ && nl == NEW && scan <= NEW, "search called on both data");
    size_t s = vp_choose(scan, NEW), p, l;
    if (s == NEW || OLD == 0) { *pos = 0; *len = 0; return NEW; }
    p = vp_choose(0, OLD - 1);
    l = vp_choose(1, MIN(NEW - s, OLD - p));
    for (size_t i = 0; i < NEW && i < OLD; i++)
        if (i < l)
            VP_ASSUME(old_[p + i] == new_[s + i]);
    *pos = p; *len = l;
    return s;
}
int compstrm_init(struct compstrm **s, int fd, unsigned short c, int lvl)
{
    VP_ASSERT(fd == -1 && c == 3 && lvl == 7, "add block compressed as asked");
    if (lib_fails && nd_bool()) { *s = NULL; return DRPM_ERR_MEMORY; }
    *s = (struct compstrm *)&strm_open;
    strm_open = true;
    return DRPM_ERR_OK;
}
int compstrm_write(struct compstrm *s, size_t n, const void *b)
{
    VP_ASSERT(s == (struct compstrm *)&strm_open && strm_open, "open stream");
    if (lib_fails && nd_bool()) return DRPM_ERR_MEMORY;
    for (size_t i = 0; i < n; i++) {
        VP_ASSERT(addn < sizeof addb, "add block no longer than the new data");
        addb[addn++] = ((const unsigned char *)b)[i];
    }
    return DRPM_ERR_OK;
}
int compstrm_finish(struct compstrm *s, unsigned char **d, size_t *n)
{
    VP_ASSERT(s == (struct compstrm *)&strm_open && strm_open, "open stream");
    if (lib_fails && nd_bool()) return DRPM_ERR_MEMORY;
    fin = malloc(1);
    if (!fin) return DRPM_ERR_MEMORY;
    *d = fin; *n = addn;
    return DRPM_ERR_OK;
}
int compstrm_destroy(struct compstrm **s)
{
    VP_ASSERT(*s == (struct compstrm *)&strm_open && strm_open, "the stream is released once");
    strm_open = false;
    return lib_fails && nd_bool() ? DRPM_ERR_OTHER : DRPM_ERR_OK;
}

void harness(void)
{
    nd_bytes(old_, sizeof old_);
    nd_bytes(new_, NEW);
    const unsigned char **id = NULL; uint64_t idl = 0;
    uint32_t *ec = NULL, ecn = 0, *ic = NULL, icn = 0, abl = 0;
    unsigned char *ab = NULL;
    vp_oom = lib_fails = OOM;
    int err = make_diff(old_, OLD, new_, NEW, &id, &idl, &ec, &ecn, &ic, &icn, ADDBLK ? &ab : NULL, ADDBLK ? &abl : NULL, 3, 7);
    vp_oom = lib_fails = false;
    VP_ASSERT(!strm_open && !hash_open, "stream and index are released");
    if (err != DRPM_ERR_OK) {
        VP_ASSERT(OOM, "makes a difference unless something fails");
        free(id); free(ec); free(ic); free(ab);
        VP_ASSERT(vp_live == 0, "after a failure everything is released or handed over");
#if OOM
        VP_REACH("failed");
#endif
        return;
    }
    /* carry the instructions out */
    size_t off = 0, done = 0, e = 0, a = 0;
    uint64_t ints = 0;
    if (ADDBLK) VP_ASSERT(abl == addn && ab == fin, "the add block is handed over");
    VP_ASSERT(ecn == 0 || ec != NULL, "external copies present");
    for (size_t i = 0; i < icn; i++) {
        for (size_t k = 0; k < ic[2 * i]; k++, e++) {
            VP_ASSERT(e < ecn, "no more external copies used than there are");
            VP_ASSERT(ec[2 * e] != 0x80000000u, "offset can be stored");
            off += (int32_t)ec[2 * e];
            size_t n = ec[2 * e + 1];
            VP_ASSERT(off <= OLD && n <= OLD - off, "external copy inside the old data");
            VP_ASSERT(n <= NEW - done, "not more data than new");
            for (size_t j = 0; j < n; j++) {
                unsigned char c = old_[off + j];
                if (ADDBLK) {
                    VP_ASSERT(a < addn, "add block long enough");
                    c += addb[a++];
                }
                VP_ASSERT(c == new_[done + j], "external copy rebuilds the new data");
            }
            off += n;
            done += n;
        }
        size_t n = ic[2 * i + 1];
        VP_ASSERT(n <= NEW - done, "not more data than new");
        for (size_t j = 0; j < n; j++)
            VP_ASSERT(id[i][j] == new_[done + j], "internal data rebuilds the new data");
        done += n;
        ints += n;
    }
    VP_ASSERT(e == ecn, "all external copies used");
    VP_ASSERT(done == NEW, "all of the new data is rebuilt");
    VP_ASSERT(ints == idl, "internal data length");
    if (ADDBLK) VP_ASSERT(a == addn, "add block used up");
#if OLD
    if (ecn >= 2 && idl > 0) VP_REACH("two external copies and internal data");
#else
    VP_REACH("no old data");
#endif
    free(id); free(ec); free(ic); free(ab);
    VP_ASSERT(vp_live == 0, "nothing else left allocated");
}
