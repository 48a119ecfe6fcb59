/* M03: hash_search() reports true matches inside both data and always advances.
 *
 * MODE 0 decides that the index made by hash_create() only has places at which
 * a whole block of the old data starts. MODE 1 takes any such index and decides
 * the search for every content of the old data: new data only matters by being
 * equal to old data or not, and by the keys it has. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm_search.c"

static size_t one_of(const size_t *v, size_t n) { return v[vp_choose(0, n - 1)]; }
#define CH(...) one_of((const size_t[]){__VA_ARGS__}, sizeof((const size_t[]){__VA_ARGS__}) / sizeof(size_t))

#ifndef KIND0
#define KIND0 0
#endif
#if MODE == 0
void harness(void)
{
    size_t ol = vp_choose(0, OL);
    unsigned char *old = malloc(ol ? ol : 1);
    for (size_t i = 0; i < ol; i++)
        old[i] = i % 9;
    for (size_t i = 0; i < SYMB && i < ol; i++)
        old[(ol - 1 - i * HSIZE) % ol] = nd_u8();
    struct hash *h = NULL;
    vp_oom = OOM;
    int err = hash_create(&h, old, ol);
    vp_oom = false;
    if (err != DRPM_ERR_OK) {
        VP_ASSERT(err == DRPM_ERR_MEMORY && OOM, "the index is made unless memory runs out");
        VP_ASSERT(vp_live == 1, "nothing left of the index");
#if OOM
        VP_REACH("failed");
#endif
        free(old);
        return;
    }
    size_t used = 0;
    VP_ASSERT(h->ht_len > 0, "index size");
    for (size_t i = 0; i < h->ht_len; i++)
        if (h->hash_table[i]) {
            size_t p = h->hash_table[i] - 1;
            used++;
            VP_ASSERT(p % HSIZE == 0 && p < ol && HSIZE <= ol - p, "index refers to whole blocks of the old data");
            uint32_t k = buzhash(old + p) % h->ht_len;
            VP_ASSERT(k == i || (k + 1) % h->ht_len == i, "blocks are found by their key");
        }
    VP_ASSERT((used == 0) == (ol < HSIZE), "blocks are recorded");
    if (used > 1) VP_REACH("two blocks");
    hash_free(&h);
    free(old);
    VP_ASSERT(vp_live == 0, "the index is released");
}
#else
void harness(void)
{
    size_t nl = CH(NLEN), ol = CH(OLEN);
    unsigned char *old = malloc(ol ? ol : 1), *new = malloc(nl ? nl : 1);
    int kind = KIND0 + vp_choose(0, KINDS - 1);
    nd_bytes(old, ol);
    for (size_t i = 0; i < nl; i++)
        new[i] = kind == 0 ? i : kind == 1 ? 0 : i % 5 ? 7 : i;

    struct hash *h = malloc(sizeof *h);
    h->ht_len = HT;
    h->hash_table = malloc(HT * sizeof(size_t));
    for (size_t i = 0; i < HT; i++) {
        size_t p = CH(PLACES);
        VP_ASSUME(p == 0 || p - 1 + HSIZE <= ol);
        h->hash_table[i] = p;
    }
    size_t scan = CH(SCAN), lo = CH(LAST), pos = 7777, len = 7777;
    VP_ASSUME(scan <= nl);
    size_t r = hash_search(h, old, ol, new, nl, lo, scan, &pos, &len);
    VP_ASSERT(r >= scan && r <= nl, "the search goes forward inside the new data");
    VP_ASSERT(r == nl || len > 0, "something matches or the end is reached");
    VP_ASSERT(pos <= ol && len <= ol - pos, "match inside the old data");
    VP_ASSERT(len <= nl - r, "match inside the new data");
    for (size_t i = 0; i < len; i++)
        VP_ASSERT(old[pos + i] == new[r + i], "what is reported as equal is equal");
#if FOUND
    if (len > 0 && r > scan) VP_REACH("match found ahead");
    if (len > 0 && pos > 0) VP_REACH("match inside old data");
#endif
    if (len == 0) VP_REACH("no match");
    hash_free(&h);
    free(old); free(new);
    VP_ASSERT(vp_live == 0, "the index is released");
}
#endif
