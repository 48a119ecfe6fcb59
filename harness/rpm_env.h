/* librpm by its documented contract: headers are counted objects with an
 * exported form, files are read and written through FD_t. */
#include <rpm/rpmlib.h>
#include <rpm/rpmts.h>
#include <rpm/rpmdb.h>

#ifndef RPM_FAIL
#define RPM_FAIL 0
#endif
static bool rpm_failed;
static bool rpm_fails(void) { if (RPM_FAIL && nd_bool()) { rpm_failed = true; return true; } return false; }

const unsigned char rpm_header_magic[8] = { 0x8e, 0xad, 0xe8, 0x01, 0, 0, 0, 0 };

#define HDR_MAX 64
struct headerToken_s {
    int refs;
    bool is_new, reloaded;
    unsigned size;                  /* of the exported form, without magic */
    unsigned char blob[HDR_MAX];
    struct { rpm_tag_t tag; rpm_tagtype_t type; rpm_count_t count; unsigned char data[16]; } ent[4];
    unsigned ents;
    rpm_tag_t region;               /* tag it was reloaded with */
};
static long hdr_live;

/* librpm ends the process when memory runs out */
static void *rpm_alloc(size_t n)
{
    bool o = vp_oom;
    vp_oom = false;
    void *p = malloc(n);
    vp_oom = o;
    return p;
}
static Header hdr_make(const unsigned char *blob, unsigned size)
{
    Header h = rpm_alloc(sizeof *h);
    memset(h, 0, sizeof *h);
    h->refs = 1;
    h->size = size;
    if (blob) memcpy(h->blob, blob, size);
    hdr_live++;
    return h;
}
Header headerNew(void) { Header h = hdr_make(NULL, 16); h->is_new = true; return h; }
Header headerLink(Header h) { if (h) h->refs++; return h; }
Header headerFree(Header h)
{
    if (h) {
        VP_ASSERT(h->refs > 0, "header not released too often");
        if (--h->refs == 0) { hdr_live--; free(h); }
    }
    return NULL;
}
void *headerExport(Header h, unsigned int *n)
{
    VP_ASSERT(h && h->refs > 0, "header of a package");
    if (rpm_fails()) return NULL;
    unsigned char *p = rpm_alloc(h->size);
    memcpy(p, h->blob, h->size);
    if (n) *n = h->size;
    return p;
}
unsigned int headerSizeof(Header h, int magicp)
{
    if (!h) return 0;
    VP_ASSERT(h->refs > 0, "header in use");
    return h->size + (magicp ? 8 : 0);
}
