#undef malloc
#undef calloc
#undef realloc
#undef free
#include "vp.h"
#include "vp_mem.h"

bool vp_oom;
long vp_live;
size_t vp_cap = (size_t)1 << 33;
bool vp_oom_hit;

static bool fails(size_t n)
{
    if (n > vp_cap) return true;
    if (vp_oom && nd_bool()) { vp_oom_hit = true; return true; }
    return false;
}

void *vp_malloc(size_t n)
{
    if (fails(n)) return NULL;
    void *p = malloc(n);
    VP_ASSUME(p != NULL);
    vp_live++;
    return p;
}

void *vp_calloc(size_t a, size_t b)
{
    if (b != 0 && a > (size_t)-1 / b) return NULL;
    if (fails(a * b)) return NULL;
    void *p = calloc(a, b);
    VP_ASSUME(p != NULL);
    vp_live++;
    return p;
}

void *vp_realloc(void *q, size_t n)
{
    if (fails(n)) return NULL;
    if (n == 0) n = 1;          /* keep "freed and NULL" out of it: a live block results */
    void *p = realloc(q, n);
    VP_ASSUME(p != NULL);
    if (!q) vp_live++;
    return p;
}

void vp_free(void *p)
{
    if (p) vp_live--;
    free(p);
}
