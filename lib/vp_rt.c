/* Native side of vp.h: feeds recorded values, reports assertion outcomes.
 * Under CBMC only vp_alloc is used. */
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef fopen
#undef fclose
#undef fprintf
#undef write
#include "vp.h"

void *vp_alloc(size_t n)
{
    void *p = malloc(n ? n : 1);
    VP_ASSUME(p != NULL);
    return p;
}

#if !defined(VP_CBMC) && !defined(VP_SYM)
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static unsigned long *vals;
static size_t nvals, pos;

static void load(void)
{
    const char *fn = getenv("VP_VALUES");
    FILE *f = fn ? fopen(fn, "r") : NULL;
    size_t cap = 0;
    unsigned long v;
    vals = malloc(sizeof *vals);
    if (!f) return;
    while (fscanf(f, "%lu", &v) == 1) {
        if (nvals == cap) { cap = cap ? cap * 2 : 256; vals = realloc(vals, cap * sizeof *vals); }
        vals[nvals++] = v;
    }
    fclose(f);
}

unsigned long vp_nd(void)
{
    if (!vals) load();
    if (pos >= nvals) {   /* the recorded trace stops where the property fails */
        if (pos++ == nvals) fprintf(stderr, "VP-EXHAUSTED\n");
        return 0;
    }
    return vals[pos++];
}

void vp_fail(const char *kind, const char *msg)
{
    fprintf(stderr, "VP-%s: %s\n", kind, msg);
    fflush(NULL);
    _exit(strcmp(kind, "ASSUME") == 0 ? 77 : 99);
}

void vp_reach(const char *label)
{
    fprintf(stderr, "VP-REACH: %s\n", label);
    fflush(NULL);
}
#endif
