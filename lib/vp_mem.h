/* Allocation wrappers: malloc/calloc/realloc/free of the code under test are
 * renamed (-Dmalloc=vp_malloc ...) to these, which may fail when the harness
 * says so and count what is still allocated. */
#ifndef VP_MEM_H
#define VP_MEM_H
#include <stdbool.h>
#include <stddef.h>
extern bool vp_oom;          /* allocations may fail */
extern long vp_live;         /* blocks allocated and not freed */
extern size_t vp_cap;        /* allocations beyond this size always fail */
#endif
