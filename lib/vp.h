/* Shared harness prelude.
 *
 * The same harness file is compiled twice:
 *   - by goto-cc for CBMC: nd_*() are unconstrained symbolic values;
 *   - by gcc/clang (native replay): nd_*() return the values the solver chose,
 *     read in order from the file named by the environment variable VP_VALUES.
 */
#ifndef VP_H
#define VP_H

#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

#ifdef VP_CBMC

unsigned long nondet_ulong(void);
static unsigned long vp_nd(void) { unsigned long v = nondet_ulong(); __CPROVER_input("vp_nd", v); return v; }

#define VP_ASSUME(c) __CPROVER_assume(c)
/* as in the native replay, nothing follows a failed assertion */
#define VP_ASSERT(c, msg) do { bool vp_c = (c); __CPROVER_assert(vp_c, msg); __CPROVER_assume(vp_c); } while (0)
#define VP_REACH(label) __CPROVER_assert(0, "REACH:" label)

#elif defined(VP_SYM)   /* path-wise symbolic execution (sym/vpsym.cpp) */

unsigned long vp_nd(void);
unsigned long vp_sym_fork(unsigned long v);
void vp_sym_assume(bool c);
void vp_sym_assert(bool c, const char *msg);
void vp_sym_reach(const char *label);
#define VP_ASSUME(c) vp_sym_assume(c)
#define VP_ASSERT(c, msg) vp_sym_assert((c), msg)
#define VP_REACH(label) vp_sym_reach(label)

#else

unsigned long vp_nd(void);
void vp_fail(const char *kind, const char *msg);
void vp_reach(const char *label);
#define VP_ASSUME(c) do { if (!(c)) vp_fail("ASSUME", #c); } while (0)
#define VP_ASSERT(c, msg) do { if (!(c)) vp_fail("ASSERT", msg); } while (0)
#define VP_REACH(label) vp_reach(label)

#endif

static inline uint8_t nd_u8(void) { return (uint8_t)vp_nd(); }
static inline uint16_t nd_u16(void) { return (uint16_t)vp_nd(); }
static inline uint32_t nd_u32(void) { return (uint32_t)vp_nd(); }
static inline uint64_t nd_u64(void) { return (uint64_t)vp_nd(); }
static inline bool nd_bool(void) { return vp_nd() & 1; }

/* a value in [lo, hi] */
static inline uint64_t nd_range(uint64_t lo, uint64_t hi)
{
    uint64_t v = vp_nd();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}

/* a value in [lo, hi], each of which becomes a case of its own */
static inline uint64_t vp_choose(uint64_t lo, uint64_t hi)
{
    uint64_t v = nd_range(lo, hi);
#ifdef VP_SYM
    v = vp_sym_fork(v);
#endif
    return v;
}

/* n arbitrary bytes */
static inline void nd_bytes(unsigned char *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        p[i] = nd_u8();
}

/* allocation made by the harness itself: never fails, not counted by vp_mem */
void *vp_alloc(size_t n);

/* the last n bytes of a fixed-size object of max bytes: writing past the end
 * is out of bounds, and the solver sees no variable-size allocation */
static inline void *vp_tail(size_t max, size_t n)
{
    VP_ASSUME(n <= max);
#if defined(VP_CBMC)
    return (unsigned char *)vp_alloc(max) + (max - n);
#else
    return vp_alloc(n);
#endif
}

#endif
