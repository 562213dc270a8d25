/* Bounded exhaustive exploration runtime.
   A driver registers units; each unit enumerates its cases in a fixed order and is run in its own
   process.  A case is identified by (unit, index); replay re-runs exactly that case. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

/* ---- units and cases */
typedef void (*vf_fn)(void *arg);
void vf_unit(vf_fn fn, void *arg, const char *fmt, ...) __attribute__((format(printf,3,4)));
int  vf_case_(const char *fmt, const long *args, int nargs);
#define VF_NARG(...) (int)(sizeof((long[]){__VA_ARGS__})/sizeof(long))
/* begins a case described by a constant printf format over longs; returns 1 if it is to be run */
#define vf_case(fmt, ...) vf_case_(fmt, (long[8]){__VA_ARGS__}, VF_NARG(__VA_ARGS__))
void vf_fail(const char *fmt, ...) __attribute__((format(printf,1,2)));
/* compares; reports a violation of the current case on mismatch; counts one validated trace */
int  vf_eq(const void *got, const void *exp, size_t n, const char *what);
int  vf_true(int cond, const char *what);
void vf_log(const char *fmt, ...) __attribute__((format(printf,1,2))); /* printed on replay only */
void vf_alive(void);                 /* progress mark inside a long case */
extern int vf_thorough;              /* tier */
extern int vf_verbose;               /* replaying */
extern const char *vf_opt;           /* --opt string */

/* ---- coverage counters */
void vf_state(const void *p, size_t n);  /* a reached state (hashed); distinct ones are counted */
void vf_state2(u64 a, const void *p, size_t n);
void vf_trans(long n);                   /* transitions = calls into the implementation */
void vf_validated(long n);               /* model/implementation comparisons made */
void vf_nontrivial(long n);
u64  vf_hash(u64 seed, const void *p, size_t n);

/* ---- heap of the implementation (malloc & co. of the library are redirected here) */
void *vf_malloc(size_t n);
void *vf_calloc(size_t a, size_t b);
void *vf_realloc(void *p, size_t n);
void  vf_free(void *p);
void  vf_heap_reset(void);              /* start of a case: empties the arena */
int   vf_heap_live(void);               /* number of live blocks */
void  vf_heap_check(void);              /* canaries of live blocks; fails the case on damage */
extern long vf_alloc_count;             /* allocations since reset */
extern long vf_fail_at;                 /* if >0, the vf_fail_at-th allocation fails */
extern long vf_fail_from;               /* if >0, every allocation from this one on fails */
extern size_t vf_alloc_limit;           /* if >0, larger requests fail */
extern u8  vf_fill;                     /* contents of fresh memory; see vf_fill_mode */
extern int vf_fill_mode;                /* 0 constant, 1 counter pattern */
extern int vf_persist;                  /* allocate outside the arena (descriptor constructors) */
extern size_t vf_heap_skew;             /* shifts block addresses */
typedef struct { u8 *p; size_t n; int live; } vf_block;
extern vf_block vf_blocks[]; extern int vf_nblocks;
extern void (*vf_free_hook)(u8 *p, size_t n, int idx);
u64 vf_heap_hash(void);                 /* hash of all live blocks */

/* ---- caller buffers with guard zones (flush at both ends, checked) */
#define VF_PAT(i) ((u8)((i)*73+((i)>>8)*11+5))
void vf_fillpat(void *p, size_t n, unsigned seed);
int vf_main(int argc, char **argv, void (*reg)(void));
#endif
