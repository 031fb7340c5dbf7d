/* Small runtime-monitoring framework: seeded cases, violation reports, counters, signatures. */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include "BlipKit.h"
#include "BKInterpolation.h"
#include "BKTone.h"
#include "BKSequence.h"

typedef struct { uint64_t s; } Rng;
uint64_t vf_next (Rng *r);
uint64_t rn (Rng *r, uint64_t n);               /* uniform 0..n-1 */
int64_t  rr (Rng *r, int64_t lo, int64_t hi);   /* uniform lo..hi inclusive */
int      chance (Rng *r, int percent);
int32_t  rint32 (Rng *r);                       /* interesting 32 bit values */
#define PICK(r, arr) ((arr)[rn((r), sizeof(arr)/sizeof((arr)[0]))])

/* report a violation of the property being checked; key identifies the kind of failure */
void vf_fail (const char *key, const char *fmt, ...) __attribute__((format(printf,2,3)));
int  vf_failed (void);                          /* violations in this case so far */
#define CHECK(cond, key, ...) do { if (!(cond)) { vf_fail ((key), __VA_ARGS__); } } while (0)
#define CHECK_RET(cond, key, ...) do { if (!(cond)) { vf_fail ((key), __VA_ARGS__); return; } } while (0)
#define CHECK_RETV(cond, v, key, ...) do { if (!(cond)) { vf_fail ((key), __VA_ARGS__); return v; } } while (0)
void vf_count (const char *counter, uint64_t n);/* named event counters, summed over cases */
void vf_sig (uint64_t h);                       /* signature of a distinct situation observed */
void vf_sample (const char *fmt, ...);          /* a few samples for the evidence */
void vf_harness_error (const char *fmt, ...);
extern int vf_verbose;
#define TRACE(...) do { if (vf_verbose) { fprintf (stderr, __VA_ARGS__); } } while (0)
uint64_t vf_hash (uint64_t h, const void *p, size_t n);
uint64_t vf_mix (uint64_t h, uint64_t v);

/* allocation monitor for the library's own allocations (symbols are redirected at build time) */
extern long vf_live_blocks, vf_live_bytes, vf_alloc_calls, vf_alloc_failed;
extern long vf_fail_at;      /* 0: never; n: the n-th allocation from now fails */
extern int  vf_fill;         /* fill byte for fresh memory, -1: leave */
void vf_alloc_case_reset (void);

/* times as plain 44.20 numbers; outside of the range of whole frames only where times are plain numbers themselves */
#if BK_IS_64_BIT
static inline BKTime vf_time (int64_t v) { return (BKTime) v; }
static inline int64_t vf_time64 (BKTime t) { return (int64_t) t; }
#else
static inline BKTime vf_time (int64_t v) { int64_t f = v >> 20; if (f > INT32_MAX) return BK_TIME_MAX; if (f < INT32_MIN) f = INT32_MIN; return BKTimeMake ((BKInt) f, (BKFUInt20) (v & BK_FINT20_FRAC)); }
static inline int64_t vf_time64 (BKTime t) { return (int64_t) t.time * (1 << 20) + t.frac; }
#endif

typedef void (*CaseFn) (Rng *r);
void vf_register (const char *name, CaseFn fn);
/* defines a driver; modules register their drivers, a build contains only the modules a check needs */
#define VF_PROP(n) static void p_##n (Rng *r); __attribute__((constructor)) static void reg_##n (void) { vf_register (#n, p_##n); } static void p_##n (Rng *r)

typedef struct { BKFrame *d; size_t n, cap; } Frames;
void fr_add (Frames *f, const BKFrame *p, size_t n);
void fr_free (Frames *f);
#endif
