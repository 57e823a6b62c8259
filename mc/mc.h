/**
 * \file mc.h
 *
 * \brief A small stateless model checker: exhaustive depth-first enumeration of
 * every sequence of choices that a scenario makes, run on the real code.
 *
 * A harness defines mc_name, mc_setup(), mc_scenarios() and mc_run().  Each
 * scenario is executed again and again; every call to mc_choose(n) is a branch
 * point, and the engine explores all of its n alternatives.
 */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

/* ---- provided by the harness ---- */
extern const char* mc_name;
/* called once, before anything else; mc_bound / mc_tier are set. */
void mc_setup(void);
/* number of independent scenarios (roots of the exploration). */
int mc_scenarios(void);
/* run one execution of this scenario. */
void mc_run(int scenario);

/* ---- provided by the engine ---- */
extern int mc_bound;      /* --bound N: depth of this exploration. */
extern int mc_bound2;     /* --bound2 N: secondary bound. */
extern int mc_mode;       /* --mode N: harness defined. */
extern int mc_verbose;    /* nonzero when the trace is being recorded. */

/* choose one of 0..n-1; all are explored. */
int mc_choose(int n, const char* what);
/* note a reached state (64-bit fingerprint); counts distinct states. */
void mc_state(uint64_t h);
/* note a reached state; true when it was reached before, so that this execution need not go on.
 * Everything that decides the continuation (and the depth that is left) must be in h. */
bool mc_visited(uint64_t h);
/* note one checked transition (a step compared against the oracle). */
void mc_step(void);
/* one more execution of the code under test (harnesses that search themselves). */
void mc_exec(void);
/* what is being executed now, for the report should it crash. */
void mc_context(const char* s);
/* add a line to the recorded trace. */
void mc_trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/* record a violation.  key identifies the failing site/history. */
void mc_fail(const char* key, const char* fmt, ...)
    __attribute__((format(printf, 2, 3), noreturn));
/* this execution is not of interest (e.g. outside the property's premise). */
void mc_discard(void) __attribute__((noreturn));
/* tell the engine this execution exercised the interesting case. */
void mc_nontrivial(void);

#define MC_CHECK(cond, key, ...) \
    do { if (!(cond)) mc_fail((key), __VA_ARGS__); } while (0)

static inline uint64_t mc_hash(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}
static inline uint64_t mc_hash_bytes(uint64_t h, const void* p, size_t n)
{
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) h = mc_hash(h, b[i] + 1);
    return mc_hash(h, n);
}

/* ---- memory interposition (mc_mem.c) ---- */
void* mc_xmalloc(size_t n);     /* untracked memory for the harness. */
void mc_xfree(void* p);
/* forget all tracking state, start counting from zero. */
void mc_mem_begin(void);
/* number of tracked live blocks / allocations made since begin. */
long mc_mem_live(void);
long mc_mem_count(void);
/* fail allocation number k (0-based) counted from now; -1 never. */
void mc_mem_fail_at(long k);
/* number of failures injected since mc_mem_begin. */
long mc_mem_failures(void);
/* is p a live tracked block? */
bool mc_mem_is_live(const void* p);
/* blocks are put into this memory, one after the other, until it is called with NULL or mc_mem_begin is. */
void mc_mem_arena(void* base, size_t n);

/* used by fiber harnesses: the engine must be able to stop a run from any
 * stack: mc_fail and mc_discard never return and may be called anywhere. */
#ifdef __cplusplus
}
#endif
