/**
 * \file vt.h
 *
 * \brief Virtual threads: the pthread functions, run on coroutines under a scheduler that takes every decision
 * with mc_choose.  Switches may happen at every pthread call, at every memory access of the code under test
 * (when it is compiled with -fsanitize=thread; the hooks are defined here) and at vt_point.
 * Conflicting accesses which the synchronisation does not order are reported.
 */
#pragma once
#include "mc.h"
enum { VT_MAX = 6 };
/* run fn(arg) as thread 0, until no thread can run; at most this many preemptions. */
void vt_run(void (*fn)(void*), void* arg, int preemptions, int spurious, bool at_memory);
int vt_self(void);
int vt_threads(void);          /* threads that were created, the first included. */
int vt_unfinished(void);       /* threads that have not ended. */
int vt_waiting(void);          /* threads that wait for a condition. */
bool vt_ended(int t);
bool vt_joined(int t);
void vt_point(const char* what);
/* start a thread of the harness. */
int vt_spawn(void (*fn)(void*), void* arg);
void vt_join(int t);
/* accesses of the harness to data that the code under test is to protect. */
void vt_read(const void* p, size_t n);
void vt_write(const void* p, size_t n);
/* the k-th call of this function from now on fails; -1 none. */
enum { VT_ATTR_INIT, VT_ATTR_STACK, VT_CREATE, VT_MUTEX_INIT, VT_COND_INIT, VT_MUTEX_LOCK, VT_MUTEX_UNLOCK, VT_COND_WAIT, VT_SIGNAL, VT_BROADCAST, VT_JOIN, VT_MUTEX_DESTROY, VT_COND_DESTROY, VT_FAULTS };
extern long vt_fault[VT_FAULTS];
extern int vt_fault_in;        /* only in this thread; -1 any. */
extern long vt_calls[VT_FAULTS];
extern long vt_attrs;          /* attribute objects that are live. */
extern long vt_mutexes, vt_conds;
extern size_t vt_stack_size;   /* asked for by the last thread created. */
extern long vt_switches;
