/*
 * Forged vtables, with the run-time check compiled in (variant "enf").
 * mode 0: every call through a forged vtable.  Where the check is an assertion (variant "enfa"), it must fail.
 */
#define _GNU_SOURCE
#include "common.h"
#include "vk.h"
#include <rcpr/auto_reset_trigger.h>
#include <rcpr/bigint.h>
#include <rcpr/compare.h>
#include <rcpr/fiber.h>
#include <rcpr/list.h>
#include <rcpr/message.h>
#include <rcpr/psock.h>
#include <rcpr/queue.h>
#include <rcpr/rbtree.h>
#include <rcpr/slist.h>
#include <rcpr/stack.h>
#include <rcpr/string.h>
#include <rcpr/thread.h>
#include <rcpr/uuid.h>
#include <sys/mman.h>
#include "src/allocator/allocator_internal.h"
#include "src/psock/psock_internal.h"
#include "src/resource/resource_internal.h"
RCPR_IMPORT_auto_reset_trigger; RCPR_IMPORT_bigint; RCPR_IMPORT_compare; RCPR_IMPORT_fiber; RCPR_IMPORT_list; RCPR_IMPORT_message; RCPR_IMPORT_psock; RCPR_IMPORT_queue; RCPR_IMPORT_rbtree; RCPR_IMPORT_slist; RCPR_IMPORT_stack; RCPR_IMPORT_string_as(rcpr); RCPR_IMPORT_thread; RCPR_IMPORT_uuid;
const char* mc_name = "vtable";
#ifndef RCPR_VTABLE_RUNTIME_ENFORCEMENT
#error the vtable check is not compiled in
#endif
#define OK(x) do { status s_ = (x); MC_CHECK(s_ == STATUS_SUCCESS, "setup", "%s failed: %x", #x, (unsigned)s_); } while (0)
static void evil(void) { mc_fail("called", "a function was called through a forged vtable"); }
typedef struct { void (*fn[12])(void); } fake;
#define EVILS { evil, evil, evil, evil, evil, evil, evil, evil, evil, evil, evil, evil }
static fake data_fake = { EVILS }; static const fake const_fake = { EVILS }; static fake* heap_fake;
static const char* where;
enum { NEAR = 8 };
#ifdef RCPR_VTABLE_CHECK_ASSERT
#include <setjmp.h>
static jmp_buf back; static bool asserts = true;
void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { (void)e; (void)f; (void)l; (void)fn; longjmp(back, 1); }
#else
enum { asserts = 0 };
#endif
static const void* forged(void)
{
    static char text[80]; int k = mc_choose(5 + 2 * NEAR, "where the forged table is"); where = text;
    if (k < NEAR) { snprintf(text, sizeof text, "%d bytes before the section", 8 * (k + 1)); return (const char*)&__start_rcpr_vtable - 8 * (k + 1); }
    k -= NEAR; if (k < NEAR) { snprintf(text, sizeof text, "%d bytes after the section", 8 * k); return (const char*)&__stop_rcpr_vtable + 8 * k; }
    k -= NEAR; static fake* const F[] = { &data_fake, (fake*)&const_fake }; snprintf(text, sizeof text, "%s", ((const char*[]){ "in data", "in constant data", "on the heap", "at NULL", "at the end of memory" })[k]);
    return k < 2 ? (const void*)F[k] : k == 2 ? (const void*)heap_fake : k == 3 ? NULL : (const void*)~(uintptr_t)15;
}
static allocator* al; static psock* ps; static psock_br* br; static uint64_t v64; static void* ptr; static size_t len; static char buf[64];
#define X1(t, n) RX(psock_read_raw_##n(ps, (t*)&v64)) RX(psock_write_raw_##n(ps, (t)1)) RX(psock_read_boxed_##n(ps, (t*)&v64)) RX(psock_write_boxed_##n(ps, (t)1))
static socklen_t alen; static int desc;
#define RAWOPS X1(int8_t, int8) X1(uint8_t, uint8) X1(int16_t, int16) X1(uint16_t, uint16) X1(int32_t, int32) X1(uint32_t, uint32) X1(int64_t, int64) X1(uint64_t, uint64) X1(bool, bool) \
    RX(psock_read_raw(ps, buf, &len)) RX(psock_read_raw_data(ps, al, &ptr, 4)) RX(psock_write_raw_data(ps, buf, 4)) RX(psock_read_boxed_data(ps, al, &ptr, &len)) RX(psock_write_boxed_data(ps, buf, 4)) \
    RX(psock_read_boxed_string(ps, al, (char**)&ptr, &len)) RX(psock_write_boxed_string(ps, buf)) RX(psock_accept(ps, &desc, (struct sockaddr*)buf, &alen)) \
    RX(psock_read_raw_descriptor(ps, &desc)) RX(psock_write_raw_descriptor(ps, 1)) RX(psock_setsockopt(ps, 1, 2, buf, 4))
static int nops;
static status psop(int op, const char** name)
{
    int n = 0;
    #define RX(call) if (n++ == op) { *name = #call; return call; }
    RAWOPS
    #undef RX
    nops = n; return STATUS_SUCCESS;
}
static const char* const KN[] = { "allocator", "resource", "socket", "socket behind an asynchronous one", "socket behind a buffered one", "contained resource", "allocator of a new object", "allocator of an old object" };
static const void* key_of(void* c, const resource* r) { (void)c; return &((const tr*)r)->key; }
static rcpr_comparison_result cmp(void* c, const void* a, const void* b) { (void)c; int x = *(const int*)a, y = *(const int*)b; return x < y ? RCPR_COMPARE_LT : x > y ? RCPR_COMPARE_GT : RCPR_COMPARE_EQ; }
static void bad(status r, const char* what) { mc_trace("%s gives %x", what, (unsigned)r); mc_step(); mc_nontrivial(); MC_CHECK(!asserts, "no-assertion", "%s through a table %s gives %x, and no assertion fails", what, where, (unsigned)r); MC_CHECK(r == ERROR_GENERAL_BAD_VTABLE, "status", "%s through a table %s gives %x", what, where, (unsigned)r); }
static long calls(void) { long n = 0; for (int i = 0; i < VK_OPS; ++i) n += vk_count[i]; return n; }
static long calls0;
#define vk_touched() (calls() != calls0)
void mc_setup(void) { const char* n; psop(-1, &n); heap_fake = mc_xmalloc(sizeof(fake)); memcpy(heap_fake, &data_fake, sizeof(fake)); }
int mc_scenarios(void) { return 8; }
static void run(int sc)
{
    tr_reset(); mc_mem_begin(); vk_reset(); al = fa_init(); ptr = NULL; len = 4; alen = 16; desc = -9; memset(buf, 0, sizeof buf); strcpy(buf, "abc"); v64 = 0x5A5A5A5A5A5A5A5A;
    const void* bt = forged(); long l0; const char* name = ""; mc_trace("%s, %s", KN[sc], where); mc_state(mc_hash((uint64_t)sc, (uint64_t)(uintptr_t)where[0]));
    if (sc == 0)
    {
        fa f; memset(&f, 0, sizeof f); f.hdr.vtable = bt; allocator* a = (allocator*)&f; void* p = buf; int op = mc_choose(5, "operation");
        if (op == 0) { bad(allocator_allocate(a, &p, 8), "allocate"); MC_CHECK(p == NULL || p == buf, "output", "a pointer was given"); }
        else if (op == 1) { bad(allocator_reclaim(a, p), "reclaim"); } else if (op == 2) { bad(allocator_reallocate(a, &p, 8), "reallocate"); MC_CHECK(p == buf, "output", "the block was changed"); }
        else if (op == 3) bad(allocator_control(a, 1, buf, 4), "control"); else bad(resource_release(allocator_resource_handle(a)), "release");
    }
    else if (sc == 1)
    {
        static resource r; resource_init(&r, bt); const resource_vtable* v = (const resource_vtable*)buf;
        if (mc_choose(2, "operation")) { bad(resource_vtable_read(&v, &r), "resource_vtable_read"); MC_CHECK(v == (const resource_vtable*)buf, "output", "the table was given"); } else bad(resource_release(&r), "resource_release");
    }
    else if (sc == 2)
    {
        int kind = mc_choose(3, "kind"), d[2]; psock* q = NULL; vk_pair(SOCK_DGRAM, d);
        if (kind == 0) OK(psock_create_from_descriptor(&ps, al, d[0])); else if (kind == 1) OK(psock_create_from_buffer(&ps, al, "abcdefghijklmnop", 16)); else { OK(psock_create_from_buffer(&q, al, "abcdefgh", 8)); OK(psock_br_create_from_psock(&br, al, q)); ps = psock_br_psock_adapter(br); }
        resource* h = psock_resource_handle(ps); const void* was = h->vtable; h->vtable = bt; int op = mc_choose(nops + 1, "operation"); l0 = mc_mem_live(); calls0 = calls();
        if (op == nops) { bad(resource_release(h), "release"); } else { status r = psop(op, &name); bad(r, name); MC_CHECK(desc == -9 && (v64 == 0x5A5A5A5A5A5A5A5A) && alen == 16 && !memcmp(buf, "abc", 4), "output", "%s changed its output", name); }
        MC_CHECK(mc_mem_live() == l0, "leak", "%s: %ld blocks more", name, mc_mem_live() - l0); MC_CHECK(!vk_touched(), "touched", "%s made system calls", name);
        h->vtable = was; OK(resource_release(kind == 2 ? psock_br_resource_handle(br) : h)); if (q) OK(resource_release(psock_resource_handle(q))); vk_drop(d[1]); if (kind) vk_drop(d[0]);
    }
    else if (sc == 3 || sc == 4)
    {
        fiber_scheduler* sched = NULL; fiber* f; int d[2]; vk_pair(SOCK_DGRAM, d); OK(psock_create_from_descriptor(&ps, al, d[0])); psock* child = ps;
        if (sc == 3) { OK(fiber_scheduler_create_with_disciplines(&sched, al)); OK(disciplined_fiber_scheduler_main_fiber_get(&f, sched)); OK(psock_create_wrap_async(&ps, al, f, child)); } else { OK(psock_br_create_from_psock(&br, al, child)); ps = psock_br_psock_adapter(br); }
        resource* h = psock_resource_handle(child); const void* was = h->vtable; h->vtable = bt; int op = mc_choose(nops + 2, "operation"); l0 = mc_mem_live(); calls0 = calls(); status r;
        if (op == nops) { if (sc == 4) { len = 16; r = psock_br_read_line(buf, &len, br); bad(r, "psock_br_read_line"); } }
        else if (op == nops + 1) { if (sc == 3) { r = resource_release(psock_resource_handle(ps)); bad(r, "release"); ps = NULL; } }
        else { r = psop(op, &name); mc_trace("%s gives %x", name, (unsigned)r); mc_step(); if (r != ERROR_PSOCK_METHOD_UNDEFINED && r != ERROR_PSOCK_UNSUPPORTED_TYPE) bad(r, name); }
        MC_CHECK(ps == NULL || mc_mem_live() == l0, "leak", "%s: %ld blocks more", name, mc_mem_live() - l0); MC_CHECK(!vk_touched(), "touched", "%s made system calls", name);
        h->vtable = was; if (sc == 4) { OK(resource_release(psock_br_resource_handle(br))); OK(resource_release(h)); } else { OK(resource_release(ps ? psock_resource_handle(ps) : h)); OK(resource_release(fiber_scheduler_resource_handle(sched))); } vk_drop(d[1]);
    }
    else if (sc == 5)
    {
        int kind = mc_choose(6, "container"), at = mc_choose(3, "which element"); tr* t[3]; for (int i = 0; i < 3; ++i) t[i] = tr_new(i); t[at]->hdr.vtable = bt; resource* c = NULL;
        list* l; slist* s; queue* q; rbtree* b; message* m; resource* out = NULL; int n = 3;
        if (kind == 0) { OK(list_create(&l, al)); for (int i = 0; i < 3; ++i) OK(list_append_tail(l, &t[i]->hdr)); c = list_resource_handle(l); }
        else if (kind == 1) { OK(slist_create(&s, al)); for (int i = 0; i < 3; ++i) OK(slist_append_tail(s, &t[i]->hdr)); c = slist_resource_handle(s); }
        else if (kind == 2) { OK(queue_create(&q, al)); for (int i = 0; i < 3; ++i) OK(queue_append(q, &t[i]->hdr)); c = queue_resource_handle(q); }
        else if (kind == 3) { OK(rbtree_create(&b, al, &cmp, &key_of, NULL)); for (int i = 0; i < 3; ++i) OK(rbtree_insert(b, &t[i]->hdr)); c = rbtree_resource_handle(b); }
        else if (kind == 4) { OK(rbtree_create(&b, al, &cmp, &key_of, NULL)); for (int i = 0; i < 3; ++i) OK(rbtree_insert(b, &t[i]->hdr)); c = rbtree_resource_handle(b); int k = at; bad(rbtree_delete(NULL, b, &k), "rbtree_delete"); OK(resource_release(c)); c = NULL; }
        else { OK(message_create(&m, al, 5, &t[at]->hdr)); c = message_resource_handle(m); n = 0; }
        (void)out; if (c) { bad(resource_release(c), "release of a container"); for (int i = 0; i < 4 && mc_mem_is_live(c); ++i) (void)resource_release(c); }
        for (int i = 0; i < n; ++i) MC_CHECK(tr_released[t[i]->id] == (i != at), "others", "resource %d was released %d times", i, tr_released[t[i]->id]);
    }
    else if (sc == 6)
    {
        fa f; memset(&f, 0, sizeof f); f.hdr.vtable = bt; allocator* a = (allocator*)&f; int op = mc_choose(15, "constructor"); void* o = NULL; status r; rcpr_uuid u; memset(&u, 0, sizeof u); bigint* bi; int d[2]; vk_pair(SOCK_STREAM, d); fiber_scheduler* sched = NULL;
        switch (op)
        {
            case 0: r = list_create((list**)&o, a); break; case 1: r = slist_create((slist**)&o, a); break; case 2: r = queue_create((queue**)&o, a); break; case 3: r = rbtree_create((rbtree**)&o, a, &cmp, &key_of, NULL); break;
            case 4: r = stack_create((stack**)&o, a, 16384); break; case 5: r = bigint_create_zero((bigint**)&o, a, 128); break; case 6: OK(bigint_create_zero(&bi, al, 64)); r = bigint_clone((bigint**)&o, a, bi); OK(resource_release(bigint_resource_handle(bi))); break;
            case 7: r = auto_reset_trigger_create((auto_reset_trigger**)&o, a); break; case 8: r = rcpr_uuid_to_string((char**)&o, a, &u); break; case 9: r = rcpr_strdup((char**)&o, a, "abc"); break; case 10: r = rcpr_strcatv((char**)&o, a, "abc", "d", NULL); break;
            case 11: r = psock_create_from_descriptor((psock**)&o, a, d[0]); break; case 12: r = psock_create_from_buffer((psock**)&o, a, "abc", 3); break; case 13: r = fiber_scheduler_create_with_disciplines(&sched, a); o = sched; break;
            default: r = thread_mutex_create((thread_mutex**)&o, a); break;
        }
        char nm[40]; snprintf(nm, sizeof nm, "constructor %d", op); mc_trace("%s gives %x", nm, (unsigned)r); mc_step(); mc_nontrivial(); MC_CHECK(r != STATUS_SUCCESS, "status", "%s succeeded with a forged allocator", nm); MC_CHECK(o == NULL, "output", "constructor %d gave an object", op); vk_drop(d[0]); vk_drop(d[1]);
    }
    else
    {
        fa f = fa_inst; f.reclaim_fail_at = -1; f.hdr.vtable = fa_inst.hdr.vtable; allocator* a = (allocator*)&f; resource* h; list* l; slist* s; queue* q; rbtree* b; bigint* bi; auto_reset_trigger* t; int op = mc_choose(8, "object"); psock* p; stack* st;
        switch (op)
        {
            case 0: OK(list_create(&l, a)); h = list_resource_handle(l); break; case 1: OK(slist_create(&s, a)); h = slist_resource_handle(s); break; case 2: OK(queue_create(&q, a)); h = queue_resource_handle(q); break;
            case 3: OK(rbtree_create(&b, a, &cmp, &key_of, NULL)); h = rbtree_resource_handle(b); break; case 4: OK(bigint_create_zero(&bi, a, 64)); h = bigint_resource_handle(bi); break; case 5: OK(auto_reset_trigger_create(&t, a)); h = auto_reset_trigger_resource_handle(t); break;
            case 6: OK(psock_create_from_buffer(&p, a, "abc", 3)); h = psock_resource_handle(p); break; default: OK(stack_create(&st, a, 16384)); h = stack_resource_handle(st); break;
        }
        f.hdr.vtable = bt; bad(resource_release(h), "release of an object whose allocator was forged"); return;
    }
    MC_CHECK(mc_mem_live() == 0, "leak", "%ld blocks are left", mc_mem_live()); MC_CHECK(vk_open_count() == 0 && !vk_badclose, "descriptor-leak", "%d descriptors are left open", vk_open_count());
}

void mc_run(int sc)
{
#ifdef RCPR_VTABLE_CHECK_ASSERT
    if (setjmp(back)) { mc_nontrivial(); mc_step(); return; }
#endif
    run(sc);
}
