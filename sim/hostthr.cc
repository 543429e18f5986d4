// The threads host: the library's functions called by several threads under a scheduler that decides every interleaving.
//
// The repository's code is compiled with -fsanitize=thread, but linked to the functions below instead of the
// sanitizer's runtime: every memory access of the code under test calls in here. The caller threads are real threads
// (so that thread-local variables and exceptions work), but only the one that holds the baton runs. The baton can
// change hands at every access to memory that another thread could reach (global variables, heap blocks another
// thread has touched), at every lock operation, planner call and start of an operation. The seeded plan decides when.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <time.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "idle.hh"
#include "tsc.hh"
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <stdexcept>
#include <fftw3.h>
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"

extern "C" {
void* __real_malloc(size_t); void __real_free(void*);
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
}
#define memcpy __real_memcpy        // this file's own copies are not accesses of the code under test
#define memmove __real_memmove
#define memset __real_memset
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Rng { uint64_t s; uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); } uint64_t below(uint64_t n) { return n ? next() % n : 0; } double unit() { return (next() >> 11) / 9007199254740992.0; } };

enum { MAXT = 8, MAXOP = 32, MAXSW = 1 << 15, MAXR = 16 };
struct Range { long a, b; };
struct OpObs { int status; double value; char what[100]; long na, nf, fa, ff; };
struct Obs {
    volatile int phase;                  // -1 request not read, 0 set-up, 1 threads running, 2 finished
    volatile int how;                    // 0 finished, 1 deadlock, 2 no progress
    int nt, nops[MAXT];
    OpObs ops[MAXT][MAXOP];
    long points, switches, forced, lockops, lockwaits, plancalls, execs, allocs, f_alloc, f_fft, cross, args_changed;
    long live_blocks, live_plans;
    uint64_t order;                      // hash of the sequence of (thread) over all scheduling points
    long nsw; struct { long at; int to; } sw[MAXSW];
    char memerr[160], planner[160], stuck[400];
};
static Obs* O;

// ---- threads and the baton ---------------------------------------------------------------------------------------
enum { READY, BLOCKED, DONE };
struct Thr { int id; int state; const void* waits; const char* why; sem_t sem; long nalloc, nfft, fa, ff; struct OpReq* op; int opi; uint64_t prio; long run; pthread_t th; };
static Thr T[MAXT], ALLDONE;
static int NT = 0, CUR = -1;
static bool ACTIVE = false;
static __thread Thr* me = 0;

enum Mode { SERIAL, RANDOM, PCT, EXPLICIT };
static struct { int mode; uint64_t seed; double q; int d; long K; std::vector<std::pair<long, int>>* list; size_t li; } S;
static Rng R;
static long CP[64]; static uint64_t lowprio;
static long BUDGET = 60000000, FAIR = 400000;

static void finish(int how)
{
    O->how = how; O->phase = 2;
    syscall(SYS_exit_group, how ? 70 + how : 0);
}
static void hand(Thr* t)
{
    if (O->nsw < MAXSW) { O->sw[O->nsw].at = O->points; O->sw[O->nsw].to = t->id; }
    ++O->nsw;
    CUR = t->id; t->run = 0;
    sem_post(&t->sem);
}
static void wait_turn(Thr* t) { while (sem_wait(&t->sem)) {} }
static Thr* pick_runnable(Thr* not_me)
{   // the scheduler's choice among the threads that can run
    Thr* c[MAXT]; int n = 0;
    for (int i = 0; i < NT; ++i) if (T[i].state == READY && &T[i] != not_me) c[n++] = &T[i];
    if (!n) return 0;
    if (S.mode == EXPLICIT) {
        for (size_t i = S.li; i < S.list->size() && (*S.list)[i].first <= O->points; ++i)
            if ((*S.list)[i].first == O->points) { S.li = i + 1; for (int k = 0; k < n; ++k) if (c[k]->id == (*S.list)[i].second) return c[k]; }
        return c[0];
    }
    if (S.mode == SERIAL) return c[0];
    if (S.mode == PCT) { Thr* b = c[0]; for (int k = 1; k < n; ++k) if (c[k]->prio > b->prio) b = c[k]; return b; }
    return c[R.below(n)];
}
static void stuck()
{
    size_t k = 0;
    for (int i = 0; i < NT; ++i) if (T[i].state == BLOCKED) k += snprintf(O->stuck + k, sizeof O->stuck - k, "thread %d waits for %s; ", i, T[i].why);
    finish(1);
}
static void point()
{
    Thr* t = me;
    ++O->points; ++t->run;
    O->order = (O->order ^ (uint64_t)(t->id + 1)) * 0x100000001b3ull;
    if (O->points > BUDGET) finish(2);
    Thr* n = 0;
    if (t->run > FAIR) {          // nobody may run for ever while others could
        t->run = 0;
        if (S.mode == PCT) t->prio = --lowprio;
        if (S.mode != EXPLICIT) n = pick_runnable(t);
    } else switch (S.mode) {
        case SERIAL: return;
        case RANDOM: if (R.unit() < S.q) n = pick_runnable(0); break;
        case PCT:
            for (int i = 0; i < S.d; ++i) if (CP[i] == O->points) { t->prio = --lowprio; n = pick_runnable(0); }
            break;
        case EXPLICIT:
            while (S.li < S.list->size() && (*S.list)[S.li].first < O->points) ++S.li;
            if (S.li < S.list->size() && (*S.list)[S.li].first == O->points) {
                int to = (*S.list)[S.li++].second;
                if (to < NT && T[to].state == READY) n = &T[to];
            }
            break;
    }
    if (!n || n == t) return;
    ++O->switches;
    hand(n); wait_turn(t);
}
static void block_on(const void* what, const char* why)
{   // the current thread cannot go on; returns when it was woken and chosen again
    Thr* t = me;
    t->state = BLOCKED; t->waits = what; t->why = why;
    ++O->lockwaits; ++O->points; ++O->forced;
    Thr* n = pick_runnable(0);
    if (!n) stuck();
    hand(n); wait_turn(t);
}
static void wake(const void* what, int count)
{
    for (int i = 0; i < NT && count; ++i) if (T[i].state == BLOCKED && T[i].waits == what) { T[i].state = READY; T[i].waits = 0; --count; }
}
static void thread_end()
{
    Thr* t = me; me = 0;
    t->state = DONE;
    ++O->points;
    Thr* n = pick_runnable(0);
    if (n) { hand(n); return; }
    for (int i = 0; i < NT; ++i) if (T[i].state == BLOCKED) stuck();
    sem_post(&ALLDONE.sem);
}

// ---- memory ------------------------------------------------------------------------------------------------------
static char* const ARENA = (char*)0x200000000000ull; static const size_t ARENASZ = 3ull << 30;
static uint8_t* const SHADOW = (uint8_t*)0x300000000000ull;       // one byte per 16: owner
enum { RO = 0xFE, SHARED = 0xFF };
static size_t arena_top = 4096;
struct Blk { char* user; size_t size; int state; };
static std::map<char*, Blk>* blocks;
static bool in_rt = false;      // the runtime's own containers use the real allocator
struct Rt { bool o; Rt() : o(in_rt) { in_rt = true; } ~Rt() { in_rt = o; } };
static void memerr(const char* s) { if (!O->memerr[0]) snprintf(O->memerr, sizeof O->memerr, "%s", s); }
struct OpReq { int fn, fft, arg, na, nf; Range ar[MAXR], fr[MAXR]; };
static uint64_t heap_seed;

static bool in_arena(const void* p) { return (size_t)((const char*)p - ARENA) < ARENASZ; }
static void own(char* p, size_t n, uint8_t v) { memset(SHADOW + ((p - ARENA) >> 4), v, (n + 15) >> 4); }
static Blk* find_block(const void* p)
{
    auto it = blocks->upper_bound((char*)p);
    if (it == blocks->begin()) return 0;
    --it;
    return (char*)p < it->second.user + (it->second.size ? it->second.size : 1) ? &it->second : 0;
}
static uint64_t canary(char* u) { return 0xC5A7C5A700000000ull ^ mix((uint64_t)u); }
static bool canary_ok(Blk* b) { uint64_t c = canary(b->user); char* e = b->user + b->size; for (int i = 0; i < 32; ++i) if (e[i] != (char)(c >> ((i & 7) * 8)) || b->user[i - 32] != (char)(c >> ((i & 7) * 8))) return false; return true; }
static void* take(size_t size, size_t align, uint8_t owner)
{
    if (align < 16) align = 16;
    size_t need = size + align * 2 + 128;
    if (arena_top + need > ARENASZ || size > ARENASZ) { errno = ENOMEM; return 0; }
    uintptr_t u = ((uintptr_t)(ARENA + arena_top + 64) + align - 1) / align * align;
    arena_top = ((char*)u - ARENA) + size + 64; arena_top = (arena_top + 15) & ~(size_t)15;
    char* p = (char*)u;
    uint64_t s = mix(heap_seed + u) | 1;
    for (size_t i = 0; i < size; i += 8) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; double d = (double)(s >> 11) / 9007199254740992.0; memcpy(p + i, &d, size - i < 8 ? size - i : 8); }
    uint64_t c = canary(p);
    for (int i = 0; i < 32; ++i) { p[size + i] = (char)(c >> ((i & 7) * 8)); p[i - 32] = (char)(c >> ((i & 7) * 8)); }
    own(p, size ? size : 1, owner);
    { Rt rt; (*blocks)[p] = Blk{p, size, 1}; }
    ++O->live_blocks;
    return p;
}
static bool refused()
{
    Thr* t = me;
    long i = t->nalloc++;
    if (t->op) for (int k = 0; k < t->op->na; ++k) if (i >= t->op->ar[k].a && i < t->op->ar[k].b) { ++t->fa; ++O->f_alloc; errno = ENOMEM; return true; }
    return false;
}
static void* rt_alloc(size_t n, size_t align)
{
    if (in_rt || !me) return __real_malloc(n ? n : 1);
    ++O->allocs;
    if (refused()) return 0;
    return take(n, align, (uint8_t)(me->id + 1));
}
static void rt_free(void* p)
{
    if (!p) return;
    if (!in_arena(p)) { __real_free(p); return; }
    if (me) {
        uint8_t o = SHADOW[((char*)p - ARENA) >> 4];
        if (o == SHARED || o != me->id + 1) point();
    }
    Rt rt;
    auto it = blocks->find((char*)p);
    if (it == blocks->end()) { memerr("release of an address that was not allocated"); return; }
    if (it->second.state == 2) { memerr("memory released twice"); return; }
    if (!canary_ok(&it->second)) memerr("write outside an allocated block");
    it->second.state = 2; --O->live_blocks;
    memset(p, 0xDD, it->second.size);
    own((char*)p, it->second.size ? it->second.size : 1, SHARED);      // any access from now on is a scheduling point
}
static void check_memory()
{
    for (auto& e : *blocks) {
        if (!canary_ok(&e.second)) memerr("write outside an allocated block");
        if (e.second.state == 2) for (size_t i = 0; i < e.second.size; ++i) if (e.second.user[i] != (char)0xDD) { memerr("write to memory after it was released"); break; }
    }
}
static void* or_throw(void* p) { if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return or_throw(rt_alloc(n, 16)); }
void* operator new[](size_t n) { return or_throw(rt_alloc(n, 16)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return rt_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return rt_alloc(n, 16); }
void operator delete(void* p) noexcept { rt_free(p); }
void operator delete[](void* p) noexcept { rt_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { rt_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { rt_free(p); }
void operator delete(void* p, size_t) noexcept { rt_free(p); }
void operator delete[](void* p, size_t) noexcept { rt_free(p); }
void* operator new(size_t n, std::align_val_t a) { return or_throw(rt_alloc(n, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return or_throw(rt_alloc(n, (size_t)a)); }
void operator delete(void* p, std::align_val_t) noexcept { rt_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { rt_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { rt_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { rt_free(p); }
extern "C" {
void* __wrap_malloc(size_t n) { return rt_alloc(n, 16); }
void __wrap_free(void* p) { rt_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return 0; } void* p = rt_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void* __real_realloc(void*, size_t);
void* __wrap_realloc(void* p, size_t n)
{
    if (p && !in_arena(p)) return __real_realloc(p, n);
    void* q = rt_alloc(n, 16);
    if (q && p) { Rt rt; Blk* b = find_block(p); if (b) memcpy(q, p, b->size < n ? b->size : n); }
    if (q && p) rt_free(p);
    return q;
}
void* __real_aligned_alloc(size_t, size_t);
void* __wrap_aligned_alloc(size_t a, size_t n) { return me ? rt_alloc(n, a) : __real_aligned_alloc(a, n); }
void* __wrap_memalign(size_t a, size_t n) { return __wrap_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** r, size_t a, size_t n) { void* p = __wrap_aligned_alloc(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}

// ---- accesses ------------------------------------------------------------------------------------------------------
extern "C" char __data_start, _end;
static void __attribute__((noinline)) touched(char* p, bool w)
{   // first access by a second thread: from now on the whole block is shared
    uint8_t& s = SHADOW[(p - ARENA) >> 4];
    if (s == RO && !w) return;
    ++O->cross;
    Rt rt;
    Blk* b = find_block(p);
    if (b) own(b->user, b->size ? b->size : 1, SHARED); else s = SHARED;
}
static inline void acc(void* a, bool w)
{
    Thr* t = me;
    if (!t) return;
    char* p = (char*)a;
    if (in_arena(p)) {
        uint8_t o = SHADOW[(p - ARENA) >> 4];
        if (o == t->id + 1) return;
        if (o != SHARED) { if (o == RO && !w) return; touched(p, w); }
    } else if (!(p >= &__data_start && p < &_end)) return;
    point();
}
static void range(void* a, size_t n, bool w)
{
    if (!n || !me) return;
    acc(a, w);
    if (n > 16) acc((char*)a + n - 1, w);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* a) { acc(a, false); } void __tsan_write##n(void* a) { acc(a, true); } \
    void __tsan_unaligned_read##n(void* a) { acc(a, false); } void __tsan_unaligned_write##n(void* a) { acc(a, true); } \
    void __tsan_read##n##_pc(void* a, void*) { acc(a, false); } void __tsan_write##n##_pc(void* a, void*) { acc(a, true); } \
    void __tsan_volatile_read##n(void* a) { acc(a, false); } void __tsan_volatile_write##n(void* a) { acc(a, true); } \
    void __tsan_unaligned_volatile_read##n(void* a) { acc(a, false); } void __tsan_unaligned_volatile_write##n(void* a) { acc(a, true); } \
    void __tsan_read_write##n(void* a) { acc(a, true); } void __tsan_unaligned_read_write##n(void* a) { acc(a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** a) { acc(a, false); }
void __tsan_vptr_update(void** a, void*) { acc(a, true); }
void __tsan_read_range(void* a, size_t n) { range(a, n, false); }
void __tsan_write_range(void* a, size_t n) { range(a, n, true); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b, t) \
    t __tsan_atomic##b##_load(const volatile t* a, int) { acc((void*)a, false); return *a; } \
    void __tsan_atomic##b##_store(volatile t* a, t v, int) { acc((void*)a, true); *a = v; } \
    t __tsan_atomic##b##_exchange(volatile t* a, t v, int) { acc((void*)a, true); t o = *a; *a = v; return o; } \
    t __tsan_atomic##b##_fetch_add(volatile t* a, t v, int) { acc((void*)a, true); t o = *a; *a = o + v; return o; } \
    t __tsan_atomic##b##_fetch_sub(volatile t* a, t v, int) { acc((void*)a, true); t o = *a; *a = o - v; return o; } \
    t __tsan_atomic##b##_fetch_and(volatile t* a, t v, int) { acc((void*)a, true); t o = *a; *a = o & v; return o; } \
    t __tsan_atomic##b##_fetch_or(volatile t* a, t v, int) { acc((void*)a, true); t o = *a; *a = o | v; return o; } \
    t __tsan_atomic##b##_fetch_xor(volatile t* a, t v, int) { acc((void*)a, true); t o = *a; *a = o ^ v; return o; } \
    t __tsan_atomic##b##_fetch_nand(volatile t* a, t v, int) { acc((void*)a, true); t o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t* a, t* c, t v, int, int) { acc((void*)a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t* a, t* c, t v, int x, int y) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, x, y); } \
    t __tsan_atomic##b##_compare_exchange_val(volatile t* a, t c, t v, int, int) { acc((void*)a, true); t o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
void* __wrap_memcpy(void* d, const void* s, size_t n) { range((void*)s, n, false); range(d, n, true); return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { range((void*)s, n, false); range(d, n, true); return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { range(d, n, true); return memset(d, c, n); }
}

// a call of a function of the C or C++ library (see _call_points in dst/build.py)
extern "C" void sim_call_point() { if (me && !in_rt) point(); }

// ---- locks: modelled, never really taken --------------------------------------------------------------------------
struct Lock { int owner = -1; int count = 0; int readers = 0; };
static std::map<const void*, Lock>* locks;
static Lock& lock_of(const void* m) { Rt rt; return (*locks)[m]; }
template<class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static int do_lock(const void* m, bool recursive, bool errorcheck, bool try_, const char* why)
{
    ++O->lockops; point();
    while (true) {
        Lock& l = lock_of(m);
        if (l.owner < 0 && l.readers == 0) { l.owner = me->id; l.count = 1; return 0; }
        if (l.owner == me->id && recursive) { ++l.count; return 0; }
        if (l.owner == me->id && errorcheck) return EDEADLK;
        if (try_) return EBUSY;
        block_on(m, why);
    }
}
static int do_unlock(const void* m)
{
    ++O->lockops;
    Lock& l = lock_of(m);
    if (l.owner == me->id) { if (--l.count == 0) { l.owner = -1; wake(m, MAXT); } }
    else if (l.readers > 0) { if (--l.readers == 0) wake(m, MAXT); }
    else return EPERM;
    point();
    return 0;
}
extern "C" {
static int kind_of(pthread_mutex_t* m) { return m->__data.__kind & 3; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!me) return real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock")(m); return do_lock(m, kind_of(m) == 1, kind_of(m) == 2, false, "a mutex"); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!me) return real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock")(m); return do_lock(m, kind_of(m) == 1, false, true, "a mutex"); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept
{
    ++O->lockops; point();
    int r = do_lock(m, kind_of(m) == 1, false, true, "a mutex");
    return r == EBUSY ? ETIMEDOUT : r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!me) return real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock")(m); return do_unlock(m); }
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { if (!me) return real<int (*)(pthread_spinlock_t*)>("pthread_spin_lock")(m); return do_lock((const void*)m, false, false, false, "a spin lock"); }
int pthread_spin_trylock(pthread_spinlock_t* m) noexcept { if (!me) return real<int (*)(pthread_spinlock_t*)>("pthread_spin_trylock")(m); return do_lock((const void*)m, false, false, true, "a spin lock"); }
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { if (!me) return real<int (*)(pthread_spinlock_t*)>("pthread_spin_unlock")(m); return do_unlock((const void*)m); }
static int do_rdlock(const void* m, bool try_)
{
    ++O->lockops; point();
    while (true) { Lock& l = lock_of(m); if (l.owner < 0) { ++l.readers; return 0; } if (try_) return EBUSY; block_on(m, "a read-write lock"); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (!me) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock")(m); return do_rdlock(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (!me) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock")(m); return do_rdlock(m, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (!me) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock")(m); return do_lock(m, false, true, false, "a read-write lock"); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { if (!me) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock")(m); return do_lock(m, false, false, true, "a read-write lock"); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (!me) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock")(m); return do_unlock(m); }
static int do_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    Lock& l = lock_of(m); int n = l.count; l.owner = -1; l.count = 0; wake(m, MAXT);
    block_on(c, "a condition variable");
    int r = do_lock(m, false, false, false, "a mutex"); lock_of(m).count = n;
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!me) return real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait")(c, m); return do_cond_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    if (!me) return real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait")(c, m, t);
    do_unlock(m); point(); do_lock(m, false, false, false, "a mutex"); return ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!me) return real<int (*)(pthread_cond_t*)>("pthread_cond_signal")(c); point(); wake(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!me) return real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast")(c); point(); wake(c, MAXT); return 0; }
int sched_yield() noexcept { if (me) { me->run += FAIR / 4; point(); } return 0; }
static std::map<const void*, int>* onces;     // 1: being done
int pthread_once(pthread_once_t* c, void (*f)())
{
    if (!me) return real<int (*)(pthread_once_t*, void (*)())>("pthread_once")(c, f);
    point();
    while (true) {
        if (*c & 2) return 0;
        int* s; { Rt rt; s = &(*onces)[c]; }
        if (*s == 0) { *s = 1; break; }
        block_on(c, "a one-time initialisation");
    }
    try { f(); } catch (...) { { Rt rt; (*onces)[c] = 0; } wake(c, MAXT); throw; }
    { Rt rt; (*onces)[c] = 0; }
    *c |= 2; wake(c, MAXT); point();
    return 0;
}
int __cxa_guard_acquire(char* g)
{
    if (me) point();
    while (true) {
        if (g[0]) return 0;
        if (!g[1]) { g[1] = 1; return 1; }
        if (!me) return 0;
        block_on(g, "the initialisation of a static variable");
    }
}
void __cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; if (me) { wake(g, MAXT); point(); } }
void __cxa_guard_abort(char* g) { g[1] = 0; if (me) { wake(g, MAXT); point(); } }
}

// ---- FFTW: the planner may be entered by one thread at a time; executing is free --------------------------------------
static int planner_in = -1; static const char* planner_fn = ""; static bool planner_safe = false;
struct Planner {
    int outer; 
    Planner(const char* fn) : outer(-2)
    {
        if (!me) return;
        ++O->plancalls;
        point();
        if (planner_in >= 0 && planner_in != me->id && !planner_safe && !O->planner[0])
            snprintf(O->planner, sizeof O->planner, "thread %d entered %s while thread %d was inside %s", me->id, fn, planner_in, planner_fn);
        outer = planner_in; planner_in = me->id; planner_fn = fn;
        point();                                       // another thread may try to enter now
    }
    ~Planner() { if (outer == -2) return; point(); planner_in = outer == me->id ? outer : -1; }
};
static bool plan_refused()
{
    if (!me) return false;
    Thr* t = me; long i = t->nfft++;
    if (t->op) for (int k = 0; k < t->op->nf; ++k) if (i >= t->op->fr[k].a && i < t->op->fr[k].b) { ++t->ff; ++O->f_fft; return true; }
    return false;
}
static std::map<fftw_plan, int>* plans;
extern "C" {
static fftw_plan made(fftw_plan p) { if (p) { Rt rt; (*plans)[p] = 1; ++O->live_plans; } return p; }
#define WRAP_PLAN(name, params, args) fftw_plan __real_##name params; \
    fftw_plan __wrap_##name params { if (plan_refused()) return 0; Planner g(#name); return made(__real_##name args); }
WRAP_PLAN(fftw_plan_dft_r2c_1d, (int n, double* i, fftw_complex* o, unsigned f), (n, i, o, f))
WRAP_PLAN(fftw_plan_dft_c2r_1d, (int n, fftw_complex* i, double* o, unsigned f), (n, i, o, f))
WRAP_PLAN(fftw_plan_dft_1d, (int n, fftw_complex* i, fftw_complex* o, int s, unsigned f), (n, i, o, s, f))
WRAP_PLAN(fftw_plan_r2r_1d, (int n, double* i, double* o, fftw_r2r_kind k, unsigned f), (n, i, o, k, f))
WRAP_PLAN(fftw_plan_dft_r2c, (int r, const int* n, double* i, fftw_complex* o, unsigned f), (r, n, i, o, f))
WRAP_PLAN(fftw_plan_dft_c2r, (int r, const int* n, fftw_complex* i, double* o, unsigned f), (r, n, i, o, f))
WRAP_PLAN(fftw_plan_many_dft_r2c, (int r, const int* n, int h, double* i, const int* ie, int is, int id, fftw_complex* o, const int* oe, int os, int od, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, f))
WRAP_PLAN(fftw_plan_many_dft_c2r, (int r, const int* n, int h, fftw_complex* i, const int* ie, int is, int id, double* o, const int* oe, int os, int od, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, f))
void __real_fftw_destroy_plan(fftw_plan);
void __wrap_fftw_destroy_plan(fftw_plan p)
{
    if (!p) return;
    Planner g("fftw_destroy_plan");
    auto it = plans->find(p);
    if (it == plans->end()) { memerr("FFT plan released twice"); return; }
    plans->erase(it); --O->live_plans;
    __real_fftw_destroy_plan(p);
}
void __real_fftw_cleanup(void); void __wrap_fftw_cleanup(void) { Planner g("fftw_cleanup"); __real_fftw_cleanup(); plans->clear(); }
void __real_fftw_forget_wisdom(void); void __wrap_fftw_forget_wisdom(void) { Planner g("fftw_forget_wisdom"); __real_fftw_forget_wisdom(); }
void __real_fftw_set_timelimit(double); void __wrap_fftw_set_timelimit(double t) { Planner g("fftw_set_timelimit"); __real_fftw_set_timelimit(t); }
void __wrap_fftw_make_planner_thread_safe(void) { planner_safe = true; }
static bool usable(fftw_plan p) { if (me && !plans->count(p)) { memerr("use of an FFT plan after its release"); return false; } return true; }
#define EXEC(call, p, in, out) if (me) { ++O->execs; point(); acc((void*)(in), false); acc((void*)(out), true); } if (usable(p)) { Rt rt; call; } if (me) point();
void __real_fftw_execute(const fftw_plan); void __wrap_fftw_execute(const fftw_plan p) { if (me) { ++O->execs; point(); } if (usable(p)) { Rt rt; __real_fftw_execute(p); } if (me) point(); }
void __real_fftw_execute_dft_r2c(const fftw_plan, double*, fftw_complex*); void __wrap_fftw_execute_dft_r2c(const fftw_plan p, double* i, fftw_complex* o) { EXEC(__real_fftw_execute_dft_r2c(p, i, o), p, i, o) }
void __real_fftw_execute_dft_c2r(const fftw_plan, fftw_complex*, double*); void __wrap_fftw_execute_dft_c2r(const fftw_plan p, fftw_complex* i, double* o) { EXEC(__real_fftw_execute_dft_c2r(p, i, o), p, i, o) }
void __real_fftw_execute_dft(const fftw_plan, fftw_complex*, fftw_complex*); void __wrap_fftw_execute_dft(const fftw_plan p, fftw_complex* i, fftw_complex* o) { EXEC(__real_fftw_execute_dft(p, i, o), p, i, o) }
void* __wrap_fftw_malloc(size_t n) { return rt_alloc(n, 32); }
double* __wrap_fftw_alloc_real(size_t n) { return (double*)rt_alloc(n * 8, 32); }
fftw_complex* __wrap_fftw_alloc_complex(size_t n) { return (fftw_complex*)rt_alloc(n * 16, 32); }
void __wrap_fftw_free(void* p) { rt_free(p); }
}

// ---- a run ---------------------------------------------------------------------------------------------------------
typedef std::vector<double> V;
struct Arg { V b, B; };
static std::vector<Arg>* ARGS; static std::vector<Arg>* COPY;
static std::vector<OpReq>* OPS;       // per thread
static double do_call(const OpReq& o)
{
    const Arg& a = (*ARGS)[o.arg];
    switch (o.fn) {
        case 0: return ecdf2(a.b, a.B, o.fft != 0);
        case 1: return ecdf1_new_b(a.b);
        case 2: return ecdf1_new_B(a.B);
        case 3: return ecdf1_mns2016_b(a.b);
        default: return ecdf1_mns2016_B(a.B);
    }
}
static void* body(void* v)
{
    Thr* t = (Thr*)v;
    wait_turn(t);
    me = t;
    for (size_t i = 0; i < OPS[t->id].size(); ++i) {
        OpReq& o = OPS[t->id][i]; OpObs& r = O->ops[t->id][i];
        t->op = &o; t->opi = (int)i; t->nalloc = t->nfft = t->fa = t->ff = 0;
        point();
        try { r.value = do_call(o); r.status = 1; }
        catch (std::bad_alloc& e) { t->op = 0; r.status = 2; snprintf(r.what, sizeof r.what, "%s", e.what()); }
        catch (std::runtime_error& e) { t->op = 0; r.status = 3; snprintf(r.what, sizeof r.what, "%s", e.what()); }
        catch (std::exception& e) { t->op = 0; r.status = 4; snprintf(r.what, sizeof r.what, "%s", e.what()); }
        catch (...) { t->op = 0; r.status = 5; }
        t->op = 0;
        r.na = t->nalloc; r.nf = t->nfft; r.fa = t->fa; r.ff = t->ff;
    }
    thread_end();
    wait_turn(t);               // until all threads are done: then leave one by one (destructors of thread-local variables)
    return 0;
}
static bool same_bits(const V& a, const V& b) { return a.size() == b.size() && (a.empty() || !memcmp(&a[0], &b[0], a.size() * sizeof(double))); }
static void child()
{
    if (mmap(ARENA, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA) _exit(98);
    if (mmap(SHADOW, ARENASZ >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != SHADOW) _exit(98);
    COPY = new std::vector<Arg>(*ARGS);
    // move the arguments' storage into the arena
    for (Arg& a : *ARGS) for (V* v : {&a.b, &a.B}) if (!v->empty()) {
        struct Raw { double *b, *e, *c; }; Raw* r = (Raw*)v;
        size_t n = v->size(); double* p = (double*)take(n * 8, 16, RO);
        memcpy(p, r->b, n * 8); r->b = p; r->e = r->c = p + n;
    }
    R.s = mix(S.seed);
    if (S.mode == PCT) {
        for (int i = 0; i < NT; ++i) T[i].prio = (1ull << 40) + R.below(1 << 30);
        for (int i = 0; i < S.d; ++i) CP[i] = 1 + (long)R.below(S.K);
        lowprio = 1ull << 39;
    }
    sem_init(&ALLDONE.sem, 0, 0);
    tsc_install([]() -> uint64_t { static uint64_t n = 0; return 1000000 + 3000 * ++n; });
    pthread_attr_t at; pthread_attr_init(&at);
    for (int i = 0; i < NT; ++i) {
        Thr* t = &T[i]; t->id = i; t->state = READY; sem_init(&t->sem, 0, 0);
        char* st = (char*)mmap((void*)(0x400000000000ull + i * (64ull << 20)), 16 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        pthread_attr_setstack(&at, st, 16 << 20);
        if (pthread_create(&t->th, &at, body, t)) _exit(98);
    }
    ACTIVE = true; O->phase = 1;
    Thr* first = S.mode == SERIAL || S.mode == EXPLICIT ? &T[0] : pick_runnable(0);
    if (S.mode == EXPLICIT) first = pick_runnable(0);
    hand(first);
    wait_turn(&ALLDONE);
    for (int i = 0; i < NT; ++i) { sem_post(&T[i].sem); pthread_join(T[i].th, 0); }
    check_memory();
    for (size_t i = 0; i < ARGS->size(); ++i) if (!same_bits((*ARGS)[i].b, (*COPY)[i].b) || !same_bits((*ARGS)[i].B, (*COPY)[i].B)) ++O->args_changed;
    finish(0);
}

// ---- requests --------------------------------------------------------------------------------------------------------
static int g_cpu = 60, g_wall = 240;
static char g_req[24 << 20];
static bool ranges(char* v, Range* r, int& n)
{
    n = 0; char* s = 0;
    for (char* t = strtok_r(v, ",", &s); t; t = strtok_r(0, ",", &s)) { if (n >= MAXR) return false; char* e; r[n].a = strtol(t, &e, 10); r[n].b = *e == '-' ? strtol(e + 1, 0, 10) : r[n].a + 1; ++n; }
    return true;
}
static void doubles(char* v, V& r) { char* e; for (char* p = v; *p;) { double d = strtod(p, &e); if (e == p) break; r.push_back(d); p = *e == ',' ? e + 1 : e; } }
static bool parse(char* p, char* end)
{
    ARGS = new std::vector<Arg>; OPS = new std::vector<OpReq>[MAXT]; blocks = new std::map<char*, Blk>; locks = new std::map<const void*, Lock>; onces = new std::map<const void*, int>; plans = new std::map<fftw_plan, int>;
    S.list = new std::vector<std::pair<long, int>>;
    while (p < end) {
        char* line = p; char* nl = (char*)memchr(p, '\n', end - p);
        if (!nl) return false;
        *nl = 0; p = nl + 1;
        char* v = strchr(line, ' '); if (v) *v++ = 0; else v = nl;
        if (!strcmp(line, "arg")) { char* sp = strchr(v, ' '); if (!sp) return false; *sp = 0; ARGS->push_back(Arg()); if (*v != '-' || v[1]) doubles(v, ARGS->back().b); if (sp[1] != '-' || sp[2]) doubles(sp + 1, ARGS->back().B); }
        else if (!strcmp(line, "op")) {     // thread fn fft arg alloc fft
            char* s = 0; char* f[6]; int k = 0;
            for (char* t = strtok_r(v, " ", &s); t && k < 6; t = strtok_r(0, " ", &s)) f[k++] = t;
            if (k < 6) return false;
            int th = atoi(f[0]); if (th < 0 || th >= MAXT || OPS[th].size() >= MAXOP) return false;
            OpReq o; memset(&o, 0, sizeof o); o.fn = atoi(f[1]); o.fft = atoi(f[2]); o.arg = atoi(f[3]);
            if (f[4][0] != '-') ranges(f[4], o.ar, o.na);
            if (f[5][0] != '-') ranges(f[5], o.fr, o.nf);
            if (o.arg < 0 || o.arg >= (int)ARGS->size()) return false;
            OPS[th].push_back(o); if (th + 1 > NT) NT = th + 1;
            O->nt = NT; O->nops[th] = (int)OPS[th].size();
        }
        else if (!strcmp(line, "sched")) {
            char* s = 0; char* m = strtok_r(v, ":", &s); if (!m) return false;
            char* a = strtok_r(0, ":", &s); char* b = strtok_r(0, ":", &s); char* c = strtok_r(0, ":", &s);
            if (!strcmp(m, "serial")) S.mode = SERIAL;
            else if (!strcmp(m, "random")) { S.mode = RANDOM; S.seed = strtoull(a, 0, 10); S.q = atof(b); }
            else if (!strcmp(m, "pct")) { S.mode = PCT; S.seed = strtoull(a, 0, 10); S.d = atoi(b); S.K = atol(c); if (S.d > 64) return false; }
            else if (!strcmp(m, "list")) {
                S.mode = EXPLICIT; char* s2 = 0;
                for (char* t = a ? strtok_r(a, ",", &s2) : 0; t; t = strtok_r(0, ",", &s2)) { char* e; long at = strtol(t, &e, 10); S.list->push_back({at, atoi(e + 1)}); }
            } else return false;
        }
        else if (!strcmp(line, "heap")) heap_seed = strtoull(v, 0, 10);
        else if (!strcmp(line, "budget")) BUDGET = atol(v);
        else return false;
    }
    return NT > 0;
}
static void put_str(FILE* f, const char* s) { fputc('"', f); for (; *s; ++s) if (*s == '"' || *s == '\\' || *s < 32) fprintf(f, "\\u%04x", (unsigned char)*s); else fputc(*s, f); fputc('"', f); }
static void run_one(FILE* out, size_t len)
{
    memset(O, 0, sizeof *O);
    O->phase = -1;
    pid_t pid = fork();
    if (pid == 0) {
        for (size_t k = 0; k < len;) { ssize_t r = syscall(SYS_read, 0, g_req + k, len - k); if (r <= 0) _exit(90); k += r; }
        O->phase = 0;
        if (!parse(g_req, g_req + len)) _exit(92);
        struct rlimit rl = {(rlim_t)g_cpu, (rlim_t)g_cpu + 5}; setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
        int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
        dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
        child();
    }
    if (pid < 0) { fprintf(out, "{\"fatal\":\"fork\"}\n"); fflush(out); exit(95); }
    int st = 0; bool hang = !wait_child(pid, &st, g_wall, &O->phase);
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0, code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (O->phase <= 0) { fprintf(out, "{\"fatal\":\"bad request (%d)\"}\n", code); fflush(out); exit(92); }
    fprintf(out, "{\"sig\":%d,\"exit\":%d,\"hang\":%d,\"how\":%d,\"done\":%d", sig, code, hang, O->how, O->phase == 2);
    fprintf(out, ",\"n\":{\"points\":%ld,\"switches\":%ld,\"forced\":%ld,\"lockops\":%ld,\"lockwaits\":%ld,\"plancalls\":%ld,\"execs\":%ld,\"allocs\":%ld,\"shared_blocks\":%ld}", O->points, O->switches, O->forced, O->lockops, O->lockwaits, O->plancalls, O->execs, O->allocs, O->cross);
    fprintf(out, ",\"f\":{\"alloc_failure\":%ld,\"fft_plan_failure\":%ld,\"preemption\":%ld}", O->f_alloc, O->f_fft, O->switches);
    fprintf(out, ",\"order\":\"%016llx\",\"args_changed\":%ld,\"live\":[%ld,%ld]", (unsigned long long)O->order, O->args_changed, O->live_blocks, O->live_plans);
    fprintf(out, ",\"memerr\":"); put_str(out, O->memerr); fprintf(out, ",\"planner\":"); put_str(out, O->planner); fprintf(out, ",\"stuck\":"); put_str(out, O->stuck);
    fprintf(out, ",\"nsw\":%ld,\"sw\":\"", O->nsw);
    for (long i = 0; i < O->nsw && i < MAXSW; ++i) fprintf(out, "%s%ld@%d", i ? "," : "", O->sw[i].at, O->sw[i].to);
    fprintf(out, "\",\"ops\":[");
    for (int t = 0; t < O->nt; ++t) {
        fprintf(out, "%s[", t ? "," : "");
        for (int i = 0; i < O->nops[t]; ++i) {
            OpObs& r = O->ops[t][i];
            fprintf(out, "%s[%d,\"%a\",", i ? "," : "", r.status, r.value); put_str(out, r.what); fprintf(out, ",%ld,%ld,%ld,%ld]", r.na, r.nf, r.fa, r.ff);
        }
        fprintf(out, "]");
    }
    fprintf(out, "]}\n"); fflush(out);
}
int main(int, char** argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { personality(ADDR_NO_RANDOMIZE); setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    O = (Obs*)mmap(0, sizeof(Obs), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE* out = fdopen(dup(1), "w"); static char obuf[1 << 16]; setvbuf(out, obuf, _IOFBF, sizeof obuf);
    char head[17];
    while (true) {
        size_t k = 0;
        while (k < 16) { ssize_t r = syscall(SYS_read, 0, head + k, 16 - k); if (r < 0 && errno == EINTR) continue; if (r <= 0) return 0; k += r; }
        head[16] = 0; size_t len = strtoull(head, 0, 10);
        if (len >= sizeof g_req) { fprintf(out, "{\"fatal\":\"request too long\"}\n"); fflush(out); return 94; }
        run_one(out, len);
    }
}
