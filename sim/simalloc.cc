// The simulated allocator: every memory request of the code under test. It decides the contents and placement of
// fresh memory, which requests fail, and watches the borders of every block.
#include "simcore.hh"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <new>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
}

namespace {
enum { RZ = 64 };
struct Block {
    Block *prev, *next;   // live list, or quarantine list
    char* raw;
    char* user;
    size_t size;
    uint64_t canary;
    int state;            // 1 live, 2 freed (quarantined)
    int tracked;          // requested by the code under test
    size_t pre, post;     // canary bytes before and behind the block
    size_t map;           // bytes mapped, for a block with its own guarded pages, else 0
    int keep;             // freed memory keeps its contents
    size_t full;          // size when it was first requested (a reused block may be smaller)
};
Block live_head = {&live_head, &live_head, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
Block quar_head = {&quar_head, &quar_head, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
size_t quar_bytes = 0; long quar_maps = 0;
const size_t QUAR_MAX = 48u << 20;

// open addressing table user pointer -> Block*
Block** table = 0; size_t cap = 0, used = 0;
Block* const TOMB = (Block*)1;
size_t slot_of(void* p) { return sim_mix((uint64_t)p) & (cap - 1); }
void tab_insert_raw(Block* b) { size_t i = slot_of(b->user); while (table[i] && table[i] != TOMB) i = (i + 1) & (cap - 1); if (!table[i]) ++used; table[i] = b; }
void tab_insert(Block* b)
{
    if ((used + 1) * 2 >= cap) {
        size_t oc = cap; Block** ot = table;
        cap = oc ? oc * 2 : 4096; table = (Block**)__real_malloc(cap * sizeof(Block*)); memset(table, 0, cap * sizeof(Block*)); used = 0;
        for (size_t i = 0; i < oc; ++i) if (ot[i] && ot[i] != TOMB) tab_insert_raw(ot[i]);
        __real_free(ot);
    }
    tab_insert_raw(b);
}
Block** tab_find(void* p)
{
    if (!cap) return 0;
    for (size_t i = slot_of(p);; i = (i + 1) & (cap - 1)) {
        if (!table[i]) return 0;
        if (table[i] != TOMB && table[i]->user == p) return &table[i];
    }
}
void fill(char* p, size_t n, uint64_t seed, int mode)
{
    if (mode == 0) { memset(p, 0, n); return; }
    if (mode == 1) { memset(p, 0xff, n); return; }
    uint64_t s = seed | 1;
    for (size_t i = 0; i < n; i += 8) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        uint64_t v = s; double d;
        if (mode == 3) { d = (double)(s >> 11) / 9007199254740992.0; memcpy(&v, &d, 8); }
        else if (mode == 4) { d = (s & 1) ? 1e300 : -1e300; memcpy(&v, &d, 8); }
        else if (mode == 5) { v = 0x7ff8000000000000ull; }
        memcpy(p + i, &v, n - i < 8 ? n - i : 8);
    }
}
void put_canary(Block* b)
{
    uint64_t s = b->canary;
    char* q = b->user - b->pre; char* e = b->user + b->size;
    for (size_t i = 0; i < b->pre; ++i) q[i] = (char)(s >> ((i & 7) * 8));
    for (size_t i = 0; i < b->post; ++i) e[i] = (char)(s >> ((i & 7) * 8));
}
bool canary_ok(Block* b)
{
    uint64_t s = b->canary;
    char* q = b->user - b->pre; char* e = b->user + b->size;
    for (size_t i = 0; i < b->pre; ++i) if (q[i] != (char)(s >> ((i & 7) * 8))) return false;
    for (size_t i = 0; i < b->post; ++i) if (e[i] != (char)(s >> ((i & 7) * 8))) return false;
    return true;
}
void unlink_block(Block* b) { b->prev->next = b->next; b->next->prev = b->prev; }
void link_block(Block* h, Block* b) { b->prev = h->prev; b->next = h; h->prev->next = b; h->prev = b; }
bool poison_ok(Block* b) { if (b->map) return true; if (b->keep) return canary_ok(b); for (size_t i = 0; i < b->size; ++i) if (b->user[i] != (char)0xDD) return false; return canary_ok(b); }
// An ordinary allocator's habit: a request is served from the block that was released last, if it fits.
Block* reuse(size_t size, size_t align)
{
    int k = 0;
    for (Block* b = quar_head.prev; b != &quar_head && k < 64; b = b->prev, ++k) {
        if (b->map || b->full < size || b->full > 2 * size + 64 || (size_t)b->user % align) continue;
        if (!poison_ok(b)) sim_mem_error("write to memory after it was released");
        unlink_block(b); quar_bytes -= b->size;
        return b;
    }
    return 0;
}
void evict_one()
{
    Block* b = quar_head.next;
    if (!poison_ok(b)) sim_mem_error("write to memory after it was released");
    unlink_block(b); quar_bytes -= b->size;
    Block** t = tab_find(b->user); if (t) *t = TOMB;
    if (b->map) { munmap(b->raw, b->map); --quar_maps; } else __real_free(b->raw);
    __real_free(b);
}
}

void sim_mem_error(const char* what)
{
    if (g_obs && !g_obs->memerr[0]) { snprintf(g_obs->memerr, sizeof g_obs->memerr, "%s", what); }
}

void __attribute__((weak)) sim_on_alloc(void*, size_t) {}
void __attribute__((weak)) sim_on_free(void*, size_t) {}

void* sim_alloc(size_t size, size_t align)
{
    int tracked = g_active;
    uint64_t seed = 0; int mode = 0;
    if (tracked) {
        sim_budget();
        long i = g_obs->n_alloc++;
        for (int k = 0; k < g_plan.n_alloc; ++k)
            if (i >= g_plan.alloc[k].a && i < g_plan.alloc[k].b) { ++g_obs->f_alloc; errno = ENOMEM; return 0; }
        if (g_plan.quota && (size > (size_t)g_plan.quota || g_obs->live_bytes + (long)size > g_plan.quota)) { ++g_obs->f_alloc; errno = ENOMEM; return 0; }
        if (size > (size_t)4 << 30) { errno = ENOMEM; return 0; }   // no such memory in this world
        seed = sim_mix(g_plan.heap_seed + (uint64_t)i * 0x9e3779b97f4a7c15ull);
        mode = g_plan.heap_mode;
    }
    if (align < 16) align = 16;
    if (tracked && g_plan.heap_reuse && !g_plan.heap_guard)
        if (Block* b = reuse(size, align)) {
            b->size = size; b->state = 1;
            put_canary(b);
            if (!b->keep) fill(b->user, size, seed, mode);
            link_block(&live_head, b);
            ++g_obs->live_blocks; g_obs->live_bytes += size;
            if (g_obs->live_bytes > g_obs->max_live_bytes) g_obs->max_live_bytes = g_obs->live_bytes;
            sim_on_alloc(b->user, size);
            return b->user;
        }
    Block* b = (Block*)__real_malloc(sizeof(Block));
    if (!b) return 0;
    b->size = b->full = size; b->state = 1; b->tracked = tracked; b->map = 0; b->pre = b->post = RZ; b->keep = tracked && g_plan.heap_keep;
    if (tracked && g_plan.heap_guard && align <= 4096) {
        // its own pages, up against an inaccessible page behind it (1) or before it (2)
        size_t body = (size + 4095) / 4096 * 4096; if (!body) body = 4096;
        char* raw = (char*)syscall(SYS_mmap, 0, body + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (raw == MAP_FAILED || mprotect(raw + 4096, body, PROT_READ | PROT_WRITE)) { __real_free(b); return 0; }
        b->raw = raw; b->map = body + 8192;
        size_t off = g_plan.heap_guard == 1 ? (body - size) / align * align : 0;
        b->user = raw + 4096 + off;
        b->pre = off < RZ ? off : (size_t)RZ; b->post = body - off - size; if (b->post > RZ) b->post = RZ;
        b->canary = 0xC5A7C5A700000000ull ^ seed;
    } else {
        size_t pad = tracked ? ((seed >> 20) & 7) * 16 : 0;
        char* raw = (char*)__real_malloc(size + 4 * align + 2 * RZ + pad + 16);
        if (!raw) { __real_free(b); return 0; }
        uintptr_t u = (uintptr_t)raw + RZ + pad;
        u = (u + 2 * align - 1) / (2 * align) * (2 * align);
        u += align;                                        // aligned to `align` and to nothing more
        b->raw = raw; b->user = (char*)u;
        b->canary = 0xC5A7C5A700000000ull ^ sim_mix(u ^ 77);
    }
    if (tracked && mode == 0) b->canary = 0;      // a world of zeros, beyond the borders too
    put_canary(b);
    if (tracked) fill(b->user, size, seed, mode);
    link_block(&live_head, b);
    tab_insert(b);
    if (tracked) {
        ++g_obs->live_blocks; g_obs->live_bytes += size;
        if (g_obs->live_bytes > g_obs->max_live_bytes) g_obs->max_live_bytes = g_obs->live_bytes;
        sim_on_alloc(b->user, size);
    }
    return b->user;
}

void sim_free(void* p)
{
    if (!p) return;
    Block** t = tab_find(p);
    if (!t) { __real_free(p); return; }                // came from elsewhere (libc, FFTW)
    Block* b = *t;
    if (b->state == 2) { sim_mem_error("memory released twice"); return; }
    if (!canary_ok(b)) sim_mem_error("write outside an allocated block");
    if (b->tracked) { --g_obs->live_blocks; g_obs->live_bytes -= b->size; sim_on_free(b->user, b->size); }
    unlink_block(b);
    if (b->tracked) {
        b->state = 2;
        if (b->map) { mprotect(b->raw, b->map, PROT_NONE); madvise(b->raw, b->map, MADV_DONTNEED); ++quar_maps; }   // any later use faults
        else if (!b->keep) memset(b->user, 0xDD, b->size);
        link_block(&quar_head, b); quar_bytes += b->size;
        while (quar_bytes > QUAR_MAX || quar_maps > 12000) evict_one();
    } else {
        *t = TOMB; if (b->map) munmap(b->raw, b->map); else __real_free(b->raw);
        __real_free(b);
    }
}

void sim_mem_check_all()
{
    for (Block* b = live_head.next; b != &live_head; b = b->next) if (!canary_ok(b)) sim_mem_error("write outside an allocated block");
    for (Block* b = quar_head.next; b != &quar_head; b = b->next) if (!poison_ok(b)) sim_mem_error("write to memory after it was released");
}

size_t sim_block_size(void* p) { Block** t = tab_find(p); return t ? (*t)->size : (size_t)-1; }

// ---- C++ operators -------------------------------------------------------------------------------------------
static void* or_throw(void* p) { if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return or_throw(sim_alloc(n, 16)); }
void* operator new[](size_t n) { return or_throw(sim_alloc(n, 16)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 16); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
#if __cpp_aligned_new
void* operator new(size_t n, std::align_val_t a) { return or_throw(sim_alloc(n, (size_t)a)); }
void* operator new[](size_t n, std::align_val_t a) { return or_throw(sim_alloc(n, (size_t)a)); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
#endif

// ---- C allocation functions called by the code under test (ld --wrap) ------------------------------------------
extern "C" {
void* __wrap_malloc(size_t n) { return g_active ? sim_alloc(n, 16) : __real_malloc(n); }
void __wrap_free(void* p) { sim_free(p); }
void* __wrap_calloc(size_t a, size_t b)
{
    if (b && a > (size_t)-1 / b) { errno = ENOMEM; return 0; }
    void* p = g_active ? sim_alloc(a * b, 16) : __real_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void* __real_realloc(void*, size_t);
void* __wrap_realloc(void* p, size_t n)
{
    if (p && sim_block_size(p) == (size_t)-1) return __real_realloc(p, n);
    void* q = sim_alloc(n, 16);
    if (!q) return 0;
    if (p) { size_t o = sim_block_size(p); if (o != (size_t)-1) memcpy(q, p, o < n ? o : n); sim_free(p); }
    return q;
}
int __wrap_posix_memalign(void** r, size_t a, size_t n) { void* p = sim_alloc(n, a); if (!p) return ENOMEM; *r = p; return 0; }
void* __wrap_aligned_alloc(size_t a, size_t n) { return sim_alloc(n, a); }
void* __wrap_memalign(size_t a, size_t n) { return sim_alloc(n, a); }
}
