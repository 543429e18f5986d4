// Simulated memory and FFT-plan requests of the Python extension module. Linked into the module itself, hidden from the
// rest of the interpreter; steered from Python through the dst_* functions. The interpreter's own object allocator is
// hooked as well, so that its requests made during a call of the module can fail.
#include <Python.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#include <errno.h>
#include <new>
#include <stdio.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "idle.hh"
#include <fftw3.h>

#define OUT extern "C" __attribute__((visibility("default")))

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
PyThreadState* __real_PyEval_SaveThread(void);
void __real_PyEval_RestoreThread(PyThreadState*);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
void* __real_memalign(size_t, size_t);
}

namespace {
enum { MAXF = 16 };
struct Plan { long at[MAXF]; int n; long count; long fired; long rest; };
Plan mem, fft, py;
int armed = 0;
long live_blocks = 0, live_plans = 0;

bool hit(Plan& p)
{
    if (!armed) return false;
    long i = p.count++;
    bool f = p.rest >= 0 && i >= p.rest;
    for (int k = 0; k < p.n; ++k) f |= p.at[k] == i;
    p.fired += f;
    return f;
}
// While the module has given up the interpreter lock, anything may happen in other threads: the session says what, at once
// or when the module next asks for memory.
PyObject* on_release = 0;
__thread PyThreadState* left_as = 0;
__thread int away = 0, releasing = 0, points = 0;
PyThreadState* point(PyThreadState* t)
{
    if (!armed || !on_release || releasing || points > 200) return t;
    int a = armed, w = away, k = points + 1; armed = 0; releasing = 1; away = 0;
    __real_PyEval_RestoreThread(t);
    PyObject* r = PyObject_CallNoArgs(on_release);
    if (r) Py_DECREF(r); else PyErr_Clear();
    t = __real_PyEval_SaveThread();
    armed = a; releasing = 0; away = w; points = k; left_as = t;
    return t;
}
bool refuse()
{
    if (away) point(left_as);
    if (hit(mem)) { errno = ENOMEM; return true; }
    return false;
}
void* scramble(void* p, size_t n)       // fresh memory never looks like fresh memory
{
    if (p) { ++live_blocks; memset(p, 0xC7, n); }
    return p;
}

PyMemAllocatorEx old_obj, old_mem;
void* h_malloc(void* c, size_t n) { PyMemAllocatorEx* a = (PyMemAllocatorEx*)c; return hit(py) ? 0 : a->malloc(a->ctx, n); }
void* h_calloc(void* c, size_t k, size_t n) { PyMemAllocatorEx* a = (PyMemAllocatorEx*)c; return hit(py) ? 0 : a->calloc(a->ctx, k, n); }
void* h_realloc(void* c, void* p, size_t n) { PyMemAllocatorEx* a = (PyMemAllocatorEx*)c; return hit(py) ? 0 : a->realloc(a->ctx, p, n); }
void h_free(void* c, void* p) { PyMemAllocatorEx* a = (PyMemAllocatorEx*)c; a->free(a->ctx, p); }
void set(Plan& p, const char* s)        // "3" "3,7" "2-" (from the third one on)
{
    p.n = 0; p.count = p.fired = 0; p.rest = -1;
    while (s && *s && p.n < MAXF) {
        char* e; long v = strtol(s, &e, 10);
        if (e == s) break;
        if (*e == '-') { p.rest = v; ++e; } else p.at[p.n++] = v;
        s = *e == ',' ? e + 1 : e;
    }
}
}

extern "C" {
void* __wrap_malloc(size_t n) { if (refuse()) return 0; return scramble(__real_malloc(n), n); }
void* __wrap_calloc(size_t k, size_t n) { if (refuse()) return 0; void* p = __real_calloc(k, n); live_blocks += p != 0; return p; }
void* __wrap_realloc(void* p, size_t n) { if (refuse()) return 0; if (!p) return scramble(__real_malloc(n), n); return __real_realloc(p, n); }
void __wrap_free(void* p) { if (p) { --live_blocks; memset(p, 0xDD, malloc_usable_size(p)); } __real_free(p); }
int __wrap_posix_memalign(void** q, size_t a, size_t n) { if (refuse()) return ENOMEM; int r = __real_posix_memalign(q, a, n); if (!r) scramble(*q, n); return r; }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (refuse()) return 0; return scramble(__real_aligned_alloc(a, n), n); }
void* __wrap_memalign(size_t a, size_t n) { if (refuse()) return 0; return scramble(__real_memalign(a, n), n); }

#define PLAN(ret, name, decl, args) \
    ret __real_##name decl; \
    ret __wrap_##name decl { if (hit(fft)) return 0; ret p = __real_##name args; live_plans += p != 0; return p; }
PLAN(fftw_plan, fftw_plan_dft_r2c_1d, (int n, double* i, fftw_complex* o, unsigned f), (n, i, o, f))
PLAN(fftw_plan, fftw_plan_dft_c2r_1d, (int n, fftw_complex* i, double* o, unsigned f), (n, i, o, f))
PLAN(fftw_plan, fftw_plan_dft_1d, (int n, fftw_complex* i, fftw_complex* o, int s, unsigned f), (n, i, o, s, f))
PLAN(fftw_plan, fftw_plan_r2r_1d, (int n, double* i, double* o, fftw_r2r_kind k, unsigned f), (n, i, o, k, f))
PLAN(fftw_plan, fftw_plan_dft_r2c, (int r, const int* n, double* i, fftw_complex* o, unsigned f), (r, n, i, o, f))
PLAN(fftw_plan, fftw_plan_dft_c2r, (int r, const int* n, fftw_complex* i, double* o, unsigned f), (r, n, i, o, f))
PLAN(fftw_plan, fftw_plan_many_dft_r2c, (int r, const int* n, int h, double* i, const int* ie, int is, int id, fftw_complex* o, const int* oe, int os, int od, unsigned f),
     (r, n, h, i, ie, is, id, o, oe, os, od, f))
PLAN(fftw_plan, fftw_plan_many_dft_c2r, (int r, const int* n, int h, fftw_complex* i, const int* ie, int is, int id, double* o, const int* oe, int os, int od, unsigned f),
     (r, n, h, i, ie, is, id, o, oe, os, od, f))
void __real_fftw_destroy_plan(fftw_plan);
void __wrap_fftw_destroy_plan(fftw_plan p) { if (p) --live_plans; __real_fftw_destroy_plan(p); }
void* __real_fftw_malloc(size_t);
void __real_fftw_free(void*);
void* __wrap_fftw_malloc(size_t n) { if (refuse()) return 0; return scramble(__real_fftw_malloc(n), n); }
double* __wrap_fftw_alloc_real(size_t n) { return (double*)__wrap_fftw_malloc(n * sizeof(double)); }
fftw_complex* __wrap_fftw_alloc_complex(size_t n) { return (fftw_complex*)__wrap_fftw_malloc(n * sizeof(fftw_complex)); }
void __wrap_fftw_free(void* p) { if (p) --live_blocks; __real_fftw_free(p); }
}

void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { void* p; if (__wrap_posix_memalign(&p, (size_t)a, n ? n : 1)) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }

// the environment variables that the module asks for
static char asked[400];
extern "C" char* __real_getenv(const char*);
extern "C" char* __wrap_getenv(const char* n)
{
    if (strlen(n) < 40 && strlen(asked) < 340 && !strstr(asked, n)) { strcat(asked, n); strcat(asked, "\n"); }
    return __real_getenv(n);
}
extern "C" char* __wrap_secure_getenv(const char* n) { return __wrap_getenv(n); }
OUT const char* dst_asked(void) { return asked; }
extern "C" PyThreadState* __wrap_PyEval_SaveThread(void)
{
    points = 0;
    PyThreadState* t = point(__real_PyEval_SaveThread());
    left_as = t; away = 1;
    return t;
}
extern "C" void __wrap_PyEval_RestoreThread(PyThreadState* t) { away = 0; __real_PyEval_RestoreThread(t); }
OUT void dst_on_release(PyObject* f) { Py_INCREF(f); on_release = f; }
OUT void dst_init(void)
{
    PyMem_GetAllocator(PYMEM_DOMAIN_OBJ, &old_obj);
    PyMem_GetAllocator(PYMEM_DOMAIN_MEM, &old_mem);
    PyMemAllocatorEx a = {&old_obj, h_malloc, h_calloc, h_realloc, h_free}, b = {&old_mem, h_malloc, h_calloc, h_realloc, h_free};
    PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &a);
    PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &b);
}
OUT void dst_arm(const char* m, const char* f, const char* p) { set(mem, m); set(fft, f); set(py, p); armed = 1; }
OUT void dst_disarm(void) { armed = 0; }
OUT long dst_stat(int k)
{
    switch (k) {
    case 0: return mem.count; case 1: return mem.fired;
    case 2: return fft.count; case 3: return fft.fired;
    case 4: return py.count; case 5: return py.fired;
    case 6: return live_blocks; case 7: return live_plans;
    }
    return -1;
}

// Forks for every request on standard input; the child returns the descriptor that takes its answer and reads the request
// itself, so that every session starts from the same state of the interpreter.
OUT int dst_serve(void)
{
    int out = dup(1), in = 0;
    for (;;) {
        struct pollfd pf = {0, POLLIN, 0};
        while (poll(&pf, 1, -1) < 0) {}          // the child starts when its request is there
        int fd = memfd_create("answer", 0);
        fflush(0);
        pid_t pid = fork();
        if (pid == 0) {
            struct rlimit c = {10, 15}, k = {0, 0}, a = {6ul << 30, 6ul << 30};
            setrlimit(RLIMIT_CPU, &c); setrlimit(RLIMIT_CORE, &k); setrlimit(RLIMIT_AS, &a);
            close(out);
            int null = open("/dev/null", O_RDWR);
            dup2(null, 1); dup2(null, 2); close(null);
            return fd;
        }
        int st = 0;
        bool hung = !wait_child(pid, &st, 60, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(0);      // no more requests
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0, hang = hung || sig == SIGXCPU;
        char head[128];
        off_t n = lseek(fd, 0, SEEK_END);
        if (sig) n = 0;
        int h = snprintf(head, sizeof head, "{\"sig\": %d, \"hang\": %d, \"exit\": %d, \"f\": {}, \"ans\": ", hang ? 0 : sig, hang, WIFEXITED(st) ? WEXITSTATUS(st) : -1);
        char* buf = (char*)__real_malloc(h + n + 8);
        memcpy(buf, head, h);
        if (n && pread(fd, buf + h, n, 0) != n) _exit(1);
        if (!n) { buf[h] = '{'; buf[h + 1] = '}'; n = 2; }
        buf[h + n] = '}'; buf[h + n + 1] = '\n';
        for (off_t k = 0, t = h + n + 2; k < t;) { ssize_t w = write(out, buf + k, t - k); if (w <= 0) _exit(1); k += w; }
        __real_free(buf);
        close(fd);
    }
}
