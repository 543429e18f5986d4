// The state a process shares between everything that runs in it: floating-point modes, locale, signals, descriptors,
// generators of libc, streams, environment... state_take() writes it down as lines "name value"; state_world() gives it
// values other than the usual ones first, chosen by a seed.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <errno.h>
#include <fenv.h>
#include <fcntl.h>
#include <unistd.h>
#include <locale.h>
#include <wchar.h>
#include <dirent.h>
#include <iostream>
#include <locale>
#include <new>
#include <exception>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <fftw3.h>

#define OUT extern "C" __attribute__((visibility("default")))
extern char** environ;

static char g_text[2][1 << 15], g_diff[400];
static char* g_p; static char* g_end;
static void put(const char* f, ...)
{
    va_list a; va_start(a, f);
    int n = vsnprintf(g_p, g_end - g_p, f, a);
    va_end(a);
    if (n > 0) { g_p += n; if (g_p >= g_end) g_p = g_end - 1; }
}
static uint64_t hash(const void* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

static char g_rand[128];                // the state of rand()
static int g_cur = 0;                   // which text is the latest
static int g_rand_mine = 0, g_capture = -1;
static long g_wisdom = 0;
static off_t g_printed = 0;             // what this file's users print themselves
static char g_alt[1 << 16];
OUT int state_modes; int state_modes = 1;   // the worlds also differ in floating-point modes

static void stream(const char* name, std::ios& s)
{
    put("%s flags=%x precision=%d width=%d fill=%d exceptions=%d state=%d buffer=%d tied=%d locale=%s\n", name, (unsigned)s.flags(), (int)s.precision(), (int)s.width(), (int)s.fill(),
        (int)s.exceptions(), (int)s.rdstate(), (int)(hash(&static_cast<std::streambuf* const&>(s.rdbuf()), sizeof(void*)) % 1000000), s.tie() == 0 ? 0 : s.tie() == &std::cout ? 1 : 2, s.getloc().name().c_str());
}
static void nothing(int) {}
struct Own : std::numpunct<char> { char do_thousands_sep() const { return '_'; } std::string do_grouping() const { return "\3"; } };
static std::locale* g_locale = 0;       // the caller's own
static void no_memory() { throw std::bad_alloc(); }
static void count(char, void* v) { ++*(long*)v; }

static void take(char* buf, size_t cap)
{
    g_p = buf; g_end = buf + cap;
    unsigned csr = 0; unsigned short cw = 0;
#ifdef __x86_64__
    __asm__ volatile("stmxcsr %0" : "=m"(csr)); __asm__ volatile("fnstcw %0" : "=m"(cw));
#endif
    put("floating-point modes rounding=%d mxcsr=%x x87=%x\n", fegetround(), csr & 0xffc0, cw);
    std::cout.flush(); fflush(0);
    if (g_capture >= 0) {               // before anything below could print
        off_t n = (off_t)syscall(SYS_lseek, g_capture, 0, SEEK_END);
        char b[80]; long k = n > g_printed ? syscall(SYS_pread64, g_capture, b, sizeof b - 1, g_printed) : 0;
        b[k > 0 ? k : 0] = 0;
        for (char* q = b; *q; ++q) if (*q == '\n') *q = '|';
        put("printed bytes=%ld%s%s\n", (long)n, b[0] ? " " : "", b);
        if (k <= 0) g_printed = n;
    }
    put("locale own=%d %s / %s / %s\n", g_locale && std::locale() == *g_locale, setlocale(LC_ALL, 0), std::locale().name().c_str(), uselocale((locale_t)0) == LC_GLOBAL_LOCALE ? "global" : "own");
    for (int s = 1; s < 65; ++s) {
        struct { void* h; unsigned long flags; void* r; uint64_t mask; } k = {0, 0, 0, 0};
        if (syscall(SYS_rt_sigaction, s, 0, &k, 8) == 0 && (k.h || k.flags || k.mask)) put("signal %d handler=%p flags=%lx mask=%lx\n", s, k.h, k.flags, (unsigned long)k.mask);
    }
    uint64_t m = 0; syscall(SYS_rt_sigprocmask, SIG_BLOCK, 0, &m, 8);
    stack_t st; memset(&st, 0, sizeof st); sigaltstack(0, &st);
    put("signals blocked=%lx stack=%p/%d\n", (unsigned long)m, st.ss_sp, st.ss_flags);
    for (int i = 0; i < 3; ++i) {
        struct itimerval t; memset(&t, 0, sizeof t); syscall(SYS_getitimer, i, &t);
        put("timer %d armed=%d every=%ld.%ld\n", i, t.it_value.tv_sec || t.it_value.tv_usec, (long)t.it_interval.tv_sec, (long)t.it_interval.tv_usec);
    }
    mode_t u = (mode_t)syscall(SYS_umask, 077); syscall(SYS_umask, u);
    char cwd[512] = ""; syscall(SYS_getcwd, cwd, sizeof cwd);
    put("files umask=%o directory=%s\n", (unsigned)u, cwd);
    for (int fd = 0; fd < 128; ++fd) {
        long a = syscall(SYS_fcntl, fd, F_GETFD, 0);
        if (a >= 0) put("descriptor %d flags=%ld/%lx\n", fd, a, syscall(SYS_fcntl, fd, F_GETFL, 0));
    }
    uint64_t h = 0; int ne = 0;
    for (char** e = environ; e && *e; ++e, ++ne) h = mix(h ^ hash(*e, strlen(*e)));
    put("environment variables=%d %lx\n", ne, (unsigned long)h);
    for (int i = 0; i < 16; ++i) { struct rlimit r = {0, 0}; syscall(SYS_prlimit64, 0, i, 0, &r); put("limit %d %lx/%lx\n", i, (unsigned long)r.rlim_cur, (unsigned long)r.rlim_max); }
    char cpus[128]; memset(cpus, 0, sizeof cpus); syscall(SYS_sched_getaffinity, 0, sizeof cpus, cpus);
    char title[32] = ""; syscall(SYS_prctl, PR_GET_NAME, title, 0, 0, 0);
    put("process priority=%ld scheduler=%ld processors=%lx name=%s dumpable=%ld deathsignal=", syscall(SYS_getpriority, PRIO_PROCESS, 0), syscall(SYS_sched_getscheduler, 0), (unsigned long)hash(cpus, sizeof cpus), title,
        syscall(SYS_prctl, PR_GET_DUMPABLE, 0, 0, 0, 0));
    int ds = 0; syscall(SYS_prctl, PR_GET_PDEATHSIG, &ds, 0, 0, 0); put("%d slack=%ld\n", ds, syscall(SYS_prctl, PR_GET_TIMERSLACK, 0, 0, 0, 0));
    int threads = -1, fd = (int)syscall(SYS_openat, AT_FDCWD, "/proc/self/stat", O_RDONLY | O_CLOEXEC, 0);
    if (fd >= 0) {
        char b[1024]; long k = syscall(SYS_read, fd, b, sizeof b - 1); syscall(SYS_close, fd); b[k > 0 ? k : 0] = 0;
        char* q = strrchr(b, ')');
        if (q) { int f = 2; for (char* t = strtok(q + 1, " "); t; t = strtok(0, " ")) if (++f == 20) { threads = atoi(t); break; } }
    }
    put("threads %d\n", threads);
    if (g_rand_mine) { char* p = setstate(g_rand); put("rand state=%lx own=%d\n", (unsigned long)hash(g_rand, sizeof g_rand), p == g_rand); }
    unsigned short z[3] = {1, 2, 3}, c[3]; memcpy(c, seed48(z), sizeof c); seed48(c);
    put("drand48 state=%x,%x,%x\n", c[0], c[1], c[2]);
    put("handlers terminate=%d new=%d\n", (int)(hash(&static_cast<void (*const&)()>(std::get_terminate()), sizeof(void*)) % 1000000), (int)(hash(&static_cast<std::new_handler const&>(std::get_new_handler()), sizeof(void*)) % 1000000));
    stream("cout", std::cout); stream("cerr", std::cerr); stream("clog", std::clog); stream("cin", std::cin);
    put("stdio orientation=%d,%d error=%d\n", fwide(stdout, 0), fwide(stderr, 0), ferror(stdout) != 0);
    long wisdom = 0; fftw_export_wisdom(count, &wisdom);
    put("wisdom kept=%d\n", wisdom >= g_wisdom);
}

OUT void state_world(unsigned long seed)
{   // seed 0: the usual state, with some marks of the host's own
    initstate((unsigned)(seed * 7 + 1), g_rand, sizeof g_rand); g_rand_mine = 1;
    unsigned short z[3] = {(unsigned short)seed, (unsigned short)(seed >> 16), 77}; seed48(z);
    {   // something the caller has taught FFTW
        fftw_complex* a = (fftw_complex*)__builtin_malloc(2 * sizeof(fftw_complex));
        fftw_plan p = fftw_plan_dft_1d(2, a, a, FFTW_FORWARD, FFTW_MEASURE);
        if (p) fftw_destroy_plan(p);
        __builtin_free(a);
        g_wisdom = 0; fftw_export_wisdom(count, &g_wisdom);
    }
    if (seed) {
        uint64_t s = mix(seed);
        auto pick = [&](int n) { s = mix(s); return (int)(s % n); };
        static const int R[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
        if (!pick(3)) { int r = R[pick(3)]; if (state_modes) fesetround(r); }
#ifdef __x86_64__
        if (!pick(3)) { unsigned csr; __asm__ volatile("stmxcsr %0" : "=m"(csr)); csr |= pick(2) ? 0x8040 : 0x8000; if (state_modes) __asm__ volatile("ldmxcsr %0" ::"m"(csr)); }
        if (!pick(4)) { unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); cw = (unsigned short)((cw & ~0x300) | 0x200); if (state_modes) __asm__ volatile("fldcw %0" ::"m"(cw)); }
#endif
        static const int S[] = {SIGUSR1, SIGUSR2, SIGINT, SIGTERM, SIGALRM, SIGCHLD, SIGFPE, SIGABRT, SIGHUP, SIGPIPE, SIGWINCH};
        for (int i = 0, k = pick(4); i < k; ++i) {
            struct sigaction a; memset(&a, 0, sizeof a);
            a.sa_handler = pick(2) ? SIG_IGN : nothing; a.sa_flags = pick(2) ? SA_RESTART : 0;
            int n = S[pick(11)]; if (n == SIGFPE || n == SIGABRT) a.sa_handler = nothing;
            sigaction(n, &a, 0);
        }
        if (!pick(3)) { sigset_t m; sigemptyset(&m); for (int i = 0; i < 3; ++i) sigaddset(&m, S[pick(6)]); sigprocmask(SIG_BLOCK, &m, 0); }
        if (!pick(4)) { stack_t st; memset(&st, 0, sizeof st); st.ss_sp = g_alt; st.ss_size = sizeof g_alt; sigaltstack(&st, 0); }
        if (!pick(4)) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 4000 + pick(1000); syscall(SYS_setitimer, pick(2) ? ITIMER_REAL : ITIMER_VIRTUAL, &t, 0); }
        if (!pick(3)) syscall(SYS_umask, pick(512));
        if (!pick(4)) setlocale(LC_ALL, "C.UTF-8");
        if (!pick(4)) { g_locale = new std::locale(std::locale::classic(), new Own); std::locale::global(*g_locale); }
        if (!pick(3)) setenv("OMP_NUM_THREADS", "3", 1);
        if (!pick(4)) std::set_terminate(abort);
        if (!pick(4)) std::set_new_handler(no_memory);
        std::ostream* o[] = {&std::cout, &std::cerr};
        for (int i = 0; i < 2; ++i) {
            if (!pick(3)) o[i]->precision(3 + pick(14));
            if (!pick(3)) o[i]->setf(pick(2) ? std::ios::fixed : std::ios::scientific, std::ios::floatfield);
            if (!pick(4)) o[i]->fill('*');
            if (!pick(4)) o[i]->width(12);
            if (!pick(4)) o[i]->setf(std::ios::hex | std::ios::showbase | std::ios::boolalpha);
        }
        if (!pick(4)) std::cin.tie(0);
        if (!pick(4)) syscall(SYS_prctl, PR_SET_NAME, "caller", 0, 0, 0);
        if (!pick(4)) { struct rlimit r = {64, 256}; setrlimit(RLIMIT_NOFILE, &r); }
    }
    take(g_text[g_cur], sizeof g_text[0]);
}
// settings that are no state to be kept: what earlier calls of other libraries have left, and the caller's language
OUT void state_settings(unsigned long s)
{
    auto pick = [&](int n) { s = mix(s); return (int)(s % n); };
    if (!pick(3)) fftw_set_timelimit(pick(2) ? 0. : 1e-9);
    if (!pick(3)) fftw_forget_wisdom();
    if (!pick(3)) setlocale(LC_ALL, "de_DE.UTF-8");
    if (!pick(4)) { locale_t l = newlocale(LC_ALL_MASK, "de_DE.UTF-8", (locale_t)0); if (l) uselocale(l); }
    if (!pick(4)) try { std::locale::global(std::locale("de_DE.UTF-8")); } catch (std::exception&) {}
    std::ostream* o[] = {&std::cout, &std::cerr, &std::clog};
    for (int i = 0; i < 3; ++i) {
        if (!pick(4)) o[i]->setstate(std::ios::badbit);
        if (!pick(4)) try { o[i]->exceptions(std::ios::badbit | std::ios::failbit); } catch (std::exception&) {}
    }
    if (!pick(4)) { srand(pick(1000)); srandom(pick(1000)); }
    for (int i = 0; i < 3; ++i) if (!pick(4)) syscall(SYS_close, i);
}
// what calls leave to the next: errno and the floating-point flags
OUT void state_flags(unsigned long s)
{
    static const int E[] = {0, ERANGE, EDOM, ENOMEM, EINTR, EINVAL, ENOENT, 1};
    static const int F[] = {0, FE_INVALID, FE_OVERFLOW, FE_DIVBYZERO, FE_UNDERFLOW, FE_ALL_EXCEPT, 0};
    feclearexcept(FE_ALL_EXCEPT);
    if (F[s / 8 % 7]) feraiseexcept(F[s / 8 % 7]);
    errno = E[s % 8];
}
// standard output and error go to a file whose length is watched
OUT void state_capture()
{
    g_capture = (int)syscall(SYS_memfd_create, "printed", 1u);
    if (g_capture < 0) return;
    syscall(SYS_fcntl, g_capture, F_SETFL, O_APPEND);
    fflush(0);
    syscall(SYS_dup3, g_capture, 1, 0); syscall(SYS_dup3, g_capture, 2, 0);
}
OUT void state_begin() { take(g_text[g_cur], sizeof g_text[0]); }
// -> what differs from the last time, or the empty string
OUT const char* state_changed()
{
    char* a = g_text[g_cur]; g_cur ^= 1; char* b = g_text[g_cur];
    take(b, sizeof g_text[0]);
    g_diff[0] = 0;
    while (*a || *b) {
        size_t n = strcspn(a, "\n"), m = strcspn(b, "\n");
        if (n != m || memcmp(a, b, n)) {
            snprintf(g_diff, sizeof g_diff, "'%.*s' became '%.*s'", (int)(n < 180 ? n : 180), a, (int)(m < 180 ? m : 180), b);
            break;
        }
        a += n + (a[n] == '\n'); b += m + (b[m] == '\n');
    }
    return g_diff;
}
