// Simulated environment of the programs: files, standard output, clock, other randomness. The functions below are
// defined in the executable and so pre-empt libc's for libstdc++ and for the code under test. Outside a run
// (g_active == 0) they pass straight through.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simcore.hh"
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <poll.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/auxv.h>
#include <sys/utsname.h>
#include <sys/sysinfo.h>
#include <sys/resource.h>
#include <sched.h>
#include <asm/termbits.h>
#include <sys/ioctl.h>
#include <dlfcn.h>
#include <iostream>
#include <ext/stdio_sync_filebuf.h>

Plan g_plan;
Obs* g_obs = 0;
volatile int g_active = 0;

uint64_t sim_mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

void sim_budget()
{
    if (++g_obs->n_seam > g_plan.budget) { g_obs->how = 3; syscall(SYS_exit_group, 99); }
}

struct ActiveOff { int old; ActiveOff() : old(g_active) { g_active = 0; } ~ActiveOff() { g_active = old; } };

// ---- bounds file ---------------------------------------------------------------------------------------------
static const int MAXFD = 1024;
static char g_fd_bounds[MAXFD];
static FILE* g_cookie_file[MAXFD];

static bool is_bounds(const char* path) { return !strcmp(path, g_plan.path); }

static void note_write_open(const char* what, const char* path)
{
    long k = g_obs->n_wopen++;
    if (k < 8) snprintf(g_obs->wopen[k], 128, "%s %s", what, path);
}

// a file other than the bounds file is asked for: which one it is, in this world
static const char* other(const char* path)
{
    if (!g_active || !path || is_bounds(path) || strlen(path) >= PATHCAP) return path;
    int k = 0;
    while (k < g_obs->n_asked && strcmp(g_obs->asked[k], path)) ++k;
    if (k == g_obs->n_asked && k < 8) { strcpy(g_obs->asked[k], path); ++g_obs->n_asked; }
    for (k = 0; k < g_plan.n_subst; ++k) if (!strcmp(g_plan.subst[k][0], path)) return g_plan.subst[k][1];
    return path;
}

static int sys_open(const char* path, int flags, int mode)
{
    sim_budget();
    if (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND) && strcmp(path, "/dev/null")) {
        note_write_open("open", path);
        errno = EROFS; return -1;
    }
    bool bounds = is_bounds(path);
    if (bounds) {
        long i = g_obs->n_open++;
        long r = g_plan.opens.at(i);
        if (r < 0) { ++g_obs->f_open; errno = (int)-r; return -1; }
    }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, other(path), flags, mode, TRAP_PASS);
    if (fd >= 0 && fd < MAXFD) g_fd_bounds[fd] = bounds;
    return fd;
}

static void truncate_now()
{
    if (g_plan.fifo || g_obs->f_trunc) return;
    ++g_obs->f_trunc;
    if (syscall(SYS_truncate, g_plan.path, g_plan.trunc_size, TRAP_PASS)) {}
}

long sim_sys_read(int fd, void* buf, size_t n)
{
    sim_budget();
    long i = g_obs->n_read++;
    if (i == g_plan.trunc_at) truncate_now();
    long r = g_plan.reads.at(i);
    if (r < 0) {
        if (r == -EINTR) ++g_obs->f_eintr;
        else { ++g_obs->f_read_err; if (g_obs->last_read_err < 0) g_obs->last_read_err = g_obs->delivered; }
        errno = (int)-r;
        return -1;
    }
    if (g_plan.fifo) {
        size_t left = g_plan.fifo_size - g_obs->delivered;
        if (left == 0) { ++g_obs->f_eof; return 0; }
        if (n > left) n = left;
    }
    bool s = false;
    if (r > 0 && (size_t)r < n) { n = r; s = true; }
    long k = syscall(SYS_read, fd, buf, n);
    if (k > 0) { g_obs->delivered += k; if (s) ++g_obs->f_short_read; }
    if (k == 0) ++g_obs->f_eof;
    return k;
}

// ---- standard output and error ----------------------------------------------------------------------------------
long sim_sys_write(int which, const char* buf, size_t n)
{
    sim_budget();
    if (which == 2) {
        size_t k = n; if (g_obs->err_len + (long)k > OUTCAP) k = OUTCAP - g_obs->err_len;
        memcpy(g_obs->err + g_obs->err_len, buf, k); g_obs->err_len += k;
        return n;
    }
    long r = g_plan.writes.at(g_obs->n_write++);
    if (r < 0) { ++g_obs->f_write_err; errno = (int)-r; return -1; }
    if (r > 0 && (size_t)r < n) { n = r; ++g_obs->f_short_write; }
    size_t k = n; if (g_obs->out_len + (long)k > OUTCAP) k = OUTCAP - g_obs->out_len;
    memcpy(g_obs->out + g_obs->out_len, buf, k); g_obs->out_len += k;
    return n;
}

static ssize_t cookie_write(void* c, const char* buf, size_t n)
{   // what glibc's own stream does: write until everything is accepted or a write fails
    size_t done = 0;
    while (done < n) {
        long r = sim_sys_write((int)(intptr_t)c, buf + done, n - done);
        if (r <= 0) break;
        done += r;
    }
    return done;
}
static ssize_t cookie_read(void* c, char* buf, size_t n) { return sim_sys_read((int)(intptr_t)c, buf, n); }
static int cookie_seek(void* c, off64_t* o, int w) { off_t r = syscall(SYS_lseek, (int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int cookie_close(void* c)
{
    int fd = (int)(intptr_t)c;
    g_cookie_file[fd] = 0; g_fd_bounds[fd] = 0;
    return (int)syscall(SYS_close, fd);
}

static FILE* g_simout = 0; static FILE* g_simerr = 0;

extern "C" {
int fileno(FILE* f) noexcept
{
    for (int i = 0; i < MAXFD; ++i) if (g_cookie_file[i] == f) return i;
    if (f == g_simout && g_simout) return 1;
    if (f == g_simerr && g_simerr) return 2;
    return f->_fileno;
}

FILE* fopen(const char* path, const char* mode)
{
    int flags;
    switch (mode[0]) {
        case 'r': flags = strchr(mode, '+') ? O_RDWR : O_RDONLY; break;
        case 'w': flags = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        default:  flags = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    }
    if (!g_active) {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, 0666);
        return fd < 0 ? 0 : fdopen(fd, mode);
    }
    int fd = sys_open(path, flags, 0666);
    if (fd < 0) return 0;
    ActiveOff off;
    if (fd < MAXFD && g_fd_bounds[fd] && flags == O_RDONLY) {
        cookie_io_functions_t io = {cookie_read, 0, cookie_seek, cookie_close};
        FILE* f = fopencookie((void*)(intptr_t)fd, "r", io);
        g_cookie_file[fd] = f;
        return f;
    }
    return fdopen(fd, mode);
}
FILE* fdopen(int fd, const char* mode) noexcept
{   // a stream over a descriptor of the bounds file; anything else as fopen does it
    static FILE* (*real)(int, const char*) = 0;
    if (!real) { ActiveOff off; real = (FILE* (*)(int, const char*))dlsym(RTLD_NEXT, "fdopen"); }
    if (g_active && fd >= 0 && fd < MAXFD && g_fd_bounds[fd]) {
        ActiveOff off;
        cookie_io_functions_t io = {cookie_read, 0, cookie_seek, cookie_close};
        return g_cookie_file[fd] = fopencookie((void*)(intptr_t)fd, "r", io);
    }
    return real(fd, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
FILE* freopen(const char* path, const char* mode, FILE* f)
{
    if (!path) return f;
    bool in = f == stdin, out = f == stdout;
    FILE* g = fopen(path, mode);
    if (!g) return 0;
    fclose(f);
    if (in) stdin = g; else if (out) stdout = g; else if (f == stderr) stderr = g;
    return g;
}
FILE* freopen64(const char* path, const char* mode, FILE* f) { return freopen(path, mode, f); }

int open(const char* path, int flags, ...)
{
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
    return g_active ? sys_open(path, flags, mode) : (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...)
{
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
    return g_active ? sys_open(path, flags, mode) : (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int openat(int dir, const char* path, int flags, ...)
{
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
    if (g_active && dir == AT_FDCWD) return sys_open(path, flags, mode);
    return (int)syscall(SYS_openat, dir, path, flags, mode);
}
int creat(const char* path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, (int)mode); }

static bool sim_fd(int fd) { return g_active && fd >= 0 && fd < MAXFD && g_fd_bounds[fd]; }
ssize_t read(int fd, void* buf, size_t n) { return sim_fd(fd) ? sim_sys_read(fd, buf, n) : syscall(SYS_read, fd, buf, n); }
ssize_t pread(int fd, void* buf, size_t n, off_t o)
{
    if (!sim_fd(fd)) return syscall(SYS_pread64, fd, buf, n, o);
    if (g_plan.fifo) { errno = ESPIPE; return -1; }
    long r = g_plan.reads.at(g_obs->n_read); sim_budget(); ++g_obs->n_read;
    if (r < 0) { if (r == -EINTR) ++g_obs->f_eintr; else { ++g_obs->f_read_err; if (g_obs->last_read_err < 0) g_obs->last_read_err = o; } errno = (int)-r; return -1; }
    if (r > 0 && (size_t)r < n) { n = r; ++g_obs->f_short_read; }
    long k = syscall(SYS_pread64, fd, buf, n, o); if (k > 0) g_obs->delivered += k; return k;
}
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t o) noexcept
{   // a mapped file shrinks after it was mapped
    void* p = (void*)syscall(SYS_mmap, a, n, prot, flags, fd, o);
    if (sim_fd(fd)) { sim_budget(); ++g_obs->n_map; if (p != MAP_FAILED && g_plan.trunc_at >= 0) truncate_now(); }
    return p;
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t o) noexcept { return mmap(a, n, prot, flags, fd, o); }
ssize_t readv(int fd, const struct iovec* v, int c)
{
    if (!sim_fd(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; ++i) if (v[i].iov_len) return sim_sys_read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t write(int fd, const void* buf, size_t n)
{
    if (g_active && (fd == 1 || fd == 2)) return sim_sys_write(fd, (const char*)buf, n);
    return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (g_active && (fd == 1 || fd == 2)) {
        long t = 0;
        for (int i = 0; i < c; ++i) {
            if (!v[i].iov_len) continue;
            long r = sim_sys_write(fd, (const char*)v[i].iov_base, v[i].iov_len);
            if (r < 0) return t ? t : -1;
            t += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return t;
    }
    return syscall(SYS_writev, fd, v, c);
}
// everything that would change the file system is recorded and refused
#define REFUSE1(name) int name(const char* p) noexcept { if (g_active) { note_write_open(#name, p); errno = EROFS; return -1; }
REFUSE1(unlink) return (int)syscall(SYS_unlink, p); }
REFUSE1(rmdir) return (int)syscall(SYS_rmdir, p); }
REFUSE1(remove) return (int)syscall(SYS_unlink, p); }
int rename(const char* a, const char* b) noexcept { if (g_active) { note_write_open("rename", a); errno = EROFS; return -1; } return (int)syscall(SYS_rename, a, b); }
int mkdir(const char* a, mode_t m) noexcept { if (g_active) { note_write_open("mkdir", a); errno = EROFS; return -1; } return (int)syscall(SYS_mkdir, a, m); }
int chmod(const char* a, mode_t m) noexcept { if (g_active) { note_write_open("chmod", a); errno = EROFS; return -1; } return (int)syscall(SYS_chmod, a, m); }
int truncate(const char* a, off_t n) noexcept { if (g_active) { note_write_open("truncate", a); errno = EROFS; return -1; } return (int)syscall(SYS_truncate, a, n); }
int mkstemp(char* t) { if (g_active) { note_write_open("mkstemp", t); errno = EROFS; return -1; } errno = ENOSYS; return -1; }
FILE* tmpfile(void) { if (g_active) note_write_open("tmpfile", ""); errno = EROFS; return 0; }
int system(const char* c) { if (g_active) note_write_open("system", c ? c : ""); return -1; }
FILE* popen(const char* c, const char*) { if (g_active) note_write_open("popen", c); errno = EROFS; return 0; }

// ---- clocks --------------------------------------------------------------------------------------------------
static long clock_reading()
{
    sim_budget();
    long i = g_obs->n_clock++;
    if (g_plan.n_clock == 0) return 1700000000;
    long v = i < g_plan.n_clock ? g_plan.clock[i] : g_plan.clock[g_plan.n_clock - 1] + g_plan.clock_step * (i - g_plan.n_clock + 1);
    if (v == -1) ++g_obs->f_clock_err;
    return v;
}
// how many microseconds of processor (or monotonic) time pass between two readings
static long pace() { static const long P[] = {0, 1, 1000, 1000000, 100000000, 10000000000}; return P[sim_mix(g_plan.entropy ^ 0x9ace) % 6]; }
time_t time(time_t* t) noexcept
{
    long v = g_active ? clock_reading() : 0;
    if (!g_active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts, 0, 0, TRAP_PASS); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
// The fraction of the second. Starting times outside the years 1970 to 2250 are whole seconds: with those, conversions
// round either way or overflow, and it is not the fraction of a second that a run may depend on.
static long fraction(long v, long unit)
{
    if (g_obs->n_clock == 1 && (v < 0 || v > 9000000000)) return 0;
    return (long)(sim_mix(g_plan.entropy + g_obs->n_clock) % unit);
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
    if (!g_active) return (int)syscall(SYS_clock_gettime, c, ts, 0, 0, TRAP_PASS);
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE && c != CLOCK_TAI) {      // no matter of the wall clock
        sim_budget();
        ++g_obs->n_time_other;
        ts->tv_sec = (long)(g_plan.entropy % 1000000) + pace() / 1000000 * g_obs->n_time_other;
        ts->tv_nsec = (long)(sim_mix(g_plan.entropy + 77 * g_obs->n_time_other) % 1000000000);
        return 0;
    }
    long v = clock_reading();
    if (v == -1 && g_obs->n_clock > 1) { errno = EINVAL; return -1; }
    ts->tv_sec = v; ts->tv_nsec = fraction(v, 1000000000);
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
    if (!g_active) return (int)syscall(SYS_gettimeofday, tv, 0, 0, 0, TRAP_PASS);
    long v = clock_reading();
    if (v == -1 && g_obs->n_clock > 1) { errno = EINVAL; return -1; }
    tv->tv_sec = v; tv->tv_usec = fraction(v, 1000000);
    return 0;
}
clock_t clock(void) noexcept
{
    if (!g_active) return 0;
    sim_budget(); ++g_obs->n_time_other;
    return (clock_t)(sim_mix(g_plan.entropy) % 100000) + pace() * g_obs->n_time_other;
}
clock_t times(struct tms* t) noexcept { if (t) memset(t, 0, sizeof *t); ++g_obs->n_time_other; return (clock_t)(sim_mix(g_plan.entropy ^ 3) % 1000000); }
unsigned sleep(unsigned) { if (g_active) sim_budget(); return 0; }
int usleep(useconds_t) { if (g_active) sim_budget(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if (g_active) sim_budget(); return 0; }

// ---- other sources of randomness --------------------------------------------------------------------------------
pid_t getpid(void) noexcept { if (!g_active) return (pid_t)syscall(SYS_getpid, 0, 0, 0, 0, TRAP_PASS); ++g_obs->n_entropy; return (pid_t)(g_plan.pid ? g_plan.pid : 4242); }
pid_t getppid(void) noexcept { if (!g_active) return (pid_t)syscall(SYS_getppid, 0, 0, 0, 0, TRAP_PASS); ++g_obs->n_entropy; return (pid_t)(g_plan.pid / 2 + 1); }
static uint64_t entropy() { sim_budget(); return sim_mix(g_plan.entropy + 0x51ed2700u * (uint64_t)++g_obs->n_entropy); }
ssize_t getrandom(void* b, size_t n, unsigned f)
{
    if (!g_active) return syscall(SYS_getrandom, b, n, f, 0, TRAP_PASS);
    for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)entropy();
    return n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
uint32_t arc4random(void) { return (uint32_t)entropy(); }
uint32_t arc4random_uniform(uint32_t n) { return n ? (uint32_t)(entropy() % n) : 0; }
// ---- facts about the machine and the process that a result must not depend on
static unsigned long fact(unsigned long k) { ++g_obs->n_entropy; return (unsigned long)sim_mix(g_plan.entropy * 31 + k); }
char* getenv(const char* name) noexcept
{
    if (g_active) {
        int k = 0;
        while (k < g_obs->n_getenv && strcmp(g_obs->getenv_name[k], name)) ++k;
        if (k == g_obs->n_getenv && k < 8 && strlen(name) < 40) strcpy(g_obs->getenv_name[g_obs->n_getenv++], name);
    }
    size_t n = strlen(name);
    for (char** e = environ; e && *e; ++e) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return 0;
}
char* secure_getenv(const char* name) noexcept { return getenv(name); }
static unsigned long g_auxv_random[2];
unsigned long getauxval(unsigned long t) noexcept
{
    if (g_active && t == AT_RANDOM) { g_auxv_random[0] = fact(1); g_auxv_random[1] = fact(2); return (unsigned long)g_auxv_random; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, "/proc/self/auxv", O_RDONLY, 0);
    unsigned long v[2], r = 0;
    while (fd >= 0 && syscall(SYS_read, fd, v, sizeof v) == sizeof v && v[0]) if (v[0] == t) { r = v[1]; break; }
    if (fd >= 0) syscall(SYS_close, fd);
    return r;
}
int gethostname(char* b, size_t n) noexcept { snprintf(b, n, "%c%lu", (char)(97 + (g_active ? fact(3) : 0) % 26), g_active ? fact(3) % 100000 : 1); return 0; }
int uname(struct utsname* u) noexcept
{
    int r = (int)syscall(SYS_uname, u);
    if (g_active && !r) { snprintf(u->nodename, sizeof u->nodename, "%c%lu", (char)(97 + fact(3) % 26), fact(3) % 100000); snprintf(u->release, sizeof u->release, "6.%lu.0", fact(4) % 20); }
    return r;
}
long gethostid(void) { return (long)(uint32_t)fact(5); }
uid_t getuid(void) noexcept { return g_active ? (uid_t)(fact(6) % 5000) : (uid_t)syscall(SYS_getuid); }
uid_t geteuid(void) noexcept { return g_active ? (uid_t)(fact(6) % 5000) : (uid_t)syscall(SYS_geteuid); }
pid_t gettid(void) noexcept { return g_active ? getpid() : (pid_t)syscall(SYS_gettid, 0, 0, 0, 0, TRAP_PASS); }
pid_t getpgrp(void) noexcept { return g_active ? (pid_t)(fact(7) % 100000) : (pid_t)syscall(SYS_getpgrp); }
int getloadavg(double v[], int n) noexcept { for (int i = 0; i < n && i < 3; ++i) v[i] = (double)(fact(8 + i) % 1000) / 100; return n < 3 ? n : 3; }
int sysinfo(struct sysinfo* s) noexcept
{
    int r = (int)syscall(SYS_sysinfo, s);
    if (g_active) { s->uptime = (long)(fact(11) % 10000000); s->freeram = fact(12) % (1ul << 34); s->loads[0] = fact(13) % 100000; s->procs = (unsigned short)(fact(14) % 1000); }
    return r;
}
int getrusage(__rusage_who_t w, struct rusage* u) noexcept
{
    int r = (int)syscall(SYS_getrusage, w, u);
    if (g_active && !r) { u->ru_utime.tv_sec = (long)(fact(15) % 100000); u->ru_utime.tv_usec = (long)(fact(16) % 1000000); u->ru_maxrss = (long)(fact(17) % 1000000); u->ru_minflt = (long)(fact(18) % 100000); }
    return r;
}
static int cpus() { static const int N[] = {1, 2, 3, 4, 6, 8, 16, 32, 64, 96, 128, 256}; return N[fact(22) % 12]; }
int get_nprocs(void) noexcept { return g_active ? cpus() : 8; }
int get_nprocs_conf(void) noexcept { return g_active ? cpus() : 8; }
long sysconf(int name) noexcept
{
    static long (*real)(int) = 0;
    if (!real) { ActiveOff off; real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); }
    if (g_active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return cpus();
    if (g_active && name == _SC_PHYS_PAGES) return (long)(1000000 + fact(23) % 8000000);
    if (g_active && name == _SC_AVPHYS_PAGES) return (long)(10000 + fact(24) % 900000);
    return real(name);
}
int getrlimit(__rlimit_resource_t w, struct rlimit* r) noexcept
{
    int e = (int)syscall(SYS_prlimit64, 0, (int)w, 0, r);
    if (g_active && !e && w == RLIMIT_STACK) r->rlim_cur -= fact(25) % 512 * 4096;
    if (g_active && !e && w == RLIMIT_NOFILE) r->rlim_cur -= fact(26) % 256;
    return e;
}
int getrlimit64(__rlimit_resource_t w, struct rlimit64* r) noexcept { return getrlimit(w, (struct rlimit*)r); }
mode_t umask(mode_t m) noexcept { mode_t r = (mode_t)syscall(SYS_umask, m); return g_active ? (mode_t)(fact(27) & 077) : r; }
// which file it is and when it was used, apart from its kind and size
static int stat_of(int r, struct stat* s)
{
    if (!g_active || r) return r;
    s->st_ino = fact(28) % 10000000; s->st_dev = fact(29) % 1000; s->st_uid = (uid_t)(fact(6) % 5000); s->st_gid = (gid_t)(fact(30) % 5000);
    struct timespec* t[] = {&s->st_mtim, &s->st_ctim, &s->st_atim};
    for (int k = 0; k < 3; ++k) { t[k]->tv_sec = (long)(1600000000 + fact(31 + k) % 100000000); t[k]->tv_nsec = (long)(fact(34 + k) % 1000000000); }
    return r;
}
int fstatat(int d, const char* p, struct stat* s, int f) noexcept { return stat_of((int)syscall(SYS_newfstatat, d, d == AT_FDCWD ? other(p) : p, s, f), s); }
int access(const char* p, int m) noexcept { return (int)syscall(SYS_faccessat, AT_FDCWD, other(p), m); }
int faccessat(int d, const char* p, int m, int) noexcept { return (int)syscall(SYS_faccessat, d, d == AT_FDCWD ? other(p) : p, m); }
int stat(const char* p, struct stat* s) noexcept { return fstatat(AT_FDCWD, p, s, 0); }
int lstat(const char* p, struct stat* s) noexcept { return fstatat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat* s) noexcept { return stat_of((int)syscall(SYS_fstat, fd, s), s); }
int stat64(const char* p, struct stat64* s) noexcept { return stat(p, (struct stat*)s); }
int lstat64(const char* p, struct stat64* s) noexcept { return lstat(p, (struct stat*)s); }
int fstat64(int fd, struct stat64* s) noexcept { return fstat(fd, (struct stat*)s); }
int fstatat64(int d, const char* p, struct stat64* s, int f) noexcept { return fstatat(d, p, (struct stat*)s, f); }
int statx(int d, const char* p, int f, unsigned m, struct statx* s) noexcept
{
    int r = (int)syscall(SYS_statx, d, d == AT_FDCWD ? other(p) : p, f, m, s);
    if (g_active && !r) {
        s->stx_ino = fact(28) % 10000000; s->stx_dev_minor = (unsigned)(fact(29) % 1000);
        s->stx_mtime.tv_sec = (long)(1600000000 + fact(31) % 100000000); s->stx_mtime.tv_nsec = (unsigned)(fact(34) % 1000000000);
        s->stx_ctime = s->stx_atime = s->stx_btime = s->stx_mtime;
    }
    return r;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t* s) noexcept
{
    if (!g_active) { long r = syscall(SYS_sched_getaffinity, p, n, s); return r < 0 ? -1 : 0; }
    memset(s, 0, n);
    for (size_t i = 0; i < (size_t)cpus() && i < n * 8; ++i) ((unsigned char*)s)[i / 8] |= 1 << i % 8;
    return 0;
}
int sched_getcpu(void) noexcept { return g_active ? (int)(fact(19 + g_obs->n_entropy) % 8) : 0; }
int isatty(int fd) noexcept { if (g_active && fd >= 0 && fd <= 2) { if (fact(20) & 1) return 1; errno = ENOTTY; return 0; } struct termios t; return syscall(SYS_ioctl, fd, TCGETS, &t) == 0; }
char* getlogin(void) { static char b[32]; snprintf(b, sizeof b, "user%lu", fact(21) % 1000); return b; }
}
// what a bare system call or instruction asks for; false: not one of these
bool sim_bare(long nr, const long a[6], long* r)
{
    switch (nr) {
        case SYS_getpid: case SYS_gettid: *r = getpid(); return true;
        case SYS_getppid: *r = getppid(); return true;
        case SYS_getrandom: *r = getrandom((void*)a[0], (size_t)a[1], 0); return true;
        case SYS_time: *r = time((time_t*)a[0]); return true;
        case SYS_clock_gettime: *r = clock_gettime((clockid_t)a[0], (struct timespec*)a[1]) ? -EINVAL : 0; return true;
        case SYS_gettimeofday: *r = gettimeofday((struct timeval*)a[0], 0) ? -EINVAL : 0; return true;
        case SYS_getcpu: if (a[0]) *(unsigned*)a[0] = (unsigned)sched_getcpu(); if (a[1]) *(unsigned*)a[1] = 0; *r = 0; return true;
        // signals reach nobody but the run itself (the process numbers it knows are not its own)
        case SYS_kill: case SYS_tkill: case SYS_tgkill:
            *r = syscall(SYS_tgkill, syscall(SYS_getpid, 0, 0, 0, 0, TRAP_PASS), syscall(SYS_gettid, 0, 0, 0, 0, TRAP_PASS), nr == SYS_tgkill ? a[2] : a[1], 0, TRAP_PASS);
            return true;
        case SYS_times: *r = times((struct tms*)a[0]); return true;
    }
    return false;
}
uint64_t sim_tsc() { sim_budget(); ++g_obs->n_entropy; return sim_mix(g_plan.entropy ^ 0x75c) % ((uint64_t)1 << 44) + (uint64_t)(pace() + 100) * 3000 * g_obs->n_entropy; }
// std::random_device
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)entropy(); }
extern "C" void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
extern "C" void _ZNSt13random_device7_M_finiEv(void*) {}

// ---- set-up in the child ---------------------------------------------------------------------------------------
void sim_setup_child()
{
    cookie_io_functions_t io = {0, cookie_write, 0, 0};
    g_simout = fopencookie((void*)1, "w", io);
    g_simerr = fopencookie((void*)2, "w", io);
    setvbuf(g_simout, (char*)__builtin_malloc(4096), g_plan.outbuf == 1 ? _IOLBF : g_plan.outbuf == 2 ? _IONBF : _IOFBF, 4096);
    setvbuf(g_simerr, 0, _IONBF, 0);
    stdout = g_simout; stderr = g_simerr;
    std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(g_simout));
    std::cerr.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(g_simerr));
    std::clog.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(g_simerr));
}

// ---- plan parser -------------------------------------------------------------------------------------------------
static bool parse_script(char* v, Script& s)
{   // items "a,b,cxN", tail after ';'
    s.n = 0; s.tail = 0;
    char* semi = strchr(v, ';');
    if (semi) { *semi = 0; s.tail = strtol(semi + 1, 0, 10); }
    for (char* t = strtok(v, ","); t; t = strtok(0, ",")) {
        char* e; long x = strtol(t, &e, 10); long rep = *e == 'x' ? strtol(e + 1, 0, 10) : 1;
        while (rep-- > 0) { if (s.n >= MAXSCRIPT) return false; s.v[s.n++] = x; }
    }
    return true;
}
static bool parse_ranges(char* v, Range* r, int& n)
{
    n = 0;
    for (char* t = strtok(v, ","); t; t = strtok(0, ",")) {
        if (n >= MAXRANGES) return false;
        char* e; r[n].a = strtol(t, &e, 10); r[n].b = *e == '-' ? strtol(e + 1, 0, 10) : r[n].a + 1; ++n;
    }
    return true;
}
bool plan_ranges(char* v, Range* r, int& n) { return parse_ranges(v, r, n) && n <= 16; }
bool plan_set(const char* key, char* v)
{
    Plan& p = g_plan;
    if (!strcmp(key, "path")) { snprintf(p.path, sizeof p.path, "%s", v); return true; }
    if (!strcmp(key, "fifo")) { p.fifo = 1; p.fifo_size = strtol(v, 0, 10); return true; }
    if (!strcmp(key, "opens")) return parse_script(v, p.opens);
    if (!strcmp(key, "reads")) return parse_script(v, p.reads);
    if (!strcmp(key, "writes")) return parse_script(v, p.writes);
    if (!strcmp(key, "trunc")) { char* e; p.trunc_at = strtol(v, &e, 10); p.trunc_size = strtol(e + 1, 0, 10); return true; }
    if (!strcmp(key, "alloc")) return parse_ranges(v, p.alloc, p.n_alloc);
    if (!strcmp(key, "quota")) { p.quota = strtol(v, 0, 10); return true; }
    if (!strcmp(key, "fft")) return parse_ranges(v, p.fft, p.n_fft);
    if (!strcmp(key, "clock")) {
        char* semi = strchr(v, ';'); if (semi) { *semi = 0; p.clock_step = strtol(semi + 1, 0, 10); }
        for (char* t = strtok(v, ","); t; t = strtok(0, ",")) if (p.n_clock < 256) p.clock[p.n_clock++] = strtol(t, 0, 10);
        return true;
    }
    if (!strcmp(key, "heap")) { char* e; p.heap_seed = strtoull(v, &e, 10); p.heap_mode = (int)strtol(e + 1, 0, 10); return true; }
    if (!strcmp(key, "keep")) { p.heap_keep = (int)strtol(v, 0, 10); return true; }
    if (!strcmp(key, "guard")) { p.heap_guard = (int)strtol(v, 0, 10); return true; }
    if (!strcmp(key, "reuse")) { p.heap_reuse = (int)strtol(v, 0, 10); return true; }
    if (!strcmp(key, "inplace")) { p.inplace = (int)strtol(v, 0, 10); return true; }
    if (!strcmp(key, "stack")) { char* e; p.stack_seed = strtoull(v, &e, 10); p.stack_mode = (int)strtol(e + 1, &e, 10); p.stack_shift = strtol(e + 1, 0, 10); return true; }
    if (!strcmp(key, "entropy")) { p.entropy = strtoull(v, 0, 10); return true; }
    if (!strcmp(key, "pid")) { p.pid = strtol(v, 0, 10); return true; }
    if (!strcmp(key, "subst")) {       // hex of the name, where
        if (p.n_subst >= 4) return false;
        int k = 0;
        for (; v[0] && v[0] != ' ' && k < PATHCAP - 1; v += 2) { char h[3] = {v[0], v[1], 0}; p.subst[p.n_subst][0][k++] = (char)strtol(h, 0, 16); }
        if (*v != ' ') return false;
        snprintf(p.subst[p.n_subst++][1], PATHCAP, "%s", v + 1);
        return true;
    }
    if (!strcmp(key, "outbuf")) { p.outbuf = (int)strtol(v, 0, 10); return true; }
    if (!strcmp(key, "budget")) { p.budget = strtol(v, 0, 10); return true; }
    return false;
}
void plan_reset()
{
    memset(&g_plan, 0, sizeof g_plan);
    g_plan.trunc_at = -1; g_plan.budget = 2000000;
}
