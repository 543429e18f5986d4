// Storage for processes of the benchmarks: interposed (LD_PRELOAD) in a Python process, where files below one directory meet a script of failures.
// Script: entries separated by commas, <kind><number>[-]:<what>; kinds o(pen) w(rite) c(lose) m(kdir) n(rename, unlink) s(ync, truncate) r(ead);
// '-': from that number on; what: -errno, +bytes (a short count), !bytes (the process ends there; of a write, so many bytes are stored).
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
const int MAXFD = 1024;
char prefix[512];
size_t plen;
char script[4096];
bool armed;
bool mine[MAXFD];
long last_write[MAXFD];                 // position and length of the last write, stored again if closing fails
long counter[128], met_fail, met_short, met_eintr, met_crash, ops;

bool below(const char* p)
{
    if (!armed || !p) return false;
    if (p[0] == '/') return !strncmp(p, prefix, plen);
    return true;                        // relative: the process runs inside the directory
}
struct Verdict { int err; long n; bool crash; };
Verdict ask(char kind)
{
    long i = counter[(int)kind]++;
    ++ops;
    Verdict v = {0, -1, false};
    for (const char* p = script; *p;) {
        char k = *p++;
        char* e;
        long at = strtol(p, &e, 10);
        bool rest = *e == '-';
        if (rest) ++e;
        if (*e != ':') break;
        char what = e[1];
        long x = strtol(e + 2, &e, 10);
        if (k == kind && (i == at || (rest && i > at))) {
            if (what == '-') { v.err = (int)x; if (x == EINTR) ++met_eintr; else ++met_fail; }
            else if (what == '+') { v.n = x; ++met_short; }
            else { v.crash = true; v.n = x; ++met_crash; }
            return v;
        }
        p = e;
        if (*p == ',') ++p;
    }
    return v;
}
template <class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
int opened(const char* path, int flags, mode_t mode, int dir)
{
    bool m = below(path);
    if (m && dir == AT_FDCWD) {
        Verdict v = ask('o');
        if (v.crash) _exit(99);
        if (v.err) { errno = v.err; return -1; }
    }
    int fd = (int)syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) { mine[fd] = m; last_write[fd] = 0; }
    return fd;
}
}

extern "C" {
void store_arm(const char* dir, const char* s)
{
    snprintf(prefix, sizeof prefix, "%s", dir);
    plen = strlen(prefix);
    snprintf(script, sizeof script, "%s", s);
    memset(counter, 0, sizeof counter);
    met_fail = met_short = met_eintr = met_crash = ops = 0;
    armed = true;
}
void store_disarm() { armed = false; }
long store_stat(int k) { long v[] = {met_fail, met_short, met_eintr, met_crash, ops, counter[(int)'w'], counter[(int)'r']}; return v[k]; }

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char* path, int flags, ...) { MODE return opened(path, flags, mode, AT_FDCWD); }
int open64(const char* path, int flags, ...) { MODE return opened(path, flags, mode, AT_FDCWD); }
int openat(int d, const char* path, int flags, ...) { MODE return opened(path, flags, mode, d); }
int openat64(int d, const char* path, int flags, ...) { MODE return opened(path, flags, mode, d); }

ssize_t write(int fd, const void* p, size_t n)
{
    if (armed && fd >= 0 && fd < MAXFD && mine[fd]) {
        Verdict v = ask('w');
        if (v.crash) { if (v.n > 0) { ssize_t r = syscall(SYS_write, fd, p, (size_t)v.n < n ? (size_t)v.n : n); (void)r; } _exit(99); }
        if (v.err) { errno = v.err; return -1; }
        if (v.n >= 0 && (size_t)v.n < n) n = v.n ? v.n : 1;
        ssize_t r = syscall(SYS_write, fd, p, n);
        if (r > 0) last_write[fd] = r;
        return r;
    }
    return syscall(SYS_write, fd, p, n);
}
ssize_t read(int fd, void* p, size_t n)
{
    if (armed && fd >= 0 && fd < MAXFD && mine[fd]) {
        Verdict v = ask('r');
        if (v.crash) _exit(99);
        if (v.err) { errno = v.err; return -1; }
        if (v.n >= 0 && (size_t)v.n < n) n = v.n ? v.n : 1;
    }
    return syscall(SYS_read, fd, p, n);
}
int close(int fd)
{
    if (armed && fd >= 0 && fd < MAXFD && mine[fd]) {
        Verdict v = ask('c');
        if (v.crash) _exit(99);
        mine[fd] = false;
        if (v.err && v.err != EINTR) {  // what was written last is lost
            struct stat st;
            if (last_write[fd] > 0 && syscall(SYS_fstat, fd, &st) == 0) { long r = syscall(SYS_ftruncate, fd, st.st_size - last_write[fd]); (void)r; }
            syscall(SYS_close, fd);
            errno = v.err;
            return -1;
        }
    } else if (fd >= 0 && fd < MAXFD) mine[fd] = false;
    return (int)syscall(SYS_close, fd);
}
#define GATE(kind) { Verdict v = ask(kind); if (v.crash) _exit(99); if (v.err) { errno = v.err; return -1; } }
int mkdir(const char* p, mode_t m) { if (below(p)) GATE('m') return (int)syscall(SYS_mkdir, p, m); }
int rename(const char* a, const char* b) { if (below(a) || below(b)) GATE('n') return (int)syscall(SYS_rename, a, b); }
int unlink(const char* a) { if (below(a)) GATE('n') return (int)syscall(SYS_unlink, a); }
int fsync(int fd) { if (armed && fd >= 0 && fd < MAXFD && mine[fd]) GATE('s') return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (armed && fd >= 0 && fd < MAXFD && mine[fd]) GATE('s') return (int)syscall(SYS_fdatasync, fd); }
int ftruncate64(int fd, off_t n) { if (armed && fd >= 0 && fd < MAXFD && mine[fd]) GATE('s') return (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
}
