// The net below the seams: a system-call filter for the process that executes one run. Whatever asks the kernel to change
// the file system (also from inside libc or by a bare system call) is recorded as the run's own request and refused.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simcore.hh"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stddef.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>

#if defined(__x86_64__)
struct Row { int nr; const char* name; int path; };     // path: which argument names the file (-1: none)
static const Row ROWS[] = {
    {SYS_creat, "creat", 0}, {SYS_rename, "rename", 0}, {SYS_renameat, "rename", 1}, {SYS_renameat2, "rename", 1}, {SYS_unlink, "unlink", 0}, {SYS_unlinkat, "unlink", 1},
    {SYS_rmdir, "rmdir", 0}, {SYS_mkdir, "mkdir", 0}, {SYS_mkdirat, "mkdir", 1}, {SYS_mknod, "mknod", 0}, {SYS_mknodat, "mknod", 1}, {SYS_link, "link", 1}, {SYS_linkat, "link", 3},
    {SYS_symlink, "symlink", 1}, {SYS_symlinkat, "symlink", 2}, {SYS_chmod, "chmod", 0}, {SYS_fchmod, "fchmod", -1}, {SYS_fchmodat, "chmod", 1}, {SYS_chown, "chown", 0},
    {SYS_lchown, "chown", 0}, {SYS_fchown, "fchown", -1}, {SYS_fchownat, "chown", 1}, {SYS_truncate, "truncate", 0}, {SYS_ftruncate, "ftruncate", -1}, {SYS_fallocate, "fallocate", -1},
    {SYS_utime, "utime", 0}, {SYS_utimes, "utimes", 0}, {SYS_futimesat, "utimes", 1}, {SYS_utimensat, "utimes", 1}, {SYS_setxattr, "setxattr", 0}, {SYS_lsetxattr, "setxattr", 0},
    {SYS_fsetxattr, "setxattr", -1}, {SYS_removexattr, "removexattr", 0}, {SYS_lremovexattr, "removexattr", 0}, {SYS_fremovexattr, "removexattr", -1},
    {SYS_execve, "execute", 0}, {SYS_execveat, "execute", 1}, {SYS_open, "open", 0}, {SYS_openat, "open", 1},
};
static const int N = sizeof ROWS / sizeof *ROWS;

// asked by the program itself: answered by the seams
static const int BARE[] = {SYS_getpid, SYS_gettid, SYS_getppid, SYS_getrandom, SYS_time, SYS_clock_gettime, SYS_gettimeofday, SYS_getcpu, SYS_times, SYS_kill, SYS_tkill, SYS_tgkill};

static void on_sys(int, siginfo_t* si, void* u)
{
    greg_t* g = ((ucontext_t*)u)->uc_mcontext.gregs;
    static const int REG[] = {REG_RDI, REG_RSI, REG_RDX, REG_R10, REG_R8, REG_R9};
    long a[6], r = 0;
    for (int i = 0; i < 6; ++i) a[i] = (long)g[REG[i]];
    if (sim_bare(si->si_syscall, a, &r)) { g[REG_RAX] = r; return; }
    int k = 0; while (k < N && ROWS[k].nr != si->si_syscall) ++k;
    const char* path = k < N && ROWS[k].path >= 0 ? (const char*)g[REG[ROWS[k].path]] : 0;
    if (path && k < N && (ROWS[k].nr == SYS_open || ROWS[k].nr == SYS_openat) && !strcmp(path, "/dev/null")) {
        long fd = syscall(SYS_openat, AT_FDCWD, path, O_RDWR, 0, TRAP_PASS);
        g[REG_RAX] = fd;
        return;
    }
    long i = g_obs->n_wopen++;
    if (i < 8) {        // no stdio in a signal handler
        char* d = g_obs->wopen[i]; int n = 0;
        for (const char* s = k < N ? ROWS[k].name : "?"; *s && n < 40; ++s) d[n++] = *s;
        d[n++] = ' ';
        for (const char* s = path ? path : ""; *s && n < 126; ++s) d[n++] = *s;
        d[n] = 0;
    }
    g[REG_RAX] = -EROFS;
}

bool sim_trap_install()
{
    struct sigaction a; memset(&a, 0, sizeof a);
    a.sa_sigaction = on_sys; a.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &a, 0)) return false;
    static sock_filter f[12 * 64]; int n = 0;
    auto add = [&](uint16_t code, uint32_t k, int jt, int jf) { f[n].code = code; f[n].k = k; f[n].jt = (uint8_t)jt; f[n].jf = (uint8_t)jf; ++n; };
    auto load = [&](size_t off) { add(BPF_LD | BPF_W | BPF_ABS, (uint32_t)off, 0, 0); };
    load(offsetof(seccomp_data, nr));
    add(BPF_JMP | BPF_JEQ | BPF_K, SYS_clone3, 0, 1); add(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | ENOSYS, 0, 0);
    add(BPF_JMP | BPF_JEQ | BPF_K, SYS_openat2, 0, 1); add(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | ENOSYS, 0, 0);
    add(BPF_JMP | BPF_JEQ | BPF_K, SYS_io_uring_setup, 0, 1); add(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | ENOSYS, 0, 0);
    for (int nr : BARE) {
        add(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)nr, 0, 4);
        load(offsetof(seccomp_data, args) + 8 * 4);
        add(BPF_JMP | BPF_JEQ | BPF_K, TRAP_PASS, 1, 0);
        add(BPF_RET | BPF_K, SECCOMP_RET_TRAP, 0, 0);
        add(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0);
    }
    for (int k = 0; k < N; ++k) {
        int nr = ROWS[k].nr;
        if (nr == SYS_open || nr == SYS_openat) {       // only when something may be written
            add(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 6);
            load(offsetof(seccomp_data, args) + 8 * 4);
            add(BPF_JMP | BPF_JEQ | BPF_K, TRAP_PASS, 3, 0);
            load(offsetof(seccomp_data, args) + 8 * (nr == SYS_open ? 1 : 2));
            add(BPF_JMP | BPF_JSET | BPF_K, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0, 1);
            add(BPF_RET | BPF_K, SECCOMP_RET_TRAP, 0, 0);
            add(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0);
        } else if (nr == SYS_truncate) {                // the simulator's own cut carries a mark
            add(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 4);
            load(offsetof(seccomp_data, args) + 8 * 2);
            add(BPF_JMP | BPF_JEQ | BPF_K, TRAP_PASS, 1, 0);
            add(BPF_RET | BPF_K, SECCOMP_RET_TRAP, 0, 0);
            add(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0);
        } else {
            add(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1);
            add(BPF_RET | BPF_K, SECCOMP_RET_TRAP, 0, 0);
        }
    }
    add(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0);
    sock_fprog p = {(unsigned short)n, f};
    return !prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) && !prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p);
}
#else
bool sim_trap_install() { return false; }
#endif
