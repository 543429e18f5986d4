// Waits for a child that runs one simulation. Nothing in a simulation blocks on the real world, so a child whose threads
// all sleep, using no CPU time, for several seconds is blocked for good (a deadlock); it need not be waited for to the wall limit.
#ifndef SIM_IDLE_HH
#define SIM_IDLE_HH
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <dirent.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/syscall.h>

// total CPU ticks if every thread of the process sleeps, else -1
static long idle_ticks(pid_t pid)
{
    char dir[64]; snprintf(dir, sizeof dir, "/proc/%d/task", (int)pid);
    DIR* d = opendir(dir);
    if (!d) return -1;
    long total = 0;
    for (struct dirent* e; (e = readdir(d));) {
        if (e->d_name[0] == '.') continue;
        char path[400], buf[1024]; snprintf(path, sizeof path, "%s/%s/stat", dir, e->d_name);
        int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0);
        long k = fd < 0 ? -1 : syscall(SYS_read, fd, buf, sizeof buf - 1);
        if (fd >= 0) syscall(SYS_close, fd);
        if (k <= 0) { total = -1; break; }
        buf[k] = 0;
        char* p = strrchr(buf, ')'); char state = 0; unsigned long u = 0, s = 0;
        if (!p || sscanf(p + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &state, &u, &s) != 3 || state != 'S') { total = -1; break; }
        total += (long)(u + s);
    }
    closedir(d);
    return total;
}

static volatile int* const g_hung = (volatile int*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

static void supervise(pid_t pid, double wall, volatile int* armed)
{
    static const int IDLE_SECONDS = 8;
    long last = -1; int same = 0; double waited = 1;
    for (;; ++waited) {
        struct timespec s = {1, 0}; syscall(SYS_nanosleep, &s, 0);
        if (getppid() == 1) _exit(0);
        if (armed && *armed < 0) { waited = 0; continue; }
        long k = idle_ticks(pid);
        if (k >= 0 && k == last) ++same; else same = 0;
        last = k;
        if (same >= IDLE_SECONDS || waited > wall) { *g_hung = 1; kill(pid, SIGKILL); _exit(0); }
    }
}

// -> true if the child ended by itself, false if it was killed because it hung; armed: the child has got its request.
// Runs longer than a second get a supervising process, so that the parent's own memory and stack stay as they are.
static bool wait_child(pid_t pid, int* st, double wall, volatile int* armed)
{
    int pidfd = (int)syscall(SYS_pidfd_open, pid, 0);
    *g_hung = 0;
    struct pollfd pf = {pidfd, POLLIN, 0};
    if (pidfd < 0 || poll(&pf, 1, 1000) <= 0) {
        pid_t sup = fork();
        if (sup == 0) supervise(pid, wall, armed);
        if (pidfd >= 0) while (poll(&pf, 1, -1) <= 0) {}
        else { siginfo_t si; while (waitid(P_PID, pid, &si, WEXITED | WNOWAIT) < 0) {} }
        if (sup > 0) { kill(sup, SIGKILL); int x; while (waitpid(sup, &x, 0) < 0) {} }
    }
    while (waitpid(pid, st, 0) < 0) {}
    if (pidfd >= 0) syscall(SYS_close, pidfd);
    return !*g_hung;
}
#endif
