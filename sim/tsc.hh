// The processor's time stamp counter (FFTW's planner may read it): reading it is made to fault and is answered from a
// simulated counter, so that a run depends on its plan alone. Include once per program.
#ifndef TSC_HH
#define TSC_HH
#include <signal.h>
#include <string.h>
#include <stdint.h>
#include <ucontext.h>
#include <sys/prctl.h>
#if defined(__x86_64__)
static uint64_t (*g_tsc_reading)() = 0;
static void tsc_on_segv(int s, siginfo_t*, void* u)
{
    greg_t* g = ((ucontext_t*)u)->uc_mcontext.gregs;
    int n = 0;
    if (g[REG_TRAPNO] == 13) {
        const unsigned char* p = (const unsigned char*)g[REG_RIP];
        n = p[0] == 0x0f && p[1] == 0x31 ? 2 : p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9 ? 3 : 0;
    }
    if (!n) { signal(s, SIG_DFL); return; }     // a real fault: it happens again and ends the run
    uint64_t v = g_tsc_reading();
    g[REG_RAX] = (greg_t)(v & 0xffffffff); g[REG_RDX] = (greg_t)(v >> 32);
    if (n == 3) g[REG_RCX] = 0;
    g[REG_RIP] += n;
}
static void tsc_install(uint64_t (*reading)())
{
    g_tsc_reading = reading;
    struct sigaction a; memset(&a, 0, sizeof a);
    a.sa_sigaction = tsc_on_segv; a.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (!sigaction(SIGSEGV, &a, 0)) prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0);
}
#else
static void tsc_install(uint64_t (*)()) {}
#endif
#endif
