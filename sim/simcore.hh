// Shared state of the simulator: the plan of one execution and what was observed.
#ifndef SIMCORE_HH
#define SIMCORE_HH
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

struct Range { long a, b; };               // [a, b)
enum { MAXSCRIPT = 4096, MAXRANGES = 64, OUTCAP = 1 << 18, MAXOPENS = 64, PATHCAP = 256, MAXOPS = 640 };

struct Script {                            // behaviour of the i-th call: 0 unlimited, n>0 at most n bytes, <0 fail with errno -n
    int n; long tail; long v[MAXSCRIPT];
    long at(long i) const { return i < n ? v[i] : tail; }
};

struct Plan {
    char path[PATHCAP];                    // the boundaries file, as named on the command line
    int fifo; long fifo_size;
    Script opens, reads, writes;
    long trunc_at, trunc_size;             // before serving read number trunc_at, cut the file to trunc_size (-1: never)
    int n_alloc; Range alloc[MAXRANGES];   // numbers of the memory requests that fail
    long quota;                            // all the memory there is, in bytes (0: plenty)
    int n_fft; Range fft[MAXRANGES];       // numbers of the FFT plan requests that fail
    int n_clock; long clock[256]; long clock_step; // clock readings; -1 = the clock fails
    uint64_t heap_seed; int heap_mode, heap_keep, heap_guard, heap_reuse;     // contents and placement of fresh memory
    int inplace;                           // session: every call gets its arguments in the same two vectors
    uint64_t stack_seed; int stack_mode; long stack_shift;
    uint64_t entropy; long pid;            // other sources of randomness
    int n_subst; char subst[4][2][PATHCAP];   // other files that exist in this world: the name asked for, where its contents lie
    int outbuf;                            // 0 full, 1 line, 2 none
    long budget;                           // bound on interactions with the environment
};

struct OpObs {                             // one call of a session
    int status;                            // 0 not reached, 1 returned, 2 bad_alloc, 3 runtime_error, 4 other std::exception, 5 other
    double value; char what[120];
    long n_alloc, n_fft, f_alloc, f_fft, live_blocks, live_bytes, live_plans;
    long f_io, fds;                        // reading a file: failing opens and reads met, descriptors left open
};

struct Obs {                               // lives in memory shared with the parent
    volatile int phase;                    // -1 request not read yet, 0 set-up, 1 inside the program, 2 main returned
    volatile int how;                      // 1 returned from main, 2 exit(), 3 budget exceeded
    volatile int code;
    volatile int op;                       // session: current operation
    volatile int n_ops;
    long n_open, n_read, n_map, n_write, n_alloc, n_fft, n_clock, n_time_other, n_entropy, n_seam;
    long f_open, f_read_err, f_eintr, f_short_read, f_trunc, f_write_err, f_short_write, f_alloc, f_fft, f_clock_err, f_eof;
    long last_read_err;                    // offset (bytes delivered before) of the first read failure, -1 if none
    long delivered;                        // bytes of the file handed to the program
    long out_len, out_at_return, err_len;
    long live_blocks, live_bytes, live_plans, max_live_bytes;
    long n_wopen;                          // opens for writing, removals, renames...
    char wopen[8][128];
    int trap;                              // the system-call filter is in place
    int n_getenv; char getenv_name[8][40];  // environment variables asked for
    int n_asked; char asked[8][PATHCAP];   // other files asked for
    char memerr[128];
    volatile int state_op; char state[400];   // the first operation that left the process in another state, and what changed
    OpObs ops[MAXOPS];
    char out[OUTCAP];
    char err[OUTCAP];
};

extern Plan g_plan;
extern Obs* g_obs;
extern volatile int g_active;              // the program under test is running

uint64_t sim_mix(uint64_t x);
void sim_budget();
// allocator
void* sim_alloc(size_t size, size_t align);
void sim_free(void* p);
void sim_mem_check_all();
void sim_mem_error(const char* what);
// hooks of the threaded host (weak, empty elsewhere)
void sim_on_alloc(void* p, size_t n);
void sim_on_free(void* p, size_t n);
long sim_sys_write(int which, const char* buf, size_t n); // which: 1 stdout, 2 stderr; -1 with errno on failure
long sim_sys_read(int fd, void* buf, size_t n);
bool plan_parse(char* line, char** err);   // tokens key=value
void sim_setup_child();
// state.cc
extern "C" void state_world(unsigned long seed);
extern "C" const char* state_changed();
extern "C" int state_modes;
extern "C" void state_settings(unsigned long seed);
extern "C" void state_flags(unsigned long seed);
enum { TRAP_PASS = 0x51a7 };               // marks the simulator's own system calls
bool sim_bare(long nr, const long a[6], long* result);  // a system call that asks for the time or for randomness
uint64_t sim_tsc();                        // a reading of the processor's time stamp counter
bool sim_trap_install();                   // refuse and record every system call that changes the file system
#endif
