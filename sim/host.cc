// The simulation host. One process per worker; every simulated run happens in a forked child, so that each run starts
// from the same state. The host reads requests from stdin and answers each with one line of JSON.
//   HOST_PROG: a run of a program (the repository's main, renamed repo_main)
//   otherwise: a session, i.e. a sequence of calls of the library's functions in one process
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simcore.hh"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <stddef.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "idle.hh"
#include "tsc.hh"
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <string>
#include <vector>
#include <algorithm>
#include <new>
#include <stdexcept>
#include <pthread.h>
#include <fftw3.h>

bool plan_set(const char* key, char* v);
void plan_reset();
bool plan_ranges(char* v, Range* r, int& n);

// ---- FFT plans -----------------------------------------------------------------------------------------------
extern "C" {
static bool plan_refused()
{
    if (!g_active) return false;
    sim_budget();
    long i = g_obs->n_fft++;
    for (int k = 0; k < g_plan.n_fft; ++k) if (i >= g_plan.fft[k].a && i < g_plan.fft[k].b) { ++g_obs->f_fft; return true; }
    return false;
}
static const int MAXPLANS = 65536;
static fftw_plan g_plans[MAXPLANS]; static int g_nplans = 0;
static fftw_plan plan_made(fftw_plan p)
{
    if (p && g_active) { ++g_obs->live_plans; if (g_nplans < MAXPLANS) g_plans[g_nplans++] = p; }
    return p;
}
#define ACTIVE_OFF int old_ = g_active; g_active = 0;
#define ACTIVE_ON g_active = old_;
#define WRAP_PLAN(name, params, args) \
    fftw_plan __real_##name params; \
    fftw_plan __wrap_##name params { if (plan_refused()) return 0; ACTIVE_OFF fftw_plan p = __real_##name args; ACTIVE_ON return plan_made(p); }
WRAP_PLAN(fftw_plan_dft_r2c_1d, (int n, double* i, fftw_complex* o, unsigned f), (n, i, o, f))
WRAP_PLAN(fftw_plan_dft_c2r_1d, (int n, fftw_complex* i, double* o, unsigned f), (n, i, o, f))
WRAP_PLAN(fftw_plan_dft_1d, (int n, fftw_complex* i, fftw_complex* o, int s, unsigned f), (n, i, o, s, f))
WRAP_PLAN(fftw_plan_r2r_1d, (int n, double* i, double* o, fftw_r2r_kind k, unsigned f), (n, i, o, k, f))
WRAP_PLAN(fftw_plan_dft_r2c, (int r, const int* n, double* i, fftw_complex* o, unsigned f), (r, n, i, o, f))
WRAP_PLAN(fftw_plan_dft_c2r, (int r, const int* n, fftw_complex* i, double* o, unsigned f), (r, n, i, o, f))
WRAP_PLAN(fftw_plan_many_dft_r2c, (int r, const int* n, int h, double* i, const int* ie, int is, int id, fftw_complex* o, const int* oe, int os, int od, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, f))
WRAP_PLAN(fftw_plan_many_dft_c2r, (int r, const int* n, int h, fftw_complex* i, const int* ie, int is, int id, double* o, const int* oe, int os, int od, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, f))
void __real_fftw_destroy_plan(fftw_plan);
void __wrap_fftw_destroy_plan(fftw_plan p)
{
    if (!p) return;
    if (g_active) {
        int k = g_nplans - 1;
        while (k >= 0 && g_plans[k] != p) --k;
        if (k < 0) { sim_mem_error("FFT plan released twice"); return; }
        g_plans[k] = g_plans[--g_nplans];
        --g_obs->live_plans;
    }
    ACTIVE_OFF __real_fftw_destroy_plan(p); ACTIVE_ON
}
void* __wrap_fftw_malloc(size_t n) { return sim_alloc(n, 32); }
double* __wrap_fftw_alloc_real(size_t n) { return (double*)sim_alloc(n * sizeof(double), 32); }
fftw_complex* __wrap_fftw_alloc_complex(size_t n) { return (fftw_complex*)sim_alloc(n * sizeof(fftw_complex), 32); }
void __wrap_fftw_free(void* p) { sim_free(p); }
}

// ---- child helpers -------------------------------------------------------------------------------------------
static void __attribute__((noinline)) dirty_stack(uint64_t seed, int mode)
{
    volatile uint64_t a[20000];
    uint64_t s = seed | 1;
    for (int i = 0; i < 20000; ++i) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        a[i] = mode == 0 ? 0 : mode == 1 ? ~0ull : mode == 5 ? 0x7ff8000000000000ull : s;
    }
    __asm__ volatile("" ::"r"(a) : "memory");
}

static std::vector<std::string> g_args;
static std::string g_content, g_env;
static int g_kind;      // 0 regular file, 1 pipe, 2 missing, 3 directory, 4 symbolic link to a regular file, 5 regular file that is standard input
static char g_dir[256];
static int g_stdin = -1;

static int unhex(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static std::string from_hex(const char* s) { std::string r; for (; s[0] && s[1]; s += 2) r += (char)(unhex(s[0]) * 16 + unhex(s[1])); return r; }

#ifdef HOST_PROG
static void make_input()
{
    if (chdir(g_dir)) _exit(98);
    if (g_kind == 3) { if (mkdir(g_plan.path, 0755)) _exit(98); return; }
    if (g_kind == 2) return;
    if (g_kind == 1) {
        if (mkfifo(g_plan.path, 0644)) _exit(98);
        int fd = (int)syscall(SYS_openat, AT_FDCWD, g_plan.path, O_RDWR | O_CLOEXEC, 0);
        if (fd < 0) _exit(98);
        if (g_content.size() > 65000 && fcntl(fd, F_SETPIPE_SZ, 1 << 20) < (int)g_content.size()) _exit(97);
        if (syscall(SYS_write, fd, g_content.data(), g_content.size()) != (long)g_content.size()) _exit(97);
        g_plan.fifo = 1; g_plan.fifo_size = g_content.size();
        return;       // the descriptor stays open: the pipe's end is simulated
    }
    const char* real = g_kind == 4 ? "linked" : g_kind == 5 ? "input" : g_plan.path;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, real, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || syscall(SYS_write, fd, g_content.data(), g_content.size()) != (long)g_content.size()) _exit(98);
    syscall(SYS_close, fd);
    if (g_kind == 4 && symlink(real, g_plan.path)) _exit(98);
    if (g_kind == 5) { fd = (int)syscall(SYS_openat, AT_FDCWD, real, O_RDONLY, 0); if (fd < 0 || dup2(fd, 0) < 0) _exit(98); syscall(SYS_close, fd); }
}

extern "C" int repo_main(int, char**);
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __attribute__((noreturn)) __wrap_exit(int c)
{
    if (g_active) { g_obs->how = 2; g_obs->code = c; g_obs->out_at_return = g_obs->out_len; g_obs->phase = 2; }
    __real_exit(c);
}
extern "C" void __wrap_quick_exit(int c) { g_obs->how = 4; g_obs->code = c; g_obs->phase = 2; _exit(c); }
extern "C" void __wrap__exit(int c) { if (g_active) { g_obs->how = 4; g_obs->code = c; g_obs->phase = 2; } syscall(SYS_exit_group, c); __builtin_unreachable(); }
extern "C" void __wrap__Exit(int c) { __wrap__exit(c); }

static int __attribute__((noinline)) enter_main(int argc, char** argv)
{
    char* pad = (char*)alloca(64 + (g_plan.stack_shift & 0xffff) * 16);
    __asm__ volatile("" ::"r"(pad) : "memory");
    dirty_stack(g_plan.stack_seed, g_plan.stack_mode);
    g_obs->phase = 1;
    g_active = 1;
    int rc = repo_main(argc, argv);
    return rc;
}
static void child()
{
    make_input();
    clearenv();
    setenv("LC_ALL", "C.UTF-8", 1);
    if (!g_env.empty()) { char* p = strdup(g_env.c_str()); for (char* t = strtok(p, "\n"); t; t = strtok(0, "\n")) putenv(t); }
    std::vector<char*> av;
    for (size_t i = 0; i < g_args.size(); ++i) av.push_back(strdup(g_args[i].c_str()));
    av.push_back(0);
    sim_setup_child();
    tsc_install(sim_tsc);
    g_obs->trap = sim_trap_install();
    int rc = enter_main((int)g_args.size(), &av[0]);
    sim_mem_check_all();
    g_obs->out_at_return = g_obs->out_len;
    g_obs->how = 1; g_obs->code = rc & 255;
    g_obs->phase = 2;
    __real_exit(rc);
}
#else
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
#include "read_boundaries_file.hh"
#ifdef HOST_OBJ
#include "objects.hh"
#endif
struct Op { std::string content, name, opens, reads; int kind; long oa[5]; double lambda; int fn; int fft; std::vector<double> b, B; int na, nf; Range ar[16], fr[16]; uint64_t stack; };
static std::vector<Op> g_ops;
static double do_call(const Op& o, const std::vector<double>& b, const std::vector<double>& B)
{
    switch (o.fn) {
#ifdef HOST_OBJ
        case 6: return object_call((int)o.oa[0], (int)o.oa[1], (int)o.oa[2], (int)o.oa[3], (uint64_t)o.oa[4], o.lambda, g_obs->ops[g_obs->op].what);
#endif
        case 0: return ecdf2(b, B, o.fft != 0);
        case 1: return ecdf1_new_b(b);
        case 2: return ecdf1_new_B(B);
        case 3: return ecdf1_mns2016_b(b);
        default: return ecdf1_mns2016_B(B);
    }
}
// reading a boundaries file: what it finds there, and what was read
static void place_file(Op& o)
{
    const char* p = o.name.c_str();
    syscall(SYS_unlink, p); syscall(SYS_rmdir, p);
    g_plan.path[0] = 0;
    snprintf(g_plan.path, sizeof g_plan.path, "%s", p);
    plan_set("opens", &o.opens[0]); plan_set("reads", &o.reads[0]);
    g_obs->n_open = g_obs->n_read = g_obs->delivered = 0;
    if (o.kind == 2) return;
    if (o.kind == 3) { if (syscall(SYS_mkdir, p, 0755)) _exit(98); return; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || syscall(SYS_write, fd, o.content.data(), o.content.size()) != (long)o.content.size()) _exit(98);
    syscall(SYS_close, fd);
}
static int open_fds() { int n = 0; for (int fd = 0; fd < 256; ++fd) n += syscall(SYS_fcntl, fd, F_GETFD, 0) >= 0; return n; }
static void read_file(const Op& o, char* what, size_t n)
{
    std::pair<std::vector<double>, std::vector<double> > r = read_and_check_boundaries_file(o.name);
    uint64_t h = 1469598103934665603ull;
    for (int k = 0; k < 2; ++k) {
        const std::vector<double>& v = k ? r.second : r.first;
        for (size_t i = 0; i < v.size(); ++i) {
            uint64_t x; memcpy(&x, &v[i], 8);
            for (int j = 0; j < 64; j += 8) h = (h ^ (x >> j & 255)) * 1099511628211ull;
        }
    }
    snprintf(what, n, "%zu and %zu numbers, %016lx", r.first.size(), r.second.size(), (unsigned long)h);
}
static unsigned long g_watch = 0;        // watch the state of the process; the world it starts with
static unsigned long g_world = 0;        // the process's settings; the moment of the calls
static int g_moment = 0;
static const char* look()
{
    static char b[200];
    const char* s = state_changed();
    static long printed = 0;
    long n = g_obs->out_len + g_obs->err_len;
    if (n > printed) { snprintf(b, sizeof b, "%ld bytes were printed: '%.80s'", n - printed, g_obs->err_len ? g_obs->err : g_obs->out); s = b; }
    printed = n;
    return s;
}
static std::vector<double> g_b, g_B;       // a caller that keeps its arguments in the same place
static void __attribute__((noinline)) one_op(size_t i)
{
    Op& o = g_ops[i];
    OpObs& r = g_obs->ops[i];
    g_obs->op = (int)i;
    g_plan.n_alloc = o.na; g_plan.n_fft = o.nf;
    memcpy(g_plan.alloc, o.ar, sizeof o.ar); memcpy(g_plan.fft, o.fr, sizeof o.fr);
    long fa = g_obs->f_alloc, ff = g_obs->f_fft;
    if (g_plan.inplace) { g_b.assign(o.b.begin(), o.b.end()); g_B.assign(o.B.begin(), o.B.end()); }
    if (o.fn == 5) place_file(o);
    int fds = o.fn == 5 ? open_fds() : 0;
    long fio = g_obs->f_open + g_obs->f_read_err;
    const std::vector<double>& b = g_plan.inplace ? g_b : o.b;
    const std::vector<double>& B = g_plan.inplace ? g_B : o.B;
    g_obs->n_alloc = g_obs->n_fft = 0;
    if (o.stack) dirty_stack(o.stack, (int)(o.stack % 6));
    g_obs->phase = 1;
    g_active = 1;
    if (g_world) state_flags(g_world / 7 + i);
    try { if (o.fn == 5) read_file(o, r.what, sizeof r.what); else r.value = do_call(o, b, B); r.status = 1; }
    catch (std::bad_alloc& e) { g_active = 0; r.status = 2; snprintf(r.what, sizeof r.what, "%s", e.what()); }
    catch (std::runtime_error& e) { g_active = 0; r.status = 3; snprintf(r.what, sizeof r.what, "%s", e.what()); }
    catch (std::exception& e) { g_active = 0; r.status = 4; snprintf(r.what, sizeof r.what, "%s", e.what()); }
    catch (...) { g_active = 0; r.status = 5; }
    g_active = 0;
    if (g_watch) {
        const char* s = look();
        if (*s && !g_obs->state[0]) { g_obs->state_op = (int)i; snprintf(g_obs->state, sizeof g_obs->state, "%s", s); }
    }
    if (o.fn == 5) { r.fds = open_fds() - fds; r.f_io = g_obs->f_open + g_obs->f_read_err - fio; }
    r.n_alloc = g_obs->n_alloc; r.n_fft = g_obs->n_fft; r.f_alloc = g_obs->f_alloc - fa; r.f_fft = g_obs->f_fft - ff;
    r.live_blocks = g_obs->live_blocks; r.live_bytes = g_obs->live_bytes; r.live_plans = g_obs->live_plans;
}
static void all_ops()
{
    for (size_t i = 0; i < g_ops.size(); ++i) {
        one_op(i);
        if (g_obs->memerr[0]) break;
    }
}
struct Unwound { ~Unwound() { all_ops(); } };
static void* in_thread(void*) { all_ops(); return 0; }
static void child()
{
    if (chdir(g_dir)) _exit(98);
    if (!g_env.empty()) { char* p = strdup(g_env.c_str()); for (char* t = strtok(p, "\n"); t; t = strtok(0, "\n")) putenv(t); }
    sim_setup_child();
    tsc_install(sim_tsc);
    char* pad = (char*)alloca(64 + (g_plan.stack_shift & 0xffff) * 16);
    __asm__ volatile("" ::"r"(pad) : "memory");
    size_t most = 1;
    for (size_t i = 0; i < g_ops.size(); ++i) most = std::max(most, std::max(g_ops[i].b.size(), g_ops[i].B.size()));
    g_b.reserve(most); g_B.reserve(most);
    if (g_watch) state_world(g_watch - 1);
    if (g_world) { state_modes = 0; if (g_world > 1) { state_world(g_world); state_settings(g_world); } }
    if (g_moment == 1) try { throw 1; } catch (int) { all_ops(); }
    else if (g_moment == 2) try { Unwound u; throw 1; } catch (int) {}
    else if (g_moment == 3) {
        pthread_t t;
        if (pthread_create(&t, 0, in_thread, 0)) _exit(98);
        pthread_join(t, 0);
    }
    else all_ops();
    sim_mem_check_all();
    g_obs->how = 1; g_obs->phase = 2;
    _exit(0);
}
#endif

// ---- parent ----------------------------------------------------------------------------------------------------
static void put_hex(FILE* f, const char* s, long n) { for (long i = 0; i < n; ++i) fprintf(f, "%02x", (unsigned char)s[i]); }
static void put_str(FILE* f, const char* s) { fputc('"', f); for (; *s; ++s) if (*s == '"' || *s == '\\' || (unsigned char)*s < 32 || (unsigned char)*s > 126) fprintf(f, "\\u%04x", (unsigned char)*s); else fputc(*s, f); fputc('"', f); }

static int g_cpu = 20, g_wall = 120;

static bool parse_request(char* p, char* end);
static char g_req[24 << 20];

// Everything about a run happens in the child, including reading the request: the parent stays as it was when it
// started, so the child's state (heap layout, stack leftovers) depends on the request alone.
static void run_one(FILE* out, size_t len)
{
    memset(g_obs, 0, offsetof(Obs, out));
    g_obs->last_read_err = -1;
    g_obs->phase = -1;
    fflush(out);
    pid_t pid = fork();
    if (pid == 0) {
        for (size_t k = 0; k < len;) { ssize_t r = syscall(SYS_read, 0, g_req + k, len - k); if (r <= 0) _exit(90); k += r; }
        g_obs->phase = 0;
        plan_reset();
        if (!parse_request(g_req, g_req + len)) _exit(92);
        struct rlimit rl = {(rlim_t)g_cpu, (rlim_t)g_cpu + 5}; setrlimit(RLIMIT_CPU, &rl);
        struct rlimit ra = {(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &ra);
        struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
        struct rlimit rs = {8 << 20, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rs);
        int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
        if (g_stdin >= 0) dup2(g_stdin, 0);
        else if (nul != 0) dup2(nul, 0);
        dup2(nul, 1); dup2(nul, 2);
        child();
        _exit(96);
    }
    if (pid < 0) { fprintf(out, "{\"fatal\":\"fork\"}\n"); fflush(out); exit(95); }
    int st = 0; bool hang = !wait_child(pid, &st, g_wall, &g_obs->phase);
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0, code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    Obs* o = g_obs;
    if (o->phase < 0 || (o->phase == 0 && code == 92)) { fprintf(out, "{\"fatal\":\"bad request (%d)\"}\n", code); fflush(out); exit(92); }
    fprintf(out, "{\"sig\":%d,\"exit\":%d,\"hang\":%d,\"phase\":%d,\"how\":%d,\"code\":%d", sig, code, hang, o->phase, o->how, o->code);
    fprintf(out, ",\"n\":{\"open\":%ld,\"read\":%ld,\"write\":%ld,\"alloc\":%ld,\"fft\":%ld,\"clock\":%ld,\"tother\":%ld,\"entropy\":%ld,\"seam\":%ld,\"map\":%ld}", o->n_open, o->n_read, o->n_write, o->n_alloc, o->n_fft, o->n_clock, o->n_time_other, o->n_entropy, o->n_seam, o->n_map);
    fprintf(out, ",\"f\":{\"open_error\":%ld,\"read_error\":%ld,\"eintr\":%ld,\"short_read\":%ld,\"truncation\":%ld,\"write_error\":%ld,\"short_write\":%ld,\"alloc_failure\":%ld,\"fft_plan_failure\":%ld,\"clock_failure\":%ld}",
        o->f_open, o->f_read_err, o->f_eintr, o->f_short_read, o->f_trunc, o->f_write_err, o->f_short_write, o->f_alloc, o->f_fft, o->f_clock_err);
    fprintf(out, ",\"eof\":%ld,\"last_read_err\":%ld,\"delivered\":%ld,\"out_at_return\":%ld", o->f_eof, o->last_read_err, o->delivered, o->out_at_return);
    fprintf(out, ",\"live\":[%ld,%ld,%ld,%ld]", o->live_blocks, o->live_bytes, o->live_plans, o->max_live_bytes);
    fprintf(out, ",\"trap\":%d,\"memerr\":", o->trap); put_str(out, o->memerr);
    fprintf(out, ",\"getenv\":["); for (int i = 0; i < o->n_getenv; ++i) { if (i) fputc(',', out); put_str(out, o->getenv_name[i]); } fprintf(out, "]");
    fprintf(out, ",\"asked\":["); for (int i = 0; i < o->n_asked; ++i) { if (i) fputc(',', out); put_str(out, o->asked[i]); } fprintf(out, "]");
    fprintf(out, ",\"wopen\":["); for (long i = 0; i < o->n_wopen && i < 8; ++i) { if (i) fputc(',', out); put_str(out, o->wopen[i]); } fprintf(out, "]");
    fprintf(out, ",\"out\":\""); put_hex(out, o->out, o->out_len); fprintf(out, "\",\"err\":\""); put_hex(out, o->err, o->err_len < 4000 ? o->err_len : 4000); fprintf(out, "\"");
#ifndef HOST_PROG
    fprintf(out, ",\"state\":[%d,", o->state_op); put_str(out, o->state);
    fprintf(out, "],\"op\":%d,\"ops\":[", o->op);
    for (int i = 0; i < o->n_ops; ++i) {
        OpObs& r = o->ops[i];
        char v[64]; snprintf(v, sizeof v, "%a", r.value);
        fprintf(out, "%s[%d,\"%s\",", i ? "," : "", r.status, v); put_str(out, r.what);
        fprintf(out, ",%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld]", r.n_alloc, r.n_fft, r.f_alloc, r.f_fft, r.live_blocks, r.live_bytes, r.live_plans, r.f_io, r.fds);
    }
    fprintf(out, "]");
#endif
    fprintf(out, "}\n");
    fflush(out);
}

#ifndef HOST_PROG
static void parse_doubles(char* v, std::vector<double>& r)
{
    char* e;
    for (char* p = v; *p;) { double d = strtod(p, &e); if (e == p) break; r.push_back(d); p = *e == ',' ? e + 1 : e; }
}
#endif

static bool parse_request(char* p, char* end)
{
    if (!getcwd(g_dir, sizeof g_dir)) return false;
    while (p < end) {
        char* line = p; char* nl = (char*)memchr(p, '\n', end - p);
        if (!nl) return false;
        *nl = 0; p = nl + 1;
        char* v = strchr(line, ' ');
        if (v) *v++ = 0; else v = nl;
        if (!strcmp(line, "arg")) g_args.push_back(from_hex(v));
        else if (!strcmp(line, "env")) g_env += from_hex(v) + "\n";
        else if (!strcmp(line, "content")) { long k = atol(v); if (k > end - p) return false; g_content.assign(p, k); p += k; }
        else if (!strcmp(line, "stdin")) { std::string c = from_hex(v); int fd[2]; if (pipe(fd)) return false; if (syscall(SYS_write, fd[1], c.data(), c.size()) < 0) return false; syscall(SYS_close, fd[1]); g_stdin = fd[0]; }
        else if (!strcmp(line, "kind")) g_kind = atoi(v);
        else if (!strcmp(line, "dir")) snprintf(g_dir, sizeof g_dir, "%s", v);
        else if (!strcmp(line, "cpu")) g_cpu = atoi(v);
#ifndef HOST_PROG
        else if (!strcmp(line, "watch")) g_watch = strtoul(v, 0, 10);
        else if (!strcmp(line, "world")) g_world = strtoul(v, 0, 10);
        else if (!strcmp(line, "moment")) g_moment = atoi(v);
        else if (!strcmp(line, "rop")) {      // kind, name, scripts of opens and reads, failing requests, length of the contents that follow
            g_ops.push_back(Op()); Op& o = g_ops.back(); o.na = o.nf = 0; o.stack = 0; memset(o.ar, 0, sizeof o.ar); memset(o.fr, 0, sizeof o.fr);
            o.fn = 5;
            char* save = 0; char* t[6];
            for (int k = 0; k < 6; ++k) if (!(t[k] = strtok_r(k ? 0 : v, " ", &save))) return false;
            o.kind = atoi(t[0]); o.name = from_hex(t[1]); o.opens = t[2]; o.reads = t[3];
            if (strcmp(t[4], "-")) plan_ranges(t[4], o.ar, o.na);
            long k = atol(t[5]);
            if (k > end - p) return false;
            o.content.assign(p, k); p += k;
            if (g_ops.size() > MAXOPS) return false;
            g_obs->n_ops = (int)g_ops.size();
        }
        else if (!strcmp(line, "oop")) {      // what, object, size, thread, seed, lambda, failing requests, refused plans
            g_ops.push_back(Op()); Op& o = g_ops.back(); o.na = o.nf = 0; o.stack = 0; memset(o.ar, 0, sizeof o.ar); memset(o.fr, 0, sizeof o.fr);
            o.fn = 6;
            char* save = 0; char* t[8];
            for (int k = 0; k < 8; ++k) if (!(t[k] = strtok_r(k ? 0 : v, " ", &save))) return false;
            for (int k = 0; k < 5; ++k) o.oa[k] = atol(t[k]);
            o.lambda = strtod(t[5], 0);
            if (strcmp(t[6], "-")) plan_ranges(t[6], o.ar, o.na);
            if (strcmp(t[7], "-")) plan_ranges(t[7], o.fr, o.nf);
            if (g_ops.size() > MAXOPS) return false;
            g_obs->n_ops = (int)g_ops.size();
        }
        else if (!strcmp(line, "op")) {   // op fn fft allocranges fftranges stackseed b B   ('-' for empty)
            g_ops.push_back(Op()); Op& o = g_ops.back(); o.na = o.nf = 0; o.stack = 0; memset(o.ar, 0, sizeof o.ar); memset(o.fr, 0, sizeof o.fr);
            char* save = 0; int k = 0;
            for (char* t = strtok_r(v, " ", &save); t; t = strtok_r(0, " ", &save), ++k) {
                bool none = !strcmp(t, "-");
                if (k == 0) o.fn = atoi(t);
                else if (k == 1) o.fft = atoi(t);
                else if (k == 2) { if (!none) plan_ranges(t, o.ar, o.na); }
                else if (k == 3) { if (!none) plan_ranges(t, o.fr, o.nf); }
                else if (k == 4) o.stack = strtoull(t, 0, 10);
                else if (k == 5) { if (!none) parse_doubles(t, o.b); }
                else if (k == 6) { if (!none) parse_doubles(t, o.B); }
            }
            if (g_ops.size() > MAXOPS) return false;
            g_obs->n_ops = (int)g_ops.size();
        }
#endif
        else if (!plan_set(line, v)) return false;
    }
    return true;
}

static void __attribute__((optimize("no-stack-protector"))) fixed_canary()
{   // the stack protector's canary is random in every process and may be left on the stack
#ifdef __x86_64__
    __asm__ volatile("movq %0, %%fs:0x28" ::"r"(0x5bd1e995a7c40000ull) : "memory");
#endif
}

int __attribute__((optimize("no-stack-protector"))) main(int argc, char** argv)
{
    bool other = argc > 2;                            // another place in memory: the libraries lie elsewhere
    if (other && !getenv("SIM_REEXEC")) { struct rlimit s; getrlimit(RLIMIT_STACK, &s); s.rlim_cur = (rlim_t)1 << 30; if (s.rlim_max == RLIM_INFINITY || s.rlim_max > s.rlim_cur) setrlimit(RLIMIT_STACK, &s); }
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        personality(ADDR_NO_RANDOMIZE);
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    fixed_canary();
    signal(SIGPIPE, SIG_IGN);
    if (argc > 1) g_cpu = atoi(argv[1]);
    g_obs = (Obs*)mmap(0, sizeof(Obs), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE* out = fdopen(dup(1), "w");
    static char obuf[1 << 16]; setvbuf(out, obuf, _IOFBF, sizeof obuf);
    char head[17];                                   // 16 digits: length of the request that follows
    while (true) {
        size_t k = 0;
        while (k < 16) { ssize_t r = syscall(SYS_read, 0, head + k, 16 - k); if (r < 0 && errno == EINTR) continue; if (r <= 0) return 0; k += r; }
        head[16] = 0;
        size_t len = strtoull(head, 0, 10);
        if (len >= sizeof g_req) { fprintf(out, "{\"fatal\":\"request too long\"}\n"); fflush(out); return 94; }
        run_one(out, len);
    }
}
