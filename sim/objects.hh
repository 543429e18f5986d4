// Convolvers and generators of Poisson probabilities, made, used again and again and given up in one process (host_obj).
#include "fftwconvolver.hh"
#include "poisson_pmf.hh"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <pthread.h>
#include <unistd.h>
#include <vector>
static FFTWConvolver* g_conv[4];
static PoissonPMFGenerator* g_pmf[4];
static int g_max[4];                 // the largest number each generator was made for
static uint64_t obj_mix(uint64_t& s) { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void obj_fill(std::vector<double>& v, int n, uint64_t seed)
{
    uint64_t s = seed;
    int shape = (int)(obj_mix(s) % 6);
    double scale = std::ldexp(1.0, shape == 5 ? (int)(obj_mix(s) % 400) - 200 : 0);
    long at = (long)(obj_mix(s) % (uint64_t)n);
    for (int i = 0; i < n; ++i) {
        double u = (double)(obj_mix(s) >> 11) / 9007199254740992.0;
        v[i] = shape == 0 ? u : shape == 1 ? u - .5 : shape == 2 ? std::exp(-.01 * i) * u : shape == 3 ? (i == at) : shape == 4 ? (obj_mix(s) % 16 ? 0.0 : u) : u * scale;
    }
}
// how far off, in units of the arguments' size (convolution) or of the value (probability); 1e300: something else is wrong;
// -1: not called (there is no such object, or there is one already)
static double object_call_(int what, int obj, int size, uint64_t seed, double lambda, char* text)
{
    if (what == 0 ? g_conv[obj] != 0 : what < 3 ? !g_conv[obj] : what == 3 ? g_pmf[obj] != 0 : !g_pmf[obj]) return -1;
    if (what > 4 && size > g_max[obj]) return -1;
    switch (what) {
    case 0: g_conv[obj] = new FFTWConvolver(size); return 0;
    case 1: { FFTWConvolver* c = g_conv[obj]; g_conv[obj] = 0; delete c; return 0; }
    case 3: g_pmf[obj] = new PoissonPMFGenerator(size); g_max[obj] = size; return 0;
    case 4: { PoissonPMFGenerator* c = g_pmf[obj]; g_pmf[obj] = 0; delete c; return 0; }
    case 2: {
        g_active = 0;
        const int PAD = 64;
        std::vector<double> a(size + 1), b(size + 1), out(size + PAD, 7.25), a0, b0;
        if (size) { obj_fill(a, size, seed); obj_fill(b, size, seed * 3 + 1); }
        if (seed % 8 == 3) b = a;
        a0 = a; b0 = b;
        g_active = 1;
        g_conv[obj]->convolve_same_size(size, &a[0], seed % 8 == 3 ? &a[0] : &b[0], &out[0]);
        g_active = 0;
        double worst = 0;
        if (a != a0 || b != b0) { snprintf(text, 120, "an argument was changed"); worst = 1e300; }
        for (int i = size; i < size + PAD; ++i) if (out[i] != 7.25) { snprintf(text, 120, "number %d of a result of %d was written", i, size); worst = 1e300; }
        double na = 0, nb = 0;
        for (int i = 0; i < size; ++i) { na += a[i] * a[i]; nb += b[i] * b[i]; }
        double unit = std::sqrt(na) * std::sqrt(nb);
        for (int j = 0; j < size; ++j) {
            if (size > 1500 && j % 7 && j > 40 && j < size - 40) continue;
            double w = 0;
            for (int k = 0; k <= j; ++k) w += a[k] * b[j - k];
            double d = std::fabs(out[j] - w);
            if (!(d <= 1e290)) d = 1e290;
            if (unit > 0) d /= unit;
            if (d > worst) { worst = d; if (d > 1e-11) snprintf(text, 120, "number %d of %d is %.17g, not %.17g", j, size, out[j], w); }
        }
        return worst;
    }
    case 5: case 6: {
        PoissonPMFGenerator* g = g_pmf[obj];
        double one = 0;
        if (what == 5) g->compute_array(size, lambda); else one = g->evaluate_pmf(lambda, size);
        g_active = 0;
        double worst = 0;
        for (int k = what == 5 ? 0 : size; k <= size; ++k) {
            long double w = lambda == 0 ? k == 0 : expl(-(long double)lambda + k * logl((long double)lambda) - lgammal(k + 1.0L));
            double got = what == 5 ? g->get_array()[k] : one;
            long double d = fabsl(got - w);
            d = d <= 1e-290L ? 0 : d <= 1e290L ? d / (w + 1e-290L) : 1e290L;
            if (d > worst) { worst = (double)d; if (d > 1e-8) snprintf(text, 120, "probability of %d is %.17g, not %.17g", k, got, (double)w); }
        }
        return worst;
    }
    }
    return 1e300;
}

// thread 1: the call is made in a thread of its own, which ends with it
struct InThread { int what, obj, size; uint64_t seed; double lambda; char* text; double value; std::exception_ptr error; };
static void* object_thread(void* p)
{
    InThread& t = *(InThread*)p;
    g_active = 1;
    try { t.value = object_call_(t.what, t.obj, t.size, t.seed, t.lambda, t.text); }
    catch (...) { g_active = 0; t.error = std::current_exception(); }
    g_active = 0;
    return 0;
}
static double object_call(int what, int obj, int size, int thread, uint64_t seed, double lambda, char* text)
{
    if (!thread) return object_call_(what, obj, size, seed, lambda, text);
    InThread t = {what, obj, size, seed, lambda, text, 0, nullptr};
    pthread_t id;
    g_active = 0;
    if (pthread_create(&id, 0, object_thread, &t)) _exit(98);
    pthread_join(id, 0);
    if (t.error) std::rethrow_exception(t.error);
    return t.value;
}
