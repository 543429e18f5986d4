// Independent reference for the non-crossing probabilities. Plain dynamic programme over the number of points to the
// left of each bound; every quantity is a sum of non-negative terms, so there is no cancellation. No -ffast-math.
#include <vector>
#include <cmath>
#include <algorithm>
#include <cstdint>
typedef double F;
struct Ev { double t; int upper; };
// Distribution of the number of points of a Poisson process of the given intensity on [0,1], restricted to paths with
// N(b_i) <= i-1 (i=1..nb, bounds b sorted) and N(B_i) >= i. cap: states above it are dropped (lump=0) or merged into it.
static std::vector<F> chain(double intensity, const double* b, int nb, const double* B, int nB, int cap, bool lump)
{
    std::vector<Ev> ev;
    for (int i = 0; i < nb; ++i) ev.push_back({b[i], 1});
    for (int i = 0; i < nB; ++i) ev.push_back({B[i], 0});
    std::stable_sort(ev.begin(), ev.end(), [](const Ev& x, const Ev& y) { return x.t < y.t; });
    ev.push_back({1.0, 2});
    std::vector<F> f(cap + 1, 0.0), g(cap + 1), w(cap + 1);
    f[0] = 1;
    double t = 0;
    int lo = 0, hi = 0, cb = 0, cB = 0;         // f is zero outside [lo, hi]
    for (size_t k = 0; k < ev.size(); ++k) {
        double dt = ev[k].t - t;
        if (dt > 0) {
            double lam = intensity * dt;
            for (int j = 0; j <= cap; ++j) w[j] = std::exp(-lam + j * std::log(lam) - std::lgamma(j + 1.0));
            // states that the coming bounds allow
            int top = nb ? std::min(cap, cb) : cap;   // before the (cb+1)-th lower bound at most cb points... see below
            std::fill(g.begin(), g.end(), 0.0);
            for (int j = lo; j <= hi; ++j) {
                F fj = f[j];
                if (fj == 0) continue;
                F* gp = &g[j]; const F* wp = &w[0]; int m = top - j;
                for (int i = 0; i <= m; ++i) gp[i] += fj * wp[i];
                if (lump && top == cap) {             // everything beyond cap goes into cap
                    F s = 0; for (int i = 0; i < cap - j; ++i) s += w[i];
                    g[cap] += fj * (std::max(0.0, 1.0 - s) - w[cap - j]);
                }
            }
            f.swap(g);
            hi = std::max(hi, top);
            t = ev[k].t;
        }
        if (ev[k].upper == 1) ++cb;                                     // b_cb: N(b_cb) <= cb-1 was enforced by top
        else if (ev[k].upper == 0) { if (cB <= cap) f[cB] = 0; ++cB; lo = std::max(lo, cB); if (lo > cap) { std::fill(f.begin(), f.end(), 0.0); return f; } }
    }
    return f;
}
extern "C" {
// P(b_i <= X_(i) <= B_i for all i) for n uniform points; nb, nB in {0..n}, absent bounds are trivial
double ref_ecdf(int n, const double* b, int nb, const double* B, int nB)
{
    if (n == 0) return 1;
    std::vector<double> bb(b, b + nb), BB(B, B + nB);
    for (int i = 0; i < nb && i < nB; ++i) if (b[i] > B[i]) return 0;
    if (!nb) bb.assign(n, 0.0);
    if (nb && nb < n) return 0;
    std::vector<F> f = chain(n, &bb[0], n, BB.data(), nB, n, false);
    return f[n] / std::exp(-n + n * std::log((double)n) - std::lgamma(n + 1.0));
}
double ref_poisson(double intensity, const double* b, int nb, const double* B, int nB)
{
    if (nb > 0) {
        if (nb < nB) return 0;
        for (int i = 0; i < nB; ++i) if (b[i] > B[i]) return 0;
        std::vector<F> f = chain(intensity, b, nb, B, nB, nb, false);
        double s = 0; for (int j = nB; j <= nb; ++j) s += f[j];
        return s;
    }
    if (nB == 0) return 1;
    std::vector<F> f = chain(intensity, b, 0, B, nB, nB, true);
    return f[nB];
}
}
