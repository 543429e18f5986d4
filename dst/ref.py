"""Reference probabilities (independent dynamic programme, sim/ref.cc) and statistical bounds."""
import ctypes, math, os
from . import build

_lib = None


def _l():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.path.join(build.build("ref"), "libref.so"))
        _lib.ref_ecdf.restype = _lib.ref_poisson.restype = ctypes.c_double
    return _lib


def _arr(v):
    return (ctypes.c_double * max(1, len(v)))(*v)


def ecdf(n, b, B):
    return _l().ref_ecdf(n, _arr(b), len(b), _arr(B), len(B))


def poisson(lam, b, B):
    return _l().ref_poisson(ctypes.c_double(lam), _arr(b), len(b), _arr(B), len(B))


def api_close(value, ref):
    """tolerance for a value returned by a library function: far above rounding (about 1e-12), far below any real difference"""
    return abs(value - ref) <= 1e-9 + 1e-7 * abs(ref)


def rel_close(value, ref):
    """for algorithms all of whose terms are non-negative"""
    return abs(value - ref) <= 1e-8 * abs(ref) + 1e-280


def cli_close(value, ref):
    """tolerance for a printed value (6 significant digits)"""
    return abs(value - ref) <= 1e-8 + 1e-5 * abs(ref)


def kl(a, p):
    r = 0.0
    if a > 0:
        r += a * (math.log(a / p) if p > 0 else float("inf"))
    if a < 1:
        r += (1 - a) * (math.log((1 - a) / (1 - p)) if p < 1 else float("inf"))
    return max(r, 0.0)


def binom_ok(count, n, p, log_inv_alpha=30.0, slack=0.0):
    """Chernoff: count successes of n independent trials of probability p (known to within slack) is plausible at level exp(-30)"""
    a = count / n
    if slack and abs(a - p) <= slack:
        return True
    q = min(1.0, max(0.0, p + (slack if a > p else -slack)))
    return n * kl(a, q) <= log_inv_alpha
