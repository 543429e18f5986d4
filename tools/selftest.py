#!/usr/bin/env python3
"""Cross-checks the reference (sim/ref.cc) against algorithms that share nothing with it, in exact rational arithmetic:
Steck's determinant for two-sided problems, Daniels' and Dempster's closed forms for straight lines, and the mixture over the number
of points for the Poisson process. Run after changing sim/ref.cc; not part of any check."""
import os
import random
import sys
from fractions import Fraction as Fr
from math import comb, exp, factorial

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from dst import ref  # noqa: E402


def det(m):
    m = [r[:] for r in m]
    d = Fr(1)
    for c in range(len(m)):
        p = next((r for r in range(c, len(m)) if m[r][c]), None)
        if p is None:
            return Fr(0)
        if p != c:
            m[c], m[p] = m[p], m[c]
            d = -d
        d *= m[c][c]
        for r in range(c + 1, len(m)):
            if m[r][c]:
                f = m[r][c] / m[c][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return d


def steck(b, B):
    """P(b_i <= U_(i) <= B_i for all i) = det[ C(j, j-i+1) (B_i - b_j)_+^(j-i+1) ], 1-based (Steck 1971)"""
    n = len(b)
    b, B = [Fr(x) for x in b], [Fr(x) for x in B]
    if any(x > y for x, y in zip(b, B)):
        return Fr(0)
    m = [[Fr(0)] * n for _ in range(n)]
    for i in range(1, n + 1):
        for j in range(1, n + 1):
            k = j - i + 1
            if k == 0:
                m[i - 1][j - 1] = Fr(1)
            elif k > 0:
                m[i - 1][j - 1] = comb(j, k) * max(B[i - 1] - b[j - 1], Fr(0)) ** k
    return det(m)


def noe(b, B):
    """the same by piecewise integration of polynomials (independent of both): only small n"""
    n = len(b)
    pts = sorted(set([Fr(0), Fr(1)] + [Fr(x) for x in b + B]))
    # count sequences: number of points in every elementary interval, multinomial
    def rec(k, used):
        if k == len(pts) - 1:
            return Fr(1) if used == n else Fr(0)
        lo, hi = pts[k], pts[k + 1]
        tot = Fr(0)
        for c in range(n - used + 1):
            if c and not (Fr(b[used + c - 1]) <= lo and Fr(B[used]) >= hi):
                break
            if c == 0 or all(Fr(b[i]) <= lo and Fr(B[i]) >= hi for i in range(used, used + c)):
                tot += comb(n - used, c) * (hi - lo) ** c * rec(k + 1, used + c)
        return tot
    return rec(0, 0)


def close(a, e):
    return abs(a - e) <= 1e-12 + 1e-11 * abs(e)


def main():
    R = random.Random(1)
    for t in range(400):
        n = R.randint(1, 9)
        g = R.choice([4, 10, 1000])
        lo, hi = R.choice([(.7, .3), (1, 0), (.4, .6)])
        b = sorted(R.randint(0, g) / g * lo for _ in range(n))
        B = sorted(R.randint(0, g) / g * (1 - hi) + hi for _ in range(n))
        m = t % 4
        if m == 1:
            b = [0.0] * n
        if m == 2:
            B = [1.0] * n
        e = steck(b, B)
        if n <= 5:
            assert e == noe(b, B), (b, B)
        for bb, BB in [(b, B)] + ([([], B)] if m == 1 else []) + ([(b, [])] if m == 2 else []):
            r = ref.ecdf(n, bb, BB)
            assert close(r, float(e)), (n, bb, BB, float(e), r)
    for n in (15, 24):
        b = [max(0.0, (i + 1) / n - .3) for i in range(n)]
        B = [min(1.0, i / n + .3) for i in range(n)]
        assert close(ref.ecdf(n, b, B), float(steck(b, B)))
    print("two-sided, one-sided: Steck's determinant and direct counting agree")
    for n in (1, 2, 5, 30, 200):             # Daniels: P(F_n(x) <= x/a for all x) = 1 - a
        a = Fr(R.randint(1, 99), 100)
        b = [float(a * (i + 1) / n) for i in range(n)]
        assert abs(ref.ecdf(n, b, []) - float(1 - a)) < 1e-11, (n, a)
        d = Fr(R.randint(1, 60), 100)        # Birnbaum-Tingey: P(D_n^+ <= d)
        e = 1 - sum(d * comb(n, j) * (d + Fr(j, n)) ** (j - 1) * (1 - d - Fr(j, n)) ** (n - j) for j in range(n) if 1 - d - Fr(j, n) > 0)
        b = [max(0.0, float(Fr(i + 1, n) - d)) for i in range(n)]
        assert abs(ref.ecdf(n, b, []) - float(e)) < 1e-10, (n, d, float(e), ref.ecdf(n, b, []))
    print("straight lines: Daniels and Birnbaum-Tingey agree")
    for _ in range(60):                      # Poisson: mixture over the number of points
        nb = R.randint(1, 6)
        nB = R.choice([0, nb, R.randint(0, nb)])
        b = sorted(R.randint(0, 40) / 64 for _ in range(nb))
        B = sorted(R.randint(20, 64) / 64 for _ in range(nB))
        if R.random() < .3:
            b, B = [], sorted(R.randint(20, 64) / 64 for _ in range(nb))
        lam = max(len(b), len(B))
        tot = 0.0
        for k in range(len(B), 36):
            # with k points the lower bounds say that at most i-1 points lie before b_i; the upper ones that at least i lie before B_i
            if b and k > len(b):
                break
            bb, BB = (b[:k] if b else [0.0] * k), B[:k] + [1.0] * (k - len(B))
            e = float(steck(bb, BB)) if k else 1.0
            tot += exp(-lam) * lam ** k / factorial(k) * e
        r = ref.poisson(lam, b, B)
        assert abs(tot - r) < 1e-9, (b, B, tot, r)
    print("Poisson: the mixture over the number of points agrees")


main()
