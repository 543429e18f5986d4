"""Properties of the Monte-Carlo program over start times and clock behaviours: C10-C13."""
import math
from ..core import Prop, Result
from ..work import *
from ..work import MCCMDS, pick_bounds
from .. import ref
from .files import REAL, STUB
from .world import STDIN, pick_word, world_run

T = 30.0            # log of the inverse error probability of one statistical decision (about 1e-13)


def mc_text(b, B):
    return dict(b=[repr(x) for x in b], B=[repr(x) for x in B], sep=",", tb=False, tB=False, eol=True, pre="")


class McProp(Prop):
    real, stub = REAL, STUB
    assumptions = ["the reference dynamic programme (sim/ref.cc) is right: cross-checked against exact rational arithmetic for small samples",
                   "statistical decisions err with probability below exp(-30) each if runs of distinct seconds are independent; for a fixed VERIF_SEED they are deterministic"]

    def go(self, env, res, p, plan, note=True):
        r = env.prog(to_run(p, plan))
        if note:
            res.note(ending(r), r["out"])
        return r

    def shrink_p(self, p):
        for t in shrink_text(p["text"]):
            yield dict(p, text=t)


class C10(McProp):
    id = "C10"
    nondeterminism = "not-reproducible"
    counts = {"quick": 8000, "thorough": 120000}
    rule = ("one command line and file run in four worlds that share only the clock's first reading (as a whole second) and differ in memory contents and placement, stack, pid, "
            "entropy sources, environment, sub-second time and all later clock readings; non-trivial: the run simulated something; distinct: by the whole case")
    measure = "command x size class x which boundary x kind of first second"

    def gen(self, rng, index, tier):
        p = gen_problem(rng, 1, "crossprob_mc")
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))
        if rng.random() < .5:
            p["nsims"] = rng.choice([1, 3, 50, 500, 2000]) if n < 20 else rng.choice([1, 5, 50])
        if index % 24 == 5:                  # long runs
            p, _ = mc_problem(rng, rng.choice(MCCMDS))
            n = max(len(p["text"]["b"]), len(p["text"]["B"]))
            p["nsims"] = rng.choice([20000, 100000, 300000, 1100000 if index % 48 == 5 else 50000]) // n
        elif index % 48 == 29:               # very many simulations
            p = dict(p, text=mc_text(*rng.choice([([], [.4]), ([.25], [])])), nsims=rng.choice([1000001, 2100000, 3000000]))
        elif index % 24 == 6:                # large samples
            n = rng.choice([200, 500, 1000, 2200])
            b, B = pick_bounds(rng, n, rng.choice(["both", "b", "B"]))
            p = dict(p, text=mc_text(b, B), nsims=rng.choice([1, 10, 40]))
        start = pick_clock(rng)
        worlds = []
        for k in range(4):
            w = dict(clock=clock_plan(rng, start), heap=pick_heap(rng), stack=pick_stack(rng), entropy=str(rng.getrandbits(60)), pid=str(rng.randint(2, 4000000)))
            if k == 0:
                w = dict(clock=str(start), heap="0:0", stack="0:0:0", entropy="1", pid="100")
            e = [f"V{i}=" + "z" * rng.randint(0, 300) for i in range(rng.randint(0, 4))] + rng.sample(["TZ=UTC+5", "LANG=C", "GSL_RNG_SEED=7", "SEED=3", "HOME=/nowhere", "USER=x", "RANDOM=9", "OMP_NUM_THREADS=3", "MALLOC_PERTURB_=9"], rng.randint(0, 3))
            if k == 2 and rng.random() < .4:           # a decimal comma
                e += ["LOCPATH=@BUILD@/locale", "LC_ALL=de_DE.UTF-8"]
            if k == 3 and index % 3 == 0:
                w["elsewhere"] = "1"
            if k == 1:
                if rng.random() < .3:
                    w["argv0"] = rng.choice(["./bin/crossprob_mc", "/usr/bin/crossprob_mc", "", "mc" + pick_word(rng), "x"])
                if rng.random() < .3:
                    w["stdin"] = rng.choice(STDIN)
                if rng.random() < .3:
                    w["kind"] = rng.choice(["pipe", "link"])
            worlds.append([w, e if k else []])
        return dict(p=p, start=start, worlds=worlds)

    def shrinks(self, case):
        if len(case["worlds"]) > 2:
            for i in range(len(case["worlds"])):
                yield dict(case, worlds=case["worlds"][:i] + case["worlds"][i + 1:])
        for i, (w, e) in enumerate(case["worlds"]):
            if e:
                yield dict(case, worlds=case["worlds"][:i] + [[w, []]] + case["worlds"][i + 1:])
            for k in w:
                q = {a: b for a, b in w.items() if a != k}
                if k == "clock":
                    if w[k] == str(case["start"]):
                        continue
                    q["clock"] = str(case["start"])
                yield dict(case, worlds=case["worlds"][:i] + [[q, e]] + case["worlds"][i + 1:])
        for p in self.shrink_p(case["p"]):
            yield dict(case, p=p)
        if case["p"]["nsims"] > 1:
            for k in (1, case["p"]["nsims"] // 2):
                yield dict(case, p=dict(case["p"], nsims=k))

    def check(self, env, case):
        res = Result()
        p = case["p"]
        outs, names, files = [], set(), set()
        for w, e in case["worlds"]:
            run = world_run(p, w, e)
            r = env.prog(run)
            res.note(ending(r), r["out"])
            res.trace += describe(run) + [f"  -> {ending(r)} {r['out'][-100:]!r}"]
            outs.append((ending(r), r["out"]))
            res.nontrivial |= r["n"]["clock"] > 0
            names |= set(r["getenv"])
            files |= set(r["asked"])
        for v in ("12345", "3") if names else ():      # the variables that the program asks for
            run = to_run(p, case["worlds"][0][0], env=[f"{k}={v}" for k in sorted(names)])
            r = env.prog(run)
            res.note(ending(r), r["out"])
            res.trace += describe(run) + [f"  -> {ending(r)} {r['out'][-100:]!r}"]
            outs.append((ending(r), r["out"]))
        for v in ("", "1\n", "12345\n") if files else ():          # other files that the program asks for
            run = world_run(p, dict(case["worlds"][0][0], files=[[f, v] for f in sorted(files)[:4]]), [])
            r = env.prog(run)
            res.note(ending(r), r["out"])
            res.trace += describe(run) + [f"  -> {ending(r)} {r['out'][-100:]!r}"]
            outs.append((ending(r), r["out"]))
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))
        s = case["start"]
        res.situations.add("/".join([p["cmd"], str(min(4, n // 10)), ("b" if p["text"]["b"] else "") + ("B" if p["text"]["B"] else ""), "neg" if s < 0 else "small" if s < 1 << 30 else "now" if s < 1 << 31 else "later" if s < 1 << 32 else "far"]))
        if len(set(outs)) > 1:
            res.fail("not-reproducible", f"same arguments, file and starting second {s}: " + "; ".join(f"world {i}: {e} {o!r}" for i, (e, o) in enumerate(outs))[:500])
        return res


def mc_problem(rng, cmd, exactly=None):
    """a problem with an interesting exact probability"""
    for _ in range(30):
        n = rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 25, 40])
        sides = rng.choice(["both", "both", "b", "B"])
        b, B = pick_bounds(rng, n, sides)
        if sides == "both" and rng.random() < .3:
            B = B[:rng.randrange(0, n + 1)]
        elif sides == "both" and rng.random() < .05 and n > 1:
            b = b[:rng.randrange(1, n)]
        p = dict(prog="crossprob_mc", cmd=cmd, text=mc_text(b, B), nsims=1)
        x = exact(p)
        if rng.random() < .1 or (.02 < x < .98 if exactly is None else exactly[0] < x < exactly[1]):
            if exactly is None or exactly[0] < x < exactly[1]:
                return p, x
    b, B = ([], [0.5])
    p = dict(prog="crossprob_mc", cmd=cmd, text=mc_text(b, B), nsims=1)
    return p, exact(p)


def rare_problem(rng, cmd):
    """a problem whose exact probability is near 0 or near 1"""
    n = rng.choice([1, 1, 2, 3, 5, 8, 12, 20])
    b, B = pick_bounds(rng, n, rng.choice(["both", "b", "B"]))
    high = cmd == "ecdf" and rng.random() < .5              # (a Poisson process always may have too many or too few steps)
    t = 10 ** -rng.uniform(1.5, 4.3)
    lo, hi = 0.0, 1.0
    for _ in range(14):                                      # f = 1: nothing is left of the bounds, or no way through
        f = (lo + hi) / 2
        if high:
            c, d = [v * (1 - f) for v in b], [1 - (1 - v) * (1 - f) for v in B]
        else:
            m = [(v + w) / 2 for v, w in zip(b, B)] if b and B else [1.0] * len(b) + [0.0] * len(B)
            c, d = [v + (w - v) * f for v, w in zip(b, m)], [v + (w - v) * f for v, w in zip(B, m)]
        p = dict(prog="crossprob_mc", cmd=cmd, text=mc_text(c, d), nsims=1)
        x = exact(p)
        if (1 - x if high else x) > t:
            lo = f
        else:
            hi = f
        if t / 2 < (1 - x if high else x) < t * 2:
            break
    return p, x


def coarse_bounds(rng, n):
    """bounds on one or two of many points, such that crossing them is neither rare nor certain"""
    b, B = [], []
    side = rng.choice(["b", "B", "both"])
    for which in ("b", "B") if side == "both" else (side,):
        q = rng.uniform(.03, .97)
        k = min(n - 1, max(1, round(n * q + rng.uniform(-1.3, 1.3) * math.sqrt(n * q * (1 - q)))))
        if which == "B":
            B = [q] * k + [1.0] * (n - k)
        else:
            b = [0.0] * k + [q] * (n - k)
    return b, B


class Calibrated(McProp):
    counts = {"quick": 2600, "thorough": 40000}
    measure = "size class x which boundaries x simulations per run x how the starts are spread x size of the exact probability"
    rule = ("one problem started at 1 to 80 different seconds (consecutive, or spread over all epochs) with 1 to 200000 simulations each, the clock standing still, running, "
            "jumping or failing during the run; every estimate and the pooled count are compared with the exact probability; non-trivial: the exact probability is neither 0 nor 1; distinct: by the whole case")

    def gen(self, rng, index, tier):
        p, x = mc_problem(rng, self.cmd)
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))
        if index % 75 == 47:                 # large samples, few simulations
            n = rng.choice([500, 1000, 2200, 4000, 4097, 5000, 8200])
            b, B = coarse_bounds(rng, n)
            p = dict(p, text=mc_text(b, B))
            starts, p["nsims"] = [pick_clock(rng) for _ in range(12)], 600000 // n
        elif index % 650 == 99:              # more simulations than the digits of a float can count
            v = rng.choice([.25, .3, .4])
            p, starts = dict(p, text=mc_text([], [v]) if rng.random() < .5 else mc_text([1 - v], []), nsims=40000000), [pick_clock(rng)]
        else:
            k = index % 10
            if k == 2:                       # rare events, or rare exceptions
                p, x = rare_problem(rng, self.cmd)
                n = max(len(p["text"]["b"]), len(p["text"]["B"]))
                starts, p["nsims"] = [pick_clock(rng) for _ in range(rng.choice([1, 2, 4]))], 200000 // n
            elif k < 3:
                starts, p["nsims"] = [rng.randint(10**9, 2 * 10**9) + i for i in range(1)] * 1, rng.choice([20000, 50000, 200000]) // max(1, n // 8)
            elif k < 6:
                s = pick_clock(rng)
                starts, p["nsims"] = [s + i for i in range(40)], rng.choice([1, 1, 2, 10, 100, 500])
            else:
                starts, p["nsims"] = [pick_clock(rng) for _ in range(24)], rng.choice([1, 10, 200, 1000])
        starts = sorted(set(starts))
        return dict(p=p, clocks=[clock_plan(rng, s) for s in starts], starts=starts)

    def shrinks(self, case):
        n = len(case["starts"])
        k = n // 2
        while k >= 1 and n > 1:
            for i in range(0, n, k):
                if i or k < n:
                    q = dict(case, starts=case["starts"][:i] + case["starts"][i + k:], clocks=case["clocks"][:i] + case["clocks"][i + k:])
                    if q["starts"]:
                        yield q
            k //= 2
        for p in self.shrink_p(case["p"]):
            yield dict(case, p=p)
        if case["p"]["nsims"] > 1:
            yield dict(case, p=dict(case["p"], nsims=case["p"]["nsims"] // 2))
        for i in range(n):
            if case["clocks"][i] != str(case["starts"][i]):
                yield dict(case, clocks=case["clocks"][:i] + [str(case["starts"][i])] + case["clocks"][i + 1:])

    def check(self, env, case):
        res = Result()
        p, N = case["p"], case["p"]["nsims"]
        x = exact(p)
        res.nontrivial = 0 < x < 1
        slack = 1e-9 if N <= 100000 else 1.5e-6
        total = runs = 0
        res.trace.append(f"crossprob_mc {p['cmd']} bounds.txt {N}    file {render(p['text'])[:160]!r}, exact {x!r}")
        for s, c in zip(case["starts"], case["clocks"]):
            r = self.go(env, res, p, dict(clock=c))
            a = answer(r["out"])
            if len(case["starts"]) <= 8:
                res.trace.append(f"  clock {c}: {ending(r)} {r['out']!r}")
            if ending(r) != "exit0" or a is None or not (0 <= a <= 1):
                res.fail("no-estimate", f"started at {s}: {ending(r)}, {r['out'][-100:]!r}")
                return res
            if not ref.binom_ok(round(a * N) if N <= 100000 else a * N, N, x, T, slack):
                res.fail("off", f"started at second {s} (clock {c}): printed {a!r} from {N} simulations, exact {x!r}")
            total += round(a * N)
            runs += 1
        if runs > 1 and not ref.binom_ok(total, runs * N, x, T, slack + (1e-9)):
            res.fail("biased", f"{runs} runs of {N} simulations started at different seconds ({case['starts'][0]} .. {case['starts'][-1]}): {total} of {runs * N} = {total / (runs * N)!r}, exact {x!r}")
        spread = "one" if runs == 1 else "consecutive" if case["starts"][-1] - case["starts"][0] < 100 else "far"
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))
        res.situations.add("/".join([str(min(5, n // 5)), ("b" if p["text"]["b"] else "") + ("B" if p["text"]["B"] else ""), "1" if N == 1 else "few" if N < 100 else "many", spread, "0" if x == 0 else "1" if x == 1 else str(round(x, 1))]))
        res.extra["simulations"] = total and runs * N
        env.simtime += abs(case["starts"][-1] - case["starts"][0])
        return res


class C11(Calibrated):
    id, cmd = "C11", "ecdf"


class C12(Calibrated):
    id, cmd = "C12", "poisson"


DIST = [1, 1, 1, 2, 3, 5, 7, 10, 16, 31, 32, 59, 60, 64, 97, 100, 127, 128, 255, 256, 300, 512, 997, 1000, 1024, 3600, 4095, 4096, 10000, 16384, 32767, 32768, 65535, 65536, 86400, 100000,
        131072, 604800, 1 << 20, 10**6, 1 << 22, 1 << 24, 31536000, 1 << 28, 1 << 30, 10**9, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 40, 1 << 48]


class C13(McProp):
    id = "C13"
    counts = {"quick": 500, "thorough": 6000}
    measure = "command x experiment x distance between the compared seconds"
    rule = ("one problem started at up to 400 seconds: either consecutive seconds (dispersion, block sums, serial correlation, mean) or pairs of seconds at one distance from 1 to 2^48 "
            "(identical or correlated estimates); non-trivial: the exact probability lies in [0.15, 0.85]; distinct: by the whole case")

    def gen(self, rng, index, tier):
        p, x = mc_problem(rng, "ecdf" if index % 2 else "poisson", (.15, .85))
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))
        if index % 4 < 2:
            M = rng.choice([100, 200, 400])
            p["nsims"] = rng.choice([1, 3, 100, 400, 2000, 10000 // n])
            if index % 16 == 0:              # many runs
                M, p["nsims"] = 3000, rng.choice([50, 400, 1000 // n])
            elif index % 16 == 1:            # long runs
                M, p["nsims"] = 120, rng.choice([100000, 300000]) // n
            return dict(mode="series", p=p, start=pick_clock(rng), step=rng.choice([1, 1, 1, 1] + DIST[:24]), count=M)
        if index % 4 == 2:
            p["nsims"] = 4000 // max(1, n // 10)
            return dict(mode="pairs", p=p, dist=rng.choice(DIST), starts=[pick_clock(rng) for _ in range(16)])
        p["nsims"] = rng.choice([100, 400])
        return dict(mode="pairs", p=p, dist=rng.choice(DIST), starts=[pick_clock(rng) for _ in range(150)])

    def shrinks(self, case):
        if case["mode"] == "series":
            for m in (case["count"] // 2, case["count"] * 3 // 4):
                if m >= 20:
                    yield dict(case, count=m)
        else:
            k = len(case["starts"]) // 2
            if k >= 4:
                yield dict(case, starts=case["starts"][:k])
                yield dict(case, starts=case["starts"][k:])
        for p in self.shrink_p(case["p"]):
            yield dict(case, p=p)

    def one(self, env, res, p, s):
        r = self.go(env, res, p, dict(clock=str(s)))
        a = answer(r["out"])
        if ending(r) != "exit0" or a is None or not (0 <= a <= 1):
            return None
        return round(a * p["nsims"])

    def check(self, env, case):
        res = Result()
        p, N = case["p"], case["p"]["nsims"]
        x = exact(p)
        res.nontrivial = True
        if not .15 <= x <= .85:
            return res
        res.trace.append(f"crossprob_mc {p['cmd']} bounds.txt {N}    file {render(p['text'])[:160]!r}, exact {x!r}")
        sd = math.sqrt(N * x * (1 - x))
        if case["mode"] == "series":
            secs = [case["start"] + case["step"] * i for i in range(case["count"])]
            cnt = [self.one(env, res, p, s) for s in secs]
            env.simtime += abs(secs[-1] - secs[0])
            if None in cnt:
                return res
            M = len(cnt)
            z = [(c - N * x) / sd for c in cnt]
            res.situations.add(f"{p['cmd']}/series/{case['step']}")
            txt = f"{M} runs of {N} simulations, every {case['step']} s from {case['start']}, exact {x!r}: "
            res.trace.append("  counts " + " ".join(map(str, cnt[:40])) + (" ..." if M > 40 else ""))
            if not ref.binom_ok(sum(cnt), M * N, x, T, 1e-9):
                res.fail("averaging", txt + f"their average {sum(cnt) / M / N!r} is further off than the sampling error")
            for k in (1, 2, 4, 8, 16):
                if M // k < 6:
                    break
                q = [sum(z[i * k:(i + 1) * k]) / math.sqrt(k) for i in range(M // k)]
                d, m = sum(v * v for v in q), M // k
                if N * k >= 100:
                    hi, lo = m + 2 * math.sqrt(m * T) + 2 * T, m - 2 * math.sqrt(m * T)
                else:           # few simulations: v*v is bounded; its variance is at most that of one simulation, Bernstein
                    mx = max(x, 1 - x) ** 2 * N * k / (x * (1 - x))
                    s = T * mx / 3 + math.sqrt((T * mx / 3) ** 2 + 2 * T * m * (mx + 2))
                    hi, lo = m + s, m - s
                if d > hi or d < lo:
                    res.fail("dispersion", txt + f"sums of {k} consecutive runs have {d / m:.3g} times the variance of independent runs ({m} sums)")
            if M >= 100 and len(set(cnt)) == 1 and N * M >= 100:
                res.fail("dispersion", txt + "all estimates are equal")
            for lag in (1, 2, 3, 4, 5, 8, 16):
                m = M - lag
                if m < 80:
                    break
                c = sum(z[i] * z[i + lag] for i in range(m))
                if N >= 50:         # nearly normal: a quadratic form with Frobenius norm sqrt(m/2) and spectral norm below 1
                    s = 1.1 * math.sqrt(2 * m * T) + 2 * T
                else:
                    mx = max(x, 1 - x) / min(x, 1 - x) if N == 1 else 6.0
                    s = T * mx / 3 + math.sqrt((T * mx / 3) ** 2 + 2 * T * m * 1.2)
                if abs(c) > s:
                    res.fail("correlated", txt + f"correlation {c / m:.3g} between runs {lag * case['step']} s apart")
        else:
            d = case["dist"]
            pairs = []
            for s in case["starts"]:
                s2 = s + d if s + d < (1 << 62) else s - d
                a, b = self.one(env, res, p, s), self.one(env, res, p, s2)
                if a is None or b is None:
                    return res
                pairs.append((a, b))
                env.simtime += d
            m = len(pairs)
            res.situations.add(f"{p['cmd']}/pairs/{d}")
            txt = f"{m} pairs of runs of {N} simulations {d} s apart, exact {x!r}: "
            res.trace.append("  pairs " + " ".join(f"{a}:{b}" for a, b in pairs[:20]))
            same = sum(a == b for a, b in pairs)
            q = min(1.0, 1.3 / math.sqrt(4 * math.pi * N * x * (1 - x)))
            if same > m * q and m * ref.kl(same / m, q) > T:
                res.fail("identical", txt + f"{same} pairs printed identical estimates")
            v = sum(((a - b) / sd) ** 2 / 2 for a, b in pairs)
            if m >= 100 and v < m - 2 * math.sqrt(m * T):
                res.fail("correlated", txt + f"their differences have {v / m:.3g} times the variance of independent runs")
            v = sum(((a + b - 2 * N * x) / sd) ** 2 / 2 for a, b in pairs)
            if m >= 100 and v < m - 2 * math.sqrt(m * T):
                res.fail("correlated", txt + f"their sums have {v / m:.3g} times the variance of independent runs")
            if v > m + 2 * math.sqrt(m * T) + 2 * T:
                res.fail("dispersion", txt + f"their sums have {v / m:.3g} times the variance of independent runs")
        return res


COUNTS = [1, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 16, 17, 31, 33, 63, 64, 65, 97, 99, 100, 101, 127, 129, 250, 255, 256, 257, 333, 500, 511, 513, 997, 1000, 1001, 1023, 1024, 1025, 2047, 2049, 3001, 4095, 4096, 4097, 5000, 7919,
          8191, 8193, 9999, 10000, 10001, 16383, 16385, 20011, 32767, 32769, 50000, 50021, 65535, 65536, 65537, 99991, 99999, 100000]


class C26(McProp):
    id = "C26"
    counts = {"quick": 4000, "thorough": 60000}
    measure = "command x size class x number of simulations (power of two) x kind of problem (certain, impossible, other) x how the clock behaves"
    rule = ("one problem (every fourth: a certain or an impossible one) simulated with 10 different numbers of simulations from 1 to 100000, started at different seconds, the clock standing still, running, "
            "jumping or failing during the run; non-trivial: a run with more than one simulation; distinct: by the whole case")
    assumptions = ["the reference dynamic programme (sim/ref.cc) tells certain and impossible problems", "six significant digits are printed"]

    def gen(self, rng, index, tier):
        cmd = rng.choice(MCCMDS)
        p, x = mc_problem(rng, cmd)
        if index % 4 == 1:
            n = rng.choice([1, 1, 2, 3, 5, 8, 12, 30])
            k = rng.random()
            if k < .5 and cmd == "ecdf":                             # certain
                b, B = rng.choice([([0.0] * n, [1.0] * n), ([0.0] * n, []), ([], [1.0] * n), ([0.0] * n, [1.0] * rng.randrange(n + 1))])
            elif k < .75:                                            # impossible
                b, B = rng.choice([([1.0] * n, [1.0] * n), ([], [0.0] * n), ([0.0] * n, [0.0] * n), ([.5] * n, [.5] * n), ([.2] * (n - 1) + [.8], [.2] * (n - 1) + [.8])])
            else:
                b, B = [0.0] * n, [1.0] * (n + rng.choice([1, 3]))   # more steps than there can be
            p = dict(p, text=mc_text(b, B))
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))
        top = 300000 // n if index % 16 else 1500000 // n
        sims = [rng.choice([c for c in COUNTS if c <= top]) if rng.random() < .6 else int(min(top, 100000) ** rng.random()) for _ in range(10)]
        if index % 200 == 41:
            sims[0] = rng.choice([1000000, 1048576, 2000003]) if n < 4 else 100000
        return dict(p=p, runs=[[k, clock_plan(rng, pick_clock(rng)), rng.choice(["", "", "", "", "+", "0", "00", " "])] for k in sims])

    def shrinks(self, case):
        if len(case["runs"]) > 1:
            for i in range(len(case["runs"])):
                yield dict(case, runs=[case["runs"][i]])
        else:
            k, c, pre = case["runs"][0]
            if pre:
                yield dict(case, runs=[[k, c, ""]])
            s = c.split(",")[0].split(";")[0]
            if c != s:
                yield dict(case, runs=[[k, s, pre]])
            for q in (k // 2, k * 9 // 10, k - 1):
                if q > 0:
                    yield dict(case, runs=[[q, c, pre]])
        for p in self.shrink_p(case["p"]):
            yield dict(case, p=p)

    def check(self, env, case):
        res = Result()
        p = case["p"]
        x = exact(p)
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))
        kind = "certain" if x > 1 - 1e-12 else "impossible" if x < 1e-13 else "other"
        for N, clock, pre in case["runs"]:
            run = to_run(dict(p, nsims=pre + str(N)), dict(clock=clock))
            r = env.prog(run)
            res.note(ending(r), r["out"])
            res.trace += describe(run) + [f"  -> {ending(r)} {r['out'][-100:]!r}"]
            res.nontrivial |= N > 1
            res.extra["simulations"] = res.extra.get("simulations", 0) + N
            res.situations.add("/".join([p["cmd"], str(min(4, n // 8)), str(N.bit_length()), kind]))
            a = answer(r["out"])
            if ending(r) != "exit0" or a is None or a != a:
                res.fail("no-estimate", f"{N} simulations, clock {clock}: {ending(r)}, {r['out'][-100:]!r}")
                break
            k = a * N
            err = N * (.5 * 10 ** (math.floor(math.log10(abs(a))) - 5) if a else 0) * 1.001 + 1e-9 * N
            if not -err <= k <= N + err or err < .45 and abs(k - round(k)) > err:
                res.fail("not-a-fraction", f"{N} simulations, clock {clock}: printed {r['out']!r}, which is not a number of simulations divided by {N} ({k:.6f} of {N})")
            elif kind == "certain" and a != 1 or kind == "impossible" and a != 0:
                res.fail("not-all", f"{N} simulations of {'a certain' if kind == 'certain' else 'an impossible'} event, clock {clock}: printed {r['out']!r}")
        return res
