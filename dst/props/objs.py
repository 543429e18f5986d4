"""C28: convolvers and generators of Poisson probabilities, used again and again inside one process."""
from ..core import Result
from ..work import *
from .lib import SessProp, STATUS

NEW_C, DEL_C, CONV, NEW_P, DEL_P, ARRAY, ONE = range(7)
SIZES = [0, 1, 2, 3, 50, 126, 127, 128, 129, 130, 200, 255, 256, 500, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 1500, 2000, 2046, 2047, 2048, 2049, 2050, 2500, 3000, 3071, 3072, 3073]
LARGE = [4095, 4096, 4097, 5000, 6143, 6144, 6145, 8191, 8192, 8193, 10241]
LAMBDAS = [0, 0, -1, -1e-300, 5e-324, 1e-300, 1e-10, .5, 1, 1.5, 10, 100, 700, 746, 1000, 1e6]


def pick_size(rng, top):
    x = rng.random()
    if x < .35:
        return rng.choice([s for s in SIZES + LARGE if s <= top] + [top])
    if x < .6:
        return max(0, top - rng.choice([0, 0, 0, 1, 2]))
    if x < .8:
        return rng.randint(0, min(top, 300))
    return rng.randint(0, top)


def name_of(o):
    w, s = o["what"], o["size"]
    t = [f"convolver {o['obj']} made for {s}", f"convolver {o['obj']} deleted", f"convolver {o['obj']} convolves {s} (seed {o.get('seed')})", f"generator {o['obj']} made for {s}", f"generator {o['obj']} deleted",
         f"generator {o['obj']} computes 0..{s} for {o.get('lambda')!r}", f"generator {o['obj']} computes {s} for {o.get('lambda')!r}"][w]
    return t + "".join(f"  {k} = {o[k]}" for k in ("alloc", "fftf") if o.get(k)) + ("  (in a thread of its own)" if o.get("thread") else "")


class C28(SessProp):
    id = "C28"
    kinds = ("obj",)
    counts = {"quick": 12000, "thorough": 200000}
    measure = "kind of call x size class x outcome x fault x thread x what the object did before (nothing, larger, smaller, same, a failure)"
    rule = ("a session of 4 to 40 calls in one process on up to four convolvers and four generators: made for sizes up to 10241, used with sizes at and around 128 and the multiples of 1024 and 2048, larger ones then smaller ones, the same data twice, "
            "and deleted, each call in the main thread or in a thread of its own, with memory requests failing and FFT plans refused at chosen requests; then a round of calls four times over; non-trivial: an object used twice or more; distinct: by the whole case")
    real = ["FFTWConvolver, PoissonPMFGenerator and the aligned memory they use (repository code, the Makefile's flags)", "FFTW"]
    stub = ["memory requests of repository code (simulated allocator with guarded, poisoned blocks)", "refusal of FFT plans"]
    assumptions = ["the definition of the convolution and of the Poisson probability, evaluated by the harness, is right; memory requests inside FFTW do not fail"]

    def call(self, rng, c, p):
        o = self.call_(rng, c, p)
        x = rng.random()
        if x < .12:
            i = rng.choice([0, 0, 1, 2, 3, 4, rng.randint(0, 12)])
            o["alloc"] = rng.choice([str(i), str(i), f"{i}-{i + rng.randint(1, 4)}", f"{i}-100000000"])
        if o["what"] == CONV and rng.random() < .15:
            i = rng.choice([0, 0, 1])
            o["fftf"] = rng.choice([str(i), f"{i}-100000000"])
        return o

    def call_(self, rng, c, p):
        i = rng.randrange(4)
        x = rng.random()
        if x < .7:
            i = rng.choice(sorted(c)) if c and rng.random() < .9 else i
            if i not in c:
                c[i] = rng.choice(SIZES[1:] + LARGE) if rng.random() < .6 else rng.randint(1, 4000)
                return dict(what=NEW_C, obj=i, size=c[i])
            if rng.random() < .08:
                del c[i]
                return dict(what=DEL_C, obj=i, size=0)
            s = pick_size(rng, c[i])
            if rng.random() < .05:                          # more than it was made for
                s = c[i] + rng.choice([1, 1, 2, 127, 1023, 1024, 2046, 2047, 2048, 5000, rng.randint(1, 3000)])
            return dict(what=CONV, obj=i, size=s, seed=rng.randrange(1 << 40))
        i = rng.choice(sorted(p)) if p and rng.random() < .9 else i
        if i not in p:
            p[i] = rng.choice([1, 1, 2, 3, 10, 100, 170, 171, 500, 1000, 2047, 2048, 5000]) if rng.random() < .6 else rng.randint(1, 1500)
            return dict(what=NEW_P, obj=i, size=p[i])
        if rng.random() < .08:
            del p[i]
            return dict(what=DEL_P, obj=i, size=0)
        lam = rng.choice(LAMBDAS) if rng.random() < .4 else rng.choice([1, 10, 100, 1000]) * rng.random()
        if rng.random() < .7:
            return {"what": ARRAY, "obj": i, "size": pick_size(rng, p[i]), "lambda": lam}
        return {"what": ONE, "obj": i, "size": pick_size(rng, p[i]), "lambda": abs(lam)}

    @staticmethod
    def placed(rng, ops, rate):
        return [dict(o, thread=1) if rng.random() < rate else o for o in ops]

    def gen(self, rng, index, tier):
        c, p, ops = {}, {}, []
        rate = rng.choice([0, 0, .1, .5, 1])
        for _ in range(rng.choice([4, 8, 12, 20, 40])):
            if ops and rng.random() < .1:                   # the same call again
                ops.append(dict(ops[-1]))
                continue
            ops.append(self.call(rng, c, p))
        ops += [dict(what=w, obj=i, size=0) for w in (DEL_C, DEL_P) for i in range(4)]
        c, p = {}, {}
        again = [self.call(rng, c, p) for _ in range(rng.choice([1, 2, 3, 5]))]
        again += [dict(what=w, obj=i, size=0) for w, k in ((DEL_C, c), (DEL_P, p)) for i in sorted({o["obj"] for o in again})]
        ops, again = self.placed(rng, ops, rate), self.placed(rng, again, rate)
        return dict(ops=ops, again=again, plan=dict(heap=pick_heap(rng)) if rng.random() < .3 else {})

    def shrinks(self, case):
        if case["plan"]:
            yield dict(case, plan={})
        for key in ("again", "ops"):
            ops = case[key]
            k = len(ops)
            while k >= 1:
                for i in range(0, len(ops), k):
                    yield dict(case, **{key: ops[:i] + ops[i + k:]})
                k //= 2
        for key in ("again", "ops"):
            for i, o in enumerate(case[key]):
                qs = [{a: b for a, b in o.items() if a != k} for k in ("alloc", "fftf", "thread") if o.get(k)]
                if o["what"] in (CONV, ARRAY, ONE):
                    qs += [dict(o, size=s) for s in (o["size"] // 2, o["size"] - 1) if s >= 0]
                for q in qs:
                    yield dict(case, **{key: case[key][:i] + [q] + case[key][i + 1:]})

    def check(self, env, case):
        res = Result()
        again = case["again"]
        ops = case["ops"] + again * 4
        if not ops:
            return res
        r = env.objects(ops, case["plan"])
        if r is None:                                       # no such objects in this tree
            res.note("absent")
            res.situations.add("absent")
            return res
        res.note([ending(r), r["memerr"], r["op"], r["ops"], r["f"]])
        res.trace += [f"{k} = {v}" for k, v in case["plan"].items()]
        for i, o in enumerate(ops):
            x = r["ops"][i]
            res.trace.append(f"{i}: {name_of(o)} -> {STATUS[x[0]]} " + (repr(x[2]) if x[0] > 1 else x[2] or x[1]))
        res.trace.append(f"session: {ending(r)} {r['memerr']}")
        if ending(r) != "exit0" or r["memerr"]:
            res.fail("crash", f"{ending(r)} {r['memerr']} in call {r['op']}: {name_of(ops[min(r['op'], len(ops) - 1)])}")
            return res
        cap, last, used = {}, {}, {}
        for i, o in enumerate(ops):
            st, val, what, na, nf, fa, ff = r["ops"][i][:7]
            v = float.fromhex(val) if st == 1 else None
            name = f"call {i}, {name_of(o)}"
            w, key = o["what"], (o["what"] >= NEW_P, o["obj"])
            if v == -1:
                continue
            if w in (NEW_C, NEW_P):
                if st == 1:
                    cap[key], last[key] = o["size"], "new"
            elif w in (DEL_C, DEL_P):
                last.pop(key, None)
            else:
                used[key] = used.get(key, 0) + 1
            s = o["size"]
            res.situations.add("/".join(str(x) for x in (w, s > cap.get(key, 0), s >= 128, s // 1024 if s < 4096 else 4, (s % 1024 in (0, 1, 1023)), st, fa > 0, ff > 0, o.get("thread", 0), last.get(key))))
            if w in (CONV, ARRAY, ONE):
                last[key] = "failed" if st != 1 else "larger" if s >= 1024 else "smaller"
            if st in (0, 5):
                res.fail("outcome", f"{name}: {STATUS[st]}")
            elif st == 1:
                if w == ARRAY and o["lambda"] < 0:
                    res.fail("accepted", f"{name}: a negative intensity is accepted")
                elif v > (1e-11 if w == CONV else 1e-8):
                    res.fail("wrong", f"{name}: {what}")
            elif fa or ff:
                if fa and not ff and st != 2 and not (w == CONV and s > cap[key] or w == ARRAY and o["lambda"] < 0):
                    res.fail("outcome", f"{name}: a memory request failed, but {STATUS[st]} {what!r}")
            elif not (w == CONV and s > cap[key] or w == ARRAY and o["lambda"] < 0):
                res.fail("refused", f"{name}: {STATUS[st]} {what!r} although nothing failed")
        n, m = len(case["ops"]), len(again)
        if m:
            ends = [r["ops"][n + m * (k + 1) - 1] for k in range(4)]
            for j, w in ((7, "blocks"), (8, "bytes"), (9, "FFT plans")):
                d = [ends[k + 1][j] - ends[k][j] for k in range(3)]
                if min(d) > 0:
                    res.fail("left-behind", f"calls {n} to {n + m - 1}, again and again: each round leaves {min(d)} more {w}: " + "; ".join(name_of(o) for o in again))
        res.nontrivial = max(used.values(), default=0) > 1
        res.extra["calls"] = len(ops)
        return res
