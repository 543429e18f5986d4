"""Properties of histories of library calls in one process: C06 (failing calls), C07 (history), C08 (leftover memory)."""
import math
from ..core import Prop, Result
from ..work import *
from .. import ref

FNS = ("ecdf2", "ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B")
REAL = ["the library's functions ecdf2 (with and without FFT), ecdf1_new_*, ecdf1_mns2016_* (repository code, the Makefile's flags)", "FFTW 3 computation and planner", "libstdc++"]
STUB = ["memory requests of repository code and libstdc++ containers (simulated allocator: contents, placement, alignment, failures, borders, quarantine)",
        "creation of FFT plans (may be refused)"]


def gen_op(rng, big=1, fn=None):
    fn = fn or rng.choice(FNS + ("ecdf2", "ecdf2"))
    n = pick_n(rng, big)
    fft = rng.random() < .6
    if n > 320 and (fn == "ecdf2" and not fft or rng.random() < .6):
        n = rng.choice([128, 150, 200])
    b, B = pick_bounds(rng, n, "both" if fn == "ecdf2" else "b" if fn.endswith("_b") else "B")
    return dict(fn=fn, fft=int(fft), b=b, B=B) if fn == "ecdf2" else dict(fn=fn, b=b, B=B)


def tiny_op(rng):
    """small gaps: a probability that is small and depends on them"""
    n = rng.choice([1, 2, 3, 5, 8, 17, 30])
    fn = rng.choice(FNS + ("ecdf2",) * 3)
    b, B = [0.0] * n, [1.0] * n
    i = rng.randrange(n)
    d = 10 ** -rng.uniform(3, 14)
    x = rng.choice([0.0, 0.0, .25, .5])
    if fn == "ecdf2":
        b = [0.0] * i + [x] * (n - i)
        B = [x + d] * (i + 1) + [1.0] * (n - i - 1)
        return dict(fn=fn, fft=int(rng.random() < .5), b=b, B=B)
    if fn.endswith("_b"):
        return dict(fn=fn, b=[0.0] * i + [1 - d] * (n - i), B=[])
    return dict(fn=fn, b=[], B=[d] * (i + 1) + [1.0] * (n - i - 1))


def large_op(rng):
    """several FFT sizes"""
    n = rng.choice([1025, 2048, 2049, 2100, 3073, 4097])
    b, B = pick_bounds(rng, n, "both")
    k = rng.choice([3, 4, 6])
    b = [math.floor(x * k) / k for x in b]
    B = [math.ceil(x * k) / k for x in B]
    if rng.random() < .25 and n < 3000:
        return dict(fn="ecdf1_new_B", b=[], B=B)
    return dict(fn="ecdf2", fft=1, b=b, B=B)


def gen_fft_op(rng):
    """a call large enough to use FFTs, with few distinct locations"""
    fn = rng.choice(["ecdf2", "ecdf2", "ecdf1_new_b", "ecdf1_new_B"])
    n = rng.choice([130, 140, 160, 260])
    b, B = pick_bounds(rng, n, "both" if fn == "ecdf2" else "b" if fn.endswith("_b") else "B")
    k = rng.choice([8, 12])
    if fn == "ecdf2":
        b = [math.floor(x * k) / k for x in b]
        B = [math.ceil(x * k) / k for x in B]
        return dict(fn=fn, fft=1, b=b, B=B)
    return dict(fn=fn, b=[math.floor(x * k) / k for x in b], B=[math.ceil(x * k) / k for x in B])


def pick_plan(rng, p):
    """contents of fresh memory; whether memory is given out again at the same place; whether the caller keeps its arguments in one place"""
    plan = dict(heap=pick_heap(rng)) if rng.random() < p else {}
    if rng.random() < .5:
        plan["reuse"] = "1"
    if rng.random() < .5:
        plan["inplace"] = "1"
    if rng.random() < .1:
        plan["keep"] = "1"
    return plan


def cheap(op):
    return max(len(op["b"]), len(op["B"])) <= 17


def invalid_op(rng, op):
    """arguments that are refused"""
    o = dict(op, b=list(op["b"]), B=list(op["B"]))
    keys = [k for k in "bB" if o[k]]
    v = o[rng.choice(keys)]
    x = rng.random()
    if x < .3 and op["fn"] == "ecdf2":
        if rng.random() < .5:
            v.pop()
        else:
            v.append(1.0)
    elif x < .6 and len(v) > 1:
        v[0], v[-1] = max(.9, v[-1]), .1
        v.sort(reverse=True)
    elif x < .8:
        v[-1] = 1.0 + rng.random()
    else:
        v[rng.randrange(len(v))] = float("nan") if rng.random() < .6 else -0.25
    return o


def vary(rng, op):
    """arguments like others that were used before"""
    o = dict(op, b=list(op["b"]), B=list(op["B"]))
    x = rng.random()
    if x < .15:
        return o
    if x > .7 and op["b" if op["b"] else "B"] and any(0 < v < .002 for v in op["B"]):   # a small gap of another size
        f = 10 ** rng.uniform(-2, 2)
        o["B"] = [min(1.0, v * f) if 0 < v < .002 else v for v in o["B"]]
        o["B"] = [max(o["B"][:i + 1]) for i in range(len(o["B"]))]
        return o
    if x < .2:                                         # the same numbers for the other side
        if op["fn"] == "ecdf2":
            if all(u <= v for u, v in zip(o["b"], o["B"])):
                c = sorted(o["b"] + o["B"])            # the same locations, divided in another way
                o["b"], o["B"] = (c[::2], c[1::2]) if rng.random() < .7 else (c[:len(c) // 2], c[len(c) // 2:])
        else:
            o["fn"] = o["fn"][:-1] + ("B" if o["b"] else "b")
            o["b"], o["B"] = o["B"], o["b"]
        return o
    if x < .45:                                        # one bound moved a little
        v = o[rng.choice([k for k in "bB" if o[k]])]
        i = rng.randrange(len(v))
        lo, hi = (v[i - 1] if i else 0.0), (v[i + 1] if i + 1 < len(v) else 1.0)
        v[i] = rng.choice([lo, hi, (lo + hi) / 2, lo + (hi - lo) * rng.random()])
    elif x < .55:                                      # the same length, other values
        n = max(len(o["b"]), len(o["B"]))
        b, B = pick_bounds(rng, n, "both")
        o["b"], o["B"] = (b if o["b"] else []), (B if o["B"] else [])
    elif x < .65:                                      # one point fewer
        for k in "bB":
            if len(o[k]) > 1:
                o[k].pop(rng.choice([0, -1]))
        if o["b"] and o["B"] and len(o["b"]) != len(o["B"]):
            m = min(len(o["b"]), len(o["B"]))
            o["b"], o["B"] = o["b"][:m], o["B"][:m]
    elif x < .8:                                       # another algorithm
        if o["fn"] == "ecdf2":
            if rng.random() < .5:
                o["fft"] = 1 - o["fft"]
            else:
                k = rng.choice("bB")
                o = dict(fn=rng.choice(["ecdf1_new_", "ecdf1_mns2016_"]) + k, b=o["b"] if k == "b" else [], B=o["B"] if k == "B" else [])
        else:
            k = o["fn"][-1]
            o["fn"] = rng.choice(["ecdf1_new_", "ecdf1_mns2016_"]) + k
    else:                                              # a limit that matters less or more
        v = o["b"] or o["B"]
        j = rng.randrange(1, len(v) + 1)
        if o["b"]:
            o["b"] = [0.0] * j + o["b"][j:]
        else:
            o["B"] = o["B"][:-j] + [1.0] * j
    return o


def twins(rng):
    """two calls whose arguments agree in length, first, last and sum (exactly), and in more with some luck"""
    fn = rng.choice(FNS)
    n = rng.choice([4, 5, 6, 8, 10, 12, 17, 30, 60, 130])
    for _ in range(40):
        b, B = pick_bounds(rng, n, "both" if fn == "ecdf2" else "b" if fn.endswith("_b") else "B")
        b, B = [round(x * 1024) / 1024 for x in b], [round(x * 1024) / 1024 for x in B]
        p = dict(fn=fn, b=b, B=B)
        if fn == "ecdf2":
            p["fft"] = int(rng.random() < .5)
        q = dict(p, b=list(b), B=list(B))
        k = rng.choice([k for k in "bB" if q[k]])
        v = q[k]
        for _ in range(rng.choice([1, 1, 2, 5])):
            i, j = rng.sample(range(1, n - 1), 2)
            d = rng.randint(1, 200) / 1024
            if i < j:
                d = -d
            # i goes up, j goes down
            if v[i] + d <= (v[i + 1] if i + 1 != j else 2) and v[j] - d >= (v[j - 1] if j - 1 != i else -1) and v[i] + d >= v[i - 1] and v[j] - d <= v[j + 1]:
                w = list(v)
                w[i] += d
                w[j] -= d
                if w == sorted(w) and 0 <= w[0] and w[-1] <= 1:
                    v[:] = w
        if v != p[k] and (fn != "ecdf2" or all(x <= y for x, y in zip(q["b"], q["B"]))) and abs(op_exact(p) - op_exact(q)) > 1e-4:
            return [p, q]
    return []


def op_exact(op):
    n = max(len(op["b"]), len(op["B"]))
    return ref.ecdf(n, op["b"], op["B"])


def op_close(op, v, x):
    """equality up to rounding; where no terms cancel, small probabilities must agree too"""
    if op["fn"] == "ecdf2" and (not op.get("fft") or len(op["b"]) <= 40):
        return ref.rel_close(v, x)
    return ref.api_close(v, x)


def is_valid(op):
    for v in (op["b"], op["B"]):
        if any(not (0 <= x <= 1) for x in v) or any(v[i] > v[i + 1] for i in range(len(v) - 1)):
            return False
    return bool(op["b"] or op["B"]) and (op["fn"] != "ecdf2" or len(op["b"]) == len(op["B"]))


def show(op):
    s = f"{op['fn']}(" + ", ".join(("[" + ", ".join("%.6g" % x for x in op[k][:6]) + (f", ... {len(op[k])} numbers" if len(op[k]) > 6 else "") + "]") for k in "bB" if op[k])
    s += f", fft={op['fft']}" if "fft" in op else ""
    s += ")"
    if op.get("alloc"):
        s += f"  memory request(s) {op['alloc']} fail"
    if op.get("fftf"):
        s += f"  FFT plan request(s) {op['fftf']} fail"
    return s


STATUS = {0: "not reached", 1: "returned", 2: "threw bad_alloc", 3: "threw runtime_error", 4: "threw another std::exception", 5: "threw something else"}


def sess_abnormal(r):
    e = ending(r)
    return None if e == "exit0" else e


class SessProp(Prop):
    real, stub = REAL, STUB
    assumptions = ["the reference dynamic programme (sim/ref.cc) is right: cross-checked against exact rational arithmetic for small samples",
                   "FFTW and libstdc++ behave as installed here; memory requests inside shared libraries do not fail"]

    def run(self, env, res, ops, plan=None, quiet=False):
        r = env.sess(dict(ops=ops, plan=plan or {}))
        res.note([ending(r), r["memerr"], r["op"], r["ops"], r["f"]])
        if not quiet:
            for k, v in (plan or {}).items():
                res.trace.append(f"{k} = {v}")
            for i, o in enumerate(ops):
                st, val = r["ops"][i][0], r["ops"][i][1]
                res.trace.append(f"{i}: {show(o)} -> {STATUS[st]}" + (f" {float.fromhex(val)!r}" if st == 1 else f" {r['ops'][i][2]!r}" if st > 1 else ""))
            res.trace.append(f"session: {ending(r)} {r['memerr']}")
        return r

    @staticmethod
    def shrink_ops(ops):
        n = len(ops)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                if len(ops[:i] + ops[i + k:]):
                    yield ops[:i] + ops[i + k:]
            k //= 2
        for i, o in enumerate(ops):
            m = max(len(o["b"]), len(o["B"]))
            for k in (m // 2, m // 4, 1):
                if k >= 1 and m > 1:
                    for j in range(0, m, k):
                        q = dict(o, b=o["b"][:j] + o["b"][j + k:], B=o["B"][:j] + o["B"][j + k:])
                        if (q["b"] or not o["b"]) and (q["B"] or not o["B"]):
                            yield ops[:i] + [q] + ops[i + 1:]
            q = dict(o, b=[round(x, 2) for x in o["b"]], B=[round(x, 2) for x in o["B"]])
            if repr(q) != repr(o):
                yield ops[:i] + [q] + ops[i + 1:]


class C06(SessProp):
    id = "C06"
    counts = {"quick": 8000, "thorough": 120000}
    measure = "function x FFT x what fails (memory, plan) x how many x outcome"
    rule = ("a session: some calls, then groups of four identical calls in which chosen memory or FFT-plan requests fail (first, last, one, window, all from some point on), "
            "then valid and invalid calls; the requests are counted in an undisturbed session first; every 20th case repeats one failing call 70 to 520 times; non-trivial: a failing request was met; distinct: by the whole case")

    def gen(self, rng, index, tier):
        big = 2 if index % 24 == 0 else 1
        mk = lambda: gen_fft_op(rng) if rng.random() < .45 else gen_op(rng, big)
        pre = [mk() if rng.random() < .6 else gen_op(rng, 0) for _ in range(rng.choice([0, 1, 1, 2]))]
        groups = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            op = mk() if rng.random() < .75 or not pre else vary(rng, rng.choice(pre))
            groups.append([op, [rng.choice(["one", "one", "one", "window", "rest", "fft", "fft", "last"]), rng.random(), rng.random()]])
        post = [vary(rng, rng.choice(groups)[0]) if rng.random() < .6 else groups[-1][0] for _ in range(2)] + [mk()]
        if rng.random() < .3:
            post.append(invalid_op(rng, gen_op(rng, 0)))
        plan = pick_plan(rng, .5)
        case = dict(pre=pre, groups=groups, post=post, plan=plan)
        if index % 20 == 3:                            # one failing call, again and again
            op = tiny_op(rng) if rng.random() < .3 else gen_op(rng, 0)
            case["groups"] = [[op, [rng.choice(["one", "one", "rest", "last"]), rng.random(), rng.random()]]]
            case["times"] = rng.choice([70, 140, 300, 520])
        return case

    @staticmethod
    def fault(pick, na, nf):
        k, x, y = pick
        i = min(max(na - 1, 0), int(x * na))
        if k == "fft" and nf:
            j = min(nf - 1, int(x * nf))
            return dict(fftf=str(j) if y < .7 else f"{j}-1000000")
        if k == "window":
            return dict(alloc=f"{i}-{i + 1 + int(y * y * 8)}")
        if k == "rest":
            return dict(alloc=f"{i}-100000000")
        if k == "last":
            return dict(alloc=str(max(0, na - 1 - int(x * 6))))
        return dict(alloc=str(i))

    def shrinks(self, case):
        if len(case["groups"]) > 1:
            for i in range(len(case["groups"])):
                yield dict(case, groups=case["groups"][:i] + case["groups"][i + 1:])
        for k in ("pre", "post"):
            for i in range(len(case[k])):
                yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        if case["plan"]:
            yield dict(case, plan={})
        if case.get("times", 4) > 4:
            for k in (4, case["times"] // 2, case["times"] - 1):
                yield dict(case, times=k)
        for gi, (op, pick) in enumerate(case["groups"]):
            for ops in self.shrink_ops([op]):
                g = list(case["groups"])
                g[gi] = [ops[0], pick]
                yield dict(case, groups=g)
            if pick[0] in ("window", "rest", "last"):
                g = list(case["groups"])
                g[gi] = [op, ["one", pick[1], 0]]
                yield dict(case, groups=g)

    def check(self, env, case):
        res = Result()
        groups = case["groups"]
        plain = case["pre"] + [g[0] for g in groups] + case["post"]
        base = self.run(env, res, plain, case["plan"], quiet=True)
        if sess_abnormal(base) or base["memerr"]:
            res.situations.add("undisturbed session failed")
            return res
        ops, tag = [dict(o) for o in case["pre"]], [("pre", i) for i in range(len(case["pre"]))]
        for gi, (op, pick) in enumerate(groups):
            ob = base["ops"][len(case["pre"]) + gi]
            times = case.get("times", 4)
            ops += [dict(op, **self.fault(pick, ob[3], ob[4]))] * times
            tag += [("group", gi)] * times
        ops += [dict(o) for o in case["post"]]
        tag += [("post", i) for i in range(len(case["post"]))]
        r = self.run(env, res, ops, case["plan"])
        met = r["f"]["alloc_failure"] + r["f"]["fft_plan_failure"]
        res.nontrivial = met > 0
        e = sess_abnormal(r)
        if e:
            where = ops[min(r["op"], len(ops) - 1)]
            if met:
                res.fail("crash", f"the process ended by {e} in or after operation {r['op']}: {show(where)}")
            return res
        if r["memerr"]:
            if met:
                res.fail("memory", f"{r['memerr']} (operation {r['op']}: {show(ops[min(r['op'], len(ops) - 1)])})")
            return res
        prev = None
        steady = {}
        for i, (o, (kind, k)) in enumerate(zip(ops, tag)):
            st, val, what, na, nf, fa, ff, lb, ly, lp = r["ops"][i][:10]
            bi = k if kind == "pre" else len(case["pre"]) + k if kind == "group" else len(case["pre"]) + len(groups) + k
            bst, bval = base["ops"][bi][0], base["ops"][bi][1]
            same = st == bst and (st != 1 or op_close(o, float.fromhex(val), float.fromhex(bval)) or val == bval)
            right = st == 1 and is_valid(o) and op_close(o, float.fromhex(val), op_exact(o))
            if kind == "group":
                res.situations.add("/".join([o["fn"], "fft" if nf or ff else "nofft", "mem" if o.get("alloc") else "plan", str(min(fa + ff, 3)), STATUS[st]]))
            if fa + ff:
                if st == 1 and not (same or right):
                    res.fail("falsified", f"operation {i} returned {float.fromhex(val)!r} although a request failed; undisturbed: {STATUS[bst]} {float.fromhex(bval)!r}: {show(o)}")
            elif met and not (same or right):
                res.fail("later-call", f"operation {i} ({show(o)}) {STATUS[st]} {val if st != 1 else float.fromhex(val)!r}; without the failed calls: {STATUS[bst]} {float.fromhex(bval)!r}")
            if kind == "group" and prev is not None and fa + ff:
                for j, what_ in ((7, "blocks"), (8, "bytes"), (9, "FFT plans")):
                    d = r["ops"][i][j] - r["ops"][i - 1][j] if tag[i - 1] == (kind, k) else 0
                    key = (k, what_)
                    if d > 0:
                        steady[key] = steady.get(key, 0) + 1
                        if steady[key] >= 3:
                            res.fail("left-behind", f"each failing call leaves {d} more {what_}: {show(o)} ({STATUS[st]})")
            prev = i
        return res


class C07(SessProp):
    id = "C07"
    counts = {"quick": 8000, "thorough": 120000}
    measure = "pair of consecutive operations (function, size class, valid or not) and whether the arguments were similar"
    rule = ("a history of 3 to 24 library calls with equal, nearly equal, unrelated and invalid arguments, of all functions and sizes, ending with one call repeated 12 times; "
            "every 40th case: 560 different or equal calls of one size; arguments at addresses used before, memory given out again at once; non-trivial: at least two different calls; distinct: by the whole case")

    def gen(self, rng, index, tier):
        if index % 40 == 7:
            op = gen_fft_op(rng) if rng.random() < .3 else gen_op(rng, 0)
            if rng.random() < .2:
                op = invalid_op(rng, op)
                return dict(mode="many", ops=[op] * 560, plan={})
            ops, o = [], op
            n = max(len(op["b"]), len(op["B"]))
            for i in range(560):
                f = 1 - 1e-4 * (i + 1)
                ops.append(dict(o, b=[x * f for x in o["b"]], B=[1 - (1 - x) * f for x in o["B"]]))
            return dict(mode="many", ops=ops, plan={})
        if index % 40 == 27:
            op = gen_fft_op(rng) if rng.random() < .7 else gen_op(rng, 1)
            return dict(mode="many", ops=[op] * 64, plan={})
        if index % 160 == 31:
            ops = []
            for _ in range(rng.choice([2, 3, 4])):
                ops.append(large_op(rng) if not ops or rng.random() < .6 else vary(rng, rng.choice(ops)) if rng.random() < .7 else gen_fft_op(rng))
            return dict(mode="history", ops=[o for o in ops if not o["fn"].startswith("ecdf1_mns") and (o["fn"] != "ecdf2" or o["fft"] or len(o["b"]) < 1000)], plan={})
        big = 2 if index % 24 == 0 else 1
        pool = []
        ops = twins(rng) if rng.random() < .25 else []
        for _ in range(rng.choice([3, 4, 5, 6, 8, 8, 12, 16, 24])):
            if pool and rng.random() < .6:
                o = vary(rng, rng.choice(pool[-4:]))
            else:
                o = gen_fft_op(rng) if rng.random() < .3 else tiny_op(rng) if rng.random() < .12 else gen_op(rng, big)
            if is_valid(o):
                pool.append(o)
            if rng.random() < .12:
                ops.append(invalid_op(rng, o))
                if rng.random() < .3:
                    continue
            ops.append(o)
        o = rng.choice([o for o in ops if max(len(o["b"]), len(o["B"])) <= 260] or [gen_op(rng, 0)])
        ops += [o] * 12
        return dict(mode="history", ops=ops, plan=pick_plan(rng, .3))

    def shrinks(self, case):
        if case["plan"]:
            yield dict(case, plan={})
        if case["mode"] == "history":
            for ops in self.shrink_ops(case["ops"][:60]):
                yield dict(case, ops=ops)

    def check(self, env, case):
        res = Result()
        ops = case["ops"]
        r = self.run(env, res, ops, case["plan"], quiet=case["mode"] == "many")
        res.nontrivial = len({repr(o) for o in ops}) > 1
        e = sess_abnormal(r)
        if e or r["memerr"]:
            i = min(r["op"], len(ops) - 1)
            alone = self.run(env, res, [ops[i]], quiet=True)
            if not sess_abnormal(alone) and not alone["memerr"]:
                res.fail("crash", f"{e or r['memerr']} in operation {i} of the history; alone it ends normally: {show(ops[i])}")
            else:
                res.situations.add("fails alone too")
            return res
        size = lambda o: min(3, (max(len(o["b"]), len(o["B"]))) // 60)
        for i, o in enumerate(ops):
            st, val, what, na, nf, fa, ff, lb, ly, lp = r["ops"][i][:10]
            if case["mode"] == "history" and i:
                p = ops[i - 1]
                res.situations.add("/".join([p["fn"], str(size(p)), "v" if is_valid(p) else "i", o["fn"], str(size(o)), "v" if is_valid(o) else "i", "near" if len(p["b"]) == len(o["b"]) and len(p["B"]) == len(o["B"]) else "far"]))
            if case["mode"] == "many" and i % 40 and i < len(ops) - 5:
                continue
            if i and ops[i - 1] == o and r["ops"][i - 1][:3] == r["ops"][i][:3]:
                continue
            if is_valid(o):
                x = op_exact(o)
                if st == 1 and op_close(o, float.fromhex(val), x):
                    continue
            alone = self.run(env, res, [o], quiet=True)
            ast, aval, awhat = alone["ops"][0][:3]
            if sess_abnormal(alone) or alone["memerr"]:
                continue
            if st == ast > 1 and what != awhat:
                res.fail("history", f"operation {i} ({show(o)}): {STATUS[st]} {what!r} after the history, {awhat!r} in a fresh process")
            if ast != st or (st == 1 and val != aval and not op_close(o, float.fromhex(val), float.fromhex(aval))):
                res.fail("history", f"operation {i} ({show(o)}): {STATUS[st]} {float.fromhex(val)!r} after the history, {STATUS[ast]} {float.fromhex(aval)!r} in a fresh process")
        # accumulation: growth over repeated calls, steady or in ever rarer steps
        N = len(ops)
        if case["mode"] == "many":
            for j, what_ in ((7, "blocks"), (8, "bytes"), (9, "FFT plans")):
                a, b, c = (r["ops"][i][j] for i in (N // 8, N // 2 - 1, N - 1))
                if a < b < c:
                    res.fail("accumulates", f"after {N // 8 + 1}, {N // 2} and {N} calls there are {a}, {b} and {c} {what_}; last call: {show(ops[-1])}")
        tail = min(150, N // 2) if case["mode"] == "many" else 8
        if len(ops) > tail + 3 and (case["mode"] == "many" or all(ops[-k] == ops[-1] for k in range(1, tail + 2))):
            for j, what_ in ((7, "blocks"), (8, "bytes"), (9, "FFT plans")):
                d = [r["ops"][i][j] - r["ops"][i - 1][j] for i in range(len(ops) - tail, len(ops))]
                if sum(x > 0 for x in d) >= .9 * tail and sum(d) > 0:
                    res.fail("accumulates", f"each of the last {tail} calls left about {sum(d) / tail:.1f} more {what_}; last: {show(ops[-1])}")
        res.extra["calls"] = len(ops)
        return res


class C08(SessProp):
    id = "C08"
    kinds = ("main", "ref")
    counts = {"quick": 9000, "thorough": 150000}
    measure = "function or command x size class x pair of memory contents"
    rule = ("a session of 1 to 6 library calls, or a run of crossprob, executed in three worlds (one with all-zero memory) that differ in the contents, placement and alignment of memory and the "
            "contents and position of the stack; non-trivial: memory was requested; distinct: by the whole case")
    assumptions = SessProp.assumptions

    def gen(self, rng, index, tier):
        worlds = [dict(heap="0:0", stack="0:0:0")] + [dict(heap=f"{rng.getrandbits(40)}:{m}", stack=pick_stack(rng)) for m in rng.sample([1, 2, 3, 4, 5], 2)]
        if rng.random() < .5:
            worlds[0]["keep"] = "1"                    # released memory keeps its contents
        if rng.random() < .3:
            rng.choice(worlds[1:])["guard"] = rng.choice("12")
        for w in worlds:
            if rng.random() < .4:
                w["reuse"] = "1"
            if index % 4 != 3 and rng.random() < .4:
                w["inplace"] = "1"
        if index % 4 == 3:
            p = gen_problem(rng, 3 if index % 512 == 3 else 2 if index % 64 == 3 else 1, "crossprob")
            for w in worlds:
                w["outbuf"] = str(rng.choice([0, 1, 2]))
                if index % 512 == 3:
                    w["cpu"] = "100"
            return dict(mode="prog", p=p, worlds=worlds, env=[["X%d=%s" % (i, "y" * rng.randint(0, 400)) for i in range(rng.randint(0, 4))] for _ in worlds])
        big = 2 if index % 24 == 0 else 1
        ops = [gen_fft_op(rng) if rng.random() < .35 else gen_op(rng, big) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        for i in range(1, len(ops)):
            if rng.random() < .4:
                ops[i] = vary(rng, ops[i - 1])
        return dict(mode="sess", ops=ops, worlds=worlds, stacks=[0] + [rng.getrandbits(40) for _ in worlds[1:]])

    def shrinks(self, case):
        if len(case["worlds"]) > 1:
            for i in range(len(case["worlds"])):
                q = dict(case, worlds=case["worlds"][:i] + case["worlds"][i + 1:])
                for k in ("env", "stacks"):
                    if k in case:
                        q[k] = case[k][:i] + case[k][i + 1:]
                yield q
        for i, w in enumerate(case["worlds"]):
            for k in list(w):
                yield dict(case, worlds=case["worlds"][:i] + [{a: b for a, b in w.items() if a != k}] + case["worlds"][i + 1:])
        if case["mode"] == "sess":
            for ops in self.shrink_ops(case["ops"]):
                yield dict(case, ops=ops)
            if any(case["stacks"]):
                yield dict(case, stacks=[0] * len(case["stacks"]))
        else:
            for t in shrink_text(case["p"]["text"]):
                yield dict(case, p=dict(case["p"], text=t))

    def check(self, env, case):
        res = Result()
        first, endings = None, []
        worlds, envs = list(case["worlds"]), list(case.get("env", ()))
        for k, w in enumerate(worlds):
            if case["mode"] == "sess":
                r = self.run(env, res, [dict(o, stack=case["stacks"][k]) for o in case["ops"]], w)
                ends, vals = ending(r), [(o[0], float.fromhex(o[1])) for o in r["ops"]]
                exacts = [op_exact(o) if is_valid(o) else None for o in case["ops"]]
                close = lambda i, v, x: op_close(case["ops"][i], v, x)
                res.nontrivial |= any(o[3] for o in r["ops"])
                for o in case["ops"]:
                    res.situations.add(f"{o['fn']}/{o.get('fft', 0)}/{min(3, max(len(o['b']), len(o['B'])) // 60)}/{w.get('heap', ':-').split(':')[1]}")
                names = [show(o) for o in case["ops"]]
            else:
                run = to_run(case["p"], w, env=envs[k])
                r = env.prog(run)
                if r["getenv"] and len(worlds) == len(case["worlds"]):   # the variables that the program asks for
                    worlds += [case["worlds"][0]] * 2
                    envs += [[f"{x}={v}" for x in r["getenv"]] for v in ("12345", "3")]
                res.note(obs(r))
                res.trace += describe(run) + [f"  -> {ending(r)} {r['out']!r} {r['memerr']}"]
                a = answer(r["out"])
                ends, vals = ending(r), [(1, a if a is not None else float("nan"))]
                exacts = [exact(case["p"])]
                close = lambda i, v, x: ref.cli_close(v, x)
                res.nontrivial |= r["n"]["alloc"] > 0
                res.situations.add(f"{case['p']['cmd']}/{min(3, max(len(case['p']['text']['b']), len(case['p']['text']['B'])) // 60)}/{w.get('heap', ':-').split(':')[1]}")
                names = [case["p"]["cmd"]]
            if r["memerr"]:
                res.fail("memory", f"world {k}: {r['memerr']} (operation {r['op'] if 'op' in r else '-'})")
            endings.append(ends)
            if ends != "exit0":
                if ends == "signal11":
                    res.fail("crash", f"world {k}: {ends} {names[r['op']] if case['mode'] == 'sess' and r['op'] < len(names) else ''}")
                continue
            if first is None:
                first = vals
            else:
                for i, ((s0, v0), (s1, v1)) in enumerate(zip(first, vals)):
                    if s0 != s1 or (v0 == v0) != (v1 == v1) or (v0 == v0 and not close(i, v1, v0)):
                        res.fail("depends-on-memory", f"world 0: {STATUS[s0]} {v0!r}; world {k}: {STATUS[s1]} {v1!r}: {names[i]} (exact {exacts[i]!r})")
        if len(set(endings)) > 1:
            res.fail("crash", f"the worlds end differently: {endings} ({names[0]})")
        return res
