"""C09: concurrent library calls under a scheduler that decides every interleaving."""
from ..core import Prop, Result
from ..work import *
from .. import ref
from .lib import gen_op, gen_fft_op, vary, invalid_op, is_valid, op_exact, show, STATUS


def explicit(sw):
    return "list:" + sw


class C09(Prop):
    id = "C09"
    kinds = ("thr", "ref")
    counts = {"quick": 2600, "thorough": 40000}
    recheck = 25
    measure = "number of threads x functions running together x faults x locks contended x strategy"
    rule = ("2 to 4 threads with 1 to 3 library calls each, on own or shared arguments, some with failing memory or FFT-plan requests, each executed serially and under 5 seeded schedules "
            "(random switches at several rates, PCT with 1 to 5 change points) that may switch at every access to memory reachable by another thread, every lock operation, "
            "planner call and call of a C or C++ library function; one case in eight lets calls that are refused run together; non-trivial: at least one preemption happened; distinct: by the whole case; distinct interleavings: by the sequence of threads over all scheduling points")
    real = ["the library's functions (repository code, the Makefile's flags plus -fsanitize=thread instrumentation)", "real threads, thread-local storage and exceptions", "FFTW 3 computation and planner (each call atomic)"]
    stub = ["the sanitizer's runtime (replaced by scheduling points)", "mutexes, read-write locks, condition variables, once and static-initialisation guards (modelled, with deadlock detection)",
            "memory requests (simulated allocator)", "the FFTW planner's thread-safety contract (exclusive use is checked)"]
    assumptions = ["interleavings are sequentially consistent and atomic between instrumented accesses; weak-memory effects are outside the model",
                   "code inside shared libraries (FFTW, libstdc++, libm) is not interleaved; FFTW's planner is represented by its documented contract, executing plans is thread-safe",
                   "the reference dynamic programme (sim/ref.cc) is right: cross-checked against exact rational arithmetic for small samples"]

    def gen(self, rng, index, tier):
        kind = rng.choice(["small"] * 6 + ["fft"] * 6 + ["mixed"] * 3 + ["reject"] * 2)
        args, ops = [], []
        nargs = rng.choice([1, 2, 2, 3])
        base = []
        for _ in range(nargs):
            if base and rng.random() < .35:
                o = vary(rng, rng.choice(base))
            else:
                o = gen_fft_op(rng) if kind == "fft" or kind == "mixed" and rng.random() < .5 else gen_op(rng, 0 if kind in ("small", "reject") else 1)
            if max(len(o["b"]), len(o["B"])) > 260:
                o = gen_fft_op(rng)
            base.append(o)
        nt = rng.choice([2, 2, 2, 3, 4])
        threads = []
        for t in range(nt):
            seq = []
            for _ in range(rng.choice([1, 1, 2, 3]) if kind in ("small", "reject") else rng.choice([1, 1, 2])):
                o = rng.choice(base)
                if rng.random() < (.85 if kind == "reject" else .1):
                    o = invalid_op(rng, o)
                elif rng.random() < .25:
                    o = vary(rng, o)
                a = dict(b=o["b"], B=o["B"])
                if a not in args:
                    args.append(a)
                q = dict(fn=o["fn"], arg=args.index(a))
                if "fft" in o:
                    q["fft"] = o["fft"]
                if rng.random() < .12:
                    q["fault"] = [rng.choice(["one", "one", "rest", "fft", "fft"]), rng.random()]
                seq.append(q)
            threads.append(seq)
        scheds = []
        for _ in range(5):
            if rng.random() < .5:
                scheds.append(["random", rng.getrandbits(32), rng.choice([2, 8, 30, 100, 400, 1500])])
            else:
                scheds.append(["pct", rng.getrandbits(32), rng.choice([1, 2, 2, 3, 5])])
        return dict(args=args, threads=threads, scheds=scheds, heap=rng.getrandbits(30))

    def shrinks(self, case):
        if len(case["scheds"]) > 1:
            for s in case["scheds"]:
                yield dict(case, scheds=[s])
        elif case["scheds"][0][0] == "list":
            v = [x for x in case["scheds"][0][1].split(",") if x]
            n = len(v)
            k = n // 2
            while k >= 1:
                for i in range(0, n, k):
                    yield dict(case, scheds=[["list", ",".join(v[:i] + v[i + k:])]])
                k //= 2
                if n > 200 and k < n // 32:
                    break
        for t in range(len(case["threads"])):
            if len(case["threads"][t]) > 1:
                for i in range(len(case["threads"][t])):
                    yield dict(case, threads=case["threads"][:t] + [case["threads"][t][:i] + case["threads"][t][i + 1:]] + case["threads"][t + 1:])
        if len(case["threads"]) > 2:
            for t in range(len(case["threads"])):
                yield dict(case, threads=case["threads"][:t] + case["threads"][t + 1:])

    def check(self, env, case):
        res = Result()
        A = case["args"]
        full = lambda o: dict(o, b=A[o["arg"]]["b"], B=A[o["arg"]]["B"])
        # each call alone
        alone = {}
        def run_alone(o):
            key = repr((o["fn"], o.get("fft", 0), o["arg"]))
            if key not in alone:
                r = env.threads(dict(args=A, threads=[[dict(fn=o["fn"], fft=o.get("fft", 0), arg=o["arg"])]], sched="serial", heap=case["heap"]))
                alone[key] = r if r["done"] and not r["sig"] and not r["memerr"] else None
                res.note(r["ops"])
            return alone[key]
        K = 10
        threads = []
        for seq in case["threads"]:
            out = []
            for o in seq:
                r = run_alone(o)
                if r is None:               # broken alone: another property's business
                    res.situations.add("fails alone")
                    return res
                K += r["n"]["points"]
                st, val, what, na, nf, fa, ff = r["ops"][0][0]
                q = {k: v for k, v in o.items() if k != "fault"}
                if "fault" in o:
                    kind, x = o["fault"]
                    i = int(x * max(1, na))
                    if kind == "fft" and nf:
                        q["fftf"] = str(int(x * nf))
                    else:
                        q["alloc"] = f"{i}-100000000" if kind == "rest" else str(i)
                out.append(q)
            threads.append(out)
        orders = []
        for s in case["scheds"]:
            if s[0] == "list":
                sched = explicit(s[1])
            elif s[0] == "random":
                sched = f"random:{s[1]}:{min(.5, s[2] / max(K, 1))}"
            else:
                sched = f"pct:{s[1]}:{s[2]}:{K}"
            r = env.threads(dict(args=A, threads=threads, sched=sched, heap=case["heap"]))
            res.note(r["sig"], r["exit"], r["how"], r["ops"], r["order"], r["n"], r["memerr"], r["planner"], r["stuck"])
            orders.append(r["order"])
            res.nontrivial |= r["n"]["switches"] > 0
            res.extra["scheduling_points"] = res.extra.get("scheduling_points", 0) + r["n"]["points"]
            res.extra["lock_waits"] = res.extra.get("lock_waits", 0) + r["n"]["lockwaits"]
            res.extra["planner_calls"] = res.extra.get("planner_calls", 0) + r["n"]["plancalls"]
            res.extra["shared_blocks"] = res.extra.get("shared_blocks", 0) + r["n"]["shared_blocks"]
            fns = "+".join(sorted({o["fn"] + ("F" if o.get("fft") else "") for q in threads for o in q}))
            res.situations.add(f"{len(threads)}/{fns}/{'mem' if r['f']['alloc_failure'] else ''}{'plan' if r['f']['fft_plan_failure'] else ''}/{'contended' if r['n']['lockwaits'] else ''}/{s[0]}")
            before = res.violation
            self.judge(res, case, threads, r, full, run_alone)
            if res.violation and not before:
                res.trace += self.describe(threads, r, full, sched)
                if s[0] != "list" and r["nsw"] <= 30000:
                    res.witness = dict(case, scheds=[["list", r["sw"]]])
        res.distinct["interleavings"] = orders
        return res

    def judge(self, res, case, threads, r, full, run_alone):
        if r["sig"]:
            res.fail("crash", f"the process ended by signal {r['sig']} under an interleaving; every call alone ends normally")
        elif r["hang"]:
            res.fail("hang", "the interleaving never ended")
        elif r["how"] == 1:
            res.fail("deadlock", r["stuck"])
        elif r["how"] == 2:
            res.fail("no-progress", f"no end after {r['n']['points']} scheduling points")
        elif not r["done"]:
            res.fail("crash", f"the process ended with status {r['exit']} in the middle of a call")
        if r["memerr"]:
            res.fail("memory", r["memerr"])
        if r["planner"]:
            res.fail("planner", "FFTW's planner is not thread-safe: " + r["planner"])
        if r["args_changed"]:
            res.fail("arguments", "a call changed its read-only arguments")
        if res.violation:
            return
        for t, seq in enumerate(threads):
            for i, o in enumerate(seq):
                st, val, what, na, nf, fa, ff = r["ops"][t][i]
                a = run_alone(o)["ops"][0][0]
                same = st == a[0] and what == a[2] and (st != 1 or val == a[1] or ref.api_close(float.fromhex(val), float.fromhex(a[1])))
                if same or (fa + ff and st > 1):
                    continue
                f = full(o)
                if st == 1 and is_valid(f) and ref.api_close(float.fromhex(val), op_exact(f)):
                    continue
                res.fail("wrong", f"thread {t}, call {i}: {show(f)} {STATUS[st]} {float.fromhex(val)!r} {what!r}; alone: {STATUS[a[0]]} {float.fromhex(a[1])!r} {a[2]!r}")

    def describe(self, threads, r, full, sched):
        out = []
        for t, seq in enumerate(threads):
            for i, o in enumerate(seq):
                st, val, what = r["ops"][t][i][:3]
                out.append(f"thread {t}: {show(full(o))} -> {STATUS[st]}" + (f" {float.fromhex(val)!r}" if st == 1 else f" {what!r}" if st > 1 else ""))
        out.append(f"schedule {sched[:300]}")
        sw = r["sw"].split(",")
        out.append(f"{len(sw)} switches (point@thread): {','.join(sw[:40])}{'...' if len(sw) > 40 else ''}")
        if r["stuck"]:
            out.append(r["stuck"])
        return out
