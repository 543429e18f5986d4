"""C21: what a process shares is the same after a library call as before it."""
from ..core import Result
from ..work import *
from .lib import SessProp, C06, gen_op, gen_fft_op, tiny_op, invalid_op, vary, show, sess_abnormal, STATUS
from .py import C15


class C21(SessProp):
    id = "C21"
    kinds = ("main", "py", "ref")
    counts = {"quick": 9000, "thorough": 150000}
    measure = "interface x function x FFT x what failed x outcome, and the world's number modulo 64"
    rule = ("a session of 1 to 8 library calls (or calls of the Python module, every sixth case), valid and refused, with chosen memory and FFT-plan requests failing, in a process whose shared state was given "
            "unusual values first (rounding mode, flush-to-zero, x87 precision, signal handlers, masks and stack, timers, umask, locale, environment, stream formatting, generators' states, FFTW wisdom, limits, name); "
            "the whole state is written down before the first call and after each; non-trivial: a call was made; distinct: by the whole case")
    real = ["the library's functions (repository code, the Makefile's flags)", "the extension module in CPython 3.12", "FFTW 3", "libstdc++, libc", "the kernel's account of the process (signals, descriptors, timers, limits, threads, names)"]
    stub = ["memory requests of repository code (simulated allocator, failures)", "creation of FFT plans (may be refused)", "standard output and error are captured"]
    assumptions = ["what is written down (sim/state.cc, sim/pyhost.py:interpreter) is the shared state that matters; floating-point exception flags and errno are not part of it"]

    def gen(self, rng, index, tier):
        world = 0 if rng.random() < .4 else rng.randrange(1, 1 << 30)
        if index % 6 == 5:
            while True:
                case = C15().gen(rng, 0, tier)
                if len(case["threads"]) == 1:
                    break
            case.pop("loop", None)
            return dict(py=case, world=world if rng.random() < .4 else 0)
        ops, pool = [], []
        for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
            o = vary(rng, rng.choice(pool)) if pool and rng.random() < .4 else gen_fft_op(rng) if rng.random() < .25 else tiny_op(rng) if rng.random() < .15 else gen_op(rng, 2 if index % 60 == 0 else 1 if rng.random() < .3 else 0)
            pool.append(o)
            if rng.random() < .35:
                o = invalid_op(rng, o)
                if rng.random() < .15:
                    o = dict(o, b=[] if o["b"] and rng.random() < .5 else o["b"], B=[] if rng.random() < .5 else o["B"])
            if rng.random() < .4:
                o = dict(o, pick=[rng.choice(["one", "one", "window", "rest", "fft", "fft", "last"]), rng.random(), rng.random()])
            ops.append(o)
        return dict(ops=ops, world=world)

    def shrinks(self, case):
        if case["world"]:
            yield dict(case, world=0)
        if "py" in case:
            for c in C15().shrinks(case["py"]):
                yield dict(case, py=c)
            return
        for ops in self.shrink_ops(case["ops"]):
            yield dict(case, ops=ops)
        for i, o in enumerate(case["ops"]):
            if "pick" in o:
                yield dict(case, ops=case["ops"][:i] + [{k: v for k, v in o.items() if k != "pick"}] + case["ops"][i + 1:])

    def check(self, env, case):
        res = Result()
        if "py" in case:
            return self.python(env, case, res)
        plan = dict(watch=str(case["world"] + 1))
        ops = [{k: v for k, v in o.items() if k != "pick"} for o in case["ops"]]
        runs = [ops]
        if any("pick" in o for o in case["ops"]):
            r = self.look(env, case, res, ops, plan)
            if r is None:
                return res
            runs.append([dict(o, **(C06.fault(q["pick"], x[3], x[4]) if "pick" in q else {})) for o, q, x in zip(ops, case["ops"], r["ops"])])
        self.look(env, case, res, runs[-1], plan)
        return res

    def look(self, env, case, res, ops, plan):
        if res.violation:
            return None
        r = self.run(env, res, ops, plan)
        res.note(r["state"])
        res.situations.add("world%d" % (case["world"] % 64))
        res.extra["calls"] = res.extra.get("calls", 0) + len(ops)
        for o, x in zip(ops, r["ops"]):
            if x[0]:
                res.nontrivial = True
                res.situations.add("/".join([o["fn"], str(o.get("fft", 0)), "mem" * (x[5] > 0) + "plan" * (x[6] > 0), STATUS[x[0]]]))
        i, changed = r["state"]
        if changed:
            res.fail("changed", f"operation {i} ({show(ops[i])}: {STATUS[r['ops'][i][0]]} {r['ops'][i][2]}): {changed}")
        e = sess_abnormal(r)
        if e and not case["world"] and e.startswith("exit"):
            res.fail("ended", f"the process was ended ({e}) by operation {r['op']}: {show(ops[min(r['op'], len(ops) - 1)])}")
        return None if e or r["memerr"] else r

    def python(self, env, case, res):
        p, c = C15(), case["py"]
        threads, r = p.resolve(env, c)
        if r is not None:
            return res
        r = env.py(dict(args=c["args"], threads=threads, watch=case["world"]))
        res.note(r)
        ans = r["ans"]
        if not ans:
            res.situations.add("python session failed")
            if r["exit"] > 0 and not r["sig"] and not r["hang"] and not case["world"]:
                res.fail("ended", f"the interpreter was ended with status {r['exit']}: " + "; ".join(p.show(o, c["args"]) for o in threads[0])[:300])
            return res
        if ans["imported"]:
            res.nontrivial = True
            res.fail("changed", f"importing the module: {ans['imported']}")
        res.extra["calls"] = len(ans["out"][0])
        for i, x in enumerate(ans["out"][0]):
            s = f"{p.show(x['op'], c['args'])}: {x['status']} {x['what']}"
            res.trace.append(s)
            res.nontrivial = True
            res.situations.add("/".join(["python", x["op"]["fn"], "mem" * bool(x["fired"][0]) + "plan" * bool(x["fired"][1]) + "py" * bool(x["fired"][2]), x["status"]]))
            if x["state"]:
                res.fail("changed", f"call {i} ({s}): {x['state']}")
        for k, j in (("memory_failure", 0), ("fft_plan_failure", 1), ("interpreter_memory_failure", 2)):
            env.faults[k] = env.faults.get(k, 0) + sum(x["fired"][j] for x in ans["out"][0])
        return res
