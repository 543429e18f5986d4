"""C24: the same library calls in processes whose settings differ in everything but the arguments."""
from ..core import Result
from ..work import *
from .lib import SessProp, gen_op, gen_fft_op, tiny_op, invalid_op, vary, show, op_close, STATUS
from .world import GERMAN, pick_env, pick_word

CONTAINERS = ["list", "list", "tuple", "seq", "array", "deque", "vector"]
FILES = ["", "1\n", "0.25\n", "3\n1\n"]


def same(op, x, y):
    return x == y or x != x and y != y or op_close(op, x, y)


class C24(SessProp):
    id = "C24"
    kinds = ("main", "py", "ref")
    counts = {"quick": 16000, "thorough": 150000}
    measure = "interface x function x FFT x outcome x the moment of the call, and the world's number modulo 64"
    rule = ("1 to 4 library calls (every sixth case: calls of the Python module), valid and refused, made in a plain process and again in processes that differ in locale (also the thread's own and C++'s), environment, "
            "signal handlers, masks, timers and limits, descriptors, stream formatting and stream errors, generators' states, FFTW's time limit and wisdom, errno and floating-point flags left by others, clock, process and machine identity, "
            "entropy, memory contents and placement, addresses, where the arguments lie, and the moment (plainly, while an exception is handled or unwinding, in another thread); the environment variables and files that a call asks for are then supplied, too; "
            "non-trivial: a call was made; distinct: by the whole case")
    real = ["the library's functions (repository code, the Makefile's flags)", "the extension module in CPython 3.12", "FFTW 3", "libstdc++, libc and its locales"]
    stub = ["memory of repository code (simulated allocator: contents, placement)", "clock, process and machine identity, entropy, environment variables and files that a call asks for"]
    assumptions = ["results are compared up to rounding; floating-point modes (rounding, flush-to-zero, x87 precision) may change digits and are the same in all worlds; FFTW's wisdom is forgotten or kept, not taught"]

    def gen(self, rng, index, tier):
        ops, pool = [], []
        for _ in range(rng.choice([1, 1, 2, 4])):
            o = vary(rng, rng.choice(pool)) if pool and rng.random() < .3 else gen_fft_op(rng) if rng.random() < .2 else tiny_op(rng) if rng.random() < .2 else gen_op(rng, 2 if index % 90 == 0 else 1 if rng.random() < .3 else 0)
            pool.append(o)
            ops.append(invalid_op(rng, o) if rng.random() < .3 else o)
        worlds = []
        for k in range(2):
            w = dict(world=rng.randrange(2, 1 << 30), env=pick_env(rng))
            w["env"] = w["env"] if GERMAN[0] in w["env"] else [GERMAN[0]] + w["env"]
            if rng.random() < .3:
                w["env"] = w["env"] + [pick_word(rng) + "=" + rng.choice(["1", "0", "", "x"])]
            if index % 6 == 5:
                w["moment"] = rng.choice(["", "", "except", "thread", "generator"])
                w["containers"] = [rng.choice(CONTAINERS) for _ in range(2)]
            else:
                w["moment"] = rng.choice([0, 0, 1, 2, 3])
                w["plan"] = dict(clock=clock_plan(rng, pick_clock(rng)), heap=pick_heap(rng), stack=pick_stack(rng), entropy=str(rng.getrandbits(60)), pid=str(rng.randint(2, 4000000)))
                for key in ("reuse", "inplace"):
                    if rng.random() < .4:
                        w["plan"][key] = "1"
                if rng.random() < .25:
                    w["elsewhere"] = 1
            worlds.append(w)
        case = dict(ops=ops, worlds=worlds, values=["12345", "3", "", pick_word(rng)], others=FILES)
        if index % 6 == 5:
            case["py"] = 1
        return case

    def shrinks(self, case):
        if len(case["worlds"]) > 1:
            for i in range(len(case["worlds"])):
                yield dict(case, worlds=case["worlds"][:i] + case["worlds"][i + 1:])
        for ops in self.shrink_ops(case["ops"]):
            yield dict(case, ops=ops)
        for i, w in enumerate(case["worlds"]):
            for q in [dict(w, env=w["env"][:j] + w["env"][j + 1:]) for j in range(len(w["env"]))] + [dict(w, plan={a: b for a, b in w["plan"].items() if a != k}) for k in w.get("plan", ())] + \
                    [{a: b for a, b in w.items() if a != k} for k in ("elsewhere", "containers") if k in w] + ([dict(w, moment=type(w["moment"])())] if w["moment"] else []) + \
                    ([dict(w, world=1)] if w["world"] > 1 else []):
                yield dict(case, worlds=case["worlds"][:i] + [q] + case["worlds"][i + 1:])
        for k in ("values", "others"):
            for v in case[k]:
                yield dict(case, **{k: [x for x in case[k] if x != v]})

    def check(self, env, case):
        res = Result()
        ops, seen, asked, files = case["ops"], [], set(), set()
        one = self.python if "py" in case else self.session

        def run(w, what, extra=()):
            for k, on in [("other_settings", w.get("world", 0) > 1), ("other_environment", bool(w.get("env"))), ("other_moment", bool(w.get("moment"))), ("other_addresses", "elsewhere" in w), ("other_files", bool(extra))]:
                env.faults[k] = env.faults.get(k, 0) + on
            out, want, names = one(env, case, res, dict(w, files=list(extra)))
            asked.update(want)
            files.update(names)
            seen.append((what, out))
            res.situations.add("world%d" % (w.get("world", 0) % 64))
            res.extra["calls"] = res.extra.get("calls", 0) + len(ops)
            for o, x in zip(ops, out):
                res.nontrivial = True
                res.situations.add("/".join(["python" if "py" in case else "C++", o["fn"], str(o.get("fft", 0)), x[0], str(w.get("moment", 0))]))

        run({}, "a plain process")
        for i, w in enumerate(case["worlds"]):
            run(w, f"world {i} ({', '.join(w['env'])[:200]}; moment {w['moment']})")
        for v in case["values"] if asked else ():
            run(dict(env=[f"{k}={v}" for k in sorted(asked)]), f"with {sorted(asked)} set to {v!r}")
        for v in case["others"] if files else ():
            run({}, f"with other files {sorted(files)[:4]} that hold {v!r}", [[f, v] for f in sorted(files)[:4]])
        first = seen[0][1]
        for what, out in seen[1:]:
            for i, (o, x, y) in enumerate(zip(ops, first, out)):
                if x[0] != y[0] or x[0] == "returned" and not same(o, x[1], y[1]):
                    res.fail("depends-on-world", f"call {i}, {show(o)}: in a plain process: {x[0]} {x[1]!r}; in {what}: {y[0]} {y[1]!r}")
        return res

    def session(self, env, case, res, w):
        plan = dict(w.get("plan", {}), world=str(max(1, w.get("world", 1))), moment=str(w.get("moment", 0)))
        r = env.sess(dict(ops=case["ops"], plan=plan, env=w.get("env", []), elsewhere=w.get("elsewhere"), files=w["files"]))
        e = ending(r)
        out = []
        for i, x in enumerate(r["ops"]):
            dead = e != "exit0" and i >= r["op"] and x[0] == 0
            out.append((e, r["memerr"]) if dead else (STATUS[x[0]], float.fromhex(x[1]) if x[0] == 1 else x[2]))
        res.note(e, out)
        res.trace += [f"{w}"] + [f"  {i}: {show(o)} -> {x[0]} {x[1]!r}" for i, (o, x) in enumerate(zip(case["ops"], out))]
        return out, r["getenv"], r["asked"]

    def python(self, env, case, res, w):
        args, seq = [], []
        for o in case["ops"]:
            q = dict(fn=o["fn"], args=[])
            for k in "bB":
                if o["fn"] == "ecdf2" or o["fn"].endswith("_" + k):
                    args.append(dict(type=w.get("containers", ["list", "list"])["bB".index(k)], vals=[["nan", 0] if x != x else x for x in o[k]]))
                    q["args"].append(len(args) - 1)
            if o["fn"] == "ecdf2":
                q["extra"] = [bool(o["fft"])]
            seq.append(q)
        r = env.py(dict(args=args, threads=[seq], world=dict(state=w.get("world", 0), env=[x.replace("@BUILD@", env.dirs["main"]) for x in w.get("env", [])], moment=w.get("moment", ""))))
        ans = r["ans"]
        if not ans:
            out = [("the interpreter ended", [r["exit"], r["sig"], r["hang"]])] * len(seq)
        else:
            out = [("returned", float.fromhex(x["value"])) if x["isfloat"] else (x["status"] + " " + x["what"].split(":")[0], x["what"]) for x in ans["out"][0]]
        res.note(out)
        res.trace += [f"{w}"] + [f"  {i}: python {show(o)} -> {x[0]} {x[1]!r}" for i, (o, x) in enumerate(zip(case["ops"], out))]
        return out, ans.get("asked", []), []
