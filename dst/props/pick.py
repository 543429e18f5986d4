"""C27: results that the benchmarks save and load by name, over histories of processes, failing storage and crashes."""
from ..core import Prop, Result
from ..work import *

NAMES = ["r", "results", "runtimes_n=1000", "a b", "x.pickle", "res\u00fclt", "A" * 60, "-1", "%s", "ecdf1_new2017_n=1000_timing"]
MET = ("fail", "short", "eintr", "crash")


class C27(Prop):
    id = "C27"
    kinds = ("store",)
    counts = {"quick": 3000, "thorough": 40000}
    measure = "operation x kind of storage failure x outcome x what was stored under the name before"
    rule = ("a history of 2 to 5 processes, each a few calls of the benchmarks' dump and load with random nested values under 1 to 3 names; open, write, close, directory and read requests fail, are cut short or interrupted, "
            "and processes end in the middle of any storage request, with what was written until then; a last process loads everything; non-trivial: a failure or crash was met; distinct: by the whole case")
    real = ["benchmarks/pickler.py (repository code) in CPython 3.12", "Python's gzip, pickle and io", "the kernel's file system below the scripted requests"]
    stub = ["results of open, read, write, close, mkdir, rename, sync below the benchmarks' directory", "the clock", "process ends"]
    assumptions = ["what a process wrote before it ended is kept in the order written (no power failure)", "one process at a time uses a name"]

    @staticmethod
    def trouble(rng, op):
        def what(kind):
            x = rng.random()
            if kind in "wr" and x < .2:
                return "+%d" % rng.choice([1, 2, 10, 500, 4096])
            if kind in "wr" and x < .3:
                return "-%d" % EINTR
            if x < .6 and op == "dump" or x < .4:
                return "!%d" % (rng.choice([0, 1, 3, 10, 100, 1000, 8000]) if kind == "w" else 0)
            return "-%d" % rng.choice([EIO, ENOSPC, ENOSPC, EDQUOT, EACCES, EFBIG] if op == "dump" else [EIO, EIO, EACCES, ESTALE])
        out = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            kind = rng.choice("wwwwwwocmns" if op == "dump" else "orrrc")
            at = rng.choice([0, 0, 0, 1, 1, 2, 3, 6, 12]) if kind in "wr" else rng.choice([0, 0, 0, 1])
            w = what(kind)
            out.append(f"{kind}{at}{'-' if rng.random() < .3 and not w.startswith('-4') or w.startswith('+') and rng.random() < .5 else ''}:{w}")
        return ",".join(out)

    def gen(self, rng, index, tier):
        names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
        if rng.random() < .3:                           # a second name that differs little
            a, k = names[0], rng.randrange(len(names[0]))
            b = rng.choice([a[:k] + rng.choice("_ .-0aA") + a[k + 1:], a + rng.choice(".1_ ~"), a[:k] + rng.choice("_.1") + a[k:], a.swapcase(), a + ".gz", a + ".pickle"])
            names += [b] if b not in names and b.strip(".") else []
        sessions = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            steps = []
            for _ in range(rng.choice([1, 2, 3, 5])):
                st = dict(op="dump" if rng.random() < .6 else "load", name=rng.choice(names))
                if st["op"] == "dump":
                    st["fields"] = {rng.choice(["x", "y", "runtimes", "n", "metadata", "data", "_a"]): "odd" if rng.random() < .03 else rng.getrandbits(40) for _ in range(rng.choice([0, 1, 2, 3]))}
                if rng.random() < .45:
                    st["plan"] = self.trouble(rng, st["op"])
                steps.append(st)
            sessions.append(dict(clock=pick_clock(rng) if rng.random() < .15 else rng.randint(10**9, 4 * 10**9), steps=steps))
        sessions.append(dict(clock=10**9, steps=[dict(op="load", name=n) for n in names]))
        return dict(sessions=sessions)

    def shrinks(self, case):
        S = case["sessions"]
        for i in range(len(S) - 1):
            yield dict(case, sessions=S[:i] + S[i + 1:])
        for i, s in enumerate(S):
            for j, st in enumerate(s["steps"]):
                put = lambda q: dict(case, sessions=S[:i] + [dict(s, steps=s["steps"][:j] + q + s["steps"][j + 1:])] + S[i + 1:])
                if len(s["steps"]) > 1:
                    yield put([])
                if "plan" in st:
                    yield put([{k: v for k, v in st.items() if k != "plan"}])
                    ps = st["plan"].split(",")
                    if len(ps) > 1:
                        for k in range(len(ps)):
                            yield put([dict(st, plan=",".join(ps[:k] + ps[k + 1:]))])
                for f in st.get("fields", ()):
                    yield put([dict(st, fields={k: v for k, v in st["fields"].items() if k != f})])
            if s["clock"] != 10**9:
                yield dict(case, sessions=S[:i] + [dict(s, clock=10**9)] + S[i + 1:])

    def check(self, env, case):
        res = Result()
        ans = env.store(case["sessions"])
        stored = {}                                     # name -> what loading it may give; None: an exception
        for i, (s, a) in enumerate(zip(case["sessions"], ans)):
            lines = list(a["steps"])
            if any("broken" in l for l in lines):
                res.fail("crash", f"process {i}: {lines[-1]['broken']}")
                return res
            res.note(a["exit"], a["sig"], lines)
            res.trace.append(f"process {i}, clock {s['clock']}")
            ended = False
            for j, st in enumerate(s["steps"]):
                name = f"process {i}, step {j}: {st['op']} {st['name']!r}" + (f" {sorted(st['fields'])}" if "fields" in st else "") + (f"  [{st['plan']}]" if "plan" in st else "")
                may = stored.get(st["name"], {None})
                before = "nothing" if may == {None} else "something" if len(may) == 1 else "unclear"
                new = lines.pop(0)["begin"] if st["op"] == "dump" and lines and "begin" in lines[0] else None
                if not lines:                            # the process ended here
                    if new is not None:
                        stored[st["name"]] = may | {None} | ({new} if new else set())
                    if a["exit"] != 99:
                        res.fail("crash", f"{name}: the process ended by itself (exit status {a['exit']}, signal {a['sig']})")
                    res.trace.append(f"  {name} -> the process was ended there")
                    res.nontrivial = True
                    env.faults["process_ended"] = env.faults.get("process_ended", 0) + 1
                    res.situations.add("/".join([st["op"], "crash", st["plan"][0] if "plan" in st else "", before]))
                    break
                r = lines.pop(0)
                m = dict(zip(MET, r["met"]))
                for k, v in (("storage_failure", m["fail"]), ("short_transfer", m["short"]), ("eintr", m["eintr"])):
                    env.faults[k] = env.faults.get(k, 0) + v
                res.nontrivial |= any(m.values())
                res.trace.append(f"  {name} -> {r['status']} {r['what']} {r['hash']}, met {({k: v for k, v in m.items() if v})}")
                res.situations.add("/".join([st["op"], "+".join(k for k, v in m.items() if v), r["status"], before]))
                if r["fds"] > 0:
                    res.fail("descriptors", f"{name}: {r['fds']} more open afterwards")
                if r["what"] == "arguments changed":
                    res.fail("arguments", f"{name}: the saved values were changed")
                if st["op"] == "dump":
                    if r["status"] == "ok":
                        if not new:
                            res.fail("outcome", f"{name}: claims to have saved what cannot be saved")
                        stored[st["name"]] = {new}
                    else:
                        if not m["fail"] and new and 0 <= s["clock"] < 1 << 32:
                            res.fail("refused", f"{name}: {r['what']} although nothing failed")
                        stored[st["name"]] = may | {None} | ({new} if new else set())
                else:
                    if r["status"] == "ok":
                        if r["hash"] not in may:
                            res.fail("wrong", f"{name}: gives {r['hash']}, which is not what was saved ({', '.join(sorted(map(str, may)))})")
                        stored[st["name"]] = {r["hash"]}
                    elif not m["fail"]:
                        if None not in may:
                            res.fail("lost", f"{name}: {r['what']}, but a completed dump saved {sorted(may)}")
                        stored[st["name"]] = {None}
        return res
