"""C15: the real extension module in the real interpreter; callers' sequences that misbehave, failing memory and FFT plans."""
import math
from ..core import Prop, Result
from ..work import *
from .. import ref
from .lib import gen_op, gen_fft_op, vary, invalid_op, FNS

CONTAINERS = ["list", "list", "tuple", "seq", "seq", "seq", "array", "deque", "vector", "view", "listsub", "strided", "backwards", "floats", "ints", "ctypes", "bytearray"]
BUFFERS = ("array", "view", "vector", "strided", "backwards", "floats", "ints", "ctypes", "bytearray")
ODD = [["int", 1], ["int", 0], ["big", 400], ["nan", 0], ["inf", 0], ["inf", 1], ["str", "x"], ["none", 0], ["bool", 1], ["bool", 0], ["fraction", .5], ["object", 0], ["complex", .5],
       ["floatsub", .25], ["floatsub", .5], ["bytes", 5], ["list", .5]]
BENIGN = ("gc", "call", "switch", "recurse")
REPEATABLE = ("raise", "lenvalue", "lentype", "gc", "call", "recurse")      # what can happen again just the same
STRICT = ("int", "bool", "nan", "inf", "floatsub")     # items every conversion to double takes for a number


def spec_of(rng, v, odd=0.0):
    """a container holding the values"""
    t = rng.choice(CONTAINERS)
    vals = list(v)
    if t in ("ints", "bytearray"):          # 0 or 1 only
        vals = [float(x > .5) for x in vals]
    if t not in BUFFERS:
        if rng.random() < .15:
            vals = [["int", int(x)] if x in (0.0, 1.0) and rng.random() < .7 else ["floatsub", x] if rng.random() < .2 else x for x in vals]
        if vals and rng.random() < odd:
            vals[rng.randrange(len(vals))] = rng.choice(ODD)
    a = dict(type=t, vals=vals)
    if t == "seq" and rng.random() < .4:
        a["fresh"] = 1              # items nobody else holds
    return a


def pick_act(rng, n, nested, threads):
    x = rng.random()
    at = rng.choice([0, 0, n - 1, n, rng.randrange(n + 1), rng.randrange(n + 1)])
    a = dict(on=rng.choice(["item", "item", "item", "len"]), at=max(0, at))
    if x < .25:
        a.update(do="raise", exc=rng.choice(["Raised", "Base", "Index", "Stop", "Mem", "Key", "Runtime", "Type", "Value", "Exit"]))
    elif x < .45 and nested:
        a.update(do="call", op=nested())
    elif x < .6:
        a.update(do="setn", n=rng.choice([0, 1, n - 1, n + 1, n + 5, n * 2, max(0, n // 2)]))
    elif x < .68:
        a.update(on="len", do="lenvalue", value=rng.choice([0, 1, n + 1, n + 10, max(0, n - 1), -1, -7, 1 << 64, 10 ** 30]))
    elif x < .72:
        a.update(on="len", do="lentype")
    elif x < .8:
        a.update(do="gc")
    elif x < .85:
        a.update(do="recurse")
    elif x < .92:
        a.update(do="replace", vals=[rng.choice(ODD) if rng.random() < .3 else round(i / max(1, n), 3) for i in range(n)])
    else:
        a.update(do="other", arg=0, how=rng.choice(["clear", "append", "reverse"]))
    if threads > 1 and rng.random() < .6:
        a = dict(on=a["on"], at=a["at"], do="switch", to=rng.randrange(threads))
    return a


class C15(Prop):
    id = "C15"
    kinds = ("py", "ref")
    counts = {"quick": 6000, "thorough": 90000}
    measure = "function x containers x what the sequence did x what failed x outcome"
    rule = ("a session of calls of the module in a fresh interpreter: lists, tuples, arrays, buffers, iterators and other kinds of sequences, own sequence classes that raise, change their length or contents, call back into the module, collect "
            "garbage or hand over to another thread at a chosen item or length request, items of seventeen odd types, wrong arguments, failing memory requests of the module, of the "
            "interpreter, and FFT-plan requests (counted in an undisturbed session first); a clean call after every disturbed one; non-trivial: something misbehaved or failed; distinct: by the whole case")
    real = ["the extension module (python_extension/crossprob.cc, crossprob.py and the library, setup.py's flags) in CPython 3.12", "Python threads (one runs at a time, handing over where the plan says)", "FFTW 3"]
    stub = ["memory requests of the module and the object allocator of the interpreter (failures)", "creation of FFT plans (may be refused)"]
    assumptions = ["the reference dynamic programme (sim/ref.cc) is right: cross-checked against exact rational arithmetic for small samples",
                   "CPython itself survives failing memory requests; requests inside other shared libraries do not fail",
                   "sequences stay within a thousand items or so"]

    def gen(self, rng, index, tier):
        mode = rng.choice(["odd", "acts", "acts", "acts", "mem", "mem", "py", "fft", "threads", "threads", "misuse"])
        args, ops = [], []
        nthreads = rng.choice([2, 2, 3]) if mode == "threads" else 1

        def problem(fft=False):
            if fft or rng.random() < .08:
                return gen_fft_op(rng)
            return gen_op(rng, 0 if rng.random() < .9 else 1)

        def put(o, odd=0.0):
            ids = []
            for k in "bB":
                if k == "b" and (o["fn"] == "ecdf2" or o["fn"].endswith("_b")) or k == "B" and (o["fn"] == "ecdf2" or o["fn"].endswith("_B")):
                    args.append(spec_of(rng, o[k], odd))
                    ids.append(len(args) - 1)
            q = dict(fn=o["fn"], args=ids)
            if o["fn"] == "ecdf2":
                q["extra"] = [bool(o["fft"])]
            return q

        def clean():
            return put(problem())

        threads = []
        for t in range(nthreads):
            seq = []
            for _ in range(rng.choice([1, 2, 3]) if nthreads == 1 else rng.choice([1, 2])):
                o = problem(mode == "fft")
                if rng.random() < .08:
                    o = invalid_op(rng, o)
                q = put(o, .9 if mode == "odd" else 0)
                if mode in ("acts", "threads"):
                    for i in q["args"]:
                        if rng.random() < .85:
                            a = args[i]
                            a["type"] = "seq" if rng.random() < .85 else "listsub"
                            n = len(a["vals"])
                            a["acts"] = []
                            if a["type"] == "seq" and rng.random() < .3:
                                a["endless"] = 1
                            for _ in range(rng.choice([1, 1, 2, 4])):
                                act = pick_act(rng, n, clean, nthreads)
                                if a["type"] == "listsub":
                                    act["on"] = "len"
                                    if act["do"] in ("setn", "lenvalue", "lentype", "replace"):
                                        act = dict(on="len", at=act["at"], do="del")
                                if act["do"] == "other":
                                    act["arg"] = rng.choice(q["args"])
                                    if act["arg"] == i:
                                        continue
                                a["acts"].append(act)
                            if a["type"] == "seq" and rng.random() < .4:
                                a["fresh"] = 1
                elif mode == "mem":
                    q["fault"] = [rng.choice(["one", "one", "two", "rest"]), rng.random(), rng.random()]
                elif mode == "py":
                    q["fault"] = ["py", rng.random(), rng.random()]
                elif mode == "fft":
                    q["fault"] = ["fft", rng.random(), rng.random()]
                elif mode == "misuse":
                    x = rng.random()
                    if x < .2:
                        q["args"] = q["args"][:-1]
                    elif x < .4:
                        q["args"] = q["args"] + [q["args"][0]]
                    elif x < .6 and "extra" in q:
                        q["extra"] = [rng.choice([None, 1, 0, "x", 2.5, [], "True"])]
                    elif x < .65:
                        q["extra"] = []
                    else:
                        i = rng.choice(q["args"])
                        args[i] = dict(args[i], type=rng.choice(["gen", "dict", "set", "str", "bytes", "none", "number", "noseq", "range"]))
                        if args[i]["type"] == "bytes":
                            args[i]["raw"] = [rng.choice([0, 1, 1, 7]) for _ in range(rng.choice([0, 1, 3]))]
                        if args[i]["type"] == "range":
                            args[i]["n"] = rng.choice([0, 1, 2, 5])
                        if args[i]["type"] == "set":
                            args[i]["vals"] = args[i]["vals"][:3]
                if rng.random() < .5:                 # should the module ever let other threads run during the call
                    x = rng.random()
                    i = rng.choice(q["args"]) if q["args"] else 0
                    if nthreads > 1 and x < .5:
                        q["release"] = dict(do="switch", to=rng.randrange(nthreads))
                    elif x < .3:
                        q["release"] = dict(do="call", op=clean())
                    elif args[i].get("acts"):
                        pass
                    elif mode not in ("mem", "py", "fft", "misuse"):
                        if args[i]["type"] != "list" and all(type(y) is not list for y in args[i]["vals"]):
                            args[i] = dict(type="vector", vals=args[i]["vals"])
                        q["release"] = dict(do="other", arg=i, how=rng.choice(["clear", "append", "reverse"]))
                    if "release" in q:
                        q["release"]["at"] = rng.choice([0, 0, 1, 2, 3, 5, rng.randrange(40)])
                if mode == "py" and rng.random() < .4:
                    q["drain"] = 1
                seq.extend([q] * (4 if nthreads == 1 and rng.random() < .3 else 1))
                if rng.random() < .4:                 # the same again, undisturbed
                    seq.append({k: v for k, v in q.items() if k != "fault"})
                if rng.random() < .5:
                    seq.append(clean())
            threads.append(seq)
        if nthreads == 1:
            threads[0].append(clean())
        case = dict(args=args, threads=threads)
        if nthreads == 1 and rng.random() < .5 and all(c["do"] in REPEATABLE for a in args for c in a.get("acts", [])):
            case["loop"] = {k: v for k, v in rng.choice(threads[0]).items() if k in ("fn", "args", "extra")}
        return case

    def shrinks(self, case):
        for t in range(len(case["threads"])):
            for i in range(len(case["threads"][t])):
                if sum(map(len, case["threads"])) > 1:
                    yield dict(case, threads=case["threads"][:t] + [case["threads"][t][:i] + case["threads"][t][i + 1:]] + case["threads"][t + 1:])
        if "loop" in case:
            yield {k: v for k, v in case.items() if k != "loop"}
        for t in range(len(case["threads"])):
            for i, q in enumerate(case["threads"][t]):
                if "release" in q:
                    yield dict(case, threads=case["threads"][:t] + [case["threads"][t][:i] + [{k: v for k, v in q.items() if k != "release"}] + case["threads"][t][i + 1:]] + case["threads"][t + 1:])
        for i, a in enumerate(case["args"]):
            if a.get("fresh"):
                yield dict(case, args=case["args"][:i] + [dict(a, fresh=0)] + case["args"][i + 1:])
            for j in range(len(a.get("acts", []))):
                yield dict(case, args=case["args"][:i] + [dict(a, acts=a["acts"][:j] + a["acts"][j + 1:])] + case["args"][i + 1:])
        for i, a in enumerate(case["args"]):
            if len(a.get("vals", [])) > 1:
                for j in range(min(8, len(a["vals"]))):
                    yield dict(case, args=case["args"][:i] + [dict(a, vals=a["vals"][:j] + a["vals"][j + 1:])] + case["args"][i + 1:])
        for i, a in enumerate(case["args"]):
            if a.get("vals") and a["type"] not in ("list", "seq", "listsub"):
                yield dict(case, args=case["args"][:i] + [dict(a, type="list")] + case["args"][i + 1:])

    def resolve(self, env, case):
        """the calls with the numbers of the requests that fail; the undisturbed session if that went wrong already"""
        A = case["args"]
        threads = [[dict(o) for o in seq] for seq in case["threads"]]
        if any("fault" in o for o in threads[0]):
            plain = [{k: v for k, v in o.items() if k != "fault"} for o in threads[0]]
            r = env.py(dict(args=A, threads=[plain]))
            if r["sig"] or r["hang"] or not r["ans"]:
                return [plain], r
            for o, x in zip(threads[0], r["ans"]["out"][0]):
                f = o.pop("fault", None)
                if f:
                    nm, nf, np = x["counts"]
                    if f[0] == "py":
                        o["py"] = ",".join(sorted({str(int(f[1] * np)), str(int(f[2] * np))}))
                    elif f[0] == "fft":
                        o["fft"] = str(int(f[1] * max(1, nf))) + ("-" if f[2] < .3 else "")
                    else:
                        o["mem"] = str(int(f[1] * nm)) + ("-" if f[0] == "rest" else "," + str(int(f[2] * nm)) if f[0] == "two" else "")
        return threads, None

    def check(self, env, case):
        res = Result()
        A = case["args"]
        threads, r = self.resolve(env, case)
        if r is not None:
            return self.verdict(env, case, res, threads, r)
        r = env.py(dict(args=A, threads=threads, live=1, **{k: v for k, v in case.items() if k == "loop"}))
        return self.verdict(env, case, res, threads, r)

    def verdict(self, env, case, res, threads, r):
        A = case["args"]
        res.note(r)
        ans = r["ans"]
        for t, seq in enumerate(threads):
            for i, o in enumerate(seq):
                x = ans["out"][t][i] if ans else None
                res.trace.append(f"{'thread %d: ' % t if len(threads) > 1 else ''}{self.show(o, A)} -> " + ("?" if not x else x["status"] + " " + (str(float.fromhex(x["value"])) if x["isfloat"] else x["what"])))
        if r["hang"]:
            res.fail("hang", "the interpreter never came back")
        elif r["sig"]:
            res.fail("crash", f"the interpreter was ended by signal {r['sig']}")
        elif not ans:
            res.fail("crash", f"the interpreter ended with status {r['exit']} inside a session")
        if res.violation:
            res.nontrivial = True
            return res
        if any(x is None for seq in ans["out"] for x in seq):
            res.fail("harness", "a thread did not finish")
        if not ans["sane"]:
            res.fail("interpreter", "the interpreter is damaged")
        if ans["refs"]:
            res.fail("refcount", f"reference counts of the arguments and their items changed: {ans['refs']}")
        every = [x for seq in ans["out"] for x in seq]
        if ans["fresh"] and not any(x["fired"][2] for x in every):      # (their own ends need memory, too)
            res.fail("left-behind", f"{ans['fresh']} item(s) made for a call were never given back")
        if len(ans["grown"]) >= 6 and min(ans["grown"][-6:]) > 0:
            res.fail("left-behind", f"every repetition of {self.show(case['loop'], A)} leaves more of the interpreter's blocks behind: {ans['grown']}")
        if ans["exports"]:
            res.fail("exports", f"the memory of arguments is still lent out after the calls: {ans['exports']}")
        for t, seq in enumerate(ans["out"]):
            for i, x in enumerate(seq):
                self.judge(res, A, x, f"call {i}" + (f" of thread {t}" if len(threads) > 1 else ""), t, len(threads), others=every)
        if len(ans["out"]) == 1:
            grown, prev, last = 0, [0, 0], None
            for i, x in enumerate(ans["out"][0]):
                if "live" not in x:
                    break
                d = [a - b for a, b in zip(x["live"], prev)]
                grown = grown + 1 if last == x["op"] and max(d) > 0 else 0
                prev, last = x["live"], x["op"]
                if grown >= 3:
                    res.fail("left-behind", f"call {i}: every repetition of {self.show(x['op'], A)} ({x['status']} {x['what']}) leaves {max(d)} more {'block(s)' if d[0] > 0 else 'FFT plan(s)'}")
        for x in ans["nested"]:
            self.judge(res, A, x, "a call made inside another", 0, len(threads), True, every)
        res.extra["switches"] = ans["switches"]
        res.extra["actions"] = ans["acted"]
        res.extra["nested_calls"] = len(ans["nested"])
        env.faults["memory_failure"] = env.faults.get("memory_failure", 0) + sum(x["fired"][0] for s in ans["out"] for x in s)
        env.faults["fft_plan_failure"] = env.faults.get("fft_plan_failure", 0) + sum(x["fired"][1] for s in ans["out"] for x in s)
        env.faults["interpreter_memory_failure"] = env.faults.get("interpreter_memory_failure", 0) + sum(x["fired"][2] for s in ans["out"] for x in s)
        for a in A:
            for c in a.get("acts", []):
                k = "sequence_" + c["do"]
                env.faults[k] = env.faults.get(k, 0) + 1
        env.faults["lock_given_up"] = env.faults.get("lock_given_up", 0) + ans["releases"]
        env.faults["thread_switch"] = env.faults.get("thread_switch", 0) + ans["switches"]
        if ans["switches"]:
            res.distinct["interleavings"] = ["".join(map(str, ans["order"]))]
        return res

    def judge(self, res, A, x, where, t, nthreads, nested=False, others=()):
        o = x["op"]
        specs = [A[i] for i in o["args"]]
        want = 2 if o["fn"] == "ecdf2" else 1
        reasons, must = [], []
        if len(o["args"]) != want or len(o.get("extra", [])) != (want == 2):
            must.append("wrong number of arguments")
        flag = o.get("extra", [True])
        if want == 2 and flag and type(flag[0]) is not bool:
            reasons.append("flag")
        if sum(x["fired"]):
            reasons.append("fault")
        disturbed = False
        for a in specs:
            if a["type"] in ("gen", "dict", "set", "str", "none", "number", "noseq"):
                reasons.append(a["type"])
            if any(type(v) is list and v[0] not in STRICT for v in a.get("vals", [])):
                reasons.append("odd items")
            if any(c["do"] not in BENIGN for c in a.get("acts", [])):
                if x["acted"] or any(c["do"] in ("setn", "replace", "del") for c in a["acts"]):     # what changed stays changed
                    reasons.append("misbehaviour")
            if a.get("acts"):
                disturbed = True
        if any(c["do"] == "other" and c["arg"] in o["args"] for a in A for c in a.get("acts", [])):
            reasons.append("changed by another")
        changing = [y["op"].get("release", {}) for y in others] if x["released"] or nthreads > 1 or nested else []
        if any(c.get("do") == "other" and c["arg"] in o["args"] for c in changing):
            reasons.append("changed by another")
        if nthreads > 1 and any(c["do"] not in BENIGN for a in A for c in a.get("acts", [])) and x["acted"]:
            reasons.append("misbehaviour")
        cands = self.problems(o, x) if not must else []
        numeric = [c for c in cands if all(v is not None and not any(y is None for y in v) for v in c)]
        valid = [c for c in numeric if self.valid(o, c)]
        if not valid:
            if any(a["type"] in ("gen", "dict", "set", "none", "number", "noseq") for a in specs):
                pass
            elif cands and not (x["fired"] and sum(x["fired"])):
                must.append("no valid bounds were delivered")
        if x["acted"] or sum(x["fired"]) or reasons or must:
            res.nontrivial = True
        kinds = sorted({c["do"] for a in specs for c in a.get("acts", [])}) if x["acted"] else []
        res.situations.add("/".join([o["fn"], "+".join(sorted({a["type"] for a in specs})), "+".join(kinds), "mem" * bool(x["fired"][0]) + "plan" * bool(x["fired"][1]) + "py" * bool(x["fired"][2]),
                                     x["status"], "nested" * nested]))
        s = self.show(o, A)
        if x["status"] == "value":
            if not x["isfloat"]:
                res.fail("not-a-number", f"{where}: {s} returned {x['value']}")
                return
            v = float.fromhex(x["value"])
            if must:
                res.fail("should-raise", f"{where}: {s} returned {v!r} ({must[0]})")
                return
            for c in valid:
                if ref.api_close(v, self.exact(o, c)):
                    return
            if not valid and reasons and any(a["type"] in ("gen", "dict", "set") for a in specs):
                return          # a module that accepts more than sequences
            res.fail("wrong", f"{where}: {s} returned {v!r}; the values delivered give {[self.exact(o, c) for c in valid[:6]]}" + (f" (faults met: {x['fired']})" if sum(x["fired"]) else ""))
        elif x["status"] == "raise":
            if must or reasons:
                return
            if valid and len(valid) == len(cands) and not any(len(c[0]) == 0 for c in valid):
                res.fail("refused", f"{where}: {s} raised {x['what']!r} although nothing failed")
        else:
            res.fail("no-outcome", f"{where}: {s}: {x['status']}")

    @staticmethod
    def problems(o, x):
        """every problem the call may have understood: pairs of bound lists"""
        if o["fn"] == "ecdf2":
            return [(b, B) for b in x["cand"][0] for B in x["cand"][1]] if len(x["cand"]) == 2 else []
        return [(v,) for v in x["cand"][0]] if x["cand"] else []

    @staticmethod
    def valid(o, c):
        for v in c:
            if any(not (0 <= y <= 1) for y in v) or any(v[i] > v[i + 1] for i in range(len(v) - 1)):
                return False
        return len(c) == 1 or len(c[0]) == len(c[1])

    @staticmethod
    def exact(o, c):
        n = len(c[0])
        if n == 0:
            return 1.0
        if o["fn"] == "ecdf2":
            return ref.ecdf(n, c[0], c[1])
        return ref.ecdf(n, c[0] if o["fn"].endswith("_b") else [], c[0] if o["fn"].endswith("_B") else [])

    @staticmethod
    def show(o, A):
        def one(a):
            s = a["type"] + "[" + ", ".join(str(v if type(v) is list else round(v, 6)) for v in a.get("vals", [])[:6]) + (f", ... {len(a['vals'])}" if len(a.get("vals", [])) > 6 else "") + "]"
            for c in a.get("acts", []):
                s += f" {{{c['do']} {c.get('exc', c.get('value', c.get('n', c.get('to', ''))))} at {c['on']} {c['at']}}}"
            return s
        s = f"{o['fn']}(" + ", ".join([one(A[i]) for i in o["args"]] + [repr(e) for e in o.get("extra", [])]) + ")"
        for k, w in (("mem", "memory request"), ("fft", "FFT plan request"), ("py", "interpreter's memory request")):
            if o.get(k):
                s += f"  {w}(s) {o[k]} fail"
        if "release" in o:
            c = o["release"]
            s += f"  {{{c['do']} {c.get('how', c.get('to', ''))} should the interpreter lock be given up}}"
        return s
