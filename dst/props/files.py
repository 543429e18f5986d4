"""Properties of single runs of the two programs under file, output and memory faults: C01-C05, C14, C16."""
import math, re
from ..core import Prop, Result
from ..work import *
from .. import ref

REAL = ["crossprob / crossprob_mc: main, argument handling, file reading, parsing, all algorithms, random generator (repository code, the Makefile's flags)",
        "libstdc++ streams, glibc number parsing and formatting, FFTW 3 (computation and planner)", "process exit sequence"]
STUB = ["open/read of the bounds file (scripted results over the real file's bytes)", "write of standard output/error (recorded, scripted failures)",
        "memory requests of repository code and libstdc++ containers (simulated allocator)", "clocks, pid, entropy sources"]


class ProgProp(Prop):
    real, stub = REAL, STUB
    assumptions = ["the reference dynamic programme (sim/ref.cc) is right: cross-checked against exact rational arithmetic for small samples",
                   "libstdc++, glibc and FFTW behave as installed here; memory requests made inside shared libraries do not fail"]
    measure = "command x file kind x fault kind x place of the fault in the file or output x ending"
    keep = ()

    def twin(self, env, p, case, plan=None):
        """the same run with nothing going wrong"""
        q = {k: v for k, v in case["plan"].items() if k in ("clock", "outbuf")}
        return env.prog(to_run(p, q if plan is None else plan))

    def execute(self, env, res, case, run=None, label=""):
        run = run or self.run_of(case)
        r = env.prog(run)
        res.note(obs(r))
        res.trace += describe(run)
        res.trace.append(f"  -> {ending(r)}, printed {r['out'][-200:]!r}, faults met: " + str({k: v for k, v in r["f"].items() if v}))
        return r

    def run_of(self, case):
        return to_run(case["p"], case["plan"], case["kind"], case.get("content"), case.get("env", ()))

    def shrinks(self, case):
        for pl in shrink_plan(case["plan"], self.keep):
            yield dict(case, plan=pl)
        if case["kind"] == "pipe":
            yield dict(case, kind="file")
        if "name" in case["p"]:
            yield dict(case, p={k: v for k, v in case["p"].items() if k != "name"})
        if case.get("content") is None:
            for t in shrink_text(case["p"]["text"]):
                yield dict(case, p=dict(case["p"], text=t))
            if case["p"].get("nsims", 0) > 1:
                for k in (1, case["p"]["nsims"] // 2):
                    yield dict(case, p=dict(case["p"], nsims=k))
        if case.get("env"):
            yield dict(case, env=[])

    def situate(self, res, case, r, *more):
        kinds = [k for k, v in r["f"].items() if v]
        res.situations.add("/".join([case["p"]["cmd"] if "p" in case else "?", case["kind"], "+".join(kinds) or "none", *map(str, more), ending(r)]))


def zone(text, content, off):
    """where an offset lies in a boundaries file"""
    nl = content.find("\n")
    end = content.find("\n", nl + 1)
    if off == 0:
        return "start"
    if off <= nl:
        return "line1"
    if off == nl + 1:
        return "between"
    if end < 0:
        return "line2" if off < len(content) else "end-unterminated"
    return "line2" if off < end else ("line2-end" if off == end else "after")


class C01(ProgProp):
    id = "C01"
    counts = {"quick": 24000, "thorough": 400000}
    keep = ()
    rule = ("a valid boundaries file (both programs, every command) whose open or some read fails, at a random byte biased to line ends, token boundaries and "
            "the end of the file, after random short and interrupted reads, once or for good; non-trivial: the failure was met by the program; distinct: by the whole case")

    def gen(self, rng, index, tier):
        p = gen_problem(rng, 1 if index % 8 else 2)
        content = render(p["text"])
        plan = {}
        kind = "pipe" if rng.random() < .25 and len(content) < 60000 else "file"
        if p["prog"] == "crossprob_mc":
            plan["clock"] = str(pick_clock(rng))
        if rng.random() < .12:
            plan["opens"] = str(-rng.choice(OPEN_ERRNOS)) + rng.choice(["", f";-{EIO}"])
            if rng.random() < .3:
                plan["opens"] = f"-{rng.choice(OPEN_ERRNOS)}x{rng.randint(1, 3)}"
        else:
            nl = content.find("\n")
            end = content.find("\n", nl + 1)
            end = len(content) if end < 0 else end
            commas = [i for i, c in enumerate(content) if c == ","]
            spots = [0, nl, nl + 1, nl + 2, end - 1, end, len(content), len(content) - 1, (nl + 1 + end) // 2, rng.randint(nl + 1, end), rng.randint(0, nl)]
            if commas:
                c = rng.choice(commas)
                spots += [c, c + 1, c + 2]
            off = min(len(content), max(0, rng.choice(spots)))
            e = rng.choice(READ_ERRNOS)
            plan["reads"] = script(reads_reaching(rng, off) + [-e] * rng.choice([1, 1, 1, 2]), rng.choice([0, 0, -e]))
        if rng.random() < .2:
            plan["heap"] = pick_heap(rng)
        return dict(p=p, plan=plan, kind=kind)

    def check(self, env, case):
        res = Result()
        p = case["p"]
        r = self.execute(env, res, case)
        content = render(p["text"])
        met = r["f"]["read_error"] + r["f"]["open_error"]
        res.nontrivial = met > 0
        z = "open" if r["f"]["open_error"] else zone(p["text"], content, r["last_read_err"]) if r["f"]["read_error"] else "-"
        self.situate(res, case, r, z)
        res.extra["fault_in_" + z] = 1
        e = ending(r)
        if abnormal(r):
            if met:
                res.fail("abnormal-end", f"the run ended by {e} after a failed read")
        elif e == "exit0":
            if met:
                nl = content.find("\n")
                end = content.find("\n", nl + 1)
                complete = (end >= 0 and r["delivered"] > end) or r["eof"] or r["delivered"] >= len(content) and z not in ("end-unterminated",)
                t = self.twin(env, p, case)
                res.note(t["out"])
                if not complete or r["out"] != t["out"]:
                    res.fail("answer-from-part", f"read failed after {r['last_read_err']} of {len(content)} bytes ({z}), yet exit status 0 with {r['out']!r}; the complete file gives {t['out']!r}")
            # no failure met: C02's business
        elif met:
            if numeric_lines(r["out"]):
                res.fail("probability-printed", f"failed run ({e}) printed a number: {r['out']!r}")
            elif not (r["out"] + r["err"]).strip():
                res.fail("no-message", f"failed run ({e}) printed no error message")
        return res


class C02(ProgProp):
    id = "C02"
    counts = {"quick": 16000, "thorough": 250000}
    rule = ("a valid boundaries file (1 to 1200 points, every 320th case up to 6145; lines up to 100 kB, every 100th case up to megabytes; many number spellings), regular or pipe, delivered by random short and interrupted reads; "
            "non-trivial: at least one short or interrupted read or a pipe; distinct: by the whole case")

    def gen(self, rng, index, tier):
        p = gen_problem(rng, 3 if index % 320 == 7 else 2 if index % 16 == 0 else 1, "crossprob" if index % 320 == 7 else None)
        if index % 100 == 11:
            widen(rng, p["text"])
        content = render(p["text"])
        kind = "pipe" if rng.random() < .35 and len(content) < 1000000 else "file"
        v, tail = benign_reads(rng, len(content))
        plan = {"cpu": "100"} if index % 320 == 7 else {}
        if v or tail:
            plan["reads"] = script(v, tail)
        if p["prog"] == "crossprob_mc":
            plan["clock"] = str(pick_clock(rng))
            if rng.random() < .5:
                p["nsims"] = rng.choice([200, 1000, 3000]) if max(len(p["text"]["b"]), len(p["text"]["B"])) < 20 else 100
        if rng.random() < .3:
            plan["heap"] = pick_heap(rng)
        return dict(p=p, plan=plan, kind=kind)

    def check(self, env, case):
        res = Result()
        p = case["p"]
        r = self.execute(env, res, case)
        res.nontrivial = r["f"]["short_read"] + r["f"]["eintr"] > 0 or case["kind"] == "pipe" or r["n"]["read"] > 1
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))
        size = "1" if n == 1 else "small" if n < 13 else "mid" if n < 127 else "fft" if n < 1000 else "fft2"
        ln = len(render(p["text"]))
        self.situate(res, case, r, size, "short" if ln < 8191 else "buffers" if ln < 65536 else "long")
        a = answer(r["out"])
        if ending(r) != "exit0":
            res.fail("refused", f"a valid file was not answered: {ending(r)}, {r['out'][-200:]!r}")
        elif a is None:
            res.fail("no-answer", f"no single result line: {r['out'][-200:]!r}")
        elif p["prog"] == "crossprob":
            x = exact(p)
            if not cli_ok(a, x):
                res.fail("wrong", f"printed {a!r}, the exact probability is {x!r}")
        else:
            t = self.twin(env, p, case)
            res.note(t["out"])
            if t["out"] != r["out"]:
                res.fail("depends-on-reads", f"printed {r['out']!r}; undisturbed, started at the same second: {t['out']!r}")
            else:
                x = exact(p)
                if not ref.binom_ok(round(a * p["nsims"]), p["nsims"], x, 34.0, 1e-9):
                    res.fail("wrong", f"printed {a!r} from {p['nsims']} simulations, the exact probability is {x!r}")
        return res


def cli_ok(a, x):
    return a == a and ref.cli_close(a, x)


PREFIX = re.compile(r"^\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?")


class C03(ProgProp):
    id = "C03"
    counts = {"quick": 24000, "thorough": 400000}
    keep = ("trunc",)
    rule = ("a valid boundaries file cut at a random byte (biased to line ends, separators, exponents), before the run or between two reads of it; "
            "non-trivial: the program met the cut; distinct: by the whole case")

    def gen(self, rng, index, tier):
        p = gen_problem(rng, 1)
        content = render(p["text"])
        nl = content.find("\n")
        plan = {}
        if p["prog"] == "crossprob_mc":
            plan["clock"] = str(pick_clock(rng))
        last = max(content.rstrip("\n").rfind(","), nl)
        spots = [0, 1, nl, nl + 1, nl + 1, rng.randint(0, nl), rng.randint(0, nl + 1), rng.randint(0, len(content)), last, last + 1, last + 2, len(content) - 1, rng.randint(last, len(content))]
        commas = [i for i, c in enumerate(content) if c in ",e"]
        if commas:
            c = rng.choice(commas)
            spots += [c, c + 1, c + 2]
        cut = min(len(content) - 1, max(0, rng.choice(spots)))
        kind = "file"
        case = dict(p=p, plan=plan, kind=kind, cut=cut)
        if rng.random() < .4 and cut > 0:
            pre = reads_reaching(rng, rng.randint(0, cut))
            plan["reads"] = script(pre)
            plan["trunc"] = f"{len(pre)}:{cut}"
        else:
            v, tail = benign_reads(rng, cut)
            if v or tail:
                plan["reads"] = script(v, tail)
            if rng.random() < .25 and len(content) < 60000:
                case["kind"] = "pipe"
        return case

    def run_of(self, case):
        c = render(case["p"]["text"])
        return to_run(case["p"], case["plan"], case["kind"], c if "trunc" in case["plan"] else c[:case["cut"]])

    def shrinks(self, case):
        for q in super().shrinks(case):
            if q["p"]["text"] is case["p"]["text"]:
                yield q
            else:
                n0 = len(render(case["p"]["text"]))
                L = len(render(q["p"]["text"]))
                nl0, nl = render(case["p"]["text"]).find("\n"), render(q["p"]["text"]).find("\n")
                for cut in sorted({nl + 1 if case["cut"] == nl0 + 1 else min(case["cut"], L - 1), max(0, L - (n0 - case["cut"])), nl + 1, nl // 2, max(0, L - 2)}):
                    q2 = dict(q, cut=cut, plan=dict(q["plan"]))
                    if "trunc" in q2["plan"]:
                        q2["plan"]["trunc"] = q2["plan"]["trunc"].split(":")[0] + f":{cut}"
                    yield q2

    def check(self, env, case):
        res = Result()
        p = case["p"]
        full = render(p["text"])
        r = self.execute(env, res, case)
        e = ending(r)
        nl = full.find("\n")
        if "trunc" in case["plan"]:
            met = r["f"]["truncation"] > 0 and r["eof"] > 0 and r["delivered"] < len(full)
            seen = full[:r["delivered"]]
        else:
            met, seen = True, full[:case["cut"]]
        res.nontrivial = met
        if r["n"]["map"] and r["f"]["truncation"]:      # what a mapped reader saw is not known
            if abnormal(r):
                res.fail("abnormal-end", f"the run ended by {e} when the mapped file was cut to {case['cut']} bytes")
            return res
        if not met:
            res.situations.add("cut-not-met")
            return res
        z = zone(p["text"], full, len(seen))
        self.situate(res, case, r, z, "during" if "trunc" in case["plan"] else "before")
        res.extra["cut_in_" + z] = 1
        if abnormal(r):
            res.fail("abnormal-end", f"the run ended by {e} on a file cut after {len(seen)} bytes")
            return res
        if len(seen) <= nl + 1:
            if e == "exit0":
                res.fail("accepted-without-second-line", f"file cut after {len(seen)} of {len(full)} bytes ({z}) was accepted: {r['out']!r}")
            return res
        if not (p["text"]["b"] and p["text"]["B"]) or p["cmd"] not in CMDS2 or e != "exit0":
            return res
        # two-sided, cut inside the second line, accepted: all n pairs, at most characters of the very last number missing
        toks = seen[nl + 1:].rstrip("\n").split(",")
        if toks and not toks[-1].strip():
            toks.pop()
        b, B = values(p["text"])
        m = PREFIX.match(toks[-1]) if toks else None
        a = answer(r["out"])
        if len(toks) != len(B) or not m:
            res.fail("smaller-problem", f"second line cut to {len(toks)} of {len(B)} numbers was accepted: {r['out']!r}")
        elif a is None:
            res.fail("no-answer", f"exit status 0 without a result line: {r['out']!r}")
        else:
            B2 = B[:-1] + [float(m.group(0))]
            if B2 != sorted(B2) or B2[-1] > 1:
                res.fail("invalid-accepted", f"the cut made the bounds invalid, yet they were accepted: {r['out']!r}")
            else:
                xs = [ref.ecdf(len(b), b, B2), ref.ecdf(len(b), b, B)]
                if not any(cli_ok(a, x) for x in xs):
                    res.fail("wrong", f"printed {a!r}; with all pairs and the shortened last number the probability is {xs[0]!r}")
        return res


class C04(ProgProp):
    id = "C04"
    counts = {"quick": 24000, "thorough": 400000}
    rule = ("a valid run whose standard output (full, line or no buffering) accepts the output in random pieces and fails at a random write, once or for good; "
            "non-trivial: a short write or failing write was met; distinct: by the whole case")

    def gen(self, rng, index, tier):
        p = gen_problem(rng, 0)
        plan = {"outbuf": str(rng.choice([0, 0, 0, 1, 2]))}
        if p["prog"] == "crossprob_mc":
            plan["clock"] = str(pick_clock(rng))
        v = []
        for _ in range(rng.choice([0, 0, 0, 1, 2, 3, 5, 8])):
            v.append(rng.choice([1, 1, 2, 3, 4, 7]))
        if rng.random() < .8:
            e = rng.choice(WRITE_ERRNOS)
            v += [-e] * rng.choice([1, 1, 2, 3])
            tail = 0 if e == EINTR else rng.choice([0, -e, -e])      # (an endless EINTR may be retried for ever)
            if rng.random() < .3:
                v.append(rng.choice([1, 2]))
        else:
            tail = rng.choice([0, 1, 2])
        plan["writes"] = script(v, tail)
        return dict(p=p, plan=plan, kind="file")

    def check(self, env, case):
        res = Result()
        p = case["p"]
        r = self.execute(env, res, case)
        q = {k: v for k, v in case["plan"].items() if k == "clock"}
        t = env.prog(to_run(p, q))
        res.note(t["out"], ending(t))
        res.nontrivial = r["f"]["short_write"] + r["f"]["write_error"] > 0
        self.situate(res, case, r, "buf" + case["plan"].get("outbuf", "0"), f"accepted{min(len(r['out']), 12)}of{len(t['out'])}", "at-exit" if r["out_at_return"] < len(r["out"]) else "")
        e = ending(r)
        if ending(t) != "exit0":
            return res
        if e == "exit0":
            if r["out"] != t["out"]:
                res.fail("claimed-delivered", f"exit status 0, but standard output accepted {r['out']!r} of {t['out']!r}")
        elif abnormal(r):
            res.fail("abnormal-end", f"the run ended by {e} when standard output failed")
        elif not r["f"]["write_error"]:
            res.fail("short-write", f"{e} although every write was eventually accepted: {r['out']!r}")
        return res


class C05(ProgProp):
    id = "C05"
    counts = {"quick": 5000, "thorough": 60000}
    rule = ("a valid run and four repetitions of it in which chosen memory or FFT-plan requests (one, several, a window, everything from some point on) fail; the "
            "requests are counted in the undisturbed run first; non-trivial: a failing request was met; distinct: by the whole case")

    def gen(self, rng, index, tier):
        p = gen_problem(rng, 2 if index % 3 == 0 else 1)
        if index % 4 == 0 and p["prog"] == "crossprob":     # FFT in use
            n = rng.choice([130, 140, 160])
            sides = "both" if p["cmd"] in CMDS2 else rng.choice(["b", "B"])
            b, B = pick_bounds(rng, n, sides)
            b, B = quant(b, 12), quant(B, 12)
            p["text"] = gen_text(rng, b, B)
        plan = {}
        if p["prog"] == "crossprob_mc":
            plan["clock"] = str(pick_clock(rng))
        picks = []
        for _ in range(4):
            picks.append([rng.choice(["one", "one", "one", "window", "rest", "some", "fft", "last"]), rng.random(), rng.random(), rng.random()])
        if rng.random() < .3:
            v, tail = benign_reads(rng, 200, "some")
            plan["reads"] = script(v, tail)
        return dict(p=p, plan=plan, kind="file", picks=picks)

    @staticmethod
    def faults(pick, na, nf):
        k, x, y, z = pick
        i = min(na - 1, int(x * na))
        if isinstance(z, str):              # minimised: explicit
            return {k: z}
        if k == "fft":
            if not nf:
                return {"alloc": str(i)}
            j = min(nf - 1, int(x * nf))
            return {"fft": f"{j}-1000000" if y < .3 else str(j)}
        if k == "one":
            return {"alloc": str(i)}
        if k == "window":
            return {"alloc": f"{i}-{i + 1 + int(y * y * 8)}"}
        if k == "rest":
            return {"alloc": f"{i}-100000000"}
        if k == "last":
            return {"alloc": str(max(0, na - 1 - int(x * 8)))}
        return {"alloc": ",".join(str(int(u * na)) for u in sorted({x, y, z}))}

    def shrinks(self, case):
        if len(case["picks"]) > 1:
            for i in range(len(case["picks"])):
                yield dict(case, picks=case["picks"][:i] + case["picks"][i + 1:])
        for q in super().shrinks(case):
            yield q
        if len(case["picks"]) == 1:
            k, x, y, z = case["picks"][0]
            if k in ("rest", "window", "some"):
                yield dict(case, picks=[["one", x, 0, 0]])
            if k != "fft":
                for i in range(1, 40):
                    yield dict(case, picks=[["one", i / 40.0, 0, 0]]) if x > i / 40.0 else case and dict(case, picks=[["one", 0.0, 0, 0]])

    def check(self, env, case):
        res = Result()
        p = case["p"]
        base = env.prog(to_run(p, case["plan"]))
        res.note(obs(base))
        if ending(base) != "exit0":
            res.situations.add("undisturbed run failed")
            return res
        na, nf = base["n"]["alloc"], base["n"]["fft"]
        for pick in case["picks"]:
            if not na:
                break
            plan = dict(case["plan"], **self.faults(pick, na, nf))
            r = self.execute(env, res, case, to_run(p, plan))
            met = r["f"]["alloc_failure"] + r["f"]["fft_plan_failure"]
            res.nontrivial |= met > 0
            self.situate(res, case, r, pick[0], "fft" if nf else "nofft")
            e = ending(r)
            where = f"request(s) {plan.get('alloc') or 'plan ' + plan['fft']} of {na}+{nf} failing"
            if abnormal(r):
                res.fail("crash", f"{where}: the run ended by {e}")
            elif e == "exit0":
                a = answer(r["out"])
                if r["out"] != base["out"] and (a is None or p["prog"] != "crossprob" or not ref.cli_close(a, exact(p))):
                    res.fail("falsified", f"{where}: exit status 0 with {r['out']!r} instead of {base['out']!r}")
            else:
                if not (r["out"] + r["err"]).strip():
                    res.fail("no-message", f"{where}: {e} without a message")
                nums = numeric_lines(r["out"])
                if any(x not in numeric_lines(base["out"]) for x in nums):
                    res.fail("falsified", f"{where}: printed {nums!r}, undisturbed {base['out']!r}")
            if r["memerr"]:
                res.fail("crash", f"{where}: {r['memerr']}")
        return res


def messy_content(rng):
    """malformed, damaged or random files"""
    k = rng.random()
    p = gen_problem(rng, 0 if rng.random() < .6 else 1)
    c = render(p["text"])
    if k < .15:
        return "".join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 300)))
    if k < .3:
        return "".join(rng.choice("0123456789.,,, \n\n-+eEnaif\t\r\0x") for _ in range(rng.randint(0, 200)))
    if k < .4:
        return rng.choice(["", "\n", "\n\n", "\n\n\n", ",\n,\n", ",,\n,,\n", "0.5", "0.5\n", "\n0.5", "\n0.5\n", "0.5\n\n", " \n \n", "0,1\n0,1\n", "1,0\n1,0\n", "1\n1\n", "0\n0\n", "1\n0\n",
                           "nan\nnan\n", "0.1,nan,0.5\n0.9,0.9,1\n", "0.1,0.2,0.5\n0.5,nan,1\n", "inf\n1\n", "-inf\n1\n", "1e400\n1\n", "1e-320\n1\n", "0x1p-2\n1\n", "-0\n1\n", "-0.1\n1\n", "0.1\n1.1\n"])
    toks = c.replace("\n", ",\n,").split(",")
    if k < .7:
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            i = rng.randrange(len(toks))
            toks[i] = rng.choice(["nan", "NaN", "-nan", "inf", "-inf", "", " ", "1e999", "1e-400", "4.9e-324", "-0.0", "2", "-1", "0.5x", "x", "0..5", "1e", "0x", "\0", "0.5 0.6", "1" * 400, "0." + "0" * 400 + "1", toks[i] + "\r"])
        return ",".join(toks)
    b = list(c)
    for _ in range(rng.randint(1, 6)):
        op, i = rng.randrange(4), rng.randrange(max(1, len(b)))
        if op == 0 and b:
            b[i % len(b)] = chr(rng.randrange(256))
        elif op == 1 and b:
            del b[i % len(b)]
        elif op == 2:
            b.insert(i, rng.choice(",\n\0 .e-9\r"))
        elif op == 3 and len(b) > 2:
            j = rng.randrange(len(b))
            b[min(i, j):max(i, j)] = b[min(i, j):max(i, j)] * 2
            del b[5000:]
    return "".join(b)


def messy_case(rng):
    p = gen_problem(rng, 1)
    plan = {}
    if rng.random() < .04:              # a valid problem large enough for FFTs; little else goes wrong
        p = dict(prog="crossprob", cmd=rng.choice(["ecdf2-mn2017", "ecdf1-new"]))
        b, B = pick_bounds(rng, rng.choice([130, 140, 160, 260]), "both" if p["cmd"] in CMDS2 else rng.choice(["b", "B"]))
        p["text"] = gen_text(rng, quant(b, 12), quant(B, 12))
        i = rng.randrange(6)
        plan = {"outbuf": str(rng.choice([0, 1, 2])), "heap": pick_heap(rng), "stack": pick_stack(rng)}
        if rng.random() < .8:
            plan["fft"] = rng.choice([str(i), f"{i}-{i + 2}", f"{i}-1000000"])
        if rng.random() < .4:
            i = int(600 * rng.random() ** 2)
            plan["alloc"] = rng.choice([str(i), f"{i}-{i + 3}", f"{i}-100000000"])
        return dict(p=p, plan=plan, kind=rng.choice(["file", "file", "pipe"]) if len(render(p["text"])) < 60000 else "file", content=None)
    kind = rng.choice(["file"] * 8 + ["pipe", "missing", "dir"])
    content = None
    if rng.random() < .6:
        content = messy_content(rng)
    if rng.random() < .15:
        p["cmd"] = rng.choice(CMDS1 + CMDS2 + MCCMDS + ("", "help", "ecdf2"))
        if rng.random() < .3:
            c = p["cmd"]
            p["cmd"] = rng.choice([c[:rng.randint(0, len(c))], c.upper(), c + rng.choice(" x-1"), c[1:], c.replace("-", "_"), c * 300, "--" + c, "ecdf1-x", "ecdf2-x", "\xff\x80"])
    big = rng.random() < .012
    if big:
        content, kind = huge_content(rng), "file"
    c = render(p["text"]) if content is None else unpack(content)
    if kind == "pipe" and len(c) > 60000:
        kind = "file"
    if rng.random() < .5:
        v = []
        for _ in range(rng.randint(1, 25)):
            x = rng.random()
            v.append(-EINTR if x < .25 else -rng.choice(READ_ERRNOS) if x < .4 else rng.choice([1, 2, 3, 10, 100]) if x < .9 else 0)
        plan["reads"] = script(v, rng.choice([0, 0, -rng.choice(READ_ERRNOS)]) if big else rng.choice([0, 0, 0, 1, 3, -rng.choice(READ_ERRNOS)]))
    if rng.random() < .08:
        e = rng.choice(OPEN_ERRNOS + [EINTR])
        plan["opens"] = script([-e] * rng.randint(1, 3), 0 if e == EINTR else rng.choice([0, -e]))
    if rng.random() < .3:
        v = [rng.choice([1, 2, 5, -rng.choice(WRITE_ERRNOS)]) for _ in range(rng.randint(1, 8))]
        plan["writes"] = script(v, rng.choice([0, 0, 1, -rng.choice(WRITE_ERRNOS[:-1])]))
    if rng.random() < .4:
        i = rng.randint(0, 60)
        plan["alloc"] = rng.choice([str(i), f"{i}-{i + rng.randint(1, 5)}", f"{i}-100000000", f"{i},{rng.randint(0, 60)}"])
    if rng.random() < .1:
        plan["fft"] = rng.choice(["0", "1", "2", "0-1000"])
    if rng.random() < .2 and kind == "file":
        plan["trunc"] = f"{rng.randint(0, 4)}:{rng.randint(0, len(c))}"
    if p["prog"] == "crossprob_mc":
        plan["clock"] = clock_plan(rng, pick_clock(rng))
        if rng.random() < .03 and not big:
            p["nsims"] = rng.choice([1000, 4096, 10001, 100000, 1000000 if max(len(p["text"]["b"]), len(p["text"]["B"])) < 3 else 20000]) if max(len(p["text"]["b"]), len(p["text"]["B"])) < 10 else 1000
    plan["heap"] = pick_heap(rng)
    if not big and len(c) < 5000 and rng.random() < .1:
        plan["guard"] = rng.choice("12")
    if rng.random() < .2:
        plan["reuse"] = "1"
    plan["stack"] = pick_stack(rng)
    plan["outbuf"] = str(rng.choice([0, 0, 1, 2]))
    case = dict(p=p, plan=plan, kind=kind, content=content)
    if rng.random() < .08:
        case["args"] = rng.choice([[], [p["cmd"]], [p["cmd"], "bounds.txt", "10", "x"], [p["cmd"], "bounds.txt", "-5"], [p["cmd"], "bounds.txt", "10x"], [p["cmd"], "bounds.txt", ""],
                                   [p["cmd"], "bounds.txt", "99999999999999999999"], [p["cmd"], "bounds.txt", "0"], ["", ""], [p["cmd"], ""]])
    return case


def huge_content(rng):
    """files of a megabyte or so that need not be computed: too many values to agree, values that come too often, endless numbers, thousands of lines"""
    n = rng.choice([20000, 65536, 100001, 140000, 300000, 300000, 1300000])
    small = rng.choice([[["0.5", 1]], [["0.1,0.2,0.5", 1]], [["x", 1]]])       # (never empty: a single long line of valid bounds would be a problem to compute)
    many = rng.choice([[["0,", n]], [["0.25,", n]], [["0.123456789012345678,", n // 4]], [[",", n]], [["0,", n // 2], ["1,", n // 2], ["0.5", 1]], [["nan,", n]], [[" ", n]],
                       [["0.", 1], ["3", n]], [["0", n], ["1", 1]], [["9", n]], [["0.5", 1], [" ", n], [",0.6", 1]], [["1e", 1], ["0", n], ["1", 1]], [["\0", n]], [["0.5\r", n // 4]], [["x", n]]])
    x = rng.random()
    if x < .4:
        return many + [["\n", 1]] + small + [["\n", rng.choice([0, 1])]]
    if x < .7:
        return small + [["\n", 1]] + many + [["\n", rng.choice([0, 1])]]
    if x < .8:
        return small + [["\n", 1]] + small + [["\n", 1]] + many + [["\n", 1]]
    if x < .9:
        return [["\n", n]] + small
    return many + [[",2", 1]]


def shrink_content(c):
    n = len(c)
    if not isinstance(c, str):
        for i in range(n):
            yield c[:i] + c[i + 1:]
        for f in (.1, .5, .9, .99):
            for i in range(n):
                if c[i][1] > 1:
                    yield c[:i] + [[c[i][0], int(c[i][1] * f)]] + c[i + 1:]
        return
    k = max(1, n // 2)
    while k >= 1:
        for i in range(0, n, k):
            yield c[:i] + c[i + k:]
        if k == 1 or n // k > 64:
            break
        k //= 2


class MessyProp(ProgProp):
    def run_of(self, case):
        run = to_run(case["p"], case["plan"], case["kind"], case.get("content"))
        if "args" in case:
            run["args"] = [run["name"] if a == "bounds.txt" else a for a in case["args"]]
        return run

    def shrinks(self, case):
        yield from super().shrinks(case)
        if case.get("content"):
            for c in shrink_content(case["content"]):
                yield dict(case, content=c)

    def gen(self, rng, index, tier):
        return messy_case(rng)

    def check(self, env, case):
        res = Result()
        run = self.run_of(case)
        r = self.execute(env, res, case, run)
        self.judge(res, case, run, r)
        asked = r["getenv"]                 # the variables that the program asks for
        for v in ("1", "trace.txt", "-1", "99999999999999999999", "") if asked else ():
            run = dict(run, env=[f"{k}={v}" for k in asked])
            self.judge(res, case, run, self.execute(env, res, case, run))
        return res


class C14(MessyProp):
    id = "C14"
    counts = {"quick": 48000, "thorough": 400000}
    rule = ("any command or command line on a valid, damaged, malformed, random, missing or directory bounds file, with a random mixture of read, open, write, memory, "
            "FFT-plan and clock faults and truncation during the run; non-trivial: a fault was met or the content is not valid; distinct: by the whole case")

    def gen(self, rng, index, tier):
        if tier == "thorough" and index == 1:       # more simulations than an int can count (25 s of CPU)
            return dict(p=dict(gen_problem(rng, 1), prog="crossprob_mc", cmd="ecdf", nsims=1), plan={"cpu": "60"}, kind="file", content="\n\n",
                        args=["ecdf", "bounds.txt", "2147483700"])
        return super().gen(rng, index, tier)

    def judge(self, res, case, run, r):
        met = sum(r["f"].values())
        res.nontrivial |= met > 0 or case.get("content") is not None
        kinds = sorted(k for k, v in r["f"].items() if v)
        res.situations.add("/".join([case["p"]["cmd"], case["kind"], "messy" if case.get("content") is not None else "valid", "+".join(kinds), ending(r)]))
        e = ending(r)
        if abnormal(r):
            res.fail("crash" if e.startswith("signal") else e, f"the run ended by {e}" + (f" after {r['n']['seam']} interactions" if e == "endless" else "") + (f"; {r['err'][-200:]!r}" if r["err"] else ""))
        elif r["memerr"]:
            res.fail("memory", r["memerr"])
        elif r["f"]["write_error"] == 0:
            if e == "exit0":
                if answer(r["out"]) is None:
                    res.fail("no-result", f"exit status 0 without a result: {r['out'][-200:]!r}")
            elif not (r["out"] + r["err"]).strip():
                res.fail("no-message", f"{e} without a message")


class C16(MessyProp):
    id = "C16"
    counts = {"quick": 32000, "thorough": 300000}
    rule = ("as for C14; the directory and the file's bytes are compared before and after each run, and every request that could change the file system is recorded; "
            "non-trivial: a fault was met; distinct: by the whole case")

    def judge(self, res, case, run, r):
        res.nontrivial |= sum(r["f"].values()) > 0
        res.extra["runs_with_system_call_filter"] = r["trap"]
        kinds = sorted(k for k, v in r["f"].items() if v)
        res.situations.add("/".join([case["p"]["cmd"], case["kind"], "+".join(kinds), ending(r)]))
        if r["wopen"]:
            res.fail("writes", f"requests that change the file system: {r['wopen']}")
        left, name = dict(r["left"]), run.get("name", "bounds.txt").replace("./", "")
        if case["kind"] == "file":
            want = run["content"]
            if r["f"]["truncation"]:
                k = int(case["plan"]["trunc"].split(":")[1])
                want = (want + "\0" * k)[:k]
            if left.get(name) != want:
                res.fail("modified", f"the bounds file was changed: {left.get('bounds.txt')!r:.200}")
            left.pop(name, None)
        elif case["kind"] in ("pipe", "dir"):
            if left.pop(name, None) != "<other>":
                res.fail("modified", "the bounds file was replaced")
        if left:
            res.fail("leftover", f"files left behind: {sorted(left)}")
