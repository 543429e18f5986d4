"""C23: computations on a machine whose memory is in proportion to the problem."""
from ..core import Prop, Result
from ..work import *
from .. import ref
from .files import REAL, STUB
from .lib import FNS, SessProp, cheap, gen_op, gen_fft_op, large_op, op_close, op_exact, is_valid, show, tiny_op, vary, invalid_op

BASE, PER_NUMBER, PER_BYTE = 1 << 20, 2000, 20


def big_bounds(rng, n, sides, levels):
    """many points, few distinct locations"""
    b, B = pick_bounds(rng, n, sides)
    return [int(x * levels) / levels for x in b], [min(1.0, (int(x * levels) + 1) / levels) for x in B]


class C23(Prop):
    id = "C23"
    counts = {"quick": 4000, "thorough": 60000}
    real, stub = sorted(set(REAL + SessProp.real)), sorted(set(STUB + SessProp.stub))
    assumptions = SessProp.assumptions + ["memory that FFTW itself requests for its plans is not counted"]
    rule = (f"a whole run of a program (any sizes, many simulations, long files), or a history of library calls, on a machine that has {BASE} + {PER_NUMBER} * (numbers) + {PER_BYTE} * (bytes of text) bytes of memory, "
            "and the same with plenty of memory; non-trivial: more than one request was made; distinct: by the whole case")
    measure = "command or session x size class x number of simulations or calls"

    def gen(self, rng, index, tier):
        if index % 3 == 2:
            if index % 60 == 2:                 # long histories of different small calls
                ops = []
                for _ in range(rng.choice([40, 100, 200])):
                    ops.append(tiny_op(rng) if rng.random() < .5 else vary(rng, rng.choice(ops)) if ops and rng.random() < .4 else gen_op(rng, 0))
                return dict(ops=[o for o in ops if cheap(o)][:600], plan={})
            ops = [rng.choice([gen_op(rng, 1), gen_fft_op(rng), gen_op(rng, 0), invalid_op(rng, gen_op(rng, 0))]) for _ in range(rng.randint(1, 6))]
            if index % 30 == 5:
                ops.append(large_op(rng))
            return dict(ops=ops, plan={})
        mc = rng.random() < .35
        if index % 30 == 10:                    # very many simulations
            p = dict(gen_problem(rng, 0, "crossprob_mc"), text=rng.choice([dict(b=["0.25"], B=[]), dict(b=[], B=["0.5"]), dict(b=["0.1"], B=["0.9"])]))
            p["text"].update(sep=",", tb=False, tB=False, eol=True, pre="")
            mc = True
        elif index % 3 == 1 and index % 48 != 13:
            p = gen_problem(rng, 1, "crossprob_mc" if mc else "crossprob")
        else:
            cmd = rng.choice(["ecdf", "poisson"]) if mc else rng.choice(CMDS1 + CMDS2)
            n = rng.choice([300, 600, 1000, 1500, 2500])
            if cmd == "ecdf2-ks2001":
                n = min(n, rng.choice([600, 1000, 1500]))
            if index % 48 == 13 and cmd != "ecdf2-ks2001":
                n = rng.choice([4000, 6000])
            sides = rng.choice("bB") if cmd in CMDS1 else rng.choice(["both", "both", "b", "B"])
            b, B = big_bounds(rng, n, sides, rng.choice([6, 12, 40]))
            p = dict(prog="crossprob_mc" if mc else "crossprob", cmd=cmd, text=dict(b=[repr(x) for x in b], B=[repr(x) for x in B], sep=rng.choice([",", ", "]), tb=False, tB=False, eol=True, pre=""))
            if mc:
                p["nsims"] = 1
        p.pop("name", None)
        if mc:
            n = max(1, len(p["text"]["b"]), len(p["text"]["B"]))
            p["nsims"] = rng.choice([1500000, 3000000]) if index % 30 == 10 else max(1, rng.choice([1, 100, 10000, 100000, 300000]) // n)
        case = dict(p=p, plan=dict(clock=str(pick_clock(rng))) if mc else {})
        if rng.random() < .2:
            case["more"] = [rng.choice(["0.5, 0.25\n", "#\n", "x" * 60 + "\n", "\n", "0" * 500]), rng.choice([1, 40, 1000, 4000])]      # text after the two lines
        return case

    def shrinks(self, case):
        if "ops" in case:
            for ops in SessProp.shrink_ops(case["ops"]):
                yield dict(case, ops=ops)
            return
        if "more" in case:
            yield {k: v for k, v in case.items() if k != "more"}
        if case["p"].get("nsims", 0) > 1:
            for k in (1, case["p"]["nsims"] // 2):
                yield dict(case, p=dict(case["p"], nsims=k))
        for t in shrink_text(case["p"]["text"]):
            yield dict(case, p=dict(case["p"], text=t))

    def check(self, env, case):
        return self.session(env, case) if "ops" in case else self.program(env, case)

    def program(self, env, case):
        res = Result()
        p = case["p"]
        content = render(p["text"]) + ("" if "more" not in case else case["more"][0] * case["more"][1])
        numbers = len(p["text"]["b"]) + len(p["text"]["B"])
        quota = BASE + PER_NUMBER * numbers + PER_BYTE * len(content)
        runs = []
        for plan in (case["plan"], dict(case["plan"], quota=str(quota))):
            run = to_run(p, plan)
            run["content"] = content
            r = env.prog(run)
            runs.append(r)
            res.note(ending(r), r["out"])
            res.trace += describe(run) + [f"  -> {ending(r)} {r['out'][-100:]!r}; at most {r['live'][3]} bytes at a time in {r['n']['alloc']} requests"]
        a, b = runs
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))
        res.nontrivial = a["n"]["alloc"] > 1
        res.situations.add("/".join([p["cmd"], str(n.bit_length()), str(p.get("nsims", 0).bit_length() // 4), "long" if "more" in case else ""]))
        if ending(a) == "exit0" and (ending(b), b["out"]) != (ending(a), a["out"]):
            res.fail("memory-need", f"{p['cmd']} with {numbers} numbers in {len(content)} bytes" + (f", {p['nsims']} simulations" if "nsims" in p else "") + f": with {quota} bytes of memory {ending(b)} {b['out'][-80:]!r}, "
                     f"with plenty {ending(a)} {a['out'][-40:]!r} and at most {a['live'][3]} bytes at a time")
        return res

    def session(self, env, case):
        res = Result()
        ops = case["ops"]
        numbers = max(len(o["b"]) + len(o["B"]) for o in ops)
        quota = BASE + PER_NUMBER * numbers
        runs = []
        for plan in (case["plan"], dict(case["plan"], quota=str(quota))):
            r = env.sess(dict(ops=ops, plan=plan))
            runs.append(r)
            res.note([ending(r), r["memerr"], [o[:2] for o in r["ops"]]])
            res.trace.append(f"{len(ops)} calls, memory {plan.get('quota', 'plenty')}: {ending(r)} {r['memerr']}; at most {r['live'][3]} bytes at a time")
            for i, o in enumerate(ops[:12]):
                st, val = r["ops"][i][0], r["ops"][i][1]
                res.trace.append(f"  {i}: {show(o)} -> {st} {val}")
        a, b = runs
        res.nontrivial = a["n"]["alloc"] > 1
        res.situations.add("/".join(["session", str(numbers.bit_length()), str(len(ops).bit_length())]))
        if ending(a) != "exit0" or a["memerr"]:
            return res
        for i, o in enumerate(ops):
            x, y = a["ops"][i], b["ops"][i]
            if x[0] == 1 and (y[0] != 1 or x[1] != y[1] and not op_close(o, float.fromhex(y[1]), float.fromhex(x[1]))):
                res.fail("memory-need", f"call {i} of {len(ops)} ({show(o)}) with {quota} bytes of memory: status {y[0]} {y[2]!r}; with plenty: {float.fromhex(x[1])!r}, and the session used at most {a['live'][3]} bytes at a time")
                break
        return res
