"""C25: boundaries files read again and again inside one process."""
import re, struct
from ..core import Result
from ..work import *
from .lib import SessProp, gen_op, gen_fft_op, invalid_op, show, is_valid, op_exact, op_close, STATUS
from .files import messy_content, shrink_content


def answer_of(t):
    """what reading a valid file gives"""
    v = values(t)
    h = 1469598103934665603
    for x in struct.pack("<%dd" % (len(v[0]) + len(v[1])), *v[0], *v[1]):
        h = (h ^ x) * 1099511628211 & (1 << 64) - 1
    return "%d and %d numbers, %016x" % (len(v[0]), len(v[1]), h)


def content_of(o):
    return render(o["text"]) if "text" in o else o["content"]


def near(rng, t):
    """a file that is much like another: one character changed, one number less, another spelling, the lines swapped"""
    t0, t = t, dict(t, b=list(t["b"]), B=list(t["B"]))
    k = rng.choice([k for k in "bB" if t[k]])
    i = rng.randrange(len(t[k]))
    x = rng.random()
    if x < .5:
        d = [j for j, c in enumerate(t[k][i]) if c.isdigit()]
        j = rng.choice(d)
        t[k][i] = t[k][i][:j] + rng.choice("0123456789") + t[k][i][j + 1:]
    elif x < .65 and len(t[k]) > 1:
        del t[k][i]
    elif x < .75:
        t["b"], t["B"] = t["B"], t["b"]
    elif x < .85:
        t["eol"] = not t["eol"]
    else:
        t[k].insert(i, rng.choice(t[k]))
    ok = all(x == 0 and not re.search("[1-9]", re.split("[eE]", y)[0]) or 1e-300 < abs(x) < 1e300 for y, x in zip(t["b"] + t["B"], sum(values(t), [])))
    return t if ok else t0                              # (numbers too small or large to represent are refused)


class C25(SessProp):
    id = "C25"
    counts = {"quick": 16000, "thorough": 250000}
    measure = "kind of file x fault kind x outcome x what came before (a failed call, the same name, a computation)"
    rule = ("a session of 2 to 20 calls in one process: readings of boundaries files (valid and malformed, also missing ones and directories), rewritten between the readings under the same and other names, "
            "with open, read and memory failures at chosen requests and short and interrupted reads, mixed with computations; every 10th case repeats one reading 40 times; non-trivial: two readings or more; distinct: by the whole case")
    real = ["read_and_check_boundaries_file and the library's functions (repository code, the Makefile's flags)", "libstdc++ file streams, glibc number parsing"]
    stub = ["open/read of the bounds file (scripted results over the real file's bytes)", "memory requests of repository code and libstdc++ (simulated allocator)"]
    assumptions = ["what a malformed file gives is what a process gives that reads nothing else; the process keeps the C locale's decimal point, as the programs do"]

    def reading(self, rng, names, texts, big=0, wide=False):
        o = dict(fn="read", name=rng.choice(names))
        x = rng.random()
        if x < .06:
            o.update(kind=rng.choice(["missing", "dir"]), content="")
        elif x < .22:
            o["content"] = messy_content(rng)
        else:
            t = near(rng, rng.choice(texts)) if texts and rng.random() < .5 else rng.choice(texts) if texts and rng.random() < .3 else gen_problem(rng, big)["text"]
            if wide and rng.random() < .2:
                t = widen(rng, dict(t), 700000)
            texts.append(t)
            o["text"] = t
        return self.trouble(rng, o)

    @staticmethod
    def trouble(rng, o):
        c = content_of(o)
        x = rng.random()
        if x < .1:
            o["opens"] = script([-rng.choice(OPEN_ERRNOS)] * rng.randint(1, 2), rng.choice([0, -EIO]))
        elif x < .35:
            nl = c.find("\n") + 1
            off = rng.choice([0, nl, max(0, nl - 1), len(c), rng.randint(0, len(c)), rng.randint(min(nl, len(c)), len(c))])
            e = rng.choice(READ_ERRNOS)
            o["reads"] = script(reads_reaching(rng, off) + [-e] * rng.choice([1, 1, 2]), rng.choice([0, 0, -e]))
        elif x < .55:
            v, tail = benign_reads(rng, len(c))
            if v or tail:
                o["reads"] = script(v, tail)
        elif x < .7:
            i = rng.choice([0, 1, 2, rng.randint(0, 12), rng.randint(0, 40)])
            o["alloc"] = rng.choice([str(i), str(i), f"{i}-{i + rng.randint(1, 4)}", f"{i}-100000000"])
        return o

    def gen(self, rng, index, tier):
        names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
        texts, ops = [], []
        if index % 10 == 3:
            o = self.reading(rng, names, texts, int(rng.random() < .3))
            return dict(ops=[o] * 40, plan=dict(heap=pick_heap(rng)) if rng.random() < .3 else {})
        for _ in range(rng.choice([2, 3, 4, 6, 8, 12, 20])):
            if ops and rng.random() < .18:
                q = rng.choice([o for o in ops])
                ops.append(dict(q))
                continue
            if rng.random() < .15:
                o = gen_fft_op(rng) if rng.random() < .2 else gen_op(rng, 0)
                ops.append(invalid_op(rng, o) if rng.random() < .3 else o)
                continue
            ops.append(self.reading(rng, names, texts, 2 if index % 40 == 7 else 1 if index % 4 == 0 else 0, index % 50 == 9))
        if len(ops) > 1 and ops[-1]["fn"] == "read":
            ops += [ops[-1]] * rng.choice([0, 3])
        plan = dict(heap=pick_heap(rng)) if rng.random() < .3 else {}
        if rng.random() < .4:
            plan["reuse"] = "1"
        return dict(ops=ops, plan=plan)

    def shrinks(self, case):
        ops = case["ops"]
        if case["plan"]:
            yield dict(case, plan={})
        k = len(ops) // 2
        while k >= 1:
            for i in range(0, len(ops), k):
                if ops[:i] + ops[i + k:]:
                    yield dict(case, ops=ops[:i] + ops[i + k:])
            k //= 2
        for i, o in enumerate(ops):
            if o["fn"] != "read" or o in ops[:i]:
                continue
            qs = [{a: b for a, b in o.items() if a != k} for k in ("opens", "reads", "alloc") if k in o]
            qs += [dict(o, text=t) for t in shrink_text(o["text"])] if "text" in o else [dict(o, content=c) for c in shrink_content(o["content"])] if o["content"] else []
            for q in qs:
                yield dict(case, ops=[q if x == o else x for x in ops])

    @staticmethod
    def show(o):
        if o["fn"] != "read":
            return show(o)
        c = content_of(o)
        return f"read {o['name']!r} ({o.get('kind', 'file')}, {len(c)} bytes: {c[:80]!r}{'...' if len(c) > 80 else ''})" + "".join(f"  {k} = {o[k]}" for k in ("opens", "reads", "alloc") if k in o)

    def session(self, env, res, ops, plan):
        r = env.sess(dict(ops=[dict(o, content=content_of(o)) if o["fn"] == "read" else o for o in ops], plan=plan))
        res.note([ending(r), r["memerr"], r["op"], r["ops"], r["f"]])
        res.trace += [f"{k} = {v}" for k, v in plan.items()]
        for i, o in enumerate(ops):
            x = r["ops"][i]
            res.trace.append(f"{i}: {self.show(o)} -> {STATUS[x[0]]} " + repr(x[2] if o["fn"] == "read" or x[0] > 1 else float.fromhex(x[1])))
        res.trace.append(f"session: {ending(r)} {r['memerr']}")
        return r

    def check(self, env, case):
        res = Result()
        ops = case["ops"]
        r = self.session(env, res, ops, case["plan"])
        e = ending(r)
        if e != "exit0" or r["memerr"]:
            res.fail("crash", f"{e} {r['memerr']} in call {r['op']}: {self.show(ops[min(r['op'], len(ops) - 1)])}")
            return res
        res.nontrivial = sum(o["fn"] == "read" for o in ops) > 1
        alone = {}
        for i, o in enumerate(ops):
            st, val, what, na, nf, fa, ff, lb, ly, lp, fio, fds = r["ops"][i]
            name = f"call {i}, {self.show(o)}"
            if o["fn"] != "read":
                if is_valid(o) and not (st == 1 and op_close(o, float.fromhex(val), op_exact(o))):
                    res.fail("computation", f"{name}: {STATUS[st]} {val} {what!r}")
                continue
            p = ops[i - 1] if i else None
            res.situations.add("/".join([o.get("kind", "valid" if "text" in o else "other"), "io" if fio else "memory" if fa else "split" if "reads" in o else "", str(st),
                                         "first" if not p else "computed" if p["fn"] != "read" else ("failed" if r["ops"][i - 1][0] > 1 else "ok") + ("same" if p["name"] == o["name"] else "other")]))
            if fds > 0:
                res.fail("descriptors", f"{name}: {fds} more open afterwards")
            if i > 2 and ops[i - 3] == ops[i - 2] == ops[i - 1] == o:
                for j, w in ((7, "blocks"), (8, "bytes")):
                    d = [r["ops"][k][j] - r["ops"][k - 1][j] for k in (i - 2, i - 1, i)]
                    if min(d) > 0:
                        res.fail("left-behind", f"{name}, again and again: each call leaves {min(d)} more {w} of memory")
            if "text" in o and not o.get("kind"):
                want = [1, answer_of(o["text"])]
            else:
                key = repr((o.get("kind"), content_of(o)))
                if key not in alone:
                    q = {k: v for k, v in o.items() if k not in ("opens", "reads", "alloc")}
                    a = self.session(env, res, [q], {})
                    alone[key] = [a["ops"][0][0], a["ops"][0][2], o["name"]]
                    if ending(a) != "exit0" or a["memerr"]:
                        res.fail("crash", f"{ending(a)} {a['memerr']} in {self.show(q)}")
                want = alone[key][:2]
            if st == 0 or st == 5:
                res.fail("outcome", f"{name}: {STATUS[st]}")
            if fio and st == 1 and (what != want[1] or not content_of(o).count("\n") > 1):
                res.fail("answer-from-part", f"{name}: an open or read failed, yet it returned {what}")
            elif (fio or fa) and st != 1:
                continue
            elif st != want[0] or st == 1 and what != want[1]:
                res.fail("wrong", f"{name}: {STATUS[st]} {what!r}; the file holds {want[1] if want[0] == 1 else 'what is refused: ' + repr(want[1])}")
        res.extra["calls"] = len(ops)
        return res
