"""C22: the exact commands in worlds that differ in everything but the command and the file's bytes."""
import os

from ..core import Result
from ..work import *
from .. import ref
from .files import ProgProp, messy_content, shrink_content

VARIABLES = ["LC_ALL=C", "LANG=C.UTF-8", "LC_NUMERIC=POSIX", "TZ=UTC+5", "HOME=/nowhere", "USER=x", "TERM=dumb", "COLUMNS=3", "OMP_NUM_THREADS=3", "MALLOC_PERTURB_=9", "POSIXLY_CORRECT=1", "TMPDIR=/nowhere",
             "LANGUAGE=de", "PATH=", "GLIBC_TUNABLES=glibc.malloc.perturb=9"]
GERMAN = ["LOCPATH=@BUILD@/locale", "@=de_DE.UTF-8"]        # a decimal comma


_words = None


def pick_word(rng):
    """one of the short strings in the programs"""
    global _words
    if _words is None:
        path = os.environ.get("DST_WORDS")
        _words = (open(path).read().split("\n") if path and os.path.exists(path) else []) or ["x"]
    return rng.choice(_words)


def pick_env(rng):
    e = [f"V{i}=" + "z" * rng.randint(0, 300) for i in range(rng.randint(0, 4))] + rng.sample(VARIABLES, rng.randint(0, 3))
    if rng.random() < .4:
        e = [x for x in e if not x.startswith("L")] + [GERMAN[0], GERMAN[1].replace("@", rng.choice(["LC_ALL", "LC_ALL", "LC_ALL", "LANG"]))] + (["LC_ALL="] if e and rng.random() < .3 else [])
    return e


def world_run(p, w, e, content=None):
    """p in the world w with the environment e"""
    q, kind = dict(p, name=w.get("name", p.get("name", "bounds.txt"))), w.get("kind")
    run = to_run(q, {k: v for k, v in w.items() if k not in ("elsewhere", "name", "kind", "argv0", "stdin", "files")}, content=content, env=e)
    if kind == "absolute":
        run["absolute"] = True
    elif kind and (kind != "pipe" or len(run["content"]) < 60000):
        run["kind"] = kind
    for k in ("elsewhere", "argv0", "stdin", "files"):
        if k in w:
            run[k] = w[k]
    return run


STDIN = ["1\n", "\n", "0.5, 0.7\n\n", "y\n", "\n.1\n"]


class C22(ProgProp):
    id = "C22"
    counts = {"quick": 12000, "thorough": 150000}
    rule = ("one exact command on one file (valid, every sixth case damaged or malformed) run in three worlds that differ in the file's name, file or pipe, environment (also a locale with a decimal comma), clock, process "
            "identity, entropy, machine, memory contents and placement, stack and addresses, and the buffering of standard output; the variables that the program asks for are then set, too; non-trivial: a problem was computed; distinct: by the whole case")
    measure = "command x size class x valid or not x what differs"

    def gen(self, rng, index, tier):
        p = gen_problem(rng, 3 if index % 800 == 9 else 2 if index % 80 == 9 else 1 if index % 3 == 0 else 0, "crossprob")
        p.pop("name", None)
        if index % 100 == 11:
            widen(rng, p["text"])
        worlds = [[dict(clock="1500000000", heap="0:0", stack="0:0:0", entropy="1", pid="100"), []]]
        for k in range(2):
            w = dict(clock=clock_plan(rng, pick_clock(rng)), heap=pick_heap(rng), stack=pick_stack(rng), entropy=str(rng.getrandbits(60)), pid=str(rng.randint(2, 4000000)), outbuf=str(rng.choice([0, 1, 2])))
            if rng.random() < .3:
                w["reuse"] = "1"
            if rng.random() < .25:
                w["elsewhere"] = "1"
            if rng.random() < .3:
                w["name"] = rng.choice([rng.choice(NAMES), pick_word(rng), "b" + pick_word(rng), pick_word(rng) + ".txt", "b" + pick_word(rng) + ".txt"])
            if rng.random() < .5:
                w["kind"] = rng.choice(["pipe", "link", "stdin", "absolute"])
            if rng.random() < .3:
                w["argv0"] = rng.choice(["./bin/crossprob", "/usr/bin/crossprob", "", "crossprob-" + p["cmd"], "x", pick_word(rng), rng.choice(CMDS1 + CMDS2)])
            if rng.random() < .3:
                w["stdin"] = rng.choice(STDIN)
            worlds.append([w, pick_env(rng)])
        case = dict(p=p, worlds=worlds, values=["12345", "3", "", pick_word(rng)], others=["", "1\n", "0.25\n", pick_word(rng) + "=1\n"])
        if index % 800 == 9:
            for w, _ in worlds:
                w["cpu"] = "100"
        if index % 6 == 1:
            case["content"] = messy_content(rng)
        return case

    def shrinks(self, case):
        if len(case["worlds"]) > 2:
            for i in range(len(case["worlds"])):
                yield dict(case, worlds=case["worlds"][:i] + case["worlds"][i + 1:])
        for i, (w, e) in enumerate(case["worlds"]):
            for j in range(len(e)):
                yield dict(case, worlds=case["worlds"][:i] + [[w, e[:j] + e[j + 1:]]] + case["worlds"][i + 1:])
            for k in w:
                yield dict(case, worlds=case["worlds"][:i] + [[{a: b for a, b in w.items() if a != k}, e]] + case["worlds"][i + 1:])
        if case.get("content"):
            for c in shrink_content(case["content"]):
                yield dict(case, content=c)
        for v in case["others"]:
            yield dict(case, others=[x for x in case["others"] if x != v])
        for v in case["values"]:
            yield dict(case, values=[x for x in case["values"] if x != v])
        for t in shrink_text(case["p"]["text"]):
            yield dict(case, p=dict(case["p"], text=t))

    def check(self, env, case):
        res = Result()
        p, seen, asked, files = case["p"], [], set(), set()
        n = max(len(p["text"]["b"]), len(p["text"]["B"]))

        def one(w, e, what):
            run = world_run(p, w, e, case.get("content"))
            for k, on in (("other_clock", w.get("clock") != "1500000000"), ("other_environment", bool(e)), ("other_name_or_kind", "name" in w or "kind" in w), ("other_addresses", "elsewhere" in w), ("other_files", "files" in w)):
                env.faults[k] = env.faults.get(k, 0) + on
            r = env.prog(run)
            res.note(ending(r), r["out"])
            res.trace += describe(run) + [f"  -> {ending(r)} {r['out'][-100:]!r} {r['err'][-100:]!r}"]
            asked.update(r["getenv"])
            files.update(f.replace(run["name"], "@NAME@") for f in r["asked"])
            seen.append((what, ending(r), answer(r["out"]), r["out"]))
            res.nontrivial |= answer(r["out"]) is not None
            res.situations.add("/".join([p["cmd"], str(min(3, n // 60)), "messy" if "content" in case else "valid", "+".join(sorted(set(w) & {"name", "kind", "argv0", "stdin", "elsewhere"}) + ["comma"] * any("de_DE" in x for x in e))]))

        for i, (w, e) in enumerate(case["worlds"]):
            one(w, e, f"world {i}")
        for v in case["values"] if asked else ():           # the variables that the program asks for
            one(case["worlds"][0][0], [f"{k}={v}" for k in sorted(asked)], f"with {sorted(asked)} set to {v!r}")
        names = sorted(f.replace("@NAME@", case["worlds"][0][0].get("name", "bounds.txt")) for f in files)[:4]
        for v in [*case["others"], None] if names else ():      # other files that the program asks for
            v = unpack(case["content"]) if v is None and "content" in case else render(p["text"]) if v is None else v
            one(dict(case["worlds"][0][0], files=[[f, v] for f in names]), [], f"with other files {names} that hold {v[:40]!r}")
        _, e0, a0, o0 = seen[0]
        for what, e, a, o in seen[1:]:
            if e != e0 or (a is None) != (a0 is None) or (a is not None and not (ref.cli_close(a, a0) or a != a and a0 != a0)):
                res.fail("depends-on-world", f"{p['cmd']} on the same file: {seen[0][0]}: {e0} {o0[-80:]!r}; {what}: {e} {o[-80:]!r}")
        return res
