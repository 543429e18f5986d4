"""Workload: boundary problems, boundaries files, environment plans; reference results; shrinkers."""
import math, re
from . import ref

CMDS2 = ("ecdf2-ks2001", "ecdf2-mn2017")
CMDS1 = ("ecdf1-new", "ecdf1-mns2016")
MCCMDS = ("ecdf", "poisson")
EIO, EINTR, EAGAIN, EBADF, ENOMEM, EACCES, EISDIR, EINVAL, ENOSPC, EPIPE, ETIMEDOUT, ESTALE, ENXIO, EFBIG, EDQUOT, EMFILE, ENFILE, ELOOP, EPERM, EOVERFLOW = \
    5, 4, 11, 9, 12, 13, 21, 22, 28, 32, 110, 116, 6, 27, 122, 24, 23, 40, 1, 75
READ_ERRNOS = [EIO, EIO, EIO, EBADF, EINVAL, EISDIR, ETIMEDOUT, ESTALE, ENXIO, ENOMEM, EAGAIN, EOVERFLOW, EPERM]
OPEN_ERRNOS = [EACCES, EMFILE, ENFILE, EIO, ENXIO, ELOOP, ETIMEDOUT, EPERM, ENOMEM, EOVERFLOW]
WRITE_ERRNOS = [ENOSPC, ENOSPC, EIO, EPIPE, EFBIG, EDQUOT, EBADF, EAGAIN, EINTR]


# ---- boundaries ---------------------------------------------------------------------------------------------------
def pick_n(rng, big):
    """big: 0 small only, 1 sometimes up to a few hundred, 2 often large, 3 thousands"""
    if big == 3:
        return rng.choice([2047, 2048, 2049, 2050, 2100, 2500, 3000, 3071, 3072, 3073, 3500, 4095, 4096, 4097, 5000, 6145])
    x = rng.random()
    if big == 0 or x < (0.75 if big == 1 else 0.4):
        return rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 12]) if rng.random() < .6 else rng.randint(1, 24)
    if x < (0.93 if big == 1 else 0.65):
        return rng.choice([15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 100]) if rng.random() < .6 else rng.randint(13, 125)
    if x < (0.985 if big == 1 else 0.9):
        return rng.choice([126, 127, 128, 129, 130, 150, 200, 257, 300])
    return rng.choice([1022, 1023, 1024, 1025, 1030, 1100, 1200])


def quant(v, levels):
    return [round(x * levels) / levels for x in v]


def pick_bounds(rng, n, sides):
    """-> (b, B) as floats; sides in 'both', 'b', 'B'. Large problems get few distinct locations, so that they stay cheap."""
    shape = rng.choice(["band", "band", "band", "wide", "random", "levels", "trivial", "mixed", "late"])
    c = rng.choice([0.4, 0.6, 0.9, 1.2, 1.8, 3.0]) / math.sqrt(n)
    if shape == "band":
        b = [(i + .5) / n - c * rng.uniform(.9, 1.1) for i in range(n)]
        B = [(i + .5) / n + c * rng.uniform(.9, 1.1) for i in range(n)]
    elif shape == "wide":
        b = [(i + .5) / n - 2.5 * c for i in range(n)]
        B = [(i + .5) / n + 2.5 * c for i in range(n)]
    elif shape == "random":
        b = sorted(rng.random() ** 3 for _ in range(n))
        B = sorted(1 - rng.random() ** 3 for _ in range(n))
        if n > 12:
            b = [x * .8 for x in b]
            B = [.2 + .8 * x for x in B]
            b = [min(x, (i + .5) / n) for i, x in enumerate(b)]
            B = [max(x, (i + .5) / n) for i, x in enumerate(B)]
    elif shape == "levels":
        b = quant([max(0, (i + .5) / n - c) for i in range(n)], rng.choice([4, 8, 10]))
        B = quant([min(1, (i + .5) / n + c) for i in range(n)], rng.choice([4, 8, 10]))
        b = [min(x, (i + .5) / n) for i, x in enumerate(b)]
        b = [max(b[:i + 1]) for i in range(n)]
        B = [max(x, (i + .5) / n) for i, x in enumerate(B)]
        B = [max(B[:i + 1]) for i in range(n)]
    elif shape == "trivial":
        b, B = [0.0] * n, [1.0] * n
        if rng.random() < .7:
            b[-1] = rng.uniform(.3, .9)
        if rng.random() < .7:
            B[0] = rng.uniform(.1, .9)
    elif shape == "mixed":
        b = [max(0, (i + .5) / n - c) if i % 2 else 0.0 for i in range(n)]
        B = [min(1, (i + .5) / n + c) if i % 3 else 1.0 for i in range(n)]
    else:
        b = [0.0] * (n - n // 3) + [(i + .5) / n - c for i in range(n - n // 3, n)]
        B = [(i + .5) / n + c for i in range(n // 3)] + [1.0] * (n - n // 3)
    if n > 320:
        b, B = quant(b, 16), quant(B, 16)
    elif n > 140:
        b, B = quant(b, 60), quant(B, 60)
    b, B = sorted(min(1.0, max(0.0, x)) for x in b), sorted(min(1.0, max(0.0, x)) for x in B)
    if rng.random() < .04:        # an empty interval: probability zero
        k = rng.randrange(n)
        b, B = [x if i < k else max(x, .75) for i, x in enumerate(b)], [min(x, .5) if i <= k else x for i, x in enumerate(B)]
    return (b if sides != "B" else []), (B if sides != "b" else [])


def fmt_numbers(rng, v):
    """one spelling for a whole list (rounding is monotone, so a sorted list stays sorted)"""
    k = rng.random()
    if k < .45:
        d = rng.choice([1, 2, 3, 4, 6, 8, 12, 17, 20])
        return ["%.*f" % (d, x) for x in v]
    if k < .6:
        d = rng.choice([1, 3, 6, 16])
        return ["%.*e" % (d, x) for x in v]
    if k < .7:
        d = rng.choice([3, 9])
        return [("%.*f" % (d, x)).replace("0.", ".", 1) if 0 < x < 1 and float("%.*f" % (d, x)) not in (0, 1) else "%.*f" % (d, x) for x in v]
    if k < .75:
        return ["+%.5f" % x for x in v]
    if k < .85:
        pad = rng.choice([30, 300, 3000]) if len(v) <= 12 else 25
        return ["%.4f" % x + "0" * pad for x in v]
    return [repr(x) for x in v]


def gen_text(rng, b, B):
    t = dict(b=fmt_numbers(rng, b), B=fmt_numbers(rng, B), sep=rng.choice([",", ", ", ",  ", ",\t", ", "]), tb=rng.random() < .3, tB=rng.random() < .3,
             eol=rng.random() < .65, pre=rng.choice(["", "", " ", "\t"]))
    if rng.random() < .05 and len(b) + len(B) <= 24:
        t["sep"] = "," + " " * rng.choice([4000, 8189, 8190, 8191, 8192])
    return t


def widen(rng, t, most=3000000):
    """lines of hundreds of kilobytes, for problems of few numbers"""
    n = len(t["b"]) + len(t["B"])
    if n <= 24:
        g = rng.choice([32768, 65535, 65536, 131072, 262144, 300000, 1100000])
        t["gap"] = min(g // rng.choice([1, 1, 3, 8, n]), most // n)
    return t


def render(t):
    sep = t["sep"] + " " * t.get("gap", 0)
    l1 = t["pre"] * bool(t["b"]) + sep.join(t["b"]) + ("," if t["tb"] and t["b"] else "")
    l2 = t["pre"] * bool(t["B"]) + sep.join(t["B"]) + ("," if t["tB"] and t["B"] else "")
    # an unterminated empty second line would not exist
    return l1 + "\n" + l2 + ("\n" if t["eol"] or not l2 else "")


def values(t):
    return [float(x) for x in t["b"]], [float(x) for x in t["B"]]


NAMES = ["b", "x.csv", "bounds.csv.gz", "my bounds.txt", "./bounds.txt", "-b.txt", "0", "1e3", "%s%n.txt", "bounds.TXT", "b\u00fc.txt", "b;ls", "~", "a,b", ".hidden", "x" * 200 + ".txt", "bounds.bin", "bounds.npy", "b*?[1].txt", "ecdf", "10"]


def gen_problem(rng, big=1, prog=None):
    """-> dict(prog, cmd, text, nsims); a valid use of one of the programs"""
    p = gen_problem_(rng, big, prog)
    if rng.random() < .08:
        p["name"] = rng.choice(NAMES)
    return p


def gen_problem_(rng, big, prog):
    prog = prog or ("crossprob_mc" if rng.random() < .35 else "crossprob")
    if prog == "crossprob":
        cmd = rng.choice(CMDS1 + CMDS2)
        n = pick_n(rng, big)
        if cmd == "ecdf2-ks2001" and n > 300:
            n = rng.choice([128, 200, 300])
        if cmd == "ecdf1-mns2016" and n > 3500:          # seconds of computing
            n = rng.choice([3073, 3500, 4097])
        sides = rng.choice(["b", "B"]) if cmd in CMDS1 else rng.choice(["both", "both", "both", "b", "B"])
        b, B = pick_bounds(rng, n, sides)
        return dict(prog=prog, cmd=cmd, text=gen_text(rng, b, B))
    cmd = rng.choice(MCCMDS)
    n = pick_n(rng, min(big, 1))
    n = min(n, 130)
    sides = rng.choice(["both", "both", "b", "B"])
    b, B = pick_bounds(rng, n, sides)
    if sides == "both" and rng.random() < .4:
        B = B[:rng.randrange(0, n + 1)]
    nsims = rng.choice([1, 2, 5, 10, 50, 100, 300]) if n < 20 else rng.choice([1, 5, 20])
    return dict(prog=prog, cmd=cmd, text=gen_text(rng, b, B), nsims=nsims)


def unpack(content):
    """file contents as a string, or as [[piece, repetitions], ...]"""
    return content if isinstance(content, str) else "".join(s * n for s, n in content)


def to_run(p, plan=None, kind="file", content=None, env=()):
    args = [p["cmd"], p.get("name", "bounds.txt")] + ([str(p["nsims"])] if p["prog"] == "crossprob_mc" else [])
    return dict(prog=p["prog"], args=args, kind=kind, content=render(p["text"]) if content is None else unpack(content), plan=dict(plan or {}), env=list(env),
                name=p.get("name", "bounds.txt"))


def exact(p, b=None, B=None):
    """the exact probability that the program is asked for"""
    if b is None:
        b, B = values(p["text"])
    n = max(len(b), len(B))
    if p["prog"] == "crossprob":
        return ref.ecdf(n, b, B)
    return ref.ecdf(n, b, B) if p["cmd"] == "ecdf" else ref.poisson(n, b, B)


# ---- reading results ------------------------------------------------------------------------------------------------
NUM = re.compile(r"^\s*[-+]?((\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?|-?nan|inf(inity)?)\s*$", re.I)


def numeric_lines(out):
    return [l for l in out.split("\n") if l.strip() and NUM.match(l)]


def answer(out):
    """the probability printed, or None; a complete result is one line holding one number"""
    nl = numeric_lines(out)
    if len(nl) != 1 or not out.endswith("\n"):
        return None
    return float(nl[0])


def ending(r):
    if r["hang"]:
        return "hang"
    if r["how"] == 3:
        return "endless"
    if r["sig"]:
        return "signal%d" % r["sig"]
    return "exit%d" % r["exit"]


def abnormal(r):
    e = ending(r)
    return None if e.startswith("exit") else e


def obs(r):
    return [ending(r), r["out"], r["memerr"], r["n"], r["f"], r["delivered"], r["live"], sorted(r["left"].items()) if len(r["left"]) < 5 else 0]


# ---- plans ----------------------------------------------------------------------------------------------------------
def benign_reads(rng, length, style=None):
    """a script of reads that deliver everything: short reads and interruptions"""
    style = style or rng.choice(["none", "ones", "small", "some", "some", "buffer", "eintr", "mix"])
    if style == "none":
        return [], 0
    if style == "ones":
        return ([1] * min(length, 600), 0) if length > 600 else ([], 1)
    if style == "small":
        return [rng.randint(1, 7) for _ in range(min(200, length))], 0
    if style == "buffer":
        return [rng.choice([4095, 4096, 8190, 8191, 1, 2]) for _ in range(rng.randint(1, 12))], 0
    out = []
    for _ in range(rng.randint(1, 40)):
        if style == "eintr" or rng.random() < .3:
            out += [-EINTR] * rng.randint(1, 3)
        if style != "eintr" or rng.random() < .5:
            out.append(rng.choice([1, 2, 3, 5, 17, 100, 1000]))
        else:
            out.append(0)
    return out, 0


def script(v, tail=0):
    out, i = [], 0
    while i < len(v):
        j = i
        while j < len(v) and v[j] == v[i]:
            j += 1
        out.append(f"{v[i]}x{j - i}" if j - i > 1 else str(v[i]))
        i = j
    return ",".join(out) + (f";{tail}" if tail else "") or "0"


def unscript(s):
    s, _, tail = s.partition(";")
    out = []
    for t in s.split(","):
        if t:
            a, _, k = t.partition("x")
            out += [int(a)] * int(k or 1)
    return out, int(tail or 0)


def reads_reaching(rng, offset):
    """a script whose reads have delivered exactly `offset` bytes at its end"""
    out, left = [], offset
    mode = rng.choice(["one", "two", "many", "ones"])
    if mode == "one" and offset <= 8191:
        return [offset] if offset else []
    while left > 0 and len(out) < 400:
        k = {"one": 8191, "two": rng.choice([(offset + 1) // 2, 8191]), "many": rng.randint(1, 40) if offset < 4000 else rng.randint(1, 8191), "ones": 1 if offset < 380 else 997}[mode]
        k = max(1, min(k, left, 8191))
        out.append(k)
        left -= k
    if rng.random() < .3 and out:
        i = rng.randrange(len(out) + 1)
        out[i:i] = [-EINTR] * rng.randint(1, 2)
    return out


def pick_heap(rng):
    return f"{rng.getrandbits(40)}:{rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 5])}"


def pick_stack(rng):
    return f"{rng.getrandbits(40)}:{rng.choice([0, 1, 2, 5])}:{rng.randint(0, 200)}"


CLOCKS = [0, 1, -1, 2, 255, 256, 65535, 86399, 86400, 946684800, 1234567890, 1500000000, 1600000000, 1700000000, 1700000001, 2147483646, 2147483647, 2147483648,
          4294967295, 4294967296, 4294967297, 1 << 33, 1 << 40, (1 << 62), -2, -1000, -2147483648, -(1 << 40)]


def pick_clock(rng):
    k = rng.random()
    if k < .35:
        return rng.choice(CLOCKS)
    if k < .8:
        return rng.randint(1500000000, 2000000000)
    return rng.randint(-(1 << 45), 1 << 45)


def clock_plan(rng, start):
    k = rng.random()
    if k < .3:
        return f"{start};{rng.choice([0, 0, 1])}"
    if k < .6:
        return f"{start};{rng.choice([1, -1, 3600, -86400, 10**9, -10**9])}"
    if k < .7:
        return f"{start},-1;0"
    return ",".join(map(str, [start] + [rng.choice(CLOCKS + [start + 1, start - 1, start + 1000]) for _ in range(rng.randint(1, 12))])) + f";{rng.choice([0, 1, -7])}"


# ---- shrinking --------------------------------------------------------------------------------------------------------
def shrink_script(s):
    v, tail = unscript(s)
    n = len(v)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield script(v[:i] + v[i + k:], tail)
        k //= 2
        if n > 60 and k < n // 16:
            break
    for i in range(min(n, 20)):
        if v[i] > 0:
            yield script(v[:i] + [0] + v[i + 1:], tail)


def shrink_ranges(s):
    p = s.split(",")
    if len(p) > 1:
        for i in range(len(p)):
            yield ",".join(p[:i] + p[i + 1:])
    for i, t in enumerate(p):
        if "-" in t:
            a, b = t.split("-")
            if int(b) - int(a) > 1:
                for u in (f"{a}-{(int(a) + int(b)) // 2}", f"{(int(a) + int(b)) // 2}-{b}", f"{a}"):
                    yield ",".join(p[:i] + [u] + p[i + 1:])


def shrink_plan(plan, keep=()):
    for k in list(plan):
        if k in keep:
            continue
        q = dict(plan)
        del q[k]
        yield q
    for k in ("reads", "writes", "opens"):
        if k in plan:
            for s in shrink_script(plan[k]):
                yield dict(plan, **{k: s})
    for k in ("alloc", "fft"):
        if k in plan:
            for s in shrink_ranges(plan[k]):
                yield dict(plan, **{k: s})


def shrink_text(t):
    n = max(len(t["b"]), len(t["B"]))
    k = n // 2
    while k >= 1 and n > 1:
        for i in range(0, n, k):
            q = dict(t)
            q["b"], q["B"] = t["b"][:i] + t["b"][i + k:], t["B"][:i] + t["B"][i + k:]
            if (q["b"] or not t["b"]) and (q["B"] or not t["B"]):
                yield q
        k //= 2
        if n > 80 and k < n // 16:
            break
    for key, v in (("gap", 0), ("sep", ","), ("tb", False), ("tB", False), ("eol", True), ("pre", "")):
        if t.get(key, 0) != v:
            yield dict(t, **{key: v})
    for d in (1, 2, 3):
        q = dict(t, b=["%.*f" % (d, float(x)) for x in t["b"]], B=["%.*f" % (d, float(x)) for x in t["B"]])
        if q != t and sum(map(len, q["b"] + q["B"])) < sum(map(len, t["b"] + t["B"])):
            yield q


def describe(run):
    """human-readable trace of a run's input and faults"""
    out = [f"{run['prog']} {' '.join(run['args'])}   ({run.get('kind', 'file')}, {len(run['content'])} bytes: {run['content'][:120]!r}{'...' if len(run['content']) > 120 else ''})"]
    for k, v in run.get("plan", {}).items():
        out.append(f"  {k} = {v}")
    for e in run.get("env", ()):
        out.append(f"  environment {e}")
    for k, what in (("argv0", "the program is called as"), ("stdin", "standard input holds"), ("files", "other files exist:"), ("absolute", "absolute file name:")):
        if k in run:
            out.append(f"  {what} {run[k]!r}")
    if run.get("elsewhere"):
        out.append("  the program and its libraries at other addresses")
    return out
