"""Host for histories of processes that save and load named results with the repository's benchmarks/pickler.py.

Protocol as the other hosts: 16-digit length, JSON request; one JSON line as answer.
Request: {"dir": a fresh directory, "sessions": [{"clock": .., "steps": [..]}]}; every session is a process of its own,
forked from this one, and may end in the middle of a step; see dst/props/pick.py.
"""
import sys, os, json, gc, ctypes, hashlib, random, time, signal, shutil, gzip, pickle, builtins, inspect, errno, io, tempfile, copy

out = sys.argv[1]
store = ctypes.PyDLL(os.path.join(out, "libstore.so"))
store.store_arm.argtypes = [ctypes.c_char_p] * 2
store.store_stat.restype = ctypes.c_long
source = open(os.path.join(out, "pickler.py")).read()
real_ctime = time.ctime


class Odd:
    """cannot be saved"""
    def __reduce__(self):
        raise ValueError("cannot be saved")


def value(seed):
    r = random.Random(seed)
    def make(depth):
        k = r.randrange(11 if depth < 3 else 7)
        if k == 0: return r.choice([0, 1, -1, 255, 256, 65535, -2**31, 2**31, 2**63, -2**70, 10**40, r.getrandbits(200)])
        if k == 1: return r.choice([0.0, -0.0, 1.5, 1e-320, float("inf"), r.random(), r.gauss(0, 1e30)])
        if k == 2: return "".join(chr(r.choice([65, 97, 10, 0, 0xe9, 0x4e2d, 0x1f600])) for _ in range(r.choice([0, 1, 5, 300])))
        if k == 3: return r.randbytes(r.choice([0, 1, 100, 9000]))
        if k == 4: return r.choice([None, True, False])
        if k == 5: return [r.random() for _ in range(r.choice([0, 1, 10, 400, 3000]))]
        if k == 6: return [0.25] * r.choice([10, 1000, 20000])
        if k == 7: return [make(depth + 1) for _ in range(r.randrange(5))]
        if k == 8: return tuple(make(depth + 1) for _ in range(r.randrange(4)))
        if k == 9: return {r.choice(["a", "b", 3, 2.5, ("t", 1), None]): make(depth + 1) for _ in range(r.randrange(4))}
        return {r.randrange(100) for _ in range(r.randrange(6))}
    return make(0)


def canon(v):
    if isinstance(v, float): return v.hex()
    if isinstance(v, dict): return "{" + ",".join(sorted(canon(a) + ":" + canon(b) for a, b in v.items())) + "}"
    if isinstance(v, (list, tuple)): return type(v).__name__ + "(" + ",".join(map(canon, v)) + ")"
    if isinstance(v, set): return "set(" + ",".join(sorted(map(canon, v))) + ")"
    return type(v).__name__ + ":" + repr(v)


def digest(d):
    return hashlib.sha256(canon(d).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def fds():
    n = 0
    for k in range(200):
        try:
            os.fstat(k)
            n += 1
        except OSError:
            pass
    return n


def session(d, s, pipe):
    signal.alarm(60)
    now = s["clock"]
    time.time = lambda: float(now)
    time.ctime = lambda t=None: real_ctime(min(max(now if t is None else t, -2**40), 2**40))
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.chdir(d)
    path = os.path.join(d, "benchmarks", "pickler.py")
    mod = {"__name__": "pickler", "__file__": path}
    exec(compile(source, path, "exec"), mod)
    for st in s["steps"]:
        ans = dict(status="ok", what="", hash="")
        data = {k: Odd() if v == "odd" else value(v) for k, v in st.get("fields", {}).items()}
        if st["op"] == "dump":
            ans["hash"] = "" if "odd" in st["fields"].values() else digest(data)
            os.write(pipe, (json.dumps(dict(begin=ans["hash"])) + "\n").encode())
        gc.collect()
        before = fds()
        store.store_arm(os.path.join(d, "benchmarks").encode(), st.get("plan", "").encode())
        try:
            if st["op"] == "dump":
                mod["dump"](st["name"], **data)
            else:
                got = mod["load"](st["name"])
        except Exception as e:
            ans.update(status="raised", what=type(e).__name__)
            e = None
        store.store_disarm()
        gc.collect()
        ans["fds"] = fds() - before
        if ans["status"] == "ok":
            if st["op"] == "load":
                ans["hash"] = digest(vars(got))
            elif "odd" not in st["fields"].values() and digest(data) != ans["hash"]:
                ans["what"] = "arguments changed"
        ans["met"] = [store.store_stat(k) for k in range(7)]
        os.write(pipe, (json.dumps(ans) + "\n").encode())
    os._exit(0)


def main():
    inp, outp = sys.stdin.buffer, os.dup(1)
    while True:
        n = inp.read(16)
        if len(n) < 16:
            return
        req = json.loads(inp.read(int(n)))
        d = req["dir"]
        os.makedirs(d + "/benchmarks")
        answers = []
        for s in req["sessions"]:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    session(d, s, w)
                except BaseException as e:
                    os.write(w, (json.dumps(dict(broken=repr(e))) + "\n").encode())
                os._exit(98)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                lines = [json.loads(l) for l in f.read().split(b"\n") if l]
            st = os.waitpid(pid, 0)[1]
            answers.append(dict(exit=os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1, sig=os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0, steps=lines))
        shutil.rmtree(d, ignore_errors=True)
        os.write(outp, (json.dumps(dict(ans=answers)) + "\n").encode())


main()
