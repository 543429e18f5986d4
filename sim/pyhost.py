"""Host for sessions of calls of the real Python module. Each session runs in a forked child of this process.

Protocol as the other hosts: 16-digit length, JSON request; one JSON line as answer.
Session: {"args": [spec], "threads": [[op]]}; see dst/props/py.py.
"""
import sys, os, json, gc, ctypes, threading, array, collections, fractions, locale, random, signal, builtins, decimal

libdir = sys.argv[1]
sys.path.insert(0, libdir)
import warnings
warnings.simplefilter("ignore")
state = ctypes.PyDLL(os.path.join(libdir, "libstate.so"))
for f in (state.state_world, state.state_settings, state.state_flags):
    f.argtypes = [ctypes.c_ulong]
state.state_changed.restype = ctypes.c_char_p


def interpreter():
    """what programs share in the interpreter"""
    return dict(locale=locale.setlocale(locale.LC_ALL), switch_interval=sys.getswitchinterval(), gc=[gc.isenabled(), gc.get_threshold(), gc.get_debug()], recursion_limit=sys.getrecursionlimit(),
                streams=[id(sys.stdin), id(sys.stdout), id(sys.stderr)], hooks=[id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook)], random=hash(random.getstate()),
                threads=threading.active_count(), environment=hash(tuple(sorted(os.environ.items()))), tracing=[sys.gettrace() is None, sys.getprofile() is None], filters=len(warnings.filters),
                handlers=[repr(signal.getsignal(k)) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM)], path=list(sys.path), builtins=sorted(vars(builtins)), digits=sys.get_int_max_str_digits(),
                dlopen=sys.getdlopenflags(), context=decimal.getcontext().prec)


def changed(old, new):
    for k in old:
        if old[k] != new[k]:
            return f"interpreter's {k}: {old[k]!r} became {new[k]!r}"[:300]
    return ""


state.state_begin()
_before = interpreter()
import crossprob
import _crossprob
imported = state.state_changed().decode("latin-1") or changed(dict(_before), interpreter())
sim = ctypes.PyDLL(_crossprob.__file__)
sim.dst_arm.argtypes = [ctypes.c_char_p] * 3
sim.dst_stat.restype = ctypes.c_long
sim.dst_asked.restype = ctypes.c_char_p
sim.dst_on_release.argtypes = [ctypes.py_object]
sim.dst_init()
ARM, DISARM = sim.dst_arm, sim.dst_disarm
sys.setswitchinterval(1000)


class Raised(Exception):
    pass


class BaseRaised(BaseException):
    pass


EXC = dict(Raised=Raised, Base=BaseRaised, Index=IndexError, Stop=StopIteration, Mem=MemoryError, Key=KeyboardInterrupt, Runtime=RuntimeError, Type=TypeError, Value=ValueError,
           Exit=SystemExit)


def obj(v):
    """a fresh object"""
    if isinstance(v, (int, float)):
        return float(repr(float(v)))
    kind, x = v
    if kind == "int":
        return int(x)
    if kind == "big":
        return 10 ** int(x)
    if kind == "nan":
        return float("nan")
    if kind == "inf":
        return float("-inf" if x else "inf")
    if kind == "str":
        return "text %s" % x
    if kind == "none":
        return None
    if kind == "bool":
        return bool(x)
    if kind == "fraction":
        return fractions.Fraction(float(x))
    if kind == "object":
        return object()
    if kind == "complex":
        return complex(float(x), 0.0)
    if kind == "floatsub":
        return type("F", (float,), {})(float(x))
    if kind == "bytes":
        return b"0.%d" % int(x)
    if kind == "list":
        return [float(x)]
    raise AssertionError(kind)


class Fresh(float):
    """an item that exists only while someone holds it"""
    live = 0

    def __new__(cls, x):
        Fresh.live += 1
        return float.__new__(cls, x)

    def __del__(self):
        Fresh.live -= 1


def number(o):
    """the number an item stands for, or None"""
    try:
        return float(o) * 1.0 if not isinstance(o, (str, bytes, list)) else None
    except Exception:
        return None


class Seq:
    """a caller's own sequence"""
    def __init__(self, s, items, acts):
        self.s, self.items, self.acts = s, items, acts
        self.n = len(items)
        self.calls = 0
        self.got = []
        self.fresh = False

    def deliver(self, i):
        o = self.items[i % len(self.items)]
        if self.fresh and type(o) is float:
            self.got.append((i, float(o)))
            return Fresh(o)
        self.got.append((i, o))
        return o

    def __len__(self):
        for a in self.acts.get("len", ()):
            if a.get("at") == self.calls:
                self.s.act(a, self)
                if a["do"] == "lenvalue":
                    return a["value"]
                if a["do"] == "lentype":
                    return "three"
        return self.n

    def __getitem__(self, i):
        self.calls += 1
        for a in self.acts.get("item", ()):
            if a.get("at") == self.calls - 1:
                self.s.act(a, self)
        if not isinstance(i, int) or i < 0 or i >= self.n:
            raise IndexError(i)
        return self.deliver(i)


class Endless(Seq):
    """delivers items beyond its length"""
    def __getitem__(self, i):
        self.calls += 1
        for a in self.acts.get("item", ()):
            if a.get("at") == self.calls - 1:
                self.s.act(a, self)
        return self.deliver(i)

    def __iter__(self):
        i = 0
        while i < len(self):
            yield self[i]
            i += 1


class ListSub(list):
    """a list whose length is reported by the caller's code"""
    def __len__(self):
        self.calls = getattr(self, "calls", 0) + 1
        for a in self.acts.get("len", ()):
            if a.get("at") == self.calls - 1:
                self.s.act(a, self)
        return list.__len__(self)


class Session:
    def __init__(self, spec):
        self.spec = spec
        self.keep = []          # (what, object, reference count)
        self.args = [self.make(a) for a in spec["args"]]
        self.out = [[None] * len(t) for t in spec["threads"]]
        self.sems = [threading.Semaphore(0) for _ in spec["threads"]]
        self.done = [False] * len(spec["threads"])
        self.local = threading.local()
        self.acted = 0
        self.switches = 0
        self.releases = 0
        self.looping = False
        self.order = []
        self.nested = []

    def make(self, a):
        t = a["type"]
        items = [obj(v) for v in a.get("vals", [])]
        acts = {}
        for x in a.get("acts", []):
            acts.setdefault(x["on"], []).append(x)
        if t == "list":
            return items
        if t == "tuple":
            return tuple(items)
        if t == "seq":
            r = (Endless if a.get("endless") and items else Seq)(self, items, acts)
            r.fresh = bool(a.get("fresh"))
            return r
        if t == "listsub":
            r = ListSub(items)
            r.s, r.acts = self, acts
            return r
        if t == "array":
            return array.array("d", items)
        if t == "deque":
            return collections.deque(items)
        if t == "vector":
            return crossprob.VectorDouble(items)
        if t == "view":
            return memoryview(array.array("d", items))
        if t == "strided":              # every second number of a larger array
            return memoryview(array.array("d", [y for x in items for y in (x, 0.77)]))[::2]
        if t == "backwards":
            return memoryview(array.array("d", items[::-1]))[::-1]
        if t == "floats":
            return array.array("f", items)
        if t == "ints":
            return array.array(a.get("code", "i"), [int(x > .5) for x in items])
        if t == "ctypes":
            return (ctypes.c_double * len(items))(*items)
        if t == "bytearray":
            return bytearray(int(x > .5) for x in items)
        if t == "range":
            return range(a["n"])
        if t == "gen":
            return (x for x in items)
        if t == "dict":
            return {i: x for i, x in enumerate(items)}
        if t == "set":
            return set(items)
        if t == "str":
            return "0.5" * len(items)
        if t == "bytes":
            return bytes(a["raw"])
        if t == "none":
            return None
        if t == "number":
            return 0.5
        if t == "noseq":
            return object()
        raise AssertionError(t)

    def contents(self, a):
        """what a call may take the argument for: list of candidate lists, None where there is no number"""
        if isinstance(a, Seq):
            first, last = {}, {}
            for i, o in a.got:
                first.setdefault(i, o)
                last[i] = o
            r = []
            for d in (last, first):
                v = [d[i] for i in sorted(d)] if sorted(d) == list(range(len(d))) else None
                r.append(None if v is None else [number(o) for o in v])
            return r
        if isinstance(a, (list, tuple, array.array, collections.deque, range, memoryview)):
            return [[number(o) for o in list.__iter__(a)]] if isinstance(a, list) else [[number(o) for o in a]]
        if isinstance(a, crossprob.VectorDouble):
            return [[a[i] for i in range(a.size())]]
        if isinstance(a, (bytes, bytearray, ctypes.Array)):
            return [[float(x) for x in a]]
        return []

    def act(self, a, seq):
        self.acted += 1
        do = a["do"]
        if do == "raise":
            raise EXC[a["exc"]]("requested")
        if do == "call":
            if self.looping:
                op = a["op"]
                getattr(crossprob, op["fn"])(*[self.args[i] for i in op["args"]], *op.get("extra", []))
            elif self.local.depth < 2:
                self.nested.append(self.run(a["op"]))
        elif do == "switch":
            self.switch(a["to"])
        elif do == "setn":
            seq.n = a["n"]
        elif do == "replace":
            seq.items = [obj(v) for v in a["vals"]]
        elif do == "gc":
            gc.collect()
        elif do == "other":             # changes another argument while this one is read
            o = self.args[a["arg"]]
            if isinstance(o, list):
                if a["how"] == "clear":
                    del o[:]
                elif a["how"] == "append":
                    o.extend([1.0] * 40)
                else:
                    o.reverse()
            elif isinstance(o, crossprob.VectorDouble):
                if a["how"] == "clear":
                    o.clear()
                elif a["how"] == "append":
                    for _ in range(40):
                        o.push_back(1.0)
                else:
                    o.pop_back() if o.size() else None
        elif do == "recurse":
            def deep(n):
                return n and deep(n - 1)
            deep(200)
        elif do == "del":
            del seq[:]

    def switch(self, to):
        me = self.local.me
        alive = [t for t in range(len(self.done)) if not self.done[t] and t != me]
        if not alive:
            return
        t = alive[to % len(alive)]
        self.switches += 1
        self.order.append(t)
        self.sems[t].release()
        self.sems[me].acquire()

    def run(self, op):
        args = [self.args[i] for i in op["args"]]
        saved = [(x, x.calls, x.got) for x in args if isinstance(x, Seq)]
        for x in args:
            if isinstance(x, Seq):
                x.calls, x.got = 0, []
        before = [self.contents(x) for x in args if not isinstance(x, Seq)]
        acted = self.acted
        f0 = [sim.dst_stat(k) for k in (1, 3, 5)]
        outer = self.local.depth == 0
        self.local.depth += 1
        if outer:
            f0 = [0, 0, 0]
        call = getattr(crossprob, op["fn"])
        status, value, what, err = "none", None, "", None
        actual = tuple(args) + tuple(op.get("extra", []))
        m, f, p = op.get("mem", "").encode(), op.get("fft", "").encode(), op.get("py", "").encode()
        released = self.releases
        held = [float(i + 7) for i in range(300)] if outer and op.get("drain") else None     # no spare float objects
        try:
            if outer:
                self.local.op, self.local.points = op, 0
                ARM(m, f, p)
            value = call(*actual)
            status = "value"
        except BaseException as e:
            status, err = "raise", e
        while outer:
            try:
                DISARM()
                break
            except MemoryError:
                pass
        held = None
        if err is not None:
            what = type(err).__name__ + ": " + str(err)[:120]
            err.__traceback__ = None
            err = None
        actual = None
        self.local.depth -= 1
        fired = [sim.dst_stat(k) - z for k, z in zip((1, 3, 5), f0)]
        counts = [sim.dst_stat(k) for k in (0, 2, 4)]
        if len(self.done) > 1:
            counts[2] = 0           # threads being started and ended allocate, too
        r = dict(op=op, status=status, value=value.hex() if type(value) is float else repr(value), isfloat=type(value) is float, what=what, fired=fired, counts=counts,
                 acted=self.acted - acted, released=self.releases - released)
        cand, k = [], 0
        for x in args:
            c = self.contents(x)
            if not isinstance(x, Seq):
                for v in before[k]:
                    if isinstance(x, ListSub) and any(a["do"] == "del" for a in x.acts.get("len", ())):
                        c += [v[:j] for j in range(len(v)) if v[:j] not in c]      # emptied while it was read
                    if v not in c:
                        c.append(v)
                k += 1
            cand.append(c)
        r["cand"] = cand
        for x, c, g in saved:
            x.calls, x.got = c, g
        return r

    def released(self):
        """the module has given up the interpreter lock and has just done so or asks for memory: another thread's turn"""
        self.releases += 1
        a = self.local.op.get("release")
        self.local.points += 1
        if a and a.get("at", 0) == self.local.points - 1:
            self.act(a, None)

    def loop(self, op):
        """the same call again and again: how many more blocks the interpreter holds after each"""
        self.looping = True
        call, grown = getattr(crossprob, op["fn"]), []
        args = [self.args[i] for i in op["args"]]
        for _ in range(12):
            for x in self.args:
                if isinstance(x, Seq):
                    x.calls, x.got = 0, []
                elif isinstance(x, ListSub):
                    x.calls = 0
            gc.collect()
            n = sys.getallocatedblocks()
            try:
                call(*args, *op.get("extra", []))
            except BaseException:
                pass
            for x in self.args:
                if isinstance(x, Seq):
                    x.calls, x.got = 0, []
                elif isinstance(x, ListSub):
                    x.calls = 0
            gc.collect()
            grown.append(sys.getallocatedblocks() - n)
        return grown

    def exports(self):
        """arguments whose memory is still lent to someone"""
        r = []
        for i, a in enumerate(self.args):
            try:
                if isinstance(a, (array.array, bytearray)):
                    a.append(1)
                    a.pop()
                elif isinstance(a, memoryview):
                    a.release()
            except BufferError as e:
                r.append([i, str(e)])
        return r

    def thread(self, t):
        self.local.me, self.local.depth = t, 0
        self.sems[t].acquire()
        try:
            for i, op in enumerate(self.spec["threads"][t]):
                self.out[t][i] = self.run(op)
        finally:
            self.done[t] = True
            alive = [x for x in range(len(self.done)) if not self.done[x]]
            if alive:
                self.sems[alive[0]].release()

    def snapshot(self):
        r = []
        for i, a in enumerate(self.args):
            if a is None:
                continue
            r.append(sys.getrefcount(a))
            items = a.items if isinstance(a, Seq) else list.__iter__(a) if isinstance(a, list) else a if isinstance(a, (tuple, collections.deque)) else ()
            r.append([sys.getrefcount(x) for x in items if x is not None and x is not True and x is not False and not (isinstance(x, int) and -6 < x < 257)])
        return r


def elsewhere(s, w):
    """the calls, in a process with other settings, at another moment"""
    for e in w["env"]:
        k, _, v = e.partition("=")
        os.environ[k] = v
    if w["state"]:
        n = w["state"]
        ctypes.c_int.in_dll(state, "state_modes").value = 0
        state.state_world(n)
        state.state_settings(n)
        r = random.Random(n)
        if r.random() < .4:
            try:
                locale.setlocale(locale.LC_ALL, "de_DE.UTF-8")
            except locale.Error:
                pass
        if r.random() < .3:
            decimal.getcontext().prec = 3
        if r.random() < .3:
            gc.enable()
            gc.set_threshold(1)
        if r.random() < .3:
            sys.set_int_max_str_digits(640)
        if r.random() < .3:
            warnings.simplefilter("error")
        if r.random() < .3:
            sys.stdout = sys.stderr = None
        if r.random() < .2:
            sys.settrace(lambda *a: None)
        if r.random() < .2:
            sys.setprofile(lambda *a: None)
        if r.random() < .2:
            os.environ.clear()

    def calls():
        for i, op in enumerate(s.spec["threads"][0]):
            if w["state"]:
                state.state_flags(w["state"] // 7 + i)
            s.out[0][i] = s.run(op)
            yield i

    def thread():
        s.local.me, s.local.depth = 0, 0
        for _ in calls():
            pass

    if w["moment"] == "generator":
        list(calls())
    elif w["moment"] == "thread":
        t = threading.Thread(target=thread)
        t.start()
        t.join()
    elif w["moment"] == "except":
        try:
            raise Raised("being handled")
        except Raised:
            thread()
    else:
        thread()
    sys.settrace(None)
    sys.setprofile(None)


def session(spec):
    s = Session(spec)
    mutated = any(x["do"] in ("replace", "other", "del") for a in spec["args"] for x in a.get("acts", [])) or any(o.get("release", {}).get("do") == "other" for t in spec["threads"] for o in t)
    gc.collect()
    gc.disable()
    sim.dst_on_release(s.released)
    before = s.snapshot()
    live0 = [sim.dst_stat(6), sim.dst_stat(7)]
    if len(spec["threads"]) == 1:
        s.local.me, s.local.depth = 0, 0
        if "watch" in spec:
            state.state_capture()
            state.state_world(spec["watch"])
        if "world" in spec:
            elsewhere(s, spec["world"])
        for i, op in enumerate(spec["threads"][0] if "world" not in spec else ()):
            st = interpreter() if "watch" in spec else None
            s.out[0][i] = s.run(op)
            if "watch" in spec:
                sys.stdout.flush()
                s.out[0][i]["state"] = state.state_changed().decode("latin-1") or changed(st, interpreter())
            if spec.get("live"):
                s.out[0][i]["live"] = [sim.dst_stat(6) - live0[0], sim.dst_stat(7) - live0[1]]
    else:
        ts = [threading.Thread(target=s.thread, args=(t,)) for t in range(len(spec["threads"]))]
        for t in ts:
            t.start()
        s.sems[0].release()
        for t in ts:
            t.join()
    for a in s.args:
        if isinstance(a, Seq):
            a.got = []
    a = None
    gc.collect()
    after = s.snapshot()
    refs = [] if mutated or before == after else [before, after]
    grown = s.loop(spec["loop"]) if "loop" in spec else []
    return dict(asked=sim.dst_asked().decode("latin-1").split(), imported=imported, fresh=Fresh.live, grown=grown, exports=s.exports(), releases=s.releases, out=s.out, nested=s.nested, refs=refs, switches=s.switches, order=s.order, acted=s.acted, liveplans=sim.dst_stat(7) - live0[1], sane=sum(range(1000)) == 499500)


def main():
    gc.collect()
    gc.freeze()
    fd = sim.dst_serve()
    data = b""
    while len(data) < 16:
        b = os.read(0, 16 - len(data))
        if not b:
            os._exit(77)
        data += b
    n, data = int(data), bytearray()
    while len(data) < n:
        data += os.read(0, n - len(data))
    try:
        ans = session(json.loads(data))
    except BaseException:
        import traceback
        ans = dict(broken=traceback.format_exc())
    ans = json.dumps(ans).encode()
    while ans:
        ans = ans[os.write(fd, ans):]
    os._exit(0)


main()
