"""Talks to the simulation hosts; one instance per worker process and host."""
import json, os, shutil, subprocess, tempfile, threading
from . import build


class HostError(Exception):
    pass


class Host:
    def __init__(self, exe, cwd, args=(), env={}):
        self.exe, self.cwd, self.args, self.env = exe, cwd, list(args), env
        self.p = None

    def start(self):
        env = {"LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0", **self.env}     # the same initial stack everywhere
        self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=self.cwd, env=env)

    def request(self, data):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(b"%016d" % len(data) + data)
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError as e:
            raise HostError(str(e))
        if not line:
            raise HostError(f"{self.exe} ended (status {self.p.poll()})")
        r = json.loads(line)
        if "fatal" in r:
            raise HostError(r["fatal"])
        return r

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
            self.p = None


KINDS = {"file": 0, "pipe": 1, "missing": 2, "dir": 3, "link": 4, "stdin": 5}


class Env:
    """everything a check needs to execute simulated runs"""
    def __init__(self, kinds):
        self.dirs = {k: build.build(k) for k in kinds}
        base = os.environ.get("DST_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.scratch = tempfile.mkdtemp(prefix="dst-", dir=base)
        self.hosts = {}
        self.runs = 0
        self.faults = {}
        self.simtime = 0

    def close(self):
        for h in self.hosts.values():
            h.close()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def host(self, name):
        if name == "py" and name not in self.hosts:
            self.hosts[name] = Host("/usr/bin/python3", self.scratch, ["-s", "-S", "-B", os.path.join(build.SIM, "pyhost.py"), self.dirs["py"]])
        if name == "store" and name not in self.hosts:
            self.hosts[name] = Host("/usr/bin/python3", self.scratch, ["-s", "-S", "-B", os.path.join(build.SIM, "storehost.py"), self.dirs["store"]], {"LD_PRELOAD": self.dirs["store"] + "/libstore.so"})
        if name not in self.hosts:
            kind = {"host_thr": "thr", "host_obj": "obj"}.get(name, "main")
            self.hosts[name] = Host(os.path.join(self.dirs[kind], name), self.scratch, ["20", "elsewhere"] if name.endswith("_alt") else [])
        return self.hosts[name]

    def count(self, r):
        self.runs += 1
        for k, v in r["f"].items():
            if v:
                self.faults[k] = self.faults.get(k, 0) + v

    # ---- one run of a program
    def prog(self, run):
        """run: {prog, args, kind, content, plan: {key: str}, env: [..]} -> observation"""
        d = os.path.join(self.scratch, "w" + run.get("plan", {}).get("entropy", "")[-3:])
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        content = run["content"].encode("latin-1")
        name, place = run.get("name", "bounds.txt"), d + "/"
        if run.get("kind") == "stdin":
            name = "/dev/stdin"
        elif run.get("absolute"):
            name = place + name
        req = [b"path " + name.encode("latin-1") + b"\n", f"dir {d}\nkind {KINDS[run.get('kind', 'file')]}\n".encode()]
        for i, a in enumerate([run.get("argv0", run["prog"])] + list(run["args"])):
            if i == 2 and (run.get("absolute") or run.get("kind") == "stdin"):
                a = name
            req.append(b"arg " + a.encode("latin-1").hex().encode() + b"\n")
        for e in run.get("env", ()):
            e = e.replace("@BUILD@", self.dirs["main"])
            req.append(b"env " + e.encode("latin-1").hex().encode() + b"\n")
        for k, v in run.get("plan", {}).items():
            req.append(f"{k} {v}\n".encode())
        if run.get("stdin"):
            req.append(b"stdin " + run["stdin"].encode("latin-1").hex().encode() + b"\n")
        others = os.path.join(self.scratch, "others")
        for i, (k, v) in enumerate(run.get("files", ())):          # other files that exist: [name asked for, contents]
            os.makedirs(others, exist_ok=True)
            with open(f"{others}/{i}", "wb") as f:
                f.write(v.encode("latin-1"))
            req.append(f"subst {k.replace('@DIR@/', place).encode('latin-1').hex()} {others}/{i}\n".encode())
        req.append(b"content %d\n" % len(content) + content)
        r = self.host("host_" + run["prog"] + ("_alt" if run.get("elsewhere") else "")).request(b"".join(req))
        r["out"] = bytes.fromhex(r["out"]).decode("latin-1")
        r["err"] = bytes.fromhex(r["err"]).decode("latin-1")
        r["asked"] = [a.replace(place, "@DIR@/") for a in r["asked"]]
        if run.get("absolute"):
            r["out"], r["err"] = r["out"].replace(place, "@DIR@/"), r["err"].replace(place, "@DIR@/")
        if r["exit"] in (93, 94, 95, 96, 97, 98) and r["phase"] == 0:
            raise HostError("set-up of a run failed: %s" % r)
        left = {}
        for f in sorted(os.listdir(os.fsencode(d))):
            p, f = os.path.join(os.fsencode(d), f), f.decode("latin-1")
            if os.path.isfile(p):
                with open(p, "rb") as fh:
                    left[f] = fh.read().decode("latin-1")
            else:
                left[f] = "<other>"
        r["left"] = left
        self.count(r)
        return r

    # ---- one session of library calls
    def sess(self, s):
        """s: {ops: [{fn, fft, b, B, alloc, fftf, stack}], plan: {..}}"""
        req = []
        for k, v in s.get("plan", {}).items():
            req.append(f"{k} {v}\n".encode())
        for e in s.get("env", ()):
            req.append(b"env " + e.replace("@BUILD@", self.dirs["main"]).encode("latin-1").hex().encode() + b"\n")
        others = os.path.join(self.scratch, "others")
        for i, (k, v) in enumerate(s.get("files", ())):
            os.makedirs(others, exist_ok=True)
            with open(f"{others}/{i}", "wb") as f:
                f.write(v.encode("latin-1"))
            req.append(f"subst {k.encode('latin-1').hex()} {others}/{i}\n".encode())
        if any(o["fn"] == "read" for o in s["ops"]):
            d = os.path.join(self.scratch, "r")
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            req.append(f"dir {d}\n".encode())
        for o in s["ops"]:
            if o["fn"] == "read":
                c = o["content"].encode("latin-1")
                req.append(("rop %d %s %s %s %s %d\n" % (KINDS[o.get("kind", "file")], o["name"].encode("latin-1").hex(), o.get("opens") or "0", o.get("reads") or "0", o.get("alloc") or "-", len(c))).encode() + c)
                continue
            req.append(("op %d %d %s %s %d %s %s\n" % (FN[o["fn"]], o.get("fft", 0), o.get("alloc") or "-", o.get("fftf") or "-", o.get("stack", 0),
                        vec(o.get("b")), vec(o.get("B")))).encode())
        r = self.host("host_sess" + ("_alt" if s.get("elsewhere") else "")).request(b"".join(req))
        self.count(r)
        return r


    # ---- one session with convolvers and generators of probabilities
    def objects(self, ops, plan):
        """ops: [{what, obj, size, seed, lambda, thread, alloc, fftf}] -> observation, or None if there are no such objects"""
        if os.path.exists(self.dirs["obj"] + "/absent"):
            return None
        req = [f"{k} {v}\n" for k, v in plan.items()]
        for o in ops:
            req.append("oop %d %d %d %d %d %s %s %s\n" % (o["what"], o["obj"], o["size"], o.get("thread", 0), o.get("seed", 0), repr(float(o.get("lambda", 0))), o.get("alloc") or "-", o.get("fftf") or "-"))
        r = self.host("host_obj").request("".join(req).encode())
        self.count(r)
        return r

    # ---- threads
    def threads(self, t):
        """t: {args: [{b, B}], threads: [[{fn, fft, arg, alloc, fftf}]], sched: str, heap: int}"""
        req = []
        for a in t["args"]:
            req.append(f"arg {vec(a['b'])} {vec(a['B'])}\n".encode())
        for i, ops in enumerate(t["threads"]):
            for o in ops:
                req.append(("op %d %d %d %d %s %s\n" % (i, FN[o["fn"]], o.get("fft", 0), o["arg"], o.get("alloc") or "-", o.get("fftf") or "-")).encode())
        req.append(f"sched {t['sched']}\nheap {t.get('heap', 0)}\n".encode())
        r = self.host("host_thr").request(b"".join(req))
        self.count(r)
        return r

    # ---- Python
    def py(self, spec):
        """a session of sim/pyhost.py"""
        r = self.host("py").request(json.dumps(spec).encode())
        if "broken" in r["ans"]:
            raise HostError(r["ans"]["broken"])
        self.runs += 1
        return r


    # ---- saved results
    def store(self, sessions):
        """a history of processes of sim/storehost.py"""
        d = os.path.join(self.scratch, "store")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        r = self.host("store").request(json.dumps(dict(dir=d, sessions=sessions)).encode())
        self.runs += len(sessions)
        return r["ans"]


FN = {"ecdf2": 0, "ecdf1_new_b": 1, "ecdf1_new_B": 2, "ecdf1_mns2016_b": 3, "ecdf1_mns2016_B": 4}


def vec(v):
    return ",".join(repr(float(x)) for x in v) if v else "-"
