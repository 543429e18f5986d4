"""Runs a property's simulated cases: seeded generation, determinism gates, minimisation, replay files, evidence."""
import hashlib, json, multiprocessing as mp, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
from multiprocessing.connection import wait
from . import build
from .host import Env, HostError

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")


def case_rng(seed, prop, index):
    return random.Random(int.from_bytes(hashlib.sha256(f"{seed}:{prop}:{index}".encode()).digest()[:8], "big"))


def canon(o):
    return json.dumps(o, sort_keys=True)


class Result:
    """what one case showed"""
    __slots__ = ("violation", "log", "nontrivial", "situations", "extra", "trace", "distinct", "witness")

    def __init__(self):
        self.violation = None       # (class, message)
        self.log = []               # observations, for the determinism hash
        self.nontrivial = False
        self.situations = set()     # abstract situations reached
        self.extra = {}             # counters
        self.trace = []             # human-readable steps
        self.distinct = {}          # name -> values whose distinct number is reported
        self.witness = None         # the violating part of the case, made explicit

    def fail(self, cls, msg):
        if self.violation is None:
            self.violation = (cls, msg)

    def note(self, *o):
        self.log.append(o)

    def hash(self):
        return hashlib.sha256(canon(self.log).encode()).hexdigest()[:16]


class Prop:
    id = None
    kinds = ("main", "ref")
    counts = {"quick": 1000, "thorough": 10000}
    rule = ""
    measure = ""
    real = []
    stub = []
    assumptions = []
    nondeterminism = None           # class of the violation, if being different from one execution to the next is one in itself
    recheck = 20                    # every n-th case is executed twice

    def gen(self, rng, index, tier):
        raise NotImplementedError

    def check(self, env, case):
        raise NotImplementedError

    def shrinks(self, case):
        return iter(())


_env = None
_prop = None
_args = None
_stop = None                        # shared: the smallest number of a violating case so far


def _init(prop, seed, tier, stop, known):
    global _env, _prop, _args, _stop
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _prop, _args, _stop = prop, (seed, tier, known), stop
    _env = Env(prop.kinds)


class Farm:
    """worker processes; results come in the order of the cases"""
    def __init__(self, workers, args):
        ctx = mp.get_context("fork")
        self.procs = {}
        for _ in range(workers):
            here, there = ctx.Pipe()
            p = ctx.Process(target=self.work, args=(there, args), daemon=True)
            p.start()
            there.close()
            self.procs[here] = p

    @staticmethod
    def work(conn, args):
        _init(*args)
        try:
            while True:
                conn.send([_one(i) for i in range(*conn.recv())])
        except (EOFError, OSError):
            pass

    def imap(self, n, chunk):
        sent, done, told, busy = 0, {}, 0, {}
        for c in self.procs:
            if sent < n:
                busy[c] = sent
                c.send((sent, min(n, sent + chunk)))
                sent += chunk
        while told < n:
            for c in wait(list(busy)):
                start = busy.pop(c)
                try:
                    done[start] = c.recv()
                except (EOFError, OSError):
                    self.procs[c].join(5)
                    done[start] = [dict(index=start, error=f"a worker process ended (exit status {self.procs[c].exitcode})")]
                    continue
                if sent < n:
                    busy[c] = sent
                    c.send((sent, min(n, sent + chunk)))
                    sent += chunk
            while told in done:
                yield from done.pop(told)
                told += chunk

    def close(self):
        for p in self.procs.values():
            p.kill()
        for p in self.procs.values():
            p.join()
        for c in self.procs:
            c.close()


def suppressed(violation, known):
    return any(c == violation[0] and (not k or k in violation[1]) for c, k in known)


def _one(index):
    seed, tier, known = _args
    if index > _stop.value:             # the verdict is known already
        return dict(index=index, error="skipped")
    try:
        _env.runs, _env.faults, _env.simtime = 0, {}, 0
        case = _prop.gen(case_rng(seed, _prop.id, index), index, tier)
        r = _prop.check(_env, case)
        again = None
        if r.violation and not suppressed(r.violation, known):      # re-executed by report()
            with _stop.get_lock():
                _stop.value = min(_stop.value, index)
        elif index % _prop.recheck == 0:
            runs, faults, st = _env.runs, _env.faults, _env.simtime
            again = _prop.check(_env, json.loads(json.dumps(case))).hash()
            _env.runs, _env.faults, _env.simtime = runs, faults, st
        sig = hashlib.sha256(canon(case).encode()).digest()[:8] if r.nontrivial else None
        return dict(index=index, violation=r.violation, hash=r.hash(), again=again, sig=sig, situations=sorted(r.situations), extra=r.extra, distinct=r.distinct,
                    runs=_env.runs, faults=_env.faults, simtime=_env.simtime, case=case if index < 3 or r.violation or again not in (None, r.hash()) else None, trace=r.trace if index < 3 else None)
    except Exception:
        return dict(index=index, error=traceback.format_exc())


def minimise(env, prop, case, cls, limit=400, seconds=60):
    t0, tried = time.time(), 0
    progress = True
    while progress and tried < limit and time.time() - t0 < seconds:
        progress = False
        for cand in prop.shrinks(json.loads(json.dumps(case))):
            if tried >= limit or time.time() - t0 > seconds:
                break
            tried += 1
            try:
                r = prop.check(env, cand)
            except HostError:
                raise
            if r.violation and r.violation[0] == cls:
                case, progress = cand, True
                break
    return case, tried


def read_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                words = line.split(None, 4)
                kv = dict(w.split("=", 1) for w in words[1:4] if "=" in w)
                if kv.get("property") == pid:
                    out.append((kv.get("class", ""), kv.get("key", ""), words[4] if len(words) > 4 else ""))
    return out


def replay(prop, path):
    rec = json.load(open(path))
    env = Env(prop.kinds)
    try:
        r = prop.check(env, rec["case"])
    finally:
        env.close()
    for t in r.trace:
        print("  " + t)
    same = r.hash() == rec["hash"]
    if r.violation:
        print(f"REPLAYED property={prop.id} class={r.violation[0]} hash={r.hash()} {'identical' if same else 'DIFFERENT from the recorded execution'}: {r.violation[1]}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print(f"replay of {path}: no violation (hash {r.hash()}, recorded {rec['hash']})")
    return 0


def main(prop, seed, tier, workers=None):
    t0 = time.time()
    for k in prop.kinds:
        out = build.build(k)
        if k == "main":
            os.environ["DST_WORDS"] = os.path.join(out, "words")
    tb = time.time() - t0
    n = int(os.environ.get("DST_COUNT", prop.counts[tier]))
    cap = float(os.environ.get("DST_SECONDS", 420 if tier == "quick" else 780))
    workers = workers or int(os.environ.get("DST_WORKERS", os.cpu_count() or 4))
    print(f"{prop.id}: seed {seed}, tier {tier}, {n} cases, {workers} workers, build {tb:.1f}s", flush=True)
    for cls, key, what in read_known(prop.id):
        print(f"KNOWN-FINDING: property={prop.id} {what}")
    known = [(c, k) for c, k, _ in read_known(prop.id)]
    tot = dict(cases=0, runs=0, simtime=0, recheck=0, suppressed=0, unrepeatable=0)
    faults, extra, situations, sigs, samples, distinct = {}, {}, {}, set(), [], {}
    bad, error, stopped = None, None, False
    scratch = tempfile.mkdtemp(prefix="dst-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.environ["DST_SCRATCH"] = scratch
    farm = Farm(workers, (prop, seed, tier, mp.get_context("fork").Value("q", 1 << 60), known))
    loghash = hashlib.sha256()
    try:
        t1 = time.time()
        for res in farm.imap(n, max(1, min(16, n // (workers * 8) or 1))):
            if "error" in res:
                error = f"case {res['index']}: {res['error']}"
                break
            tot["cases"] += 1
            tot["runs"] += res["runs"]
            tot["simtime"] += res["simtime"]
            loghash.update(res["hash"].encode())
            if res["again"] is not None:
                tot["recheck"] += 1
                if res["again"] != res["hash"] and not res["violation"] and prop.nondeterminism:
                    res["violation"] = (prop.nondeterminism, "the same case behaves differently when it is executed again")
                if res["again"] != res["hash"] and not res["violation"]:      # the code meets something that the simulator does not own
                    if not tot["unrepeatable"]:
                        print(f"NOTE: case {res['index']}, executed twice, differs in detail ({res['hash']}, {res['again']}); the property held both times", flush=True)
                    tot["unrepeatable"] += 1
            for k, v in res["faults"].items():
                faults[k] = faults.get(k, 0) + v
            for k, v in res["extra"].items():
                extra[k] = extra.get(k, 0) + v
            for s in res["situations"]:
                situations[s] = situations.get(s, 0) + 1
            for k, v in res["distinct"].items():
                distinct.setdefault(k, set()).update(v)
            if res["sig"]:
                sigs.add(res["sig"])
            if res["case"] is not None and len(samples) < 3 and not res["violation"]:
                samples.append(dict(index=res["index"], case=shorten(res["case"]), trace=res["trace"][:30]))
            if res["violation"]:
                if suppressed(res["violation"], known):
                    tot["suppressed"] += 1
                    continue
                bad = res
                break
            if time.time() - t0 > cap:
                stopped = True
                break
        wall = time.time() - t1
    finally:
        farm.close()
    os.environ.pop("DST_SCRATCH")
    shutil.rmtree(scratch, ignore_errors=True)
    viol = 0
    rc = 0
    if error:
        print("ERROR of the check: " + error, flush=True)
        rc = 3
    if bad and rc == 0:
        rc, viol = report(prop, seed, tier, bad)
    fin = prop.final(tot, extra, situations) if hasattr(prop, "final") else None
    cov = dict(evaluations=tot["cases"], distinct_nontrivial=len(sigs), rule=prop.rule, samples=samples or [dict(note="none completed")],
               simulated_runs=tot["runs"], runs_per_hour=int(tot["runs"] / max(wall, 1e-3) * 3600), seeds=tot["cases"],
               seeds_per_hour=int(tot["cases"] / max(wall, 1e-3) * 3600), simulated_clock_seconds_covered=tot["simtime"],
               faults_injected=dict(sorted(faults.items())), probes=dict(sorted(extra.items())),
               distinct_situations=len(situations), situation_measure=prop.measure, situations=dict(sorted(situations.items(), key=lambda x: -x[1])[:60]),
               **{"distinct_" + k: len(v) for k, v in distinct.items()}, determinism_rechecked=tot["recheck"], not_repeatable=tot["unrepeatable"], log_hash=loghash.hexdigest()[:16], stopped_by_time_cap=stopped,
               components_real=prop.real, components_stub=prop.stub, repo_key=build.repo_key(), known_findings_met=tot["suppressed"])
    ev = dict(property=prop.id, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop.id}: {tot['cases']} cases, {tot['runs']} simulated runs in {wall:.1f}s, {len(sigs)} distinct non-trivial, "
          f"{len(situations)} situations, faults {faults}, log {loghash.hexdigest()[:16]}", flush=True)
    return rc


def report(prop, seed, tier, bad):
    """gate, minimise, write the replay file, replay it in a fresh process"""
    env = Env(prop.kinds)
    try:
        case, cls = bad["case"], bad["violation"][0]
        tries = [prop.check(env, case) for _ in range(2)]
        exact = all(r.violation and r.hash() == bad["hash"] for r in tries)
        if not exact:       # the code under test meets nondeterminism that the simulator does not own
            tries += [prop.check(env, case) for _ in range(8)]
            if not any(r.violation for r in tries) and prop.nondeterminism:
                tries[-1].violation = tuple(bad["violation"])
            if not any(r.violation for r in tries):
                print(f"ERROR of the check: violation of case {bad['index']} does not reproduce ({bad['violation']})")
                return 3, 0
            r = next(r for r in tries if r.violation)
            cls, tried = r.violation[0], 0
        else:
            if tries[0].witness:
                w = prop.check(env, tries[0].witness)
                if w.violation and w.violation[0] == cls:
                    case = tries[0].witness
            case, tried = minimise(env, prop, case, cls)
            r = prop.check(env, case)
    finally:
        env.close()
    d = os.path.join(VERIF, "build", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.id}-{seed}-{bad['index']}.json")
    rec = dict(property=prop.id, seed=seed, tier=tier, index=bad["index"], **{"class": cls}, message=r.violation[1], case=case, trace=r.trace,
               hash=r.hash(), repo_key=build.repo_key(), original_message=bad["violation"][1], minimiser_executions=tried, exact=exact)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    for _ in range(1 if exact else 10):
        p = subprocess.run([sys.executable, "-m", "dst", "--replay", path], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 1:
            break
    if (p.returncode != 1 and not (prop.nondeterminism and not exact)) or exact and b"identical" not in p.stdout:
        print("ERROR of the check: the replay in a fresh process does not fail the same way:\n" + p.stdout.decode(errors="replace"))
        return 3, 0
    if not exact:
        print(f"{prop.id}: the same case ends differently from one execution to the next ({sum(bool(r.violation) for r in tries)} of {len(tries)} violate): "
              "the code uses something the simulator does not control")
    print(f"{prop.id}: {cls}: {r.violation[1]}")
    for t in r.trace:
        print("  " + t)
    print(f"VIOLATION property={prop.id} replay={path}", flush=True)
    return 1, 1


def shorten(o, n=300):
    if isinstance(o, str):
        return o if len(o) <= n else o[:n] + f"...({len(o)} bytes)"
    if isinstance(o, list):
        return [shorten(x, n) for x in o[:24]] + ([f"...({len(o)} items)"] if len(o) > 24 else [])
    if isinstance(o, dict):
        return {k: shorten(v, n) for k, v in o.items()}
    return o
