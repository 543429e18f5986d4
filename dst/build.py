"""Builds the simulation hosts from the working tree of the repository into /verif/build (content-addressed)."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
ROOT = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
# the flags of the repository's Makefile, and the includes its build adds for this compiler
REPO_FLAGS = "-std=c++11 -O3 -ffast-math -fwrapv -march=native -include iterator -include limits -w".split()
# the flags setup.py and this Python give the extension module
EXT_FLAGS = "-DNDEBUG -O2 -fwrapv -fPIC -std=c++11 -ffast-math -march=native -include iterator -include limits -w".split()
SIM_FLAGS = "-std=c++17 -O1 -g -Wall".split()
MAINS = ("crossprob", "crossprob_mc")
ALLOC = "malloc free calloc realloc posix_memalign aligned_alloc memalign".split()
FFT = ("fftw_plan_dft_r2c_1d fftw_plan_dft_c2r_1d fftw_plan_dft_1d fftw_plan_r2r_1d fftw_plan_dft_r2c fftw_plan_dft_c2r "
       "fftw_plan_many_dft_r2c fftw_plan_many_dft_c2r fftw_destroy_plan fftw_malloc fftw_alloc_real fftw_alloc_complex fftw_free").split()
EXITS = "exit quick_exit _exit _Exit".split()
THR = ("memcpy memmove memset fftw_execute fftw_execute_dft_r2c fftw_execute_dft_c2r fftw_execute_dft fftw_make_planner_thread_safe "
       "fftw_cleanup fftw_forget_wisdom fftw_set_timelimit").split()


class BuildError(Exception):
    pass


def wraps(names):
    return ["-Wl,--wrap=" + n for n in names]


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:])
    return r.stdout.decode(errors="replace")


def _key(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    with open("/proc/cpuinfo") as fh:
        h.update(next((l for l in fh if l.startswith("flags")), "").encode())
    return h.hexdigest()[:16]


def repo_sources():
    return sorted(glob.glob(REPO + "/src/*.cc"))


def repo_key():
    return _key([f for f in glob.glob(REPO + "/src/*") + glob.glob(REPO + "/python_extension/*.*") if os.path.isfile(f)])


def _compile_repo(out, flags, jobs):
    """every source of the library and both mains; a file that is not part of the programs may fail to compile"""
    objs = {}
    def one(src):
        name = os.path.splitext(os.path.basename(src))[0]
        o = os.path.join(out, name + ".o")
        sh(["g++", *flags, "-I", REPO + "/src", "-c", src, "-o", o])
        return name, o
    with ThreadPoolExecutor(jobs) as ex:
        for name, o in ex.map(one, repo_sources()):
            objs[name] = o
    return objs


def _words(out, objs):
    """the short strings among the programs' constants: names and values that the code may be looking for"""
    words = set()
    for n, o in objs.items():
        for sec in sh(["readelf", "-SW", o]).split():
            if sec.startswith(".rodata"):
                words.update(m.group(1) for m in re.finditer(r"^  \[ *[0-9a-f]+\]  (.{1,12})$", sh(["readelf", "-W", "-p", sec, o]), re.M))
    with open(f"{out}/words", "w") as f:
        f.write("\n".join(sorted(w for w in words if all(33 <= ord(c) < 127 and c not in "/\\" for c in w) and w.strip("."))))


def _lib(out, objs):
    lib = os.path.join(out, "librepo.a")
    if os.path.exists(lib):
        os.unlink(lib)
    sh(["ar", "rcs", lib] + [o for n, o in sorted(objs.items()) if n not in MAINS])
    return lib


def _build_main(out):       # host_crossprob, host_crossprob_mc, host_sess
    objs = _compile_repo(out, REPO_FLAGS, 8)
    jobs = [["g++", *SIM_FLAGS, "-c", f"{SIM}/simalloc.cc", "-o", f"{out}/simalloc.oo"],
            ["g++", *SIM_FLAGS, "-c", f"{SIM}/simio.cc", "-o", f"{out}/simio.oo"],
            ["g++", *SIM_FLAGS, "-c", f"{SIM}/trap.cc", "-o", f"{out}/trap.oo"],
            ["g++", *SIM_FLAGS, "-c", f"{SIM}/state.cc", "-o", f"{out}/state.oo"],
            ["g++", *SIM_FLAGS, "-DHOST_PROG", "-c", f"{SIM}/host.cc", "-o", f"{out}/hostp.oo"],
            ["g++", *SIM_FLAGS, "-I", REPO + "/src", "-c", f"{SIM}/host.cc", "-o", f"{out}/hosts.oo"]]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    os.makedirs(f"{out}/locale")            # a locale with a decimal comma; without it the programs cannot be asked to use one
    try:
        subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", f"{out}/locale/de_DE.UTF-8"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    except (OSError, subprocess.TimeoutExpired):
        pass
    _words(out, objs)
    lib = _lib(out, objs)
    for m in MAINS:
        sh(["objcopy", "--redefine-sym", "main=repo_main", objs[m], f"{out}/main_{m}.o"])
        sh(["g++", "-rdynamic", "-o", f"{out}/host_{m}", f"{out}/main_{m}.o", f"{out}/hostp.oo", f"{out}/trap.oo", f"{out}/simalloc.oo", f"{out}/simio.oo", lib,
            *wraps(ALLOC + FFT + EXITS), "-lfftw3", "-lpthread"])
        sh(["g++", "-rdynamic", "-no-pie", "-o", f"{out}/host_{m}_alt", f"{out}/main_{m}.o", f"{out}/hostp.oo", f"{out}/trap.oo", f"{out}/simalloc.oo", f"{out}/simio.oo", lib,
            *wraps(ALLOC + FFT + EXITS), "-lfftw3", "-lpthread"])
    sh(["g++", "-rdynamic", "-o", f"{out}/host_sess", f"{out}/hosts.oo", f"{out}/state.oo", f"{out}/simalloc.oo", f"{out}/simio.oo", lib, *wraps(ALLOC + FFT), "-lfftw3", "-lpthread"])
    sh(["g++", "-rdynamic", "-no-pie", "-o", f"{out}/host_sess_alt", f"{out}/hosts.oo", f"{out}/state.oo", f"{out}/simalloc.oo", f"{out}/simio.oo", lib, *wraps(ALLOC + FFT), "-lfftw3", "-lpthread"])


def _names(*args):
    return {l.split()[-1].split("@")[0]: l.split()[-2] for l in sh(["nm", *args]).splitlines() if len(l.split()) >= 2 and not l.endswith(":")}


# what is left alone: code the sanitizer's callbacks are made of, exceptions and start-up, and pure mathematics
NOT_CALLS = re.compile(r"__tsan|__cxa|_Unwind|__gxx|__stack_chk|__errno|__assert|__real_|__wrap_|pthread_|fftw|_Zn[wa]|_Zd[la]|_ZSt\d+__throw|_ZT|_start|main$")


def _call_points(out, objs):
    """The repository's calls of functions of the C and C++ libraries go through a trampoline that is a scheduling point:
    what those functions do to memory is not instrumented, so another thread has to get its chance in between."""
    files = [o for n, o in sorted(objs.items()) if n not in MAINS]
    undef, defined = _names("-u", *files), _names("--defined-only", *files, f"{out}/hostthr.oo")
    func, math = {}, {}
    for l, into in (("libstdc++.so.6", func), ("libc.so.6", func), ("libm.so.6", math)):
        path = sh(["g++", "-print-file-name=" + l]).strip()
        into.update(_names("-D", "--defined-only", path))
    names = [n for n in sorted(undef) if func.get(n, "-") in "TWi" and n not in math and n not in defined and n not in ALLOC + FFT + THR + EXITS and not NOT_CALLS.match(n)]
    with open(f"{out}/calls.s", "w") as f:
        f.write("\t.text\n")
        for n in names:
            f.write(f"\t.globl dst_call_{n}\n\t.type dst_call_{n}, @function\ndst_call_{n}:\n\tcall dst_call_save\n\tjmp {n}@PLT\n")
        regs = "rdi rsi rdx rcx r8 r9 rax r10".split()
        f.write("\t.type dst_call_save, @function\ndst_call_save:\n\tpushq %rbp\n\tmovq %rsp, %rbp\n\tandq $-16, %rsp\n\tsubq $192, %rsp\n")
        moves = [(f"movq %{r}", f"movq {8 * i}(%rsp), %{r}", 8 * i) for i, r in enumerate(regs)] + [(f"movups %xmm{i}", f"movups {64 + 16 * i}(%rsp), %xmm{i}", 64 + 16 * i) for i in range(8)]
        f.write("".join(f"\t{a}, {o}(%rsp)\n" for a, _, o in moves) + "\tcall sim_call_point@PLT\n" + "".join(f"\t{b}\n" for _, b, _ in moves))
        f.write("\tleave\n\tret\n\t.section .note.GNU-stack,\"\",@progbits\n")
    with open(f"{out}/calls.map", "w") as f:
        f.writelines(f"{n} dst_call_{n}\n" for n in names)
    sh(["gcc", "-c", f"{out}/calls.s", "-o", f"{out}/calls.oo"])
    for o in files:
        sh(["objcopy", f"--redefine-syms={out}/calls.map", o])


def _build_thr(out):
    flags = [f for f in REPO_FLAGS] + ["-fsanitize=thread", "-g"]
    objs = _compile_repo(out, flags, 8)
    sh(["g++", "-std=c++17", "-O2", "-g", "-Wall", "-I", REPO + "/src", "-c", f"{SIM}/hostthr.cc", "-o", f"{out}/hostthr.oo"])
    _call_points(out, objs)
    lib = _lib(out, objs)
    sh(["g++", "-rdynamic", "-o", f"{out}/host_thr", f"{out}/hostthr.oo", f"{out}/calls.oo", lib, *wraps(ALLOC + FFT + THR), "-lfftw3", "-lpthread"])


def _build_ref(out):
    sh(["g++", "-O2", "-march=native", "-fPIC", "-shared", "-Wall", f"{SIM}/ref.cc", "-o", f"{out}/libref.so"])


def _build_py(out):
    import sysconfig
    inc = sysconfig.get_paths()["include"]
    os.makedirs(f"{out}/o", exist_ok=True)
    objs = _compile_repo(f"{out}/o", EXT_FLAGS, 8)
    jobs = [["g++", *EXT_FLAGS, "-I", inc, "-I", REPO + "/src", "-c", f"{REPO}/python_extension/crossprob.cc", "-o", f"{out}/o/ext.oo"],
            ["g++", *SIM_FLAGS, "-fPIC", "-fvisibility=hidden", "-I", inc, "-c", f"{SIM}/pysim.cc", "-o", f"{out}/o/pysim.oo"]]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    sh(["g++", *SIM_FLAGS, "-fPIC", "-shared", f"{SIM}/state.cc", "-o", f"{out}/libstate.so", "-lfftw3"])
    lib = _lib(f"{out}/o", objs)
    with open(f"{out}/o/exports", "w") as f:
        f.write("{ global: PyInit__crossprob; dst_*; local: *; };\n")
    sh(["g++", "-shared", "-o", f"{out}/_crossprob" + sysconfig.get_config_var("EXT_SUFFIX"), f"{out}/o/ext.oo", f"{out}/o/pysim.oo", lib,
        "-Wl,-Bsymbolic", "-Wl,--version-script=" + f"{out}/o/exports", *wraps(ALLOC + FFT + ["PyEval_SaveThread", "PyEval_RestoreThread", "getenv", "secure_getenv"]), "-lfftw3", "-lpthread"])
    shutil.copy(f"{REPO}/python_extension/crossprob.py", f"{out}/crossprob.py")


def _build_obj(out):        # host_obj; none if the library has no such objects (any more)
    lib = _lib(out, _compile_repo(out, REPO_FLAGS, 8))
    try:
        sh(["g++", *SIM_FLAGS, "-DHOST_OBJ", "-I", REPO + "/src", "-c", f"{SIM}/host.cc", "-o", f"{out}/hosto.oo"])
        for n in ("simalloc", "simio", "state"):
            sh(["g++", *SIM_FLAGS, "-c", f"{SIM}/{n}.cc", "-o", f"{out}/{n}.oo"])
        sh(["g++", "-rdynamic", "-o", f"{out}/host_obj", f"{out}/hosto.oo", f"{out}/state.oo", f"{out}/simalloc.oo", f"{out}/simio.oo", lib, *wraps(ALLOC + FFT), "-lfftw3", "-lpthread"])
    except BuildError as e:
        with open(f"{out}/absent", "w") as f:
            f.write(str(e))


def _build_store(out):
    sh(["g++", *SIM_FLAGS, "-fPIC", "-shared", f"{SIM}/store.cc", "-o", f"{out}/libstore.so", "-ldl"])
    shutil.copy(f"{REPO}/benchmarks/pickler.py", f"{out}/pickler.py")


KINDS = {"main": (_build_main, ["simalloc.cc", "simio.cc", "trap.cc", "host.cc", "state.cc", "simcore.hh", "idle.hh", "tsc.hh"]),
         "thr": (_build_thr, ["hostthr.cc", "idle.hh", "tsc.hh"]),
         "py": (_build_py, ["pysim.cc", "pyhost.py", "state.cc", "idle.hh"]),
         "obj": (_build_obj, ["simalloc.cc", "simio.cc", "host.cc", "objects.hh", "state.cc", "simcore.hh", "idle.hh", "tsc.hh"]),
         "store": (_build_store, ["store.cc", "storehost.py"]),
         "ref": (_build_ref, ["ref.cc"])}


def build(kind):
    """-> directory with the built hosts of this kind"""
    fn, simfiles = KINDS[kind]
    files = [os.path.join(SIM, f) for f in simfiles] + [os.path.abspath(__file__)]
    if kind == "store":
        files += [REPO + "/benchmarks/pickler.py"]
    elif kind != "ref":
        files += [f for f in glob.glob(REPO + "/src/*") if os.path.isfile(f)]
    if kind == "py":
        files += [f for f in glob.glob(REPO + "/python_extension/*.*") + [REPO + "/setup.py"] if os.path.isfile(f)]
    out = os.path.join(ROOT, f"{kind}-{_key(files)}")
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "done")):
            os.utime(out)
            return out
        old = sorted(glob.glob(os.path.join(ROOT, kind + "-*")), key=os.path.getmtime)
        for d in old[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        fn(out)
        open(os.path.join(out, "done"), "w").close()
    return out


if __name__ == "__main__":
    for k in sys.argv[1:] or KINDS:
        try:
            print(build(k))
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
