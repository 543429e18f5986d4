#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

MAIN = ["src/crossprob.cc", "src/crossprob_mc.cc"]
RD = ["src/read_boundaries_file.cc", "src/string_utils.cc"]
LIB = ["src/ecdf2.cc", "src/ecdf1_new.cc", "src/ecdf1_mns2016.cc", "src/fftwconvolver.cc", "src/poisson_pmf.cc", "src/common.cc", "src/common.hh", "src/aligned_mem.hh"]

prop("C01", "A failed read never turns into an answer",
 "If opening or reading the boundaries file fails at any moment of a run (at the open, before, between or in the middle of its two lines), crossprob and crossprob_mc never report a probability computed from the part that had been read: they end with a non-zero exit status and an error message, and print no probability.",
 ["fault_sequences", "crash_points", "inputs"],
 "every command of both programs, every boundaries file, every instant at which open() or a read() can return an error, every errno, in any pattern of short and interrupted reads",
 "The tests only read small healthy files delivered by one read(); no test makes a read fail, and a failure inside the second line leaves a stream state that looks like a normal end of file.",
 RD + MAIN, [("stream exceptions enabled after open", "src/read_boundaries_file.cc:read_and_check_boundaries_file"), ("ifstream::failure / runtime_error mapped to exit codes", "src/crossprob.cc:main, src/crossprob_mc.cc:main")],
 observe=["exit status", "standard output"])

prop("C02", "The answer does not depend on how the file's bytes arrive",
 "For every valid boundaries file, read from a regular file or from a pipe, and however the operating system splits or interrupts the reads, crossprob exits with status 0 and prints the exact probability that the sorted uniform sample stays within the bounds of the complete file (to the printed precision). For crossprob_mc the printed estimate is the one it prints when the same file is read undisturbed by a run started at the same second.",
 ["schedules", "fault_sequences", "inputs"],
 "all ways to split the byte stream into reads, with EINTR anywhere, regular files and pipes, files from one number to far longer than any stream buffer, all commands",
 "Every test file fits one read() of one buffer of a regular file; results for samples above ten points and the FFT path (from 128 points) are never computed by a test.",
 RD + MAIN + LIB, [("getline over the stream buffer, split at commas", "src/read_boundaries_file.cc, src/string_utils.cc"), ("command dispatch", "src/crossprob.cc:handle_command_line_arguments")],
 observe=["exit status", "standard output"])

prop("C03", "A file that was cut short is not taken for a smaller problem",
 "A boundaries file cut off anywhere inside its first line or directly after it, before or during the run, is refused with a non-zero exit status by every command of both programs. When a file with both lines non-empty is cut off anywhere later, crossprob's two-sided commands either refuse it or still use all n pairs of bounds, with nothing but trailing characters of the very last number lost.",
 ["crash_points", "inputs", "schedules"],
 "every byte position at which the file's writer can have stopped, every valid file, truncation before the run and between two reads of the run",
 "No test uses an incomplete file; the distinction between 'second line empty' and 'second line missing' depends on one stream-state check.",
 RD + ["src/crossprob.cc", "src/crossprob_mc.cc", "src/common.cc"], [("a missing second line raises the stream's failbit", "src/read_boundaries_file.cc:read_next_line"), ("length comparison of the two lists", "src/crossprob.cc:calculate_ecdf2_*, src/common.cc:check_boundary_vector")],
 observe=["exit status", "standard output"])

prop("C04", "Exit status 0 means the result line was delivered",
 "crossprob and crossprob_mc exit with status 0 only if standard output accepted the complete result line: when a write fails (full disk, closed pipe, I/O error) at whatever byte, the exit status is non-zero. Short writes that later writes complete lose, repeat and reorder nothing.",
 ["fault_sequences", "crash_points"],
 "every command, every byte of the output at which standard output can fail or accept only part, every errno, buffered or line-buffered standard output",
 "The tests capture standard output through a healthy pipe; no test ever makes a write fail.",
 MAIN, [("result printed, stream state checked", "src/crossprob.cc:handle_command_line_arguments, src/crossprob_mc.cc:handle_command_line_arguments")],
 observe=["exit status", "bytes accepted by standard output"])

prop("C05", "Running out of memory never crashes a program or falsifies its answer",
 "When any memory request or FFT-plan request of crossprob or crossprob_mc cannot be met, the run either still exits 0 with the result it prints without the failure (the exact algorithms: up to rounding), or ends with a non-zero exit status and an error message. It is never killed by a signal, never hangs and never prints another number.",
 ["fault_sequences", "crash_points", "inputs"],
 "every single request of a run failing, and every run of consecutive failures (memory exhausted for a while or for good), for every command and file",
 "No test limits memory; the number of distinct failing points grows with every allocation of every input size and none is reachable by a normal run.",
 MAIN + LIB + RD, [("allocation failure raised as an exception", "src/aligned_mem.hh, src/ecdf1_mns2016.cc"), ("exceptions mapped to exit codes", "src/crossprob.cc:main, src/crossprob_mc.cc:main")],
 observe=["exit status", "standard output", "termination signal"])

prop("C06", "A library call that fails leaves nothing behind",
 "When a memory request or the creation of an FFT plan fails inside a library call, the call reports an error to its caller; everything it had acquired (memory, FFT plans) is released, and nothing is released twice. Every later call in the same process returns what it would have returned had the failed call never been made.",
 ["fault_sequences", "histories", "crash_points"],
 "every sequence of calls of the five probability functions, every request inside them failing alone or for a while",
 "The tests run one computation per process and never see a failing request, let alone a second call after it.",
 LIB, [("destructors on the exceptional path", "src/fftwconvolver.cc, src/poisson_pmf.cc, src/ecdf1_mns2016.cc, src/ecdf1_new.cc, src/aligned_mem.hh")],
 state=[("FFT buffers and memoised plans", "owned by one convolver per call", "src/fftwconvolver.hh")],
 observe=["exceptions at the call", "live heap blocks and plans after it", "results of later calls"])

prop("C07", "A call's result does not depend on the calls before it",
 "Every library call returns the value its own arguments determine, the same (up to floating-point rounding; for rejected arguments the same error with the same text) as in a fresh process, whatever calls came before it in the process: other algorithms, other sizes, similar or equal arguments, arguments that were rejected, in any order. Arbitrarily repeated calls do not accumulate memory.",
 ["histories", "inputs"],
 "all sequences of calls of the five probability functions with valid and invalid arguments, sizes below and above the FFT thresholds",
 "Each test runs a fresh process for one computation, so nothing that survives a call (static data, FFT planner state, a cached table) is ever exercised.",
 LIB, [("no state outlives a call; plan memo is per convolver", "src/fftwconvolver.cc:memoized_r2c_plan/memoized_c2r_plan"), ("static exponent scratch", "src/ecdf1_mns2016.cc:extract_exponent")],
 state=[("static exponent", "scratch of frexp", "src/ecdf1_mns2016.cc")],
 observe=["return values", "live heap bytes"])

prop("C08", "Results do not depend on leftover memory, and no call leaves its memory",
 "The results of the library's functions and of crossprob depend only on their arguments: whatever the memory they obtain happens to contain, wherever it lies and however barely it satisfies the alignment asked for, they return the same value (up to floating-point rounding). No call writes outside the memory it obtained, uses it after releasing it, or releases it twice.",
 ["configurations", "inputs", "histories"],
 "all initial contents of heap and stack memory and all placements an allocator may choose, for every function, input and size",
 "A test process starts with zeroed pages, so reads of memory that was never written, or of the bytes next to a block, are invisible there.",
 LIB, [("explicit initialisation of every buffer before use", "src/fftwconvolver.cc:copy_zero_padded, src/poisson_pmf.cc, src/ecdf1_mns2016.cc, src/common.hh:DoubleBuffer")],
 observe=["return values", "canaries around and in freed blocks"])

prop("C09", "Concurrent calls do not disturb each other",
 "Any number of threads may call the library's functions at the same time, each on its own arguments or sharing read-only ones, and every call returns (or throws) what it would have returned (thrown) alone, up to floating-point rounding, under every interleaving. No interleaving crashes or deadlocks.",
 ["schedules", "histories", "inputs"],
 "all thread interleavings of concurrent calls of the five functions, all sizes (with and without FFT)",
 "The tests are single-threaded, and even a stress test would sample few interleavings and could not replay the one that fails.",
 LIB, [("per-call buffers", "src/ecdf2.cc, src/ecdf1_new.cc"), ("serialised access to the FFT library's planner, which is not thread-safe", "src/fftwconvolver.cc")],
 state=[("FFTW planner", "process-wide state behind plan creation and destruction", "src/fftwconvolver.cc"), ("static exponent", "scratch of frexp", "src/ecdf1_mns2016.cc")],
 observe=["return values", "exceptions"], hook=None)

prop("C10", "A simulation run is reproducible from its inputs and starting second",
 "What crossprob_mc prints is determined by its command line, the boundaries file and the clock second at which it starts. Nothing else changes it: not leftover memory, addresses, the process id, the environment, other sources of randomness, nor how time passes during the run.",
 ["configurations", "schedules", "inputs"],
 "all environments a run can meet for a given command line, file and starting second",
 "The tests compare estimates with a tolerance of 0.01 at whatever second they run, so two runs are never compared and every nondeterminism below the tolerance is invisible.",
 ["src/crossprob_mc.cc", "src/tinymt64.cc", "src/tinymt64.h"], [("generator state and parameters initialised from the seed only", "src/crossprob_mc.cc:RandomNumberGenerator"), ("seed from time() and the sample size", "src/crossprob_mc.cc:*_montecarlo")],
 state=[("tinymt64_t", "generator state and its three parameters", "src/tinymt64.h")],
 observe=["standard output"])

prop("C11", "The sample simulation is calibrated at every start time",
 "Whenever it is started and however the clock behaves during the run (standing still, jumping either way, any epoch, failing), 'crossprob_mc ecdf' prints an estimate whose deviation from the exact probability of the bounds is within the sampling error of the number of simulations asked for.",
 ["configurations", "schedules", "inputs"],
 "all start times and clock behaviours, all valid bounds (one-sided and two-sided), all numbers of simulations",
 "The tests sample two seconds of one afternoon's clock with six small files and accept an error of 0.01, about twenty standard errors.",
 ["src/crossprob_mc.cc", "src/tinymt64.cc", "src/tinymt64.h"], [("exponential spacings normalised to a uniform sample", "src/crossprob_mc.cc:does_random_ecdf_cross"), ("seed from the clock", "src/crossprob_mc.cc:ecdf_crossing_probability_montecarlo")],
 observe=["standard output"])

prop("C12", "The Poisson simulation is calibrated at every start time",
 "Whenever it is started and however the clock behaves during the run, 'crossprob_mc poisson' prints an estimate whose deviation from the exact probability that a homogeneous Poisson process, of intensity n equal to the longer line's length, stays within the boundaries (only one of them, if the other line is empty) is within the sampling error of the number of simulations asked for.",
 ["configurations", "schedules", "inputs"],
 "all start times and clock behaviours, all valid bounds (one-sided and two-sided), all numbers of simulations",
 "The Poisson tests are commented out: no test runs this mode at all.",
 ["src/crossprob_mc.cc", "src/tinymt64.cc", "src/tinymt64.h"], [("event times accumulated up to 1, early exit above the upper boundary", "src/crossprob_mc.cc:does_random_poisson_process_cross"), ("seed from the clock", "src/crossprob_mc.cc:poisson_process_crossing_probability_montecarlo")],
 observe=["standard output"])

prop("C13", "Simulation runs started in different seconds are independent samples",
 "The estimates printed by crossprob_mc runs started in different clock seconds, near or far apart, scatter around the exact probability like independent samples: their spread is the sampling error of one run, and averaging them reduces the error accordingly.",
 ["configurations", "schedules", "inputs"],
 "all sets of distinct start seconds, both modes, all bounds",
 "No test compares two runs of the same command; a seed that ignored or coarsened the clock would print a correct estimate every time.",
 ["src/crossprob_mc.cc", "src/tinymt64.cc"], [("seed from time() in seconds plus a sample-size offset", "src/crossprob_mc.cc"), ("seed expansion", "src/tinymt64.cc:tinymt64_init")],
 observe=["standard output"])

prop("C14", "Every run ends, cleanly, whatever its environment does",
 "Whatever mixture of faults the environment produces (failing, interrupted, short or empty reads and writes, failing memory, a clock that stops or jumps, missing, damaged or malformed files), every run of crossprob and crossprob_mc ends after a bounded number of interactions with it, and ends by exiting: status 0 with a result, or non-zero with a message. It is never killed by a failed assertion or a memory error, and never retries for ever.",
 ["fault_sequences", "inputs", "schedules"],
 "all mixtures and orders of faults, all file contents (valid, damaged or random), all commands",
 "The tests run healthy files in a healthy environment, for which both programs end immediately.",
 MAIN + RD + LIB, [("exception handlers in main", "src/crossprob.cc:main, src/crossprob_mc.cc:main"), ("argument checks before the computation", "src/common.cc:check_boundary_vector")],
 observe=["exit status", "termination signal", "number of environment interactions"])

prop("C15", "The Python module turns every failure into an exception and stays usable",
 "Whatever a caller's sequence object does while it is being read (raising, changing its length, returning other types, calling back into the module, switching threads) and whichever memory or FFT-plan request fails inside a call, a function of the Python module either returns the probability for the values the sequences delivered or raises a Python exception. The interpreter survives, reference counts of the arguments are unchanged, no call leaves memory behind, and later calls return what they would have returned otherwise.",
 ["fault_sequences", "histories", "schedules", "inputs"],
 "all sequences of module calls with misbehaving argument objects, failing requests and thread switches at every callback",
 "No test imports the extension module at all.",
 ["python_extension/crossprob.cc", "python_extension/crossprob.py", "src/crossprob.i", "setup.py"] + LIB, [("C++ exceptions translated to Python exceptions", "src/crossprob.i:%exception"), ("sequence conversion", "python_extension/crossprob.cc")],
 observe=["return values and exceptions", "reference counts", "survival of the interpreter"])

prop("C16", "The programs leave the file system as they found it",
 "Whatever they are asked to compute and whatever goes wrong meanwhile, crossprob and crossprob_mc only read the boundaries file: they never modify, truncate, rename or remove it, and never create or open for writing any other file.",
 ["fault_sequences", "inputs", "histories"],
 "all commands, all inputs, all failures of any request at any instant",
 "No test looks at the file system after a run, and a leftover appears only on the path that creates it.",
 MAIN + RD, [("input opened through a read-only stream", "src/read_boundaries_file.cc")],
 observe=["directory contents and file bytes after the run", "open requests"])

prop("C21", "A library call leaves what the process shares as it was",
 "Whatever its arguments (also refused ones) and whichever memory or FFT-plan request fails inside it, a library function, called from C++ or through the Python module, leaves the state that everything in the process shares as it found it, also where the caller has set it unusually: floating-point rounding, denormal and trap modes, locale, signal handlers, masks and timers, file descriptors and umask, working directory, environment, limits, threads, the C library's random generators, FFTW's accumulated wisdom, stream formatting, terminate and new handlers, and the interpreter's own settings. It prints nothing and does not end the process; importing the Python module changes nothing of this either.",
 ["fault_sequences", "configurations", "histories", "inputs"],
 "all library functions, arguments, failing requests and initial states of the process",
 "The tests run each computation in a process of its own that ends right after it; no test looks at the process after a call, and a setting is typically lost only on an error path or for callers with unusual settings.",
 LIB + ["python_extension/crossprob.cc", "python_extension/crossprob.py"], [("FFTW planner use and plan release", "src/fftwconvolver.cc"), ("error paths by exceptions only", "src/common.cc:check_boundary_vector"), ("long double arithmetic on the x87 unit", "src/ecdf1_mns2016.cc"), ("module initialisation", "python_extension/crossprob.cc")],
 observe=["process-wide state before and after each call", "standard output and error"])

prop("C22", "An exact command's answer depends on the command and the file's bytes only",
 "Whether crossprob accepts a boundaries file with one of the exact commands, and the probability it then prints (to the digits printed), is determined by the command and the bytes of the file. It does not depend on the file's name, place, kind or dates (regular file, link, pipe, standard input), the name the program is called by, environment variables, the locale and its decimal comma, the clock, process, user and machine, the contents and placement of memory, what standard input holds, whether standard output is a terminal and how it is buffered, or on other files.",
 ["configurations", "histories", "inputs"],
 "all exact commands, all files (also malformed ones), all environments",
 "The tests run in one environment, with one locale and files of one naming scheme; a dependence appears only elsewhere.",
 MAIN + RD + LIB, [("numbers converted in the C locale", "src/string_utils.cc:string_to_double"), ("command and file name taken from the command line", "src/crossprob.cc:handle_command_line_arguments")],
 observe=["standard output", "exit status"])

prop("C23", "A computation needs memory in proportion to its input",
 "Whatever crossprob or crossprob_mc computes without error, it computes with at most one megabyte of requested memory plus 2000 bytes for each number in the boundaries and 20 bytes for each byte of the file's text: on a machine with no more than that the result is the same. The number of simulations, and the library calls made before in the same process, add nothing to it.",
 ["fault_sequences", "inputs", "histories"],
 "all commands, sample sizes, numbers of simulations, lengths of text; all histories of library calls",
 "The tests have samples of at most ten points and never run short of memory.",
 MAIN + RD + LIB, [("two buffers in turn", "src/common.hh:DoubleBuffer"), ("tables of the sample's size", "src/poisson_pmf.cc"), ("one buffer for all simulations", "src/crossprob_mc.cc")],
 observe=["outcome on a machine with limited memory"])

prop("C24", "A library call's answer depends on its arguments only",
 "Whether a library function, called from C++ or through the Python module, accepts its arguments, and (up to rounding) the probability it returns, is determined by the numbers in its arguments. It does not depend on the process it is called in: environment variables, the C, C++ or thread's locale, errno and floating-point flags left by earlier code, signal settings, timers and limits, open descriptors, formatting and errors of the standard streams, random generators, FFTW's wisdom and time limit, the clock, process, user and machine (such as its number of processors), the contents and placement of memory, other files; nor on the moment: plainly, while an exception is handled or unwinding, or in another thread; nor, in Python, on the kind of sequence or the interpreter's settings.",
 ["configurations", "histories", "inputs"],
 "all library functions, all arguments (also refused ones), all processes and moments",
 "The tests call the library from one kind of process with the usual settings; a dependence appears only in a caller with others.",
 LIB + ["python_extension/crossprob.cc", "python_extension/crossprob.py"], [("validation of the arguments alone", "src/common.cc:check_boundary_vector"), ("sizes chosen from the arguments alone", "src/ecdf1_new.cc:ecdf1_new_B, src/fftwconvolver.cc"), ("conversion of sequences", "python_extension/crossprob.cc")],
 observe=["return values", "exceptions"])

prop("C25", "Reading a boundaries file inside a process gives exactly what the file holds",
 "However often a process calls read_and_check_boundaries_file, between computations, failed calls and changes of the files, each call that returns gives exactly the numbers that the named file holds at that moment, and a file that is missing, unreadable or malformed makes it throw. A call during which an open, a read or a memory request fails throws or gives the whole file, never a part; interrupted and short reads change nothing. No call leaves a file open or memory behind, and none changes what a later call does.",
 ["fault_sequences", "histories", "inputs"],
 "all sequences of calls, files, rewritings and failures in one process",
 "No test calls the reader; the programs read one file and end, which hides what stays open, stays behind or is kept from one call to the next.",
 RD, [("stream with exceptions, closed on every path", "src/read_boundaries_file.cc"), ("errno cleared before each conversion", "src/string_utils.cc:string_to_double"), ("tokens and numbers in local vectors", "src/string_utils.cc:read_comma_delimited_doubles")],
 observe=["return values", "exceptions", "open descriptors", "live memory"])

prop("C26", "A simulated estimate is the fraction of exactly the simulations asked for",
 "For a number N of simulations, crossprob_mc prints k/N (to the six significant digits printed) for some whole number k between 0 and N: all N simulations are made, no more, each counts once, and how time passes during the run, however the clock jumps or fails, ends it neither early nor late. What happens in every simulation is printed as exactly 1, and what happens in none as exactly 0.",
 ["fault_sequences", "configurations", "inputs"],
 "all commands, boundaries, numbers of simulations and clock behaviours",
 "The tests compare two estimates with generous tolerances; a run that ends early, counts a few simulations too many or loses a few passes them.",
 ["src/crossprob_mc.cc"], [("one loop over the simulations, one division", "src/crossprob_mc.cc:ecdf_crossing_probability_montecarlo, poisson_process_crossing_probability_montecarlo"), ("the number given on the command line", "src/crossprob_mc.cc:handle_command_line_arguments")],
 observe=["standard output"])

prop("C27", "A saved benchmark result is loaded exactly as it was saved, or not at all",
 "After the benchmarks' dump(name, field=value, ...) has returned, load(name) in the same or any later process gives exactly those fields and values, until a dump under the same name replaces them; other names are not affected. A dump during which storage fails raises an exception. After a dump that failed, or whose process ended at whatever point, load gives what was saved before, the complete new result, or an exception, never a mixture or a part. Calls leave no file open and do not change the values they were given.",
 ["fault_sequences", "crash_points", "histories"],
 "all histories of processes that save and load named results one at a time, all failures of storage and ends of processes",
 "The benchmarks have no tests; a result lost when closing fails, or a half-written file taken for a result, shows only when storage fails.",
 ["benchmarks/pickler.py"], [("compressed stream closed by a with statement, errors passed on", "benchmarks/pickler.py:dump"), ("checksum and length verified while unpickling", "benchmarks/pickler.py:load")],
 observe=["exceptions", "return values", "open descriptors"])

prop("C28", "A convolver or a generator of Poisson probabilities can be used again and again",
 "An FFTWConvolver made for a size N convolves vectors of any sizes up to N, in any order, any number of times, beside other convolvers and in whichever thread it was made or used before: each result is the first size numbers of the convolution of the two arguments, whatever was convolved before; the arguments stay as they were and nothing beyond the result is written; a larger size is refused or answered correctly. A PoissonPMFGenerator made for K gives the Poisson probabilities of 0..k for any k up to K and any intensity >= 0, in any order, and refuses a negative intensity. A call that fails, because memory is short or FFTW refuses a plan, throws and leaves the object as usable as before; a deleted or half-made object leaves no memory and no plan behind.",
 ["fault_sequences", "histories", "inputs"],
 "all histories of calls on all sets of objects, all sizes, arguments and failures",
 "No test uses the objects directly; each program uses one of each, for one sample, and then ends.",
 ["src/fftwconvolver.cc", "src/fftwconvolver.hh", "src/poisson_pmf.cc", "src/poisson_pmf.hh", "src/aligned_mem.hh"], [("plans kept by padded size, buffers zero-padded each time", "src/fftwconvolver.cc:memoized_r2c_plan, copy_zero_padded"), ("largest size checked", "src/fftwconvolver.cc:convolve_same_size"), ("table of log factorials, one array", "src/poisson_pmf.cc")],
 observe=["return values", "exceptions", "live memory", "live FFT plans"])

# --- not decided by this technique (pure functions of their input) ---
prop("C17", "The exact algorithms are accurate for every boundary",
 "For every non-decreasing pair of boundaries in [0,1], of any length, the exact algorithms return the non-crossing probability to the accuracy their papers promise, including very small probabilities, probabilities near 1, ties and large samples.",
 ["inputs"], "all boundary vectors of all lengths",
 "Six small files with at most ten points; large samples, tiny probabilities and the FFT path are not computed by any test.",
 LIB, [("Poisson-process propagation and normalisation", "src/ecdf2.cc, src/ecdf1_new.cc"), ("translated polynomials with exponent correction", "src/ecdf1_mns2016.cc")], observe=["return values"])
prop("C18", "Algorithms agree with each other and respect the reflection symmetry",
 "The exact algorithms agree within their accuracy on every problem they share; reflecting the sample (x -> 1-x, swapping the two boundaries) leaves the probability unchanged; an absent boundary means the trivial one.",
 ["inputs"], "all boundary vectors", "Compared by tests on five files only.",
 LIB + ["src/crossprob.cc"], [("reflection of lower into upper boundaries", "src/ecdf1_new.cc:ecdf1_new_b, src/ecdf1_mns2016.cc:ecdf1_mns2016_B"), ("zero/one vectors for absent boundaries", "src/crossprob.cc:calculate_ecdf2_*")], observe=["return values"])
prop("C19", "Probabilities are in [0,1] and monotone in the boundaries",
 "Every exact result lies in [0,1] up to rounding and never increases when a lower bound is raised or an upper bound is lowered.",
 ["inputs"], "all pairs of comparable boundary vectors", "No test compares two related problems.",
 LIB, [("positive propagation", "src/ecdf2.cc")], observe=["return values"])
prop("C20", "Invalid boundaries and command lines are rejected",
 "Boundaries of unequal length, decreasing, outside [0,1], not a number or not parseable, and wrong commands or argument counts, are rejected with an error, never silently turned into a number.",
 ["inputs"], "all malformed inputs", "No test passes an invalid input.",
 ["src/common.cc", "src/string_utils.cc", "src/crossprob.cc", "src/crossprob_mc.cc"], [("check_boundary_vector", "src/common.cc"), ("number parsing", "src/string_utils.cc")], observe=["exit status", "exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
