#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
SIM = "deterministic simulation with fault injection: "
T = dict(
 C01=("seeded open/read failures at every position of a run of the real programs", "searches failing opens and reads over all commands, errnos and stages; the file-stream calls are real libstdc++, only the system calls below it are simulated"),
 C02=("seeded splitting and interruption of reads against a reference probability", "searches delivery schedules of generated files; relies on the reference dynamic programme, which is itself tested against exact rational arithmetic"),
 C03=("seeded truncation of the file before and during the run", "searches cut positions (biased to line ends and number ends) for all commands, including files that shrink while they are read"),
 C04=("seeded write failures and short writes on standard output", "searches failing byte positions, errnos and short-write patterns; judged by the simulator's own log of accepted bytes"),
 C05=("seeded failing memory and FFT-plan requests in whole program runs, against an undisturbed twin", "requests are counted first, then chosen ones fail; requests inside shared libraries other than libstdc++ containers are not failed"),
 C06=("seeded failing memory and FFT-plan requests in sessions of library calls", "live blocks and plans are watched over repeated failures; later calls are compared with an undisturbed session"),
 C07=("seeded histories of library calls in one process against fresh-process and reference values", "searches histories of up to 640 calls with related and unrelated arguments"),
 C08=("seeded contents, placement and borders of all memory, twin runs", "leftover heap and stack contents are chosen by the simulator; borders, release and reuse are watched; invalid reads inside live blocks are seen only through results"),
 C09=("seeded scheduler over real threads at every shared access, lock and planner call", "interleavings are sequentially consistent; FFTW's planner is represented by its exclusive-use contract"),
 C10=("seeded clock, heap, stack, process identity, entropy and environment, twin runs", "two runs with the same inputs and starting second must print the same; everything else is varied by the simulator"),
 C11=("seeded clock scripts; exact binomial tail bounds against the reference probability", "a false alarm has probability below 1e-9 per check; a bias must exceed the sampling error of the pooled runs to be seen"),
 C12=("seeded clock scripts; exact binomial tail bounds against the reference probability", "a false alarm has probability below 1e-9 per check; a bias must exceed the sampling error of the pooled runs to be seen"),
 C13=("seeded starting seconds; variance and correlation tests over the printed estimates", "a false alarm has probability below 1e-9 per check; covers seconds near and far apart"),
 C14=("seeded mixtures of all faults with damaged files in whole program runs", "termination within a budget of interactions and CPU time; any death by a signal counts"),
 C15=("seeded misbehaving sequences, thread hand-overs and failing requests in sessions of the real extension module", "runs in the installed CPython; callbacks, hand-overs and failures are placed by the simulator"),
 C21=("seeded initial process states and failing requests in sessions of library calls; the whole shared state is compared around each call", "what counts as shared state is listed in sim/state.cc and sim/pyhost.py; changes undone before the call ends are not seen"),
 C22=("seeded worlds (environment, locale, clock, identity, memory, addresses, file kind and name, other files), the same command and file in each", "searches worlds; variables and files that the program asks for are detected and then supplied; text other than the result is not compared"),
 C23=("a simulated machine with memory in proportion to the problem; seeded whole runs and histories of library calls, against twins with plenty", "searches sizes, numbers of simulations and histories; FFTW's own memory is not counted"),
 C24=("seeded processes (locale, environment, settings, errno and flags, clock, identity, memory, addresses, moment of the call, other files), the same library calls in each", "searches processes; variables and files that a call asks for are detected and then supplied; floating-point modes are not varied; results are compared up to rounding, refusals by kind"),
 C25=("seeded histories of readings in one process with failing opens, reads and memory requests, files rewritten between them", "what a malformed file gives is compared with a process that reads nothing else; the locale stays the programs' one"),
 C26=("seeded clock scripts and numbers of simulations; every printed estimate must be a whole number of simulations divided by their number", "up to about 400000 simulations can be told apart by the six digits printed; beyond that only certain and impossible problems are decided"),
 C27=("seeded histories of processes with failing, short and interrupted storage requests and processes that end in the middle of one", "no power failure: what a process wrote before it ended is kept; one process at a time uses a name"),
 C28=("seeded histories of calls on several convolvers and generators with failing memory requests and refused plans, against the definitions", "the objects are reached through their C++ interface; where a tree has none by that name, the check says so in its evidence and decides nothing"),
 C16=("seeded mixtures of faults; the simulated file system's end state and open requests", "every path-taking system call of the programs' objects and of libstdc++ file streams goes through the simulator"),
)
NA = dict(
 C17="a pure function of its argument: no schedule, clock, I/O, fault or history enters it; accuracy over all inputs is a question of numerical analysis, not of simulation (the values are compared with the reference incidentally in C02, C07 and C08)",
 C18="a relation between pure functions of the arguments; no schedule, clock, I/O, fault or history enters it",
 C19="a relation between pure functions of the arguments; no schedule, clock, I/O, fault or history enters it",
 C20="input validation is a pure function of the file's text and the command line; what faults do to it is C01, C03 and C14",
)
checks = [dict(property=p, quick_cmd=f"bin/check {p}", thorough_cmd=f"bin/check {p}", evidence_file=f"evidence/{p}.json", technique=SIM + t, level="exploration", level_note=n) for p, (t, n) in T.items()]
m = dict(version=1, setup_cmd="PYTHONDONTWRITEBYTECODE=1 /usr/bin/python3 -m dst.build", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
         notes="No hooks in /repo: every seam is at the link level (wrapped symbols, redefined main, the sanitizer's access callbacks). Commits in /repo are all fixes of genuine defects, listed in known-findings.txt. bin/check --replay FILE reproduces a recorded violation.")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
