"""Which harnesses decide which property."""
import os, sys
import build, mpigen

VERIF = build.VERIF


def H(name, harness, variant="rel", args=(), quick=None, thorough=None, **kw):
    """A C++ harness variant."""
    bkw = {k: kw.pop(k) for k in ("wraps", "sources", "extra_src", "extra", "libs", "tag") if k in kw}
    def prepare(tree):
        return [tree.harness(harness, variant, **bkw)] + list(args)
    d = dict(name=name, prepare=prepare, **kw)
    if quick: d["quick"] = quick
    if thorough: d["thorough"] = thorough
    return d


CHECKS = {}


def check(pid, rule, variants, technique, note, level="exploration"):
    CHECKS[pid] = dict(rule=rule, variants=variants, technique=technique, note=note, level=level)


check("C24",
      "One random operation sequence per case (up to 150 operations, random key ranges and starting positions) on one container kind, compared after every operation with its abstract type (deque, map, multiset). Non-trivial: the sequence wraps the ring or removes from the middle / pops for two processes / sorts more than five elements / deletes from a tree of more than eight nodes. Distinct by choice sequence.",
      [H("containers", "containers")],
      "model-based property testing of containers",
      "Random operation sequences up to 150 operations against C++ standard containers; every container the runtime uses, with AddressSanitizer.")

LEWI_RULE = ("One case is a history of up to 45 random calls (every LeWI call, enable/disable, limits, blocking calls, finalize and re-init, valid and out-of-range arguments) by 1-4 processes on a generated topology (1-96 CPUs, contiguous or interleaved SMT cores, 1-3 NUMA nodes). "
    "After each call the return code, every callback and the printed registry are compared with a reference model, and safety rules independent of the model are asserted. Non-trivial: at least one CPU was used by a process that does not own it and CPUs changed hands more than twice. Distinct by choice sequence.")
def lewi(pid, technique, note, races=False, **kw):
    vs = [H("lewi-" + pid, "lewi_mask", args=("--prop", pid), wraps=("pthread_getaffinity_np",), **kw)]
    if races:
        vs.append(H("lewi-races-" + pid, "lewi_race", "yield", args=("--prop", pid), wraps=("pthread_getaffinity_np",)))
    check(pid, LEWI_RULE, vs, technique, note)
LEWI_NOTE = "Call histories up to 45 calls by up to 4 processes interleaved at call granularity (not inside calls); masks are disjoint and made of whole cores."
lewi("C01", "stateful model-based testing of LeWI histories (polling)", LEWI_NOTE, races=True)
lewi("C02", "stateful model-based testing of LeWI histories (asynchronous)", LEWI_NOTE, races=True)
lewi("C03", "stateful model-based testing of reclaim, disable and finalize histories", LEWI_NOTE)
lewi("C04", "stateful model-based testing of LeWI histories on SMT topologies", LEWI_NOTE)
lewi("C05", "stateful model-based testing of LeWI histories with parallelism limits", LEWI_NOTE + " On SMT nodes the limit is rounded up to whole cores; asynchronous requests left pending when the limit is computed are a known finding.")
lewi("C06", "stateful model-based testing of blocking-call histories", LEWI_NOTE + " The calling thread's affinity mask is substituted through the linker.")
check("C32", LEWI_RULE.replace("the printed registry", "the registry queries (thread bindings, non-owned CPUs)"), [H("lewi-C32", "lewi_mask", args=("--prop", "C32"), wraps=("pthread_getaffinity_np",)), H("drom-C32", "drom", args=("--prop", "C32"), wraps=("clock_gettime", "usleep"), quick=5000)], "stateful model-based testing of registry queries", LEWI_NOTE)

check("C23", "One topology (none, regular, interleaved SMT, irregular with holes) and up to 12 random sets/pairs of sets per case; every mask function is compared with std::set and every notation with an independent reader/writer. Non-trivial: at least one set has three or more CPUs with gaps between them. Distinct by choice sequence.",
      [H("masks", "masks")], "property-based testing against set-theoretic oracles and round trips", "Sets of up to 1024 CPUs; text of up to 1024 characters, the documented input limit; topologies through the testing entry points (hwloc discovery itself is not generated).")

check("C22", "One environment string, initialization string and set of deprecated variables per case (up to 12 options each, valid, malformed and unknown), then up to 12 set calls, reading and printing everything, compared with a model of the documented meaning of every option. Non-trivial: at least three options in the two strings. Distinct by choice sequence.",
      [H("options", "options")], "model-based property testing and grammar fuzzing of option strings", "Text values up to the documented 63 characters (paths up to 4000); numbers with trailing text are not generated.")

check("C18", "Hybrid: up to six sets of per-process measured times (1-24 processes on 1-24 nodes, 1-56 CPUs each, zero, tiny and hour-long times, both models) reduced by the harness and given to the metric computation. Node: per-process times published in the TALP registry and queried. Non-trivial: several processes on several nodes (hybrid), more than two used processes (node). Distinct by choice sequence.",
      [H("perf-hybrid", "perf", args=("--kind", "hybrid"), extra_src=("perf_c.c",)), H("perf-node", "perf", args=("--kind", "node"), extra_src=("perf_c.c",))],
      "property-based testing: definitions, algebraic identities and metamorphic relations", "Single-precision results compared with a relative error of 3e-5.")

check("C20", "One history of up to 50 calls by 1-4 application processes (several process ids each) and 0-2 external readers, real processes with their own address spaces: attach with equal and different sizes, register, publish, read in every way, print, finalize, detach. Every answer is compared with a model of the registry. Non-trivial: values of at least two live regions were read by a process that had not published them. Distinct by choice sequence.",
      [H("talp-registry", "talp_shm"), H("talp-registry-races", "registry_race", "yield", args=("--prop", "C20"))], "stateful model-based testing across processes", "1-6 CPUs, up to 1800 regions of capacity; calls are interleaved at call granularity.")

TALP_RULE = "One history of up to 160 events per case on real threads run in lockstep under a virtual clock: up to 3 application threads, up to 6 OpenMP workers driven by a fake OpenMP runtime through the OMPT entry point (nested and serialized parallels, tasks, all synchronisation kinds), MPI calls, region start, stop, stop-last, reset, register, update, report, re-initialization, with and without external profiler and region selection. Every field of every region is compared, to the nanosecond, with a direct integration of the event history, and the final JSON report with the final values. "
def talp(pid, nt, technique, note):
    check(pid, TALP_RULE + "Non-trivial: " + nt + " Distinct by choice sequence.", [H("talp-" + pid, "talp", args=("--prop", pid), wraps=("clock_gettime",))], technique, note)
TALP_NOTE = "Events are interleaved at call granularity. Regions are started, stopped and reset outside OpenMP parallel regions; one initial OpenMP thread; tasks run at synchronisation points."
talp("C16", "two or more regions open at once, at least one thread not in useful state and three full comparisons.", "stateful model-based testing under a virtual clock", TALP_NOTE)
talp("C17", "at least four regions and six region events.", "stateful model-based testing of the region API", TALP_NOTE)
talp("C21", "at least two parallel regions and two full comparisons.", "model-based generation of OpenMP event streams", TALP_NOTE)

check("C19", "Up to three rounds of random records (0-3 application regions, 0-2 nodes, 0-3 regions with 1-4 ranks, all fields random, names any UTF-8 text up to 127 bytes) written as JSON, XML, CSV (single, split, appended), text file or printed, under C and comma-decimal locales; the output is read back with strict independent parsers and every value compared. Non-trivial: at least two records. Distinct by choice sequence.",
      [H("talp-output", "talp_out")], "property-based round-trip testing of reports", "Control characters only in JSON and CSV names; host names are plain. End-to-end reports of real histories are compared in C16.")

DROM_RULE = "One history of up to 60 calls per case by 2-5 real processes and an administrator on a node of 1-8 CPUs: start (with and without a reservation, inherited through the environment), finalize, attach, detach, reserve, cancel, set, get, poll, recover, lists; synchronous calls are stopped at every delay while other processes poll, leave or reserve, and time runs out only when the case says so. After each call the return code, callbacks, every process mask and the list of processes are compared with a model, and at the end every CPU must be available again. "
def drom(pid, nt, technique, note):
    check(pid, DROM_RULE + "Non-trivial: " + nt + " Distinct by choice sequence.", [H("drom-" + pid, "drom", args=("--prop", pid), wraps=("clock_gettime", "usleep"))] + ([H("drom-races", "registry_race", "yield", args=("--prop", "C09"))] if pid == "C09" else []), technique, note)
DROM_NOTE = "Histories of up to 60 calls; calls are interleaved at call granularity and, for synchronous calls, at each of their delays."
drom("C09", "at least three changes and a stolen CPU.", "stateful model-based testing of DROM histories across processes", DROM_NOTE)
drom("C10", "a reservation was inherited or a synchronous call waited, and at least two changes.", "stateful model-based testing of reservations across processes", DROM_NOTE)

BAR_RULE = "One history of up to 50 operations per case by 2-5 real processes with room for 1-8 barriers: initialization with different barrier options, register, attach, detach, finalize, rounds entered in random order with calls on other barriers (and whole rounds of them) meanwhile, back-to-back rounds with detach at the end, and the same call by several processes at once. Every return code, handle, entry and exit time, and the printed registry are compared with a model. "
def bar(pid, nt, technique, note):
    check(pid, BAR_RULE + "Non-trivial: " + nt + " Distinct by choice sequence.", [H("barrier-" + pid, "barrier", args=("--prop", pid), wraps=("pthread_getaffinity_np",)), H("barrier-races-" + pid, "barrier", "yield", args=("--prop", pid), wraps=("pthread_getaffinity_np",))], technique, note)
bar("C13", "at least three completed rounds.", "stateful model-based testing with real processes and generated schedules", "Membership changes between rounds of the same barrier, as documented; schedules are those of the kernel, driven by generated delays and orders.")
bar("C14", "at least five registrations, attachments or detachments.", "stateful model-based testing of barrier registration", "Names of up to 31 characters; one thread per process.")

check("C15", "One history per case of up to 24 steps by 1-4 real processes with up to 40 targets (several per process): start and finalize targets, one to four processes sending up to 99 messages each at the same time to several targets (existing, finalized or unknown), with callbacks of different kinds and durations, waiting, and finalizing a target (and starting another in its place) while others send. Each target records what its callbacks receive; the record must be an interleaving, whole message by whole message, of what each process sent in its order, complete when idle or finalized (a beginning of each if it finalized meanwhile), and nothing after finalizing. Non-trivial: at least 10 messages of three kinds. Distinct by choice sequence.",
      [H("async", "async", wraps=("pthread_mutex_lock",)), H("async-races", "async", "yield", wraps=("pthread_mutex_lock",))], "model-based testing of message histories with real processes", "At most 99 pending messages per target (one more is a documented fatal error); schedules are those of the kernel, driven by generated delays.")

LEWI_RULE = "One history of up to 50 operations per case by 2-4 real processes with 1-6 CPUs each (and any options: keep one CPU, greedy): lend, borrow, acquire, reclaim, limits, enable, disable, blocking calls, finalize and initialize again, with valid and invalid amounts, and phases where all processes call at the same time. After each call the return code and what every process was told are compared with a model that conserves the CPUs; after concurrent phases everybody must get back exactly the initial CPUs and the idle pool is measured by borrowing it. "
def clewi(pid, nt, technique, note):
    check(pid, LEWI_RULE + "Non-trivial: " + nt + " Distinct by choice sequence.", [H("lewi-" + pid, "lewi", args=("--prop", pid), wraps=("pthread_mutex_lock",)), H("lewi-races-" + pid, "lewi", "yield", args=("--prop", pid), wraps=("pthread_mutex_lock",))], technique, note)
clewi("C07", "at least five changes of count.", "stateful model-based testing with real processes", "The initial CPUs of all processes fit in the node. Schedules of concurrent phases are those of the kernel.")
clewi("C08", "at least five changes of count, one of them by the call of another process.", "stateful model-based testing with real processes", "The initial CPUs of all processes fit in the node; messages are awaited after each call, and only totals are compared after concurrent phases.")

PAGES_RULE = "One folder tree of TALP files per case (Hypothesis: up to 3 folders, 8 runs each with their own resources, regions, metrics, metadata, time stamps, malformed files), given to the command-line entry points of TALP-Pages in-process; the generated pages, tables, plots data, badges and files are read back and compared with the input. "
def pages(pid, nt, technique, note):
    def prepare(tree):
        return [build.TALP_PYTHON, os.path.join(VERIF, "harness", "talp_pages.py"), "--prop", pid, "--repo", build.REPO]
    check(pid, PAGES_RULE + "Non-trivial: " + nt + " Distinct by generated input.", [dict(name="pages-" + pid, prepare=prepare, env={"PYTHONDONTWRITEBYTECODE": "1"})], technique, note)
pages("C30", "at least three runs with at least two resource configurations.", "property-based testing of report generation from generated folders", "ISO time stamps without time zone; every run has the Global region; scalability relative to a configuration with zero counters only has to be produced.")
pages("C31", "metadata was added, at least two badges were checked, or a report over an existing folder.", "property-based testing of the command-line tools", "The network is replaced by a recorder of the request for the badge.")

API_RULE = "One history of up to 60 random public calls per case by 1-3 processes (the main interface, also from other threads, or the subprocess interface, possibly several in one process) on 1-8 CPUs with any combination of modules: initialize with good, conflicting and incompatible options, finalize, enable, disable, limits, callbacks, every LeWI call, DROM, barriers, monitoring regions, node queries, variables, attach and detach, with valid and out-of-range arguments, before, during and after initialization. Return codes are compared with the lifecycle model; after every call that fails or reports no update all the bytes of all shared segments (but their mutexes) must be unchanged and no callback called; in the end no segment, mapping, file or thread is left. "
def api(pid, nt, technique, note):
    check(pid, API_RULE + "Non-trivial: " + nt + " Distinct by choice sequence.", [H("api-" + pid, "api", args=("--prop", pid), wraps=("sched_getaffinity", "pthread_getaffinity_np"))], technique, note)
api("C11", "at least five calls that fail or report no update.", "stateful property-based testing with byte-level comparison of the shared segments", "Calls are interleaved at call granularity; the environment and the process-local options are not compared.")
api("C25", "at least one successful initialization and eight different calls.", "stateful model-based testing of the API lifecycle", "Calls are interleaved at call granularity.")

CRASH_WRAPS = ("shm_open", "shm_unlink", "ftruncate64", "mmap64", "munmap", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_timedlock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_cond_wait", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_timedrdlock", "pthread_rwlock_timedwrlock", "pthread_rwlock_unlock")
check("C12", "race: at least two processes and six attach/detach cycles; api: at least one process died and the survivors were then examined; solo: every case", [H("crash-race", "crash", args=("--mode", "race"), wraps=CRASH_WRAPS), H("crash-api", "crash", args=("--mode", "api"), wraps=CRASH_WRAPS), H("crash-solo", "crash", args=("--mode", "solo"), wraps=CRASH_WRAPS)], "fault-injecting property-based testing (random schedules, deaths at system-call and lock points, real processes)", "race: free-running processes attach, use and detach one segment while delays and SIGKILL are injected before/after shm_open, ftruncate, mmap, munmap, shm_unlink and every lock operation (outside critical sections); oracles: one segment per name at a time, contents never reset under a user, only dead processes cleaned and once, nobody missing or stale in the list, segment gone after the last one leaves. api: histories of real DLB processes (LeWI mask/async/count, DROM, TALP, barrier) with deaths between and inside calls; after the next process attaches the survivors must agree on who is there and be able to use and recover every CPU. solo: a death inside a critical section or a segment of another version is reported to newcomers without disturbing its users. Not generated: deaths of a process waiting inside a barrier, deaths inside Init/Finalize with classic LeWI (no per-process record), named barriers of dead processes.")

def tools_prepare(tree):
    cmd = [tree.harness("tools", "nosan")]
    for t in ("dlb_run", "dlb_taskset", "dlb_shm", "dlb"):
        cmd += ["--tool", tree.harness("tool_dummy", "rel", extra_src=(os.path.join(build.REPO, "src", "utils", t + ".c"),), tag="-" + t)]
    return cmd + ["--tool", tree.harness("tool_child", "nosan")]
check("C28", "a program was run by dlb_run or dlb_taskset, or a mask was set, CPUs were removed, or a non-empty listing was compared.", [dict(name="tools", prepare=tools_prepare)], "model-based testing of the executables, differential against the library API (two identical worlds)", "Random histories of dlb, dlb_run, dlb_taskset and dlb_shm command lines (spellings of options, masks, PIDs, invalid ones) run as an unprivileged user next to real DLB processes; the same operations are done through the library in a second world and both registries must agree; the program run must receive exactly its arguments, environment, directory, CPUs, run once, and its status is the status of the tool; listings are parsed and compared with the registry; invalid command lines must fail without effects; dlb_shm --delete removes all and only the segments of the user. Not generated: signals to dlb_run itself, extra non-option arguments of dlb_shm.")

check("C26", "One history per case (up to 40 steps) of a process whose OpenMP runtime is simulated: the harness drives DLB's OMPT callbacks for up to 8 CPUs (1 or 2 per core) with simulated threads (sched_getcpu and the affinity calls are intercepted), for any combination of --lewi, --lewi-ompt=borrow/lend/both/none, --drom, --lewi-keep-one-cpu, OMP_NUM_THREADS, OMP_PLACES=threads/cores: parallel regions (threads in either order, nested regions), blocking calls, LeWI calls of the process, LeWI calls of another real process and changes of its mask by an administrator. The number of threads requested and the CPU of every thread are compared with the shared memory registry: one thread per CPU (core) that the process may use, each bound to a different one, own CPUs first; parallel regions recover the own CPUs and borrow idle ones, ends of region lend all but one, blocking calls lend and recover all. Non-trivial: at least three parallel regions and three changes of the CPUs. Distinct by policy.",
      [H("ompt", "ompt", wraps=("sched_getcpu", "pthread_setaffinity_np", "pthread_getaffinity_np", "sched_getaffinity"))], "stateful model-based testing with a simulated OpenMP runtime and real processes", "Polling mode; with SMT only whole-core operations and OMP_PLACES set; OMP_NUM_THREADS not above the number of CPUs; until the CPUs change the initial OMP_NUM_THREADS is accepted; masks set by the administrator do not take CPUs of the other process; DLB_Lend by the program only with the borrow policy.")

check("C27", "One history per case (up to 60 steps) of a process whose OpenMP runtime, with free agent threads or threads that change of role, is simulated: tasks created, started and completed by any thread, parallel regions of any size, nested regions, blocking calls, and LeWI calls of another real process, for every --lewi-ompt policy, mask, OMP_NUM_THREADS and number of free agents (free-agents), created in any moment. After each event every active free agent must be on a CPU that the process has according to the shared memory registry, bound to its own CPU, activated only with pending tasks and never on a CPU of a worker or wanted by a region; with idle CPUs a task activates exactly one; a task completed without pending tasks, or on a CPU wanted by its owner or by a region, deactivates it and gives the CPU back; regions and blocking calls reclaim and lend as documented. Non-trivial: at least six changes of active free agents or CPUs. Distinct by policy.", [H("free-agents", "freeagents", wraps=("sched_getcpu", "pthread_setaffinity_np", "pthread_getaffinity_np", "sched_getaffinity")), H("role-shift", "roleshift", wraps=("sched_getcpu", "pthread_setaffinity_np", "pthread_getaffinity_np", "sched_getaffinity"))], "stateful model-based testing with a simulated OpenMP runtime and real processes", "Polling mode, one thread per core, the process mask does not change; the other process registers before the free agents start; role-shift only with OMP_NUM_THREADS=1 and one free agent per CPU of the process (the runtime that implements it is not available, the simulation follows the callbacks that DLB expects).")

def mpi(harness, **kw):
    return lambda tree: mpigen.prepare(tree, build, harness, **kw)
check("C29", "One program per case (up to 120 steps): MPI_Init or MPI_Init_thread, calls of any intercepted function through its C, Fortran 77 (each mangling), Fortran 2008 or enter/leave interface with random arguments, results, absent ierror and requests, from this or other threads, MPI_Finalize, and DLB initialized, finalized, enabled or disabled by the program at any time, with any of the options --lewi, --lewi-mpi-calls, --talp, --drom, --barrier. A mock implementation generated from the installed mpi.h records every call: the events must be into-hook, implementation, out-hook exactly once in order, with the flags of a table of blocking and collective operations written from the MPI standard, the arguments and the result unchanged, and TALP's number of MPI calls exact. Non-trivial: more than eight calls of more than five different MPI functions. Distinct by set of functions.",
      [dict(name="mpi-wrappers", prepare=mpi("mpi", wraps=("into_sync_call", "out_of_sync_call", "DLB_Init", "DLB_Finalize")))], "property-based testing of the generated wrappers against a recording mock implementation", "The functions of the MPI version DLB is configured with (3.1); MPI_Init failing, --lewi together with --drom without mask not generated; the mock replaces the MPI library, so real communication is not exercised.")

check("C33", "One MPI program per case: 1-6 ranks, real processes placed in any way on 1-4 simulated nodes (own shared memory per node), DLB initialised by MPI_Init or by the program, a virtual clock; up to 40 steps: regions registered in any order by any ranks, started and stopped, MPI calls by one rank, by all, or by another thread, time passing by amounts down to 1 ns, collective DLB_TALP_CollectPOPMetrics; then MPI_Finalize (or DLB_Finalize before it) with any --talp-summary and a JSON report. A mock MPI moves exactly the bytes the datatypes describe, reduces in any order, and checks that signatures, communicators, datatypes and collectives match. Non-trivial: several ranks, at least one MPI call and a collected or written summary. Distinct by choice sequence.",
      [dict(name="mpi-talp", prepare=mpi("mpi_talp", wraps=("clock_gettime",)))], "property-based testing of generated MPI programs over a mock MPI library, against an aggregation of the ranks' own measurements", "MPI 3 only; no OpenMP in these programs (C21); the measurements of each rank are taken as they are (C16 checks them), except the number of MPI calls; efficiencies are left to C18; regions other than the global one are closed before MPI_Finalize.")

NOT_APPLICABLE = {}
HOOKS = None
