#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "LeWI never gives one CPU to two processes and only hands out lent CPUs",
 "After any sequence of lend, reclaim, acquire, borrow and return calls by the processes of a node using CPU-mask LeWI in polling mode, every CPU is in use by at most one process, a process obtains a CPU it does not own only if its owner has lent it and nobody else uses it, and no CPU is lost or invented. Each call returns the documented code, enables or disables (through the callbacks) exactly the CPUs it gained or lost, and grants CPUs in the configured affinity order and up to the requested number.",
 "histories configurations inputs", "All call histories over several processes, all process masks, node sizes, affinity policies and CPU arguments (single, count, mask, out of range).",
 "Tests run a handful of scripted two-process sequences on one topology; the guarantee quantifies over every interleaving of calls of any number of processes.",
 ["src/LB_comm/shmem_cpuinfo.c", "src/LB_policies/lewi_mask.c", "src/LB_core/lb_funcs.c", "src/apis/DLB_interface_sp.c"],
 [("per-CPU owner/guest/state record under the shared-memory lock", "shmem_cpuinfo.c"), ("affinity priority array and policy entry points", "lewi_mask.c")],
 ["return codes", "enable/disable callbacks", "DLB_PrintShmem output"])

prop("C02", "In asynchronous LeWI no CPU stays idle while an eligible request is pending",
 "In asynchronous mode, after any history of calls and once the helper threads are quiet, no lent and unused CPU exists that an outstanding request is entitled to, requests for one CPU are served in arrival order, and a removed, satisfied or finalized request is never served. Every CPU that changes hands produces exactly one disable notification to the process that loses it and one enable notification to the one that gets it, and the two views (notifications and shared registry) agree.",
 "histories schedules configurations", "All histories of acquire (single CPU, counts, masks), lend, reclaim, disable and finalize by several asynchronous processes.",
 "Tests exercise two processes with at most a couple of requests; queue order, removal and re-request after a reclaim depend on the whole history.",
 ["src/LB_comm/shmem_cpuinfo.c", "src/LB_policies/lewi_mask.c", "src/LB_comm/shmem_async.c", "src/support/queues.c"],
 [("per-CPU and global request queues consulted when a CPU is lent", "shmem_cpuinfo.c"), ("helper thread delivering enable/disable", "shmem_async.c")],
 ["callbacks run by the helper threads", "DLB_PrintShmem output"])

prop("C03", "A process always recovers the CPUs it owns",
 "Whatever the other processes have done, a process that reclaims its CPUs, disables DLB or leaves a blocking call immediately has all the CPUs it owns marked as its own, every process still using one of them is told to give it back the next time it returns or polls (or at once, in asynchronous mode), and after that return the owner is the only user. When a process finalizes, it keeps no CPU of anybody else, and its own CPUs become available to others only if it was configured to leave them behind.",
 "histories configurations", "All histories of lends and borrows before the reclaim, disable, blocking call or finalization, with any number of borrowers, with and without post-mortem lending and cpuset respect.",
 "Tests check one borrower and one reclaim; here the borrower set, the order of returns and repeated reclaim/return rounds are arbitrary.",
 ["src/LB_comm/shmem_cpuinfo.c", "src/LB_policies/lewi_mask.c", "src/LB_core/DLB_kernel.c"],
 [("reclaim, return, reset and deregister transitions", "shmem_cpuinfo.c"), ("disable and finalize paths", "lewi_mask.c, DLB_kernel.c")])

prop("C04", "On SMT nodes, hardware threads of one core are never shared by two processes",
 "On a node whose cores have several hardware threads, LeWI never lets a process start using a CPU of a core while another process is using, or owns and has not lent, another CPU of the same core. When the owner takes back one CPU of a lent core, the foreign user is asked to leave the whole core.",
 "histories configurations", "All histories over nodes with 2 or 4 threads per core and processes owning whole cores.",
 "Existing tests fix one SMT shape and a few calls; the core-wide eligibility rule interacts with every lend/acquire/return order.",
 ["src/LB_comm/shmem_cpuinfo.c", "src/support/mask_utils.c"],
 [("core eligibility and occupied-cores bookkeeping", "shmem_cpuinfo.c")])

prop("C05", "A maximum parallelism, once set, is never exceeded by granting CPUs",
 "While a process has a maximum parallelism set (by option or by call), no acquire, borrow or asynchronous grant of a number of CPUs leaves it with more CPUs in use than that maximum; setting it makes the process give away its excess at once, and unsetting it removes the limit.",
 "histories inputs", "All histories that set and unset limits between lending and acquiring, for all limits from 1 to more than the node size, under mask and classic LeWI.",
 "Tests set one or two limits on an otherwise quiet node.",
 ["src/LB_policies/lewi_mask.c", "src/LB_comm/shmem_cpuinfo.c", "src/LB_policies/lewi.c"],
 [("max_parallelism clipping in acquire/borrow and update", "shmem_cpuinfo.c, lewi.c")])

prop("C06", "Blocking MPI calls lend the caller's CPUs and give them back, exactly",
 "With LeWI for MPI enabled, entering a blocking call makes exactly the calling thread's CPUs that LeWI may lend (none beyond them; all but the first when the CPU must be kept) available to the other processes, and leaving it restores the CPUs the process owns. Nested, repeated and mismatched enter/leave pairs, and policies that are disabled or that filter some calls, never lend or recover anything else.",
 "histories configurations inputs", "All interleavings of blocking calls of several processes with LeWI calls, over call classes, keep-CPU and call-filter options.",
 "Tests call the pair once on a single process; the effect depends on who borrowed the CPU meanwhile.",
 ["src/LB_policies/lewi_mask.c", "src/LB_core/DLB_kernel.c", "src/LB_MPI/process_MPI.c", "src/LB_policies/lewi.c"],
 [("into/out-of blocking-call hooks", "lewi_mask.c, process_MPI.c")])

prop("C07", "Classic (count-based) LeWI conserves the number of CPUs",
 "For every history of lend, borrow, reclaim, blocking calls, limits and enable/disable by the processes of a node using count-based LeWI, the number of CPUs used by all processes plus the idle pool always equals the number they started with. Each process is told its new count exactly when it changes, a reclaim or disable always brings a process back to at least its initial count, and a borrow never takes more than was idle or asked for.",
 "histories schedules configurations", "All histories and interleavings of several processes, with and without greedy mode, including concurrent calls.",
 "Tests use one process; conservation is a property of concurrent updates by many.",
 ["src/LB_policies/lewi.c", "src/LB_comm/comm_lend_light.c"],
 [("atomic idle-CPU counter", "comm_lend_light.c")])

prop("C08", "Asynchronous count-based LeWI conserves CPUs and serves pending requests",
 "In count-based asynchronous LeWI, the CPUs held by all processes plus the idle ones always add up to the initial total, no CPU stays idle while a process has an outstanding request, and every process whose count changes is told its new count. Reclaiming takes CPUs only from processes holding more than their initial share, turning what they lose into pending requests of theirs, and always restores the caller to its initial share.",
 "histories configurations", "All histories of lend, reclaim, acquire, borrow, delete-requests, disable, enable and finalize over several processes.",
 "Tests script two or three processes; the even distribution and re-queuing rules depend on all pending requests.",
 ["src/LB_comm/shmem_lewi_async.c", "src/LB_policies/lewi_async.c", "src/support/queues.c"],
 [("request queue popped evenly when CPUs are lent or reclaimed", "shmem_lewi_async.c, queues.c")])

prop("C09", "DROM keeps every CPU owned by at most one process",
 "After any history of registrations, mask changes by external administrators (with and without stealing) and polls, no CPU is assigned to two registered processes (considering the pending mask of each process that has not polled yet, and its current mask otherwise), a process never loses CPUs except through an explicit change or a theft, and a mask set for a process is the mask it receives at its next poll (or the set call reports why not). A rejected change leaves every process's mask as it was, and CPUs stolen are given back to their still-alive original owners, when asked, on finalization or on release, only if they are free.",
 "histories configurations inputs fault_sequences", "All histories of attach, register, set-mask with any flags, get-mask, poll, finalize over several processes and masks, including processes that never poll.",
 "Tests use one or two fixed masks with two processes; disjointness is an invariant over arbitrary histories of steals and returns.",
 ["src/LB_comm/shmem_procinfo.c", "src/apis/DLB_interface_drom.c", "src/LB_core/DLB_kernel.c"],
 [("free mask, current/future masks and stolen-CPU bookkeeping under the lock", "shmem_procinfo.c")],
 ["DLB_DROM_GetProcessMask", "DLB_PollDROM", "return codes"])

prop("C10", "A pre-registered process inherits its reservation exactly once",
 "A mask reserved for a process identifier before it starts is kept out of everybody else's reach until that process starts or the reservation is cancelled; the process (or the child it is replaced by, as announced through the environment) then starts with that mask and not another. Cancelling after the end removes every trace of the process, and optionally returns the CPUs taken from others.",
 "histories configurations inputs", "All histories of reserve, start, end and cancel for several identifiers, with stealing, returning and inherited environment variants.",
 "Tests cover a single pre-initialised process with one mask.",
 ["src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_cpuinfo.c", "src/apis/DLB_interface_drom.c", "src/support/env.c"],
 [("preinit registration, inherit and postfinalize", "shmem_procinfo.c, DLB_interface_drom.c")])

prop("C11", "A call that fails or reports no update changes nothing",
 "Any DLB call (LeWI, DROM, barrier, monitoring, callback or variable call) that returns an error or 'no update' for an argument, permission or state reason leaves the node registry, the process masks, the callbacks, the barriers and the regions exactly as they were before the call, invokes no callback, and never crashes (only a reclaim of a mask that mixes CPUs of the process and others both reclaims the former and reports the latter), whatever integer, mask or handle it was given.",
 "inputs histories fault_sequences", "All calls with out-of-range, negative, foreign, empty and conflicting arguments, at any point of a history.",
 "Tests try a few invalid arguments from a clean state.",
 ["src/LB_core/DLB_kernel.c", "src/LB_comm/shmem_cpuinfo.c", "src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_barrier.c", "src/apis/DLB_interface.c"],
 [("argument and state validation before mutation", "DLB_kernel.c, shmem_*.c")])

prop("C12", "Shared memory survives crashed processes and disappears with the last user",
 "If processes die at any moment outside a shared memory critical section, without finalizing, the processes that remain and those that come later keep working: a later attach removes the dead processes' entries from every registry, and their CPUs and slots become usable again. A process that dies inside a critical section, or while creating a segment, never makes a newcomer hang or read inconsistent data silently: it either attaches normally or is told that the segment must be deleted. A segment is removed when its last user leaves, is never removed while somebody uses it, and an incompatible segment is refused instead of being misread.",
 "crash_points fault_sequences histories schedules", "All points at which any subset of processes is killed, and all orders of attach and detach.",
 "Tests never kill a process; crash points cannot be enumerated by hand-written cases.",
 ["src/LB_comm/shmem.c", "src/LB_comm/shmem_cpuinfo.c", "src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_barrier.c", "src/LB_comm/shmem_lewi_async.c", "src/LB_comm/shmem_talp.c"],
 [("pid list, robust lock, cleanup callbacks, finalize with emptiness test", "shmem.c")])

prop("C13", "A node barrier releases nobody before every attached participant arrives",
 "For every set of attached participants and every schedule, no participant leaves a node barrier round before all the currently attached participants have entered it, and all of them leave once they have. Attaching, detaching and finalizing between rounds (concurrently with one another, and during rounds of other barriers) never blocks the others forever and never lets a later round complete early. A process waiting in a barrier with LeWI enabled has lent its CPUs, one in a barrier without LeWI has not, and after the barrier every participant has its CPUs back; each completed round is counted once.",
 "schedules histories", "All numbers of participants, rounds, named barriers, attach/detach histories, and schedules of threads and processes.",
 "Tests use a fixed number of threads and few rounds with no dynamic membership.",
 ["src/LB_comm/shmem_barrier.c", "src/LB_core/node_barrier.c"],
 [("participants and generation counters with a process-shared barrier", "shmem_barrier.c")])

prop("C14", "Named barriers behave as independent, counted registrations",
 "Registering a barrier name yields one barrier per name on the node, registering it again from another process joins the same one, the number of participants returned by attach and detach always equals the number attached at that moment, and a barrier detached by everybody can be registered anew. Attaching twice, detaching twice, exceeding the capacity, or using barriers that were disabled or never registered is refused with the documented code and without effect.",
 "histories inputs configurations", "All histories of register, find, attach, detach and barrier over arbitrary names and several processes, including exhaustion.",
 "Tests register a few names in one order.",
 ["src/LB_comm/shmem_barrier.c", "src/LB_core/node_barrier.c", "src/apis/DLB_interface.c"],
 [("barrier list lookup and attach/detach counters", "shmem_barrier.c, node_barrier.c")])

prop("C15", "Asynchronous messages are delivered once, in order, and only to live targets",
 "Every enable, disable or set-count message sent to a process in asynchronous mode reaches that process's callback exactly once and in the order in which it was sent, no message is delivered after the helper has been stopped, and a process that stops while messages are pending or in flight neither blocks the senders nor leaks its slot.",
 "schedules histories", "All bursts of messages from several senders to several targets, with targets starting and stopping at any time.",
 "Tests send one message at a time and wait for it.",
 ["src/LB_comm/shmem_async.c", "src/LB_comm/shmem_async.h"],
 [("per-helper circular buffer, condition variables and message queue", "shmem_async.c")])

prop("C16", "TALP accounts every nanosecond of every region exactly once",
 "For every history of region starts and stops (outside OpenMP parallel regions), MPI calls, node-barrier and OpenMP waits and forced updates, each region's elapsed time is exactly the time during which it was started, its useful and waiting times (per kind) are exactly the CPU-weighted time the program spent in that state while the region was started, and, when every thread is an OpenMP thread, useful plus waiting time equals elapsed time times the measured CPUs. Counters of calls and measurements equal the number of events that occurred while the region was started.",
 "histories configurations", "All well-formed histories of region and state events with arbitrary durations, nested and overlapping regions, resets and queries, with all TALP modes.",
 "Tests rely on the real clock, so they can only check inequalities on short sequences.",
 ["src/LB_core/DLB_talp.c", "src/LB_MPI/process_MPI.c", "src/LB_core/talp_types.h"],
 [("per-thread sample updated at each state change and flushed to open regions", "DLB_talp.c")],
 ["dlb_monitor_t fields", "virtual clock"])

prop("C17", "Monitoring regions obey their API contract",
 "Registering a name always returns the same region and different names different regions, names are stored up to the documented length, start and stop succeed exactly when the region is stopped or started, stopping the most recently started region works through the special handle, and a reset region reads as never started. Reports and queries never disturb the values, no API call on a region affects another one's state, and every region listed once is reported once.",
 "histories inputs", "All histories of register, start, stop, reset, report, query and collect calls over any names and handles.",
 "Tests use a few fixed names and well-behaved sequences.",
 ["src/LB_core/DLB_talp.c", "src/apis/DLB_interface_talp.c"],
 [("name-sorted region tree, open-region list and start/stop codes", "DLB_talp.c")])

prop("C18", "POP efficiency metrics satisfy their defining identities for all inputs",
 "For every valid set of measured times and counts, each efficiency reported is finite and between 0 and 1, the parallel efficiency equals the product of its sub-metrics (communication and balance, MPI load balance inside and across nodes, OpenMP load balance, scheduling and serialization, and in the hybrid-v1 model MPI and OpenMP) up to rounding, and the values equal their published definitions in terms of the measured times. Multiplying all times by a constant changes no ratio, reordering processes changes nothing, and inputs with nothing measured give zeros rather than garbage.",
 "inputs", "All non-negative measured times, CPU counts, process-to-node distributions and both metric models.",
 "Tests assert a handful of numeric cases.",
 ["src/support/perf_metrics.h", "src/LB_core/DLB_talp.c", "src/LB_core/lb_funcs.c"],
 [("metric computation from base metrics", "perf_metrics.h")])

prop("C19", "TALP output files contain exactly what was recorded",
 "For every set of recorded regions, processes and nodes, the JSON, XML and CSV files written by TALP parse, contain every recorded entry exactly once with the values given (to the printed precision), whatever the names, locale or order of recording, and appending to an existing CSV keeps the earlier rows and a single header. Formats are chosen by file extension, and nothing is left allocated or half-written so that a second write starts afresh.",
 "inputs histories configurations", "All region names and counter values, numbers of processes and nodes, orders of recording, output formats and pre-existing files.",
 "Tests write one small record set and mostly look at the file existing.",
 ["src/support/talp_output.c"],
 [("record lists and per-format writers", "talp_output.c")])

prop("C20", "The shared TALP registry reports every region's last published times",
 "For every history of registrations and updates by several processes, looking up a process or region name through the shared registry yields exactly the live regions registered under it, with the last times and averages published by their process and not another's, a region is never listed twice, and a full registry refuses new regions without disturbing the existing ones. External readers see the same values as the process that wrote them.",
 "histories configurations inputs", "All histories of register, set, finalize and read with any number of regions per process, capacity multipliers and names.",
 "Tests use two processes and few regions.",
 ["src/LB_comm/shmem_talp.c", "src/LB_core/DLB_talp.c", "src/apis/DLB_interface_talp.c"],
 [("sorted tree of regions plus fixed array in shared memory", "shmem_talp.c")])

prop("C21", "OpenMP time is split among threads without loss",
 "For every valid stream of OpenMP events of one initial thread (parallel regions of any number of threads, tasks run while waiting, synchronisation waits of every kind, nested parallels, idle and late threads, monitoring regions started and stopped outside parallel regions), the useful, load-imbalance, scheduling and serialization times TALP reports add up to the region's elapsed time times its CPUs, each is non-negative, and each equals what a direct per-thread computation over the event stream gives. Threads that never take part contribute no useful time.",
 "histories schedules", "All valid OpenMP event streams with arbitrary durations, team sizes and region starts/stops.",
 "Tests drive a few hand-written streams.",
 ["src/LB_core/DLB_talp.c", "src/LB_numThreads/omptool.c"],
 [("OpenMP callbacks updating thread samples and the flattening at parallel end", "DLB_talp.c")])

prop("C22", "Options are parsed completely, with a fixed precedence, and never crash",
 "For every string given in the environment or at initialization, parsing ends with every recognised option set to the value written, the DLB_ARGS environment variable taking precedence over the initialization argument, and every other option at its default; malformed or unknown parts are skipped or rejected without disturbing the others, truncating or crashing. Reading any option back gives a text that, set again, yields the same value, read-only options never change after initialization, and printing the options shows their current values.",
 "inputs configurations", "All byte strings as arguments, all option names and values, both sources.",
 "Tests parse a dozen hand-written strings.",
 ["src/support/options.c", "src/support/types.c"],
 [("option table driven parser and setters", "options.c"), ("value parsers and printers", "types.c")])

prop("C23", "CPU masks are printed, parsed and classified faithfully on every topology",
 "Every CPU set printed by DLB, in any of its textual notations, denotes exactly that set, and parsing any accepted notation yields exactly the CPUs written. The set relations and topology queries (cores and nodes containing or contained in a set, first, next, last, count, ordering by affinity) agree with their set-theoretic meaning for every topology and every set.",
 "inputs configurations", "All CPU sets up to the maximum size, all accepted notations, all node/core/CPU shapes.",
 "Tests check a dozen sets on two topologies.",
 ["src/support/mask_utils.c", "src/support/mask_utils.h"],
 [("mask parser/printers, relations and topology table", "mask_utils.c")])

prop("C24", "Internal queues, arrays, lists and trees behave as their abstract types",
 "The request queues, process-request queues, fixed arrays, lists and ordered trees used by the runtime behave, for every operation sequence, as the sequence, multiset, list or ordered map they stand for: nothing is lost, duplicated or reordered, removal removes exactly what was named, a full container refuses without damage, and an even distribution never gives anyone more than was asked and differs by at most one among those still unsatisfied.",
 "histories inputs", "All operation sequences, including wrap-around, full and empty states and removal during iteration.",
 "Tests run short scripted sequences.",
 ["src/support/queues.c", "src/support/queue_template.h", "src/support/array_template.h", "src/support/gtree.c", "src/support/gslist.c", "src/support/small_array.h"],
 [("circular buffers, balanced tree, sorted insertion", "queues.c, gtree.c, gslist.c, *_template.h")])

prop("C25", "The public API keeps its lifecycle contract in any order of calls",
 "Every public call documented to need initialization returns, before initialization or after finalization, the not-initialized code (or the code of the missing module) and has no effect, initialization succeeds exactly once until finalization, finalization is idempotent, and a full initialize/finalize cycle can be repeated leaving no shared segment behind. While disabled or when the needed module was not requested, calls return the documented disabled, no-policy, no-callback or not-available code, enabling restores the behaviour, and callbacks set are exactly the ones returned and invoked with the argument given.",
 "histories configurations inputs", "All orders of all public calls over all module configurations.",
 "Tests follow the happy order with a few exceptions.",
 ["src/apis/DLB_interface.c", "src/apis/DLB_interface_sp.c", "src/LB_core/DLB_kernel.c", "src/LB_core/lb_funcs.c", "src/LB_numThreads/numThreads.c", "src/LB_core/spd.c"],
 [("initialized/enabled flags and policy function table", "DLB_kernel.c, lb_funcs.c")])

prop("C26", "The OpenMP thread manager keeps team size and bindings in step with the CPU mask",
 "With the OpenMP thread manager active, after any history of CPUs granted and removed, blocking calls and parallel regions, the number of threads it requests equals the number of CPUs the process may use, each thread of a team is bound to a distinct one of them (the owner's first), and CPUs lent at the end of or between parallel regions are exactly those the configured policy names. Lost CPUs are never used by the next parallel region and are recovered when the policy says so.",
 "histories configurations", "All histories of callbacks, parallel begins and ends, MPI calls and external borrowers, for all lend policies.",
 "Tests run one scripted history per policy.",
 ["src/LB_numThreads/omptm_omp5.c", "src/LB_numThreads/omptool.c", "src/LB_numThreads/numThreads.c"],
 [("active mask, bindings and lend policies", "omptm_omp5.c")])

prop("C27", "Free-agent and role-shift managers never run on CPUs the process does not have",
 "With the free-agent or role-shift thread manager, after any history of CPU grants and withdrawals, task creations and completions, implicit and explicit blocking calls, a thread is active only on a CPU the process currently has, a CPU is requested only when there is work for it and given back when there is none, and each thread keeps a single consistent role and CPU.",
 "histories configurations", "All histories of OpenMP and LeWI events for these managers on any mask.",
 "Tests replay one short scripted history per manager.",
 ["src/LB_numThreads/omptm_free_agents.c", "src/LB_numThreads/omptm_role_shift.c"],
 [("per-CPU role/state table and pending-task counter", "omptm_free_agents.c, omptm_role_shift.c")])

prop("C28", "The command-line tools do exactly what their arguments say",
 "For every accepted command line, the launcher and CPU-setting tools run the given program with precisely the given arguments, requested CPU mask and environment and exit with its status, the listing tools show exactly the registered processes and their masks, and removal tools delete exactly the segments and files named. Invalid command lines are rejected with a usage message and a failure status, without side effects.",
 "inputs configurations histories", "All argument vectors, masks, exit codes and signals of the launched program, and registry contents.",
 "Tests call each tool with a few fixed arguments.",
 ["src/utils/dlb_run.c", "src/utils/dlb_taskset.c", "src/utils/dlb_shm.c", "src/utils/dlb.c"],
 [("argument parsing, pre-registration, fork and exec", "src/utils/*.c")])

prop("C29", "Every MPI call is forwarded once, unchanged, and wrapped consistently",
 "Every intercepted MPI function calls its implementation exactly once with the caller's arguments in order and returns its result, calls the before and after hooks exactly once around it with the same call identity, and is classified as blocking or collective consistently with its definition. With DLB disabled, unloaded or finalized, the application observes the same results.",
 "inputs programs configurations", "All MPI functions in the call table, generated or present, all argument values and the filter, statistics and LeWI options.",
 "Tests exercise a few functions; correctness is per generated wrapper.",
 ["scripts/pygen.py", "src/LB_MPI/mpicalls.json", "src/LB_MPI/MPI_interface.c.in", "src/LB_MPI/MPI_intercept.c.in", "src/LB_MPI/MPI_calls_coded.h.in", "src/LB_MPI/process_MPI.c"],
 [("template expansion and before/after hooks", "pygen.py, process_MPI.c")])

prop("C30", "TALP-Pages reports the recorded runs: none lost, latest chosen, POP identities",
 "For every folder tree of TALP JSON files (with the Global region and timestamps without time zone), every run appears in the evolution page of its resource configuration with the metric values in its file; the scaling table of each region shows, for every resource configuration, the run with the latest timestamp and its values, with scalability factors equal to their definition relative to the smallest configuration; the newest change shown is the newest one; every relative link in the generated pages leads to a generated file; names and metadata are shown as text whatever characters they contain. None of it depends on the order in which the files are found, and a file that cannot be parsed makes the command fail instead of being silently left out.",
 "inputs histories", "All sets of well-formed and malformed TALP files, resource configurations, region names and timestamps.",
 "Tests load two or three sample files.",
 ["talp-pages/talp_pages/analysis", "talp-pages/talp_pages/io", "talp-pages/talp_pages/html", "talp-pages/talp_pages/plots"],
 [("run folder loading, scaling and time-series analysis", "talp_pages/analysis, talp_pages/io")])

prop("C31", "TALP-Pages metadata and badges are merged and rendered faithfully",
 "Adding metadata to a TALP file keeps every other value of the file and stores exactly the metadata given; adding it to a file that already has it is refused without changing the file. The badge of each folder and configuration shows the parallel efficiency of the selected region of its latest run, red below 0.6, orange below 0.8 and green otherwise. Command-line choices (output path, region, resource configuration) select exactly what they name or fail with a clear message.",
 "inputs configurations", "All metadata values, JSON contents, region names and efficiencies.",
 "Tests check one file per command.",
 ["talp-pages/talp_pages/cli/metadata.py", "talp-pages/talp_pages/cli/ci_report.py", "talp-pages/talp_pages/reports/ci_report.py", "talp-pages/talp_pages/svg/badge.py", "talp-pages/talp_pages/analysis/badge_analysis.py", "talp-pages/talp_pages/common.py", "talp-pages/talp_pages/io/output.py"],
 [("metadata merge, badge creation", "cli/metadata.py, reports/ci_report.py, svg/badge.py")])

prop("C32", "Node-wide and process CPU queries agree with what the registry records",
 "The process, CPU-usage and load queries offered to administrators always list exactly the registered processes, report the mask and values those processes last published, never write beyond the size the caller gives, and give the same answers to every attached reader; thread-to-CPU bindings and the n-th non-owned CPU always name CPUs the process may use, each at most once.",
 "histories inputs configurations", "All histories of registration, mask change and LeWI calls, and all list sizes and indices, including zero and negative ones.",
 "Tests query after one registration with large enough buffers.",
 ["src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_cpuinfo.c", "src/apis/DLB_interface_drom.c", "src/apis/DLB_interface_stats.c"],
 [("bounded list filling and binding search", "shmem_procinfo.c, shmem_cpuinfo.c")])

prop("C33", "TALP's summaries of an MPI application equal the aggregation of its ranks",
 "For every MPI application, placement of its ranks on nodes (also with a different number of ranks per node) and set of regions registered by any of the ranks, the metrics collected with DLB_TALP_CollectPOPMetrics on every rank, and the application, node and process summaries written when MPI or DLB finishes, equal the sums, maxima and normalised values of what each rank measured: every region of any rank appears once, every rank and every node appears once with its own identity and values, nothing depends on the order in which MPI combines contributions, and DLB's own communication is not counted as calls of the application. All processes leave their collective calls, and DLB uses MPI correctly (matching collectives, datatypes and sizes).",
 "inputs schedules configurations", "All numbers of ranks and nodes, placements, region histories, measured times from nothing to large values, summaries selected, reduction orders, and DLB finalised by MPI or by the program.",
 "Tests of the summaries need mpirun, run on one node and compare no values; uneven nodes and partial regions never occur.",
 ["src/LB_core/DLB_talp.c", "src/LB_MPI/process_MPI.c", "src/support/talp_output.c"],
 [("node and application reductions, gathers of node and process records, common regions", "DLB_talp.c"), ("communicators, node and process identities", "process_MPI.c")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
