LEVEL = {}
ASSUMPTIONS = ["g++ 13 sanitizers and the Linux kernel of the sandbox behave as documented",
               "executions sampled by seeded generators; behaviour not executed is not judged"]
CHECKS = {}

def check(pid, monitor, runs, rule, **kw):
    CHECKS[pid] = dict(runs=runs, rule=rule, monitor=monitor, **kw)

# run: (harness, variant, mode, quick (cases, budget s per shard, shards), thorough (...))
check("C01", "model comparison with std::string", [("buffer", "plain", "huge", (1, 60, 1), (20, 200, 2)), ("buffer", "asan", "", (3000, 15, 8), (2000000, 300, 8))],
      "random histories of buffer operations (boundary-biased lengths, up to 5 buffers, every 16th case with megabytes, one with gigabytes) compared with std::string after "
      "every operation; non-trivial: at least 6 kinds of operation",
      minimum={"operations": 20000, "cases_reusing_moved_from": 50, "gigabyte_buffers": 1})
check("C02", "byte conservation against raw peers under injected faults", [("stream", "plain", "huge", (1, 60, 1), (20, 200, 2)), ("stream", "asan", "", (1600, 20, 8), (2000000, 400, 8))],
      "random transports (pipe, fifo, unix/IPv4/IPv6 socket, file) with random payloads, step sizes and pacing; raw far side; short transfers, EINTR, EAGAIN and "
      "connection errors injected at every read/write; peers close or reset; blocking handles under a signal storm; each write/read call judged; distinct by transport and outcome sequence",
      minimum={"bytes_written": 100000, "eofs": 20, "peer_vanished_write": 20, "two_gigabytes_passed": 1})
check("C03", "ownership model with descriptor census and reuse canaries", [("handle", "asan", "", (16000, 15, 8), (4000000, 300, 8))],
      "random histories of create (all handle types, factories, accept), fill, move-construct, move-assign (also self, onto open/closed handles), close with "
      "reuse of the number, destroy, mode switches, real end-of-file, descriptor exhaustion; after every step all open descriptors are identified by inode and counted; "
      "non-trivial: at least 2 moves",
      minimum={"moves": 5000, "overwritten_open": 300, "closed_after_reuse": 200, "real_status_flags": 50, "factory_failures": 100, "failing_closes": 100})
check("C04", "datagram multiset model with raw senders and receivers", [("udp", "asan", "", (4000, 15, 8), (4000000, 300, 8)), ("udp", "tsan", "mt", (60, 6, 4), (100000, 100, 4))],
      "random exchanges of datagrams (empty to the configured buffer size 16/2048/60000) between library and raw sockets over IPv4, IPv6 and unix, with partly filled "
      "buffers, failing sends and receives (real and injected); every received datagram is matched with an outstanding one and its sender; threads exchanging datagrams over sockets of their own at the same time; distinct by operation history",
      minimum={"sent": 5000, "received": 5000, "failed_sends": 500, "empty_received": 100, "nothing_pending": 500, "failed_receives": 100, "exchanged_by_threads": 3000})
check("C05", "identity tuples, accept accounting and option twins against plain system calls", [("ident", "asan", "", (4000, 20, 8), (4000000, 300, 8))],
      "random accept batches (tagged connections of raw and library sockets, injected transient and exhaustion errors), shutdown directions, option sequences mirrored on a "
      "twin socket, malformed addresses, ports and paths of 100-130 bytes, refused connections; distinct by family and history",
      minimum={"accepted": 3000, "shutdown_rd": 100, "shutdown_wr": 100, "shutdown_rdwr": 100, "options_set": 1000, "malformed": 300, "paths": 200, "failed_connects": 100})
check("C06", "pass-by-pass model of due handlers with poll(2) as ground truth", [("loop", "asan", "", (2400, 20, 8), (4000000, 300, 8))],
      "random histories over pipes, unix and TCP sockets: registrations (with and without activation, failing ones), removals, revivals, descriptor replacement, readiness "
      "changes incl. hang-up and reset, passes in which handlers remove, revive, add or throw; distinct by history",
      minimum={"passes": 20000, "invocations": 20000, "removed_in_pass": 1000, "revivals": 300, "failed_registrations": 1000, "hang_ups": 300, "idle_timeouts": 50, "handlers_throwing": 100})
check("C07", "cross-thread feeding of a running loop with delivery and stop monitors", [("loop", "tsan", "mt", (5000, 20, 8), (1000000, 300, 6)), ("loop", "asan", "mt", (5000, 12, 8), (1000000, 200, 8))],
      "1-4 threads register, re-register, remove and revive pipes while the loop runs, delays injected around system calls and mutexes; every byte written has to be seen; stop requested "
      "before start, idle (by several threads), busy and from a handler; distinct by configuration",
      minimum={"registrations": 2000, "revivals": 500, "removed_on_loop_thread": 300, "stopped_before_start": 30, "stopped_idle": 30, "stopped_busy": 30, "stopped_from_handler": 30})
check("C08", "byte-stream comparison on every connection plus write-complete accounting", [("reactor", "asan", "data", (400, 20, 8), (1000000, 400, 8)), ("reactor", "tsan", "data", (160, 15, 8), (1000000, 300, 6))],
      "random jobs (echo, reply, several rounds; 0 bytes to megabytes; single, multi-put, repeated and chained asynchronous writes, greetings from on_accept) over random numbers of connections, "
      "workers and families; raw peers with random pacing, small buffers and slow reading, library on either or both ends; short transfers, EINTR, EAGAIN and delays injected; output to peers that never read and writes that break the connection; distinct by shape and bytes",
      minimum={"jobs": 500, "bytes_shown": 1000000, "never_read_outputs": 10, "failed_outputs": 20})
check("C09", "per-connection callback state machine", [("reactor", "asan", "life", (1600, 15, 8), (1000000, 300, 8)), ("reactor", "tsan", "life", (800, 12, 8), (1000000, 200, 6))],
      "1-40 peers per case that connect and close, reset, send, half-close, linger; handlers that write little or much and close (also twice) from accept/connect, read, write-complete and closed "
      "callbacks; servers and clients on all families; every callback checked against the state of its connection; distinct by plan",
      minimum={"cb_closed": 1000, "handler_closes": 1000, "peer_saw_close": 300, "closes_in_start": 100, "closes_in_read": 100, "closes_in_write_complete": 100, "closes_in_closed": 100})
check("C10", "connection counts of requests, raw accepts and connect callbacks", [("reactor", "asan", "client", (8000, 15, 8), (1000000, 300, 8)), ("reactor", "tsan", "client", (3000, 10, 8), (1000000, 200, 6))],
      "requests for 0-15 connections to up to 4 reachable targets mixed with refused, missing, malformed ones, from up to 4 threads before, while and after starting; 1-4 connectors and workers; "
      "failing connect and socket calls injected; distinct by configuration and counts",
      minimum={"requested": 5000, "bad_requests": 1000, "connect_failures_injected": 50})
check("C11", "good jobs beside hostile peers and injected connection errors", [("reactor", "asan", "fault", (400, 25, 8), (1000000, 400, 8)), ("reactor", "tsan", "fault", (160, 15, 8), (1000000, 200, 6))],
      "good connections checked byte for byte beside peers that vanish, reset, half-close, flood, send garbage, never read; errors injected into single connections and into accept; descriptors really "
      "exhausted; afterwards new connections; distinct by configuration and bytes",
      minimum={"hostile_flood": 30, "error_injections": 30, "exhaustion_rounds": 20, "hostile_never_read": 30, "hostile_half_close": 30, "watches_refused": 30})
check("C12", "shutdown at random moments with thread, descriptor and callback census", [("reactor", "asan", "stop", (600, 15, 8), (1000000, 300, 8)), ("reactor", "tsan", "stop", (300, 12, 8), (1000000, 200, 6))],
      "servers, clients and both, stopped right after start, idle, during connection storms and transfers, restarted up to 3 times on the same addresses; distinct by role, moment and activity",
      minimum={"shutdowns": 500, "restarts_on_same_address": 200, "right_after_start": 50, "in_storm": 50, "in_transfer": 50, "out_of_descriptors": 30})
check("C13", "exactly-once, order and concurrency accounting of every task", [("tq", "tsan", "", (6000, 15, 8), (1000000, 300, 8)), ("tq", "asan", "", (8000, 10, 8), (1000000, 200, 8))],
      "pools of 1-6 threads, 1-4 submitting threads, tasks given as copies, moves and batches, from tasks, before and after run, to busy and idle pools, groups of tasks that wait for each other; "
      "stop by any thread at any moment; delays injected at mutexes; distinct by configuration and counts",
      minimum={"tasks": 50000, "rendezvous_groups": 500, "one_thread_pools": 300, "idle_waits": 200, "submitted_before_run": 200, "submitted_by_tasks_during_stop": 200})
check("C14", "body, completion and signal accounting of every thread", [("runn", "asan", "", (6000, 12, 8), (1000000, 300, 8)), ("runn", "tsan", "", (4000, 12, 8), (1000000, 200, 8))],
      "random scenarios: runnables run, waited for with spans of all units (before, while and after the body ends, by several threads), joined, detached, signalled, cancelled at and before cancellation "
      "points; pools of 0-7 members with copied, moved and referenced arguments, moved before and while running, cancelled, joined, overwritten; distinct by scenario sequence and content",
      minimum={"waits_false": 1000, "waits_true": 1000, "cancelled": 500, "cancelled_late": 100, "signals": 1000, "pools_with_arguments": 100, "moved_running": 100, "detached": 200})
check("C15", "online trace check of every timed call against the exact schedule", [("sched", "tsan", "virtual", (4000, 10, 8), (1000000, 200, 8)), ("sched", "asan", "virtual", (12000, 12, 8), (4000000, 200, 8)), ("sched", "tsan", "real", (40, 8, 4), (1000, 200, 8))],
      "schedulers with 1-20 tasks of random frequencies (0.001 to 1000000 Hz, at times 0.00001 to 1000000000 Hz; equal, multiple, incommensurable) and priorities on a virtual clock that sleeps advance (oversleeping, interrupted sleeps, "
      "slow handlers, hours of schedule), and on the real system and steady clocks; destroyed at random moments; distinct by task set and calls",
      minimum={"timed_calls": 200000, "several_tasks": 500, "aligned": 500, "virtual_seconds": 10000, "extreme_frequencies": 200, "coinciding_pairs": 300, "slow_handlers": 200, "system_clock_schedulers": 30, "steady_clock_schedulers": 10})
check("C16", "byte-exact line matching on pipes in place of descriptors 1 and 2", [("logger", "asan", "", (8000, 12, 8), (1000000, 300, 8)), ("logger", "tsan", "", (6000, 12, 8), (1000000, 200, 8)), ("logger", "asan", "exit", (1200, 10, 8), (100000, 200, 8))],
      "1-26 threads log lines of random pieces (text of any bytes, empty, up to 60 kB; extreme numbers; lines nested in lines of the other logger) to global and short-lived loggers over small, slow, "
      "interrupted, non-blocking and unwritable outputs; loggers destroyed right after the last line; processes that exit after logging, also in exit handlers; distinct by configuration, bytes and interleaving",
      minimum={"lines": 50000, "interleaved_cases": 500, "destroyed_after_last_line": 500, "global_cases": 200, "process_exits": 100, "logged_in_exit_handler": 30, "slow_readers": 200, "unwritable_output": 30, "line_by_line": 50})
check("C17", "ownership monitor in shared memory and guard model", [("lock", "tsan", "thr", (2000, 12, 8), (1000000, 300, 8)), ("lock", "asan", "proc", (1600, 15, 8), (1000000, 300, 8))],
      "2-12 threads or processes (with threads) use all lock, try and guard forms on spin, process-shared and read-write locks with an ownership word and unsynchronised data inside; single try results, "
      "relocking, foreign unlocking and waiting between two threads or processes; random guard histories (unlock, relock, move, overwrite, destroy, errors) probed after every step; distinct by outcome counts and history",
      minimum={"lock_acquisitions": 20000, "write_acquisitions": 20000, "read_acquisitions": 10000, "spin_acquisitions": 10000, "tries_failed": 500, "several_readers": 100, "owner_errors": 200, "shared_readers": 200, "tries_beside_readers": 200,
               "waited_for_release": 200, "contending_processes": 500, "guard_histories": 500, "guard_unlocks": 500, "guard_overwrites": 100, "guard_self_moves": 50})
check("C18", "token, generation, fence and barrier accounting in shared memory", [("sync", "tsan", "thr", (3000, 12, 8), (1000000, 300, 8)), ("sync", "asan", "proc", (1600, 15, 8), (1000000, 300, 8))],
      "2-15 threads or processes (some with threads): consumers of singly announced tokens, sleeping waiters of notify_all, early and late fence waiters with 1-4 notifiers, barriers for 0-14 with 0-5 "
      "later arrivals; predicates and returns watched by an ownership word, payloads unsynchronised; delays injected at locks and notifications; distinct by configuration and sleeps",
      minimum={"tokens": 20000, "slept": 10000, "notify_all_wakeups": 10000, "fence_waiters": 2000, "late_fence_waiters": 500, "several_notifiers": 100, "barrier_passes": 3000, "barrier_rejections": 1000})
check("C19", "creator count, word ownership, mapping census and object model", [("shm", "asan", "", (3000, 20, 8), (1000000, 300, 8))],
      "2-13 threads or processes open one name at once (equal or different sizes, fresh or existing, with delays at every system call) and write owned words; openers beside unlinkers; random histories of "
      "open, write, move, overwrite, destroy, unlink and construct over three names against an object model and /proc/self/maps; invalid names and sizes, failing system calls; distinct by configuration and history",
      minimum={"megabytes": 50, "concurrent_openers": 2000, "different_sizes": 200, "creations": 1000, "unlinkings": 1000, "histories": 500, "overwrites": 500, "moves": 1000, "injected_failures": 50, "failures": 300, "constructed": 200})
check("C20", "permit accounting over threads and processes, object model, mapping census", [("sem", "asan", "proc", (2000, 15, 8), (1000000, 300, 8)), ("sem", "tsan", "thr", (1200, 10, 8), (1000000, 200, 8))],
      "1-4 releasers and 1-6 acquirers with single and multi-permit calls and tries over threads and processes, pools of permits taken and given back, real signals and injected interruptions, delays; concurrent openers "
      "and unlinkers; random histories of open, release, acquire, try, move, overwrite, destroy, unlink against a permit model; failures; distinct by configuration and history",
      minimum={"permits": 50000, "signal_storms": 100, "signals": 1000, "pools_exhausted": 50, "concurrent_openers": 500, "creations": 500, "histories": 300, "overwrites": 300, "multi_acquisitions": 500, "injected_failures": 30})
PROBE = [("probe", "probe.c", ["-O1"])]
check("C21", "probe children reporting arguments, environment and input, byte-exact capture", [("subp", "asan", "data", (4000, 20, 8), (1000000, 300, 8)), ("subp", "plain", "datamt", (400, 10, 4), (1000000, 200, 4))],
      "probe children that report argv and environment (random bytes, to 3000 arguments), emit known output on both descriptors (0 to megabytes, any chunking and delays, ended by exit or signal), echo input "
      "given in random calls; short and interrupted transfers; programs that cannot be executed, do not read, read to the end; also from several threads; distinct by command and sizes",
      minimum={"reports": 100, "arguments": 1000, "environment_entries": 500, "bytes_captured": 1000000, "ended_by_signal": 30, "more_than_a_pipe": 50, "bytes_of_input": 1000000, "input_of_any_bytes": 100, "closed_early": 50, "left_a_process": 50, "input_more_than_a_pipe": 30, "cannot_be_executed": 20, "commands_reading_nothing": 20},
      aux=PROBE)
check("C22", "waitid ground truth, descriptor census in parent and child, signal echo", [("subp", "asan", "life", (6000, 20, 8), (1000000, 300, 8)), ("subp", "asan", "lifemt", (800, 12, 4), (1000000, 200, 4))],
      "random histories of start, poll, wait, communicate, signal, move, overwrite and destroy over up to 5 subprocesses judged against waitid(WNOWAIT); children list their descriptors beside siblings and other threads' "
      "children, report signals, wait for end of input; failing pipe and fork, exhausted descriptors; distinct by history",
      minimum={"histories": 200, "polls_true": 100, "polls_false": 300, "waits": 100, "overwrites": 50, "ends_of_input": 100, "inheritances": 100, "signals": 300, "late_signals": 50, "creation_failures": 30, "threads": 200, "high_descriptors": 20, "closed_standard_descriptors": 20},
      aux=PROBE)

check("C23", "model of masks, pending signals and dispositions against the kernel's /proc status of every thread", [("sig", "asan", "", (20000, 20, 8), (4000000, 300, 8))],
      "random histories of block, unblock, raise, send, wait, suspend, query, handle, ignore, reset over up to 4 threads and all catchable signals (queued real-time ones included), compared with the kernel's view "
      "of every thread after each operation; threads that wait or suspend while others send named and unnamed signals; sending between processes; processes and groups alive, dead, gone, of another user; distinct by history",
      minimum={"operations": 20000, "waits": 500, "set_waits": 500, "suspensions": 500, "raised_blocked": 2000, "pending_delivered": 300, "waiting_threads": 300, "suspended_threads": 300, "waits_side_by_side": 500, "sent": 500,
               "existence": 20, "groups": 100, "asked_by_other_user": 50, "disposition_cases": 200})
check("C24", "independent reference implementations", [("text", "asan", "", (40000, 15, 8), (100000000, 300, 8)), ("text", "tsan", "mt", (4000, 8, 6), (10000000, 100, 6)), ("text", "plain", "huge", (1, 60, 1), (1, 60, 1))],
      "random texts over any bytes full of whole, overlapping and cut-off separators; random and boundary integers; times up to the last representable year and beyond in fixed and daylight-saving zones and random formats; clocks of "
      "five resolutions; thread ids in threads, forks and forks of forks; one text of more than two gigabytes; the same from several threads; distinct by input",
      minimum={"splits": 50000, "strips": 50000, "stripped": 5000, "joins_of_nothing": 500, "gcds": 20000, "lcms": 10000, "timestamps": 10000, "overflowing_times": 500, "rounded": 20000, "slept": 100, "thread_ids": 500, "forked_ids": 50, "refused": 1000, "comparisons": 300, "gigabyte_texts": 1})
LIBS = [("libvhdl%d.so" % i, "dynlib.c", ["-shared", "-fPIC", "-DID=%d" % i, '-DTEXT="text of %d"' % i]) for i in range(1, 7)]
LIBS += [("libvhdl%d.so" % i, "dynlib.c", ["-shared", "-fPIC", "-Wl,-z,lazy", "-DID=%d" % i, '-DTEXT="text of %d"' % i, "-D" + d]) for i, d in ((7, "PROVIDES"), (8, "USES"), (9, "LACKS"))]
check("C25", "self-identifying libraries with load/unload counters against a reference count model", [("loader", "asan", "", (6000, 12, 8), (10000000, 200, 8)), ("loader", "tsan", "mt", (3000, 10, 8), (1000000, 200, 6)), ("loader", "asan", "mt", (3000, 8, 8), (1000000, 100, 6))],
      "random histories of opening (by path, link, detour, search name), loading functions and data, calling, dropping over six libraries also used directly, libraries that use functions of others loaded before or after them, missing, empty, truncated, garbage, foreign and incomplete files, "
      "missing and null symbols; the same from up to 6 threads; distinct by history",
      minimum={"loaders": 3000, "symbols": 3000, "missing_symbols": 500, "refused_files": 1000, "loads": 3000, "users_besides": 500, "dependent_libraries": 200, "threads": 500}, aux=LIBS)
check("C26", "sanitizers, heap, descriptor and thread census in steady state", [("combo", "asan", "", (800, 15, 6), (1000000, 300, 6)), ("combo", "tsan", "", (400, 15, 6), (1000000, 300, 6)), ("combo", "asan", "steady", (240, 12, 8), (1000000, 200, 8))],
      "15 self-checking activities, one per component, 2-6 threads running random ones side by side in one process; every activity repeated with the same input 48 times while heap, descriptors and threads are counted; distinct by combination",
      minimum={"combinations": 60, "steady_states": 15})
check("C27", "observer between the example programs, raw peers, file and log comparison", [("examples", "asan", "asan", (144, 20, 8), (100000, 300, 8)), ("examples", "tsan", "tsan", (96, 20, 8), (100000, 300, 8))],
      "the shipped programs built with sanitizers: stress server and client with an observer between them that delays, splits and cuts; echo server against raw peers; file server and client with files of 0..23 MB beside raw peers; "
      "event loop servers and clients against each other and raw peers; distinct by what was exchanged",
      minimum={"programs": 200, "stress_connections": 300, "stress_messages": 3000, "echoed_bytes": 1000000, "file_copies": 100, "raw_downloads": 50, "loop_clients": 10, "loop_messages": 50, "interrupted": 100}, examples=True)

# everything that waits, waits for long: 4 s and 12 s, over a minute in the thorough tier
for _p in "C02 C06 C07 C08 C09 C10 C11 C12 C13 C14 C16 C17 C18 C20 C21 C22 C23".split():
    CHECKS[_p]["runs"].append(("slow", "asan", _p, (2, 60, 2), (8, 200, 4)))
    CHECKS[_p]["minimum"]["patient_cases"] = 2
    CHECKS[_p]["rule"] += "; long waits (4 s, 12 s; over a minute in the thorough tier)"
