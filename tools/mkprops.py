#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=hook)))
H="src/include/cppev/"; L="src/lib/"

p("C01","A buffer is a faithful byte queue under every operation sequence",
 """After any sequence of producing, consuming, peeking, indexing, growing, compacting, clearing, copying and moving,
 a buffer's size and contents (zero bytes included) equal those of an ideal byte queue that performed the same operations,
 and no memory outside its storage is touched. Capacity covers at least what was requested and what is stored and never shrinks
 by growing or compacting; spare bytes behind compacted content read as zero, so text content can be used as a C string.
 Copies are independent of their source, and a moved-from buffer is empty and usable again.""",
 ["inputs","histories"],"every finite sequence of legal buffer operations, every content including NUL and 0xFF, sizes from 0 to more than a gigabyte",
 "three unit tests run about ten fixed operations with short strings; no test reuses a moved-from buffer, mixes compaction with growth, or watches memory bounds",
 [H+"buffer.h"],[("grow/compact/clear/copy/move",H+"buffer.h:resize,tiny,clear,copy"),("produce/consume/get_string",H+"buffer.h")],
 [("cap_/start_/offset_","storage size and bounds of the unconsumed content",H+"buffer.h")],["public buffer API, ASan/UBSan"])

p("C02","Stream I/O moves every byte exactly once, in order, and reports it exactly",
 """Bytes queued for writing on a pipe, fifo, stream socket or file arrive at the other end exactly once, in order and unmodified,
 whatever the sizes, step limits, partial transfers, interruptions by signals and would-block conditions; unsent bytes stay queued.
 Every read or write call returns exactly the number of bytes it moved, and a chunk call never moves more than asked.
 End of file is reported when, and only when, the other end is closed and everything was read, and a vanished reader
 or a broken connection is reported through the stream's status flags rather than by an exception.""",
 ["inputs","fault_sequences","schedules"],"all payload sizes and step sizes, every interleaving of partial reads/writes, EINTR, EAGAIN, short transfers, peer close and reset at any point",
 "the tests move one 35-byte string through each transport once; no partial transfer, signal, full pipe, peer close or reset is ever exercised",
 [L+"nio.cc",H+"nio.h"],[("read/write loops with errno classification",L+"nio.cc:read_chunk,write_chunk,read_all,write_all")],
 [("eof_/eop_/reset_","end-of-stream status flags",H+"nio.h")],["bytes observed at both ends with raw system calls; return values; status flags"])

p("C03","I/O handles own their descriptor: moves keep everything, close happens once",
 """Moving a stream, TCP or UDP handle, by construction or assignment, transfers its descriptor, unread and unsent bytes, status flags,
 socket family, recorded peer and event loop, and leaves the source owning nothing. Every descriptor the library opens or is given is closed
 exactly once: by an explicit close (repeating it is harmless and cannot hit an unrelated descriptor), by destruction, or when the handle is overwritten.
 A descriptor wrapped in a handle is non-blocking, and switching blocking mode either way takes effect and leaves the descriptor's other status flags alone.""",
 ["histories","inputs"],"every sequence of create, move-construct, move-assign (also onto an open handle or itself), close and destroy over all handle types with any buffered data",
 "tests only move freshly created handles with empty buffers and never count descriptors or look at closes",
 [H+"nio.h",L+"nio.cc"],[("move helpers",H+"nio.h:nio::move,nstream::move,nsock::move,nsocktcp::move,nsockudp::move"),("close/destructor",L+"nio.cc:nio::close"),("non-blocking switch",L+"nio.cc:set_io_nonblock")],
 [("fd_/closed_","descriptor and whether it was closed",H+"nio.h")],["interposed close(2), /proc/self/fd, public accessors"])

p("C04","UDP sends and receives whole datagrams and reports failures cleanly",
 """A datagram sent over IPv4, IPv6 or a unix socket is received as one unit with exactly the bytes queued when it was sent, and receiving appends the bytes of exactly one datagram
 and returns the sender's address, port and family (for unix sockets the receiver's own bound path). A send or receive that fails or finds nothing pending raises an error
 and leaves the buffered bytes unchanged, while an empty datagram is a legal message. Sending empties the write buffer.""",
 ["inputs","fault_sequences"],"every payload from empty to the configured buffer size, any mix of families and senders, failing destinations, nothing-pending receives",
 "no unit test sends or receives a single datagram; only socket options are tested",
 [L+"nio.cc",H+"nio.h",L+"sysconfig.cc"],[("recvfrom/sendto wrappers",L+"nio.cc:nsockudp::recv,send,send_unix"),("pre-sized buffers",L+"nio.cc:get_nsockudp")],
 [],["raw peer sockets, buffer contents, interposed sendto/recvfrom"])

p("C05","Sockets connect, accept, identify and shut down exactly as requested",
 """For IPv4, IPv6 and unix sockets a connection's two sides agree: the address, port and family one side reports as its own is what the other side reports as its peer, and the connecting side also
 remembers the target it was given. Accepting never blocks, returns each pending connection exactly once and no more than the requested batch, and a shutdown affects exactly the requested direction.
 Socket options read back the value that was set, a failed connection is reported as such, and an address or path that cannot be represented is refused rather than altered.""",
 ["inputs","histories","configurations"],"all families, addresses, ports and path lengths, any number of pending connections and batch limits, every shutdown mode, all legal option values in any order",
 "one test connects once per IP family without looking at addresses; unix sockets, accept batches and shutdown are never exercised",
 [L+"nio.cc",H+"nio.h"],[("address conversion",L+"nio.cc:set_ip_port,set_path,query_ip_port_family"),("accept/connect/shutdown",L+"nio.cc:nsocktcp"),("options",L+"nio.cc:set_so_*,get_so_*")],
 [("peer_","recorded peer / unix path",H+"nio.h")],["raw sockets on the other side, getsockopt/getsockname by direct system call"])

p("C06","One event-loop pass runs exactly the ready handlers, in priority order",
 """A pass of the event loop invokes a registered handler exactly once if its descriptor is ready for an event type the handler is registered for and the descriptor is activated for (end-of-file, hang-up and
 error count as ready), and otherwise not at all; handlers of one pass run in descending priority. After a descriptor is removed, even by an earlier handler of the same pass, its handlers are not invoked,
 while a removal that keeps the handlers lets a later activation revive them and a failed registration leaves nothing behind.
 With nothing ready a pass returns after its timeout without invoking anything, and the loop's load is the number of handlers it holds.""",
 ["histories","inputs"],"every sequence of registrations, removals, activations and passes over any set of pipes and sockets with any readiness pattern and priority assignment, up to the configured number of ready descriptors per pass, handlers that throw included",
 "a single test registers two sockets and runs one pass; priorities, removal during a pass, re-activation, hang-up and timeouts are untested",
 [L+"event_loop_epoll.cc",H+"event_loop.h"],[("epoll registration and event mapping",L+"event_loop_epoll.cc:fd_register,fd_remove,fd_map_to_sys,fd_map_to_event"),("collect and dispatch",L+"event_loop_epoll.cc:loop_once")],
 [("fds_","registered handlers",H+"event_loop.h"),("fd_cbs_","handlers pending in this pass, by priority",H+"event_loop.h")],["handler invocation log versus poll(2) ground truth"])

p("C07","The event loop is safe to feed and to stop from other threads",
 """Descriptors registered or removed from any thread while the loop runs are served: every registered handler eventually sees its event, none runs after its removal returned on the loop's own thread, and handlers run only
 on the thread that runs the loop, one at a time. A stop request made from any thread at any moment (before the loop starts, while it is idle, while it is busy) makes the loop return within one further pass.
 All of this is free of data races.""",
 ["schedules"],"all interleavings of loop passes with registrations, removals and stop requests from other threads",
 "no test runs the loop in one thread while another thread uses it, and stopping is never tested",
 [L+"event_loop_epoll.cc",H+"event_loop.h"],[("registration lock",H+"event_loop.h:lock_"),("stop request wakes the poller",H+"event_loop.h:stop_loop_forever")],
 [("stop_","stop request flag",H+"event_loop.h")],["per-handler tokens, thread ids, TSan, bounded-progress watchdog"])

p("C08","The reactor delivers every byte of every connection exactly once, in order",
 """For every connection of a TCP server or client, over IPv4, IPv6 and unix sockets, the concatenation of what its read handler is shown equals what the peer sent, and what the peer receives equals everything the handlers passed to asynchronous
 writing, for any sizes, pacing, slow readers and number of connections and workers, as long as both sides keep the connection open until done and do not both wait for the other to read first (a connection with an unfinished write is not read). The write-complete handler runs only when nothing handed over is unsent,
 and at least once after every asynchronous write, from whichever handler the write was issued.""",
 ["inputs","schedules","histories"],"all message sizes up to many socket buffers, writes issued from accept, connect, read-complete and write-complete handlers, any pacing of the peer, many concurrent connections and workers",
 "the reactor has no unit tests at all; the examples are manual",
 [L+"tcp.cc",H+"tcp.h",L+"nio.cc"],[("read path",L+"tcp.cc:iohandler::on_readable"),("deferred write path",L+"tcp.cc:async_write,iohandler::on_writable"),("connection set-up",L+"tcp.cc:on_acpt_writable,on_cont_writable")],
 [("read/write buffers","bytes in flight per connection",H+"nio.h")],["handler log at the API boundary, raw peer sockets"])

p("C09","Reactor callbacks follow the connection life cycle",
 """Each connection gets exactly one accept (server) or connect (client) callback, before any other callback of it; all its callbacks run one at a time on one worker thread; when the peer closes or resets it, exactly one closed callback
 follows and nothing after that. After a handler closes the connection through the library, from any callback, no further callback of that connection runs, its descriptor is released and the peer sees the close.
 The user data pointer given at construction is what every handler gets back.""",
 ["histories","schedules"],"every order of connecting, sending, half-closing, closing and resetting by peers, and of writing and closing from any callback, over many connections and workers",
 "the reactor has no unit tests; callback order and closing from inside handlers is never exercised",
 [L+"tcp.cc",H+"tcp.h"],[("callback dispatch",L+"tcp.cc:iohandler::on_readable,on_writable,on_acpt_writable,on_cont_writable"),("closing",L+"tcp.cc:safely_close")],
 [("handler registration of the connection","which callbacks can still fire",L+"event_loop_epoll.cc:fds_")],["handler log with connection identity, thread id and order; descriptor counts"])

p("C10","A TCP client establishes exactly the connections it was asked for",
 """For every request to add n connections to a reachable IPv4, IPv6 or unix target, made before or while the client runs and from any number of threads, exactly n connections are established and announced by the connect callback,
 whatever the number of connector and worker threads. Unreachable, refused or malformed targets never reach the connect callback and do not prevent any other connection or stop the client.""",
 ["inputs","schedules","configurations"],"any mix of targets and counts, thread counts, concurrent add calls, refused and malformed targets",
 "no unit test creates a TCP client",
 [L+"tcp.cc",H+"tcp.h"],[("request queue and wake-up pipe",L+"tcp.cc:connector::add,on_pipe_readable"),("split over connectors",L+"tcp.cc:tcp_client::add,add_unix"),("connect check",L+"tcp.cc:on_cont_writable")],
 [("hosts_","requested connections not yet attempted",H+"tcp.h")],["counting raw acceptors per target, connect-callback log"])

p("C11","No peer or system fault on one connection harms the others or the process",
 """Whatever a peer does (connects and vanishes, resets at any moment, half-closes right after sending, never reads, sends garbage, floods) and whichever connection-level error the system reports for one connection or for accepting one
 (reset, timeout, aborted connection, descriptor exhaustion), the process stays alive, every other connection keeps being served correctly, and new connections are accepted once resources permit.
 Descriptors of finished connections are released.""",
 ["fault_sequences","schedules"],"all peer misbehaviours in any order and mix, injected connection-level errors at any read, write or accept, descriptor exhaustion",
 "the reactor has no unit tests; faults are never injected",
 [L+"tcp.cc",L+"nio.cc"],[("error classification",L+"nio.cc:read_chunk,write_chunk,accept"),("close handling",L+"tcp.cc:on_readable,on_writable"),("acceptor",L+"tcp.cc:acceptor::on_acpt_readable")],
 [],["process liveness, honest echo connections verified byte by byte, /proc/self/fd"])

p("C12","Server and client shutdown ends every thread and leaves nothing running",
 """Shutdown of a running server or client, requested at any moment (idle, during connection storms, during transfers, right after starting), returns after all of its threads have ended; no callback runs after it returned.
 Destroying the object afterwards closes every descriptor it used, so servers and clients can be started and stopped repeatedly without leaking descriptors or threads, and the listening address can be reused.""",
 ["schedules","histories"],"shutdown at any point of any workload, any thread counts, repeated start/stop",
 "no unit test starts or stops a server or client",
 [L+"tcp.cc",H+"event_loop.h",H+"runnable.h"],[("shutdown sequence",L+"tcp.cc:tcp_server::shutdown,tcp_client::shutdown"),("loop stop",H+"event_loop.h:stop_loop_forever")],
 [],["thread and descriptor counts in /proc/self, callback-after-return monitor"])

p("C13","The task queue runs every submitted task exactly once and drains on stop",
 """Every task submitted to a running task-queue pool before stop is requested, or later by one of its tasks, singly, moved or in a batch, from any number of threads, is executed exactly once, on a pool thread, and stop returns only after all of them finished.
 Tasks are started in submission order, so a one-thread pool executes them strictly in that order, and independent tasks run concurrently up to the pool size.
 Task effects are visible to the caller of stop, without data races.""",
 ["schedules","inputs"],"all interleavings of submitters, workers and stop, any task counts, batch sizes and pool sizes",
 "one test submits 1000 increments from one thread to 50 workers and checks only the sum",
 [H+"thread_pool.h"],[("locked queue with condition variable",H+"thread_pool.h:task_queue"),("worker loop and stop",H+"thread_pool.h:thread_pool_task_queue_runnable,stop")],
 [("queue_/stop_","pending tasks and stop request",H+"thread_pool.h")],["unique task ids, start/finish log, TSan"])

p("C14","A runnable's thread runs once and its completion is reported truthfully",
 """Running a runnable executes its body exactly once on a new thread; join returns only after the body finished and its effects are visible; a timed wait returns true if the body has finished and false only if it had not finished within the span.
 A signal sent through the object is delivered to that thread, and cancelling ends the thread at a cancellation point so that it can be joined. A thread pool constructs the requested number of members, each from the same argument values,
 runs each exactly once, joins and cancels all of them, and keeps its members when moved.""",
 ["schedules","inputs"],"all timings of run, timed wait, join, detach, cancel and signals; any pool size and argument values",
 "tests use fixed sleeps and one outcome per case; argument values handed to pool members and visibility of effects are never checked",
 [H+"runnable.h",H+"thread_pool.h"],[("thread start, promise/future completion",H+"runnable.h:run,join,wait_for"),("pool construction",H+"thread_pool.h:thread_pool")],
 [],["body log with thread ids, TSan for visibility"])

p("C15","The timed scheduler fires every task at exactly its instants, in priority order",
 """A task of frequency f is called with the time stamps s, s+T, s+2T, ... and no others, where T is one second divided by f in whole nanoseconds and s is the common start of all tasks (a whole second if alignment is requested), never before the stamped time and all on one thread; tasks due at the same stamp run in
 descending priority. Start tasks run once before, exit tasks once after all timed calls, and destroying the scheduler ends the calls and waits for them.
 This holds for every non-empty set of positive frequencies.""",
 ["inputs","configurations","schedules"],"all finite non-empty sets of frequencies from 1e-9 to 1e9 Hz, priorities, alignment choices, slow tasks and stop instants",
 "tests compare rough counts (5%) for two fixed frequency sets; stamps, start/exit tasks, slow tasks and stop behaviour are not checked",
 [H+"scheduler.h",H+"utils.h",L+"utils.cc"],[("next stamp of every task",H+"scheduler.h:timed_scheduler"),("run loop",H+"scheduler.h:thr_"),("alignment",H+"utils.h:ceil_time_point")],
 [("timer_handlers","tasks with priority and next stamp",H+"scheduler.h"),("stop_","stop request",H+"scheduler.h")],["stamp log per task against exact arithmetic; thread ids; TSan"])

p("C16","The async logger writes every line once, whole, in order, to the right stream",
 """Every line completed by any thread is written exactly once, contiguous and unmodified, behind one header naming the level and the logging thread, to standard output for info and standard error for errors; lines of one thread keep their order and lines of several threads never mix.
 This includes everything completed before the logger is destroyed, at process exit too, and output that the system accepts only in pieces; destroying a logger with no line left open never hangs. Numbers print as their standard decimal text and text is kept byte for byte.""",
 ["schedules","inputs","fault_sequences"],"all interleavings of logging threads and the writer thread, any line lengths and contents, slow or interrupted output, destruction at any moment",
 "one test counts output lines of 50 threads after waiting 100 ms; content, order, mixing, shutdown flush and partial writes are unchecked",
 [L+"async_logger.cc",H+"async_logger.h"],[("line lock held until end of line",L+"async_logger.cc:operator<<"),("double buffer and writer thread",L+"async_logger.cc:run_impl"),("destructor",L+"async_logger.cc:~async_logger")],
 [("buffers_/curr_","double buffer",H+"async_logger.h"),("recur_level_","open line nesting",H+"async_logger.h")],["bytes arriving at pipes put in place of descriptors 1 and 2; TSan"])

p("C17","Locks exclude, also across processes, and are always released by their guards",
 """Between acquiring and releasing a spin lock, a process-shared lock or the write side of a process-shared read-write lock no other thread or process, sharing it through memory, holds it; readers share it among themselves only. A try operation never blocks, succeeds when the lock is free and fails when it is held
 incompatibly. A guard holds its lock from construction to destruction unless unlocked or moved away, moves transfer it, overwriting releases what was held, and nothing is released twice; relocking a process-shared lock by its owner or unlocking it by another raises an error.""",
 ["schedules","histories"],"all interleavings of lockers over threads and processes, every sequence of guard lock, unlock, move and destruction",
 "tests check one counter with std::unique_lock and single try outcomes; no process sharing under contention, no reader/writer exclusion, no guard histories",
 [L+"lock.cc",H+"lock.h"],[("pthread primitives with process-shared attribute",L+"lock.cc"),("guards",L+"lock.cc:rdlockguard,wrlockguard")],
 [("rwlock_","lock held by a guard",H+"lock.h")],["ownership monitor in shared memory, guard model, TSan"])

p("C18","Conditions, fences and barriers wake everyone they must and no one early",
 """A predicate wait on a process-shared condition returns only with the predicate true and the lock held; a notification made after the predicate became true wakes a waiter, and notify-all wakes every waiter. After a one-time fence is notified every present and future waiter passes and none passed before;
 what was written before the notification is visible to them. A barrier for n releases its first n arrivals only once all have arrived, releases all of them, and each later arrival is rejected with an error without disturbing them; without such, everyone sees what the others wrote before arriving. All this holds in threads and processes alike.""",
 ["schedules"],"all interleavings of waiters and notifiers over threads and processes, any number of waiters",
 "tests use a single fence waiter, sleeps, and one barrier round; several fence waiters, late barrier arrivals and process sharing under load are untested",
 [L+"lock.cc",H+"lock.h"],[("condition wait loops",L+"lock.cc:pshared_cond"),("fence",L+"lock.cc:pshared_one_time_fence"),("barrier",L+"lock.cc:pshared_barrier")],
 [("ok_/count_","fence state, outstanding arrivals",H+"lock.h")],["release counts with bounded-progress watchdog, visibility checks, TSan"])

p("C19","Shared memory has one creator, starts zeroed and never loses a write",
 """Of any number of processes or threads opening the same name concurrently, exactly one is told it is the creator and all map the same memory of the requested size, which reads zero until written and keeps every write made by any of them from the moment its constructor returned. Content survives
 handles being moved and destroyed until the name is unlinked, after which the name starts afresh, and failures are reported as errors. Handles own their mapping: moving transfers it and nothing is leaked or unmapped twice.""",
 ["schedules","histories"],"all interleavings of concurrent openers, writers and unlinkers; any sizes; every sequence of handle moves and destruction",
 "the tests run two processes once with a sleep, and are excluded from the stable set; concurrent creation is not tested",
 [L+"ipc.cc",H+"ipc.h"],[("exclusive creation fallback chain",L+"ipc.cc:shared_memory"),("move/destroy",H+"ipc.h")],
 [("creator_/ptr_/size_","creation flag and mapping",H+"ipc.h")],["multi-process openers with injected delays in interposed system calls, /proc/self/maps"])

p("C20","A named semaphore neither loses nor invents permits",
 """Over all processes and threads using a named semaphore, completed acquisitions never exceed released permits, and every released permit can be acquired: an acquisition blocks only while no permit is available, also when signals interrupt it, and multi-permit calls transfer exactly the requested number.
 A try acquisition never blocks, succeeds if a permit is available and no one competes, and fails without effect otherwise. Exactly one of several concurrent openers is the creator, the initial count is zero, and handles own their reference through moves.""",
 ["schedules","fault_sequences"],"all interleavings of acquirers and releasers over threads and processes, counts, interrupting signals, concurrent creation",
 "the only semaphore tests are excluded from the stable set and use one waiter",
 [L+"ipc.cc",H+"ipc.h"],[("sem_open fallback chain, wait/post loops",L+"ipc.cc:semaphore")],
 [("sem_","semaphore handle",H+"ipc.h")],["permit accounting over all actors, signal storm, bounded-progress watchdog"])

p("C21","A subprocess gets exactly its command, environment and input; output is captured",
 """A started command is executed with the program, arguments and environment given and nothing else, everything passed as input reaches its standard input in order, also when it exceeds the pipe and is flushed by later calls, and everything it writes to standard output and standard error is captured
 completely, separately and in order, for any amount and any bytes, also when the process has already ended. The reported return code is the process's wait status, a program that cannot be executed reports failure, and input or output volume never deadlocks the exchange.""",
 ["inputs","schedules"],"all argument and environment lists, payloads up to megabytes in any chunking, exit codes and signals, timing of output versus exit",
 "tests run five fixed commands with a few bytes of output and input",
 [L+"subprocess.cc",H+"subprocess.h"],[("fork/exec with pipes",L+"subprocess.cc:subp_open"),("polling exchange",L+"subprocess.cc:communicate"),("wait loop",H+"subprocess.h:wait")],
 [("stdin_/stdout_/stderr_","pipe ends",H+"subprocess.h")],["a probe child program reporting argv, environment, input digest and emitting known output"])

p("C22","Subprocess life cycle: truthful polling, no zombies, no leaked descriptors",
 """Polling tells whether the process has ended, never blocks, stays true with the same return code once it was true, and works together with waiting in any order; after wait returned there is no zombie. Signals sent through the object reach exactly that process. However many subprocesses are created, moved and destroyed, also from several
 threads, no descriptor of the exchange remains open in the parent afterwards or is inherited by the child or a sibling, so a child sees end of input when its handle is gone. Failure to create the process is raised as an error.""",
 ["histories","schedules","fault_sequences"],"every order of poll, wait, communicate, signal, move and destroy, any number of concurrent subprocesses, failing process creation",
 "tests never poll after exit, count descriptors or look for inherited ones, and run one subprocess at a time",
 [L+"subprocess.cc",H+"subprocess.h"],[("waitpid polling",L+"subprocess.cc:poll"),("pipe handling around fork",L+"subprocess.cc:subp_open")],
 [("returncode_/pid_","process status",H+"subprocess.h")],["/proc/self/fd, /proc/<child>/fd, waitpid ground truth"])

p("C23","Signal helpers block, deliver, wait for and report exactly the named signals",
 """Blocking or unblocking one signal or a set changes exactly those signals in exactly the calling thread's mask, and the mask query reports it; a blocked signal becomes pending, the pending query reports it, and it is neither lost nor delivered until waited for or unblocked. Waiting returns the signal from the given set that arrived and consumes it, suspending
 wakes for a named signal only, handlers can be installed, ignored and reset, and signals are sent to exactly the named process. The process and process-group checks tell whether such a process exists, also when it belongs to another user.""",
 ["inputs","histories","schedules"],"all catchable signals, sets and orders of block, raise, query, wait, suspend and unblock over threads and processes",
 "tests cover six signals in four fixed scripts in forked children whose failed expectations are not seen by the parent",
 [L+"utils.cc",H+"utils.h"],[("sigaction/sigmask/sigwait/sigsuspend wrappers",L+"utils.cc"),("kill(0) probe",L+"utils.cc:check_process")],
 [],["kernel ground truth from /proc/self/status signal masks and handlers' logs"])

p("C24","Text, arithmetic and time helpers compute their mathematical definition",
 """Splitting is the exact inverse of joining (joining the pieces with the same separator gives back the text, pieces contain no separator, leftmost matches first), joining any list including the empty one concatenates with separators, and stripping removes all leading and/or trailing repetitions of the given text and nothing
 else, for any bytes. Greatest common divisor and least common multiple are the mathematical ones for positive numbers, time stamps format the given time, rounding up to a second gives the next whole second, and the thread id helper returns the calling thread's kernel id in every thread and forked process.
 Invalid arguments (empty separator) raise an error.""",
 ["inputs"],"all strings and separators over any bytes, all positive integers whose result is representable, all time points not before the epoch, threads and forks",
 "each helper is tested on five to seven fixed examples",
 [L+"utils.cc",H+"utils.h"],[("split/join/strip",L+"utils.cc:split,join,do_strip"),("gcd/lcm",L+"utils.cc"),("time",L+"utils.cc:timestamp; "+H+"utils.h:ceil_time_point"),("gettid",L+"utils.cc:gettid")],
 [],["independent reference implementations"])

p("C25","The dynamic loader hands out exactly the named symbols and fails by exception",
 """Loading a library by path or search name and then a function by name yields the function of that name from that library, callable while the loader lives, for any number of loaders of the same or different libraries in any order of destruction; each loader releases its library exactly once. A library may use functions of others loaded before or after it. A missing or invalid library or symbol raises
 a runtime error with a message and leaves the process and other loaders usable, from any thread.""",
 ["histories","inputs"],"every sequence of opening, loading, calling and destroying over several libraries, missing and corrupt files and symbols, concurrent use",
 "two tests load one library once; errors and several loaders are untested",
 [H+"dynamic_loader.h"],[("dlopen/dlsym/dlclose wrapper",H+"dynamic_loader.h")],[],["generated libraries with identifying functions and constructor/destructor counters"])

p("C26","All components together are free of memory errors, races and leaks",
 """Any legal use of the library's components, alone or combined in one process (reactor servers and clients with logging, event loops, streams, sockets, pools, schedulers, process-shared primitives, signals, dynamic libraries and subprocesses running concurrently in several threads), performs no invalid memory access,
 no undefined operation and no data race, and every component still does what it does alone. Repeating any such use leaves no more memory, descriptors or threads behind than doing it once.""",
 ["programs","schedules","inputs"],"all programs built from the public API; here: random combinations of one self-checking activity per component, and each activity repeated",
 "tests run without sanitizers, one component at a time, once",
 ["src/lib","src/include/cppev"],[("whole library",L+"*.cc")],[],["sanitizer reports; heap, descriptor and thread census"])

p("C27","The shipped example programs do what their tutorial says",
 """Run against each other or against any other peer, the example programs keep working: every stress connection over IPv4, IPv6 and unix sockets keeps exchanging whole unchanged messages until it is cut, and cutting it neither affects the others nor leaves a descriptor behind; the echo server returns everything it is sent; transferred files of any size
 are identical to the original for every client, requests arriving in pieces or for missing files included; event loop servers log every message and datagram with the peer it came from (for unix datagrams: the path it came to), event loop clients deliver exactly the message. All stop with success on an interrupt.""",
 ["programs","schedules","inputs"],"all peers and timings; here: stress pair with an observer between them that splits, delays and cuts, raw peers, files from 0 to 23 MB",
 "no test runs the examples",
 ["examples","src/lib","src/include/cppev"],[("stress pair","examples/tcp_stress"),("file transfer","examples/file_transfer"),("event loop","examples/nio_evlp")],[],["message streams at the observer, file comparison, logs, exit status, /proc/<pid>/fd"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
