AW, SM = "src/async_waiter.rs", "src/runtime/stream_manager.rs"
PROPS = [
dict(id="P01", title="Only one request at a time holds the turn on a shared isolate",
 statement="Of the requests that share one isolate, at most one holds the isolate's turn at any moment: a request that was told it has the turn keeps it until it gives it back, whatever the other requests do (ask, wait, get cancelled) and on whichever threads they run.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of requests asking for, holding, returning and abandoning the turn, on one or several threads",
 why_tests_cant="The unit tests make a handful of sequential calls with one waker; overlapping holders only show under particular interleavings and cancellations.",
 files=[AW,"src/execution_context.rs"], mech=[("turn taken by one atomic decision under the queue lock","src/async_waiter.rs AsyncWaiter::try_lock"),("turn returned at the end of the same poll","src/execution_context.rs await_event_loop")],
 tech="several simulated requests drive the real queue; mutual exclusion is asserted on every entry and exit"),
dict(id="P02", title="A free isolate turn is always offered to a request that waits for it",
 statement="Whenever the turn of a shared isolate becomes free, by being given back or because the request it was offered to is cancelled, some waiting request is woken for it. No request waits for ever while the turn is free, no matter how often waiting requests are polled for other reasons, cancelled, or returned to the queue.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of requests, spurious polls and cancellations, with any number of waiting requests, on one or several threads",
 why_tests_cant="A lost wake-up needs a request polled twice while queued, a cancellation at the wrong moment, or a return of the turn on another thread between two instructions; the tests never do any of these.",
 files=[AW,"src/execution_context.rs"], mech=[("exactly one queued waker woken per unlock","src/async_waiter.rs AsyncWaiter::unlock"),("stale registrations dropped when the turn is taken","src/async_waiter.rs AsyncWaiter::try_lock"),("place in the queue given up on cancellation","src/async_waiter.rs TurnWait")],
 tech="progress is decided by simulated deadlock and by checking, each time the turn is released, that some waiting request has been woken"),
dict(id="P03", title="Requests waiting for an isolate's turn are woken first come, first served",
 statement="When the turn of a shared isolate is released, the waiting request that is woken is never one that started to wait after another request which is still waiting and has not been woken. Being polled while waiting neither improves nor worsens a request's place.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of requests on one thread, with spurious polls, late arrivals and cancellations",
 why_tests_cant="The tests queue three wakers once and unlock three times; order across re-registration, overtaking and cancellation is not exercised.",
 files=[AW], mech=[("FIFO queue of wakers","src/async_waiter.rs")],
 tech="each wake-up is compared with a reference queue of who has waited how long"),
dict(id="P04", title="A stream delivers every accepted chunk once, in order, then its end",
 statement="The reader of a stream receives the chunks each writer had accepted, unaltered, each exactly once and in that writer's order, then the end mark (success or the error given), and nothing after it. This holds whatever the pace of either side and even if waiting reads or writes are abandoned and retried; a read after the end fails instead of waiting.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of writers and a reader, buffer sizes, paces, mixes of waiting and non-waiting writes, and abandoned reads and writes",
 why_tests_cant="The tests write two chunks and read them back in sequence; nothing is concurrent, abandoned or full.",
 files=[SM], mech=[("bounded channel per stream","src/runtime/stream_manager.rs create_stream"),("receiver put back after each read","src/runtime/stream_manager.rs read_chunk")],
 tech="recorded history of accepted and received chunks against a reference sequence"),
dict(id="P05", title="A stream never buffers more than its limit and never refuses while it has room",
 statement="The number of chunks a stream has accepted and not yet delivered never exceeds its buffer limit: a writer beyond it waits (or is told about backpressure, if it asked not to wait). A write is not refused or held back while there is room, and a waiting writer proceeds once the reader has made room.",
 over=["schedules","configurations","histories"], quant="every interleaving of writers and reader for every buffer limit and pace",
 why_tests_cant="One sequential test with a limit of 2; concurrent writers, waiting writers and other limits are not covered.",
 files=[SM], mech=[("channel capacity is the high-water mark","src/runtime/stream_manager.rs with_high_water_mark/create_stream"),("waiting send","src/runtime/stream_manager.rs write_chunk"),("non-waiting send","src/runtime/stream_manager.rs try_write_chunk")],
 tech="accepted minus delivered is checked at every accepted write; progress by deadlock detection"),
dict(id="P06", title="When a stream's consumer is gone, writers find out and nothing lingers",
 statement="Once a stream has been closed or its consumer has gone, every later write fails, writers that were waiting for room are released with an error, and after such a failure the stream is no longer reported as open. A closed stream stays closed: nothing that was in flight at the time brings it back or keeps its buffer alive.",
 over=["schedules","fault_sequences","histories"], quant="every interleaving of closes, consumer drops, reads in flight and writes in flight",
 why_tests_cant="The only test closes an idle stream; disconnects in the middle of reads and writes are not exercised.",
 files=[SM], mech=[("sender removed when the receiver is found dropped","src/runtime/stream_manager.rs write_chunk, try_write_chunk"),("close removes all parts of a stream","src/runtime/stream_manager.rs close_stream"),("a read in flight does not put its receiver back into a closed stream","src/runtime/stream_manager.rs put_back")],
 tech="closes and disconnects injected at seeded points, then write results and leftovers checked"),
dict(id="P07", title="Streams of one request never leak into the next request on the same context",
 statement="After a request's streams have been cleared for reuse, nothing left over from that request (a slow upstream, a body pump, a read in flight) can write to, read from, close, or receive data through a stream of a later request. The later request's streams deliver exactly their own data.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of leftover activity of earlier requests with the streams of later ones, over several reuses",
 why_tests_cant="No test clears and reuses a manager, let alone with work still in flight.",
 files=[SM,"src/execution_context.rs"], mech=[("stream ids are never reissued","src/runtime/stream_manager.rs clear"),("clear drops all parts","src/runtime/stream_manager.rs clear"),("reset between requests","src/execution_context.rs reset")],
 tech="every chunk carries its stream's identity; reuse is injected while writers, pumps and readers are in flight"),
dict(id="P08", title="A streamed request body arrives completely, with one end, under backpressure",
 statement="The body a client streams in reaches the consumer unaltered and in order, followed by exactly one end: success if the source finished, the source's error if it failed, and nothing after it. The pump never reads ahead of the consumer by more than the stream's buffer plus one chunk in hand, and it stops when the consumer goes away.",
 over=["schedules","fault_sequences","configurations"], quant="every source and consumer pace, buffer size, source failure point and consumer departure point",
 why_tests_cant="No existing test exercises the body pump.",
 files=[SM], mech=[("pump task","src/runtime/stream_manager.rs pump_request_body")],
 tech="recorded history of the consumer against what the source sent"),
dict(id="P09", title="External memory is charged to the isolate that owns it, exactly once",
 statement="What an isolate is told about memory held outside its heap always equals the sum of the live guards that belong to it, once it is next locked: every creation, resize and drop is counted exactly once and for the guard's own isolate, whichever thread it happens on and whichever isolate, or none, is locked there at the time. When all guards are gone the isolate is charged nothing.",
 over=["histories","schedules"], quant="every sequence of creating, resizing, moving and dropping guards under no lock, the own isolate's lock, another isolate's lock and nested locks, on one or several threads",
 why_tests_cant="The tests use one isolate at a time on one thread; locks of other isolates, nesting and concurrent deferred drops are not exercised.",
 files=["src/gc/external_memory.rs","src/gc/js_lock.rs","src/gc/traceable.rs","src/locker_managed_isolate.rs"], mech=[("immediate when the own isolate is locked, deferred otherwise","src/gc/external_memory.rs"),("deferred amounts applied on the next lock","src/gc/js_lock.rs JsLock::new"),("current isolate restored when a nested lock ends","src/gc/js_lock.rs Drop")],
 tech="the isolate's counter plus what is pending is compared with a reference sum after every operation"),
dict(id="P10", title="V8 handles are destroyed once, under their isolate's lock, and none is lost",
 statement="A V8 handle given up on a thread that does not hold its isolate's lock is destroyed exactly once, only by a thread that holds that lock, no later than the next time the lock is taken after it was given up, and in any case before the isolate itself is disposed of without leaking. The number of pending handles reported is never more than were given up and is exact when nothing is in progress.",
 over=["schedules","histories"], quant="every interleaving of threads giving up handles and threads locking, using and disposing of isolates",
 why_tests_cant="The tests defer a few handles and process them on the same thread; concurrent deferral and processing never happen.",
 files=["src/gc/deferred_destruction.rs","src/locker_managed_isolate.rs"], mech=[("queue drained right after the lock is taken","src/locker_managed_isolate.rs lock"),("counter kept with the queue","src/gc/deferred_destruction.rs defer/process_all")],
 tech="a modelled isolate reports handles destroyed without the lock, twice, or never"),
dict(id="P11", title="ArrayBuffer memory handed to a script never exceeds its isolate's limit",
 statement="The total size of the ArrayBuffers an isolate holds never exceeds its configured limit, however many allocations and frees happen at once; memory handed out is zeroed where it must be and belongs to one buffer only; freed memory is available again in full, and the reported usage is the sum of the live buffers.",
 over=["schedules","inputs","configurations"], quant="every interleaving of allocations and frees of any sizes, including ones that overflow, for every limit",
 why_tests_cant="The allocator's accounting is tested through single-threaded scripts of a few sizes; concurrent allocation and extreme sizes are not.",
 files=["src/security/array_buffer_allocator.rs","src/locker_managed_isolate.rs"], mech=[("limit check and count in one step","src/security/array_buffer_allocator.rs reserve"),("count given back on free","src/security/array_buffer_allocator.rs free")],
 tech="threads call the allocator through the table V8 uses; live bytes are summed independently"),
dict(id="P12", title="An ArrayBuffer allocation is denied only if it does not fit, and reported so",
 statement="An allocation that fits in what is left of its isolate's limit succeeds, whatever other allocations are being denied or freed at the same time and however full other isolates are. When one is denied, that isolate's memory-limit flag is set, and the flag is not set otherwise. A script whose ArrayBuffers in use stay within the limit is not ended as being over it.",
 over=["schedules","inputs","configurations"], quant="every interleaving of allocations and frees of any sizes on one or several isolates",
 why_tests_cant="Spurious denial needs two allocations overlapping by a few instructions.",
 files=["src/security/array_buffer_allocator.rs","src/locker_managed_isolate.rs"], mech=[("a denied request takes no room","src/security/array_buffer_allocator.rs reserve"),("flag per isolate","src/locker_managed_isolate.rs new")],
 tech="each denial is checked against the most that can have been in use during the call"),
dict(id="P13", title="A script that exceeds its wall-clock limit is stopped, and no earlier",
 statement="A script running longer than its wall-clock limit is stopped within a short time after the limit, whether it computes or waits; it is never stopped before the limit, never stopped without the guard reporting the timeout by the time the script notices, never stopped because of another isolate's limit, and a limit of 0 means none.",
 over=["schedules","configurations","fault_sequences"], quant="every interleaving of requests and watchdogs, limits and script lengths, late threads, and isolates disposed of early",
 why_tests_cant="The two tests never start a watchdog.",
 files=["src/security/timeout_guard.rs"], mech=[("watchdog thread waiting on a channel with a timeout","src/security/timeout_guard.rs TimeoutGuard::new"),("flag set before termination","src/security/timeout_guard.rs")],
 tech="watchdog threads run on a simulated clock with late and stalled threads; time of every stop is compared with the limit"),
dict(id="P14", title="A finished request's wall-clock guard never stops later work on the isolate",
 statement="Dropping a wall-clock guard returns promptly, without waiting for the limit, and from then on nothing that guard started stops work on the isolate, even if the limit ran out during the drop.",
 over=["schedules"], quant="every interleaving of a guard's drop with its watchdog's wake-up, with later requests on the same isolate",
 why_tests_cant="The window between expiry and drop is a few instructions.",
 files=["src/security/timeout_guard.rs"], mech=[("cancel message and join on drop","src/security/timeout_guard.rs Drop")],
 tech="stops are recorded per isolate and none may follow the drop"),
dict(id="P15", title="A script that uses up its CPU limit is stopped; waiting does not count",
 statement="A script that has computed for its CPU limit is stopped shortly afterwards and the enforcer reports it, also when many scripts hit their limits at the same moment and when it is the very first enforcer of the process; it is not stopped before it has used that much CPU time on its thread (waiting and other threads' work do not count), and enforcing a limit never ends the process.",
 over=["schedules","configurations","fault_sequences"], quant="every interleaving of up to nine computing threads, timer expiries, signal deliveries and the signal thread, limits and script lengths, and failing timer system calls",
 why_tests_cant="Needs signals at particular moments: before the handler thread is up, or more at once than the signal queue has slots.",
 files=["src/security/cpu_enforcer.rs"], mech=[("per-thread CPU timer raising SIGALRM","src/security/cpu_enforcer.rs CpuEnforcer::new"),("signal thread started before any timer is armed","src/security/cpu_enforcer.rs spawn_signal_handler_thread"),("every expired timer looked up on each signal","src/security/cpu_enforcer.rs signal_handler_thread")],
 tech="CPU clocks, timers, signals and their bounded queue are simulated; CPU time at every stop is compared with the limit"),
dict(id="P16", title="A CPU limit never reaches beyond its request, after reset or drop",
 statement="After a CPU enforcer has been dropped nothing it started stops work on the isolate, and its timer is gone. After a reset the script has the full new budget: an expiry or signal left over from the old budget neither stops it nor is reported, and the new budget is enforced all the same.",
 over=["schedules","histories"], quant="every interleaving of expiry, signal delivery, the signal thread, reset, drop and the next request",
 why_tests_cant="Needs a signal in flight at the moment of the drop or reset.",
 files=["src/security/cpu_enforcer.rs"], mech=[("termination under the registry lock","src/security/cpu_enforcer.rs signal_handler_thread"),("timer asked whether it has expired","src/security/cpu_enforcer.rs has_expired"),("budget restarted under the registry lock","src/security/cpu_enforcer.rs arm_enforcer")],
 tech="signals are delayed by seeded amounts around resets and drops; stops and reports are compared with the CPU time since"),
dict(id="P17", title="A script at its heap limit is stopped without ending the process",
 statement="When V8 reports that an isolate's heap is at its limit, the script on that isolate is stopped, that isolate's memory-limit flag is set, and V8 is given enough room to unwind (otherwise it ends the process), every time it asks; other isolates are neither stopped nor flagged, and a script below its limit is left alone. The limit is the configured one.",
 over=["configurations","schedules","histories"], quant="every sequence of heap-limit reports on several isolates coming and going on several threads, for every configured limit",
 why_tests_cant="The test only installs the callback; V8 is never driven to the limit.",
 files=["src/security/heap_limit.rs","src/locker_managed_isolate.rs"], mech=[("near-heap-limit callback","src/security/heap_limit.rs near_heap_limit_callback"),("installed for every isolate","src/locker_managed_isolate.rs new")],
 tech="the modelled V8 calls the real callback at seeded moments and checks what it gets back"),
dict(id="P18", title="A timeout fires once, not early, in order of its deadline, unless cleared",
 statement="Every timeout a script sets fires exactly once, never before its delay has passed, and soon after it; of two timeouts the one with the clearly earlier deadline fires first. A timeout cleared before it was due never fires; clearing any other id (fired, cleared, unknown) changes nothing. Timeouts still pending when the script asks its event loop to shut down fire before it ends.",
 over=["schedules","histories"], quant="every sequence of setting and clearing timeouts and intervals, with any delays, on a busy or idle thread, whether the loop shares the script's thread or has its own",
 why_tests_cant="Existing tests that use timers need V8 and sample a few sequences in real time.",
 files=["src/runtime/scheduler.rs"], mech=[("timer futures in one set","src/runtime/scheduler.rs run_event_loop"),("set of live timers","src/runtime/scheduler.rs run_event_loop ClearTimer")],
 tech="simulated clock; every firing is compared with a reference table of what was set and cleared when"),
dict(id="P19", title="An interval fires until it is cleared, and the event loop ends with its script",
 statement="An interval keeps firing, once per period and never early, until it is cleared, and not for a period that ends after the clear. An event loop that was asked to shut down ends once its timeouts have fired (timers that were cleared do not keep it), and one whose script has gone ends at once.",
 over=["schedules","histories"], quant="every sequence of setting and clearing timeouts and intervals, then shutdown or departure of the script",
 why_tests_cant="Existing tests that use timers need V8 and sample a few sequences in real time.",
 files=["src/runtime/scheduler.rs"], mech=[("interval re-armed when it fires, unless cleared","src/runtime/scheduler.rs run_event_loop"),("loop exit","src/runtime/scheduler.rs run_event_loop")],
 tech="simulated clock; every firing is compared with a reference table; the end of the loop is awaited in bounded simulated time"),
dict(id="P20", title="Each host operation is answered exactly once, with its own result and body",
 statement="Every fetch, binding fetch, worker call, storage, key-value and database operation a script starts is handed to the host once, unaltered, and answered exactly once with its own result or error, whatever order the host answers in and on whichever thread; a result of the wrong kind is reported as an error. A response body reaches the script or the client complete and in order, followed by exactly one end: success if the host ended it, the host's error if it failed.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of concurrent operations, host answers (right, failing, of the wrong kind), body sources and script or client reads at any pace",
 why_tests_cant="Existing tests answer operations immediately and one at a time.",
 files=["src/runtime/scheduler.rs","src/runtime/stream_manager.rs"], mech=[("one task per operation","src/runtime/scheduler.rs run_event_loop"),("response body reader","src/runtime/scheduler.rs spawn_stream_reader")],
 tech="a modelled host answers at seeded times; answers and bodies carry the operation's identity and are compared with the plan"),
dict(id="P21", title="When a request ends, its host operations stop and no body looks complete",
 statement="When a request ends early (limit reached, client gone, context dropped), whatever it was doing at that moment: operations still running at the host are abandoned, hosts still sending a body are told to stop, clients of a forwarded body do not wait for ever, everything the request held is released, and a body that had not arrived completely never ends as if it had.",
 over=["schedules","crash_points","fault_sequences"], quant="every moment at which the request may end, with any number of operations and bodies in any state, including hosts that hang or stall",
 why_tests_cant="No existing test ends a request while operations are in flight.",
 files=["src/runtime/scheduler.rs","src/runtime/stream_manager.rs","src/request_context.rs"], mech=[("cancellation token observed by every task","src/runtime/scheduler.rs run_event_loop, spawn_stream_reader"),("stream closed without an end mark when cut short","src/runtime/scheduler.rs spawn_stream_reader")],
 tech="the request is ended at a seeded moment; what is left at the host, in the streams and at the clients is checked after bounded simulated time"),
dict(id="P22", title="WebSocket messages arrive once and in order, after accept, until the close",
 statement="Each WebSocket connect has exactly one outcome; messages in either direction arrive unaltered, once and in order; nothing is delivered to the script before it accepts the socket, and what arrived earlier is delivered then. The script's close reaches the peer once, after everything sent before it and with nothing following it, and the connection is closed when the script closes it, when the peer leaves, and when the request ends, and not otherwise. A script that accepted the socket is told of its end exactly once, after every message: the peer's code and reason if the peer closed it, its own if it closed it itself, 1006 if the connection was lost.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of several sockets' connects, accepts, messages both ways, closes, departures and the end of the request",
 why_tests_cant="No existing test opens a WebSocket against a concurrent peer.",
 files=["src/runtime/scheduler.rs"], mech=[("command channel and task per socket","src/runtime/scheduler.rs WebSocketConnect")],
 tech="modelled peers; both directions carry sequence numbers and are compared with what was sent"),

# ---- the whole runtime, on the real V8 (sim/owfull)
dict(id="P23", title="Workers of different owners never share an isolate",
 statement="A request runs only the code of its own owner's worker, in an isolate that never ran another owner's code, on whatever thread, however full the pool is and whatever happened to earlier requests (limits reached, callers gone).",
 over=["schedules","histories","fault_sequences","configurations"], quant="every sequence of requests of several owners and workers through the isolate pools of one or two threads, for every pool size and limit",
 why_tests_cant="The tests run one worker at a time; mixing needs concurrent owners, a full pool, eviction and abandoned requests.",
 files=["src/pool.rs","src/execution_context.rs"], mech=[("isolates tagged with their owner","src/pool.rs"),("context cache keyed by worker","src/pool.rs")],
 tech="each script reports who it is and in which isolate it runs, which is compared with the request; real V8"),
dict(id="P24", title="A request is handled once, by its worker's current code and environment",
 statement="Each request's handler is called at most once, by the code of the version and the environment the request names, through that request's own operations handle. A reused context is announced by the warm-hit callback exactly when it serves another request, and is not reused more often than configured. Contexts of another version or environment are never used, nor one whose last request failed or left waitUntil work undone. Every context, however it was made, offers the script the whole web API and no shared memory.",
 over=["schedules","histories","fault_sequences","configurations"], quant="every sequence of requests for several workers, versions and environments, with any reuse limit and cache size, failing and abandoned requests in between",
 why_tests_cant="The tests reuse a context a few times in sequence with one version; eviction, concurrency and cut-off requests are not combined.",
 files=["src/pool.rs","src/execution_context.rs"], mech=[("cache key with version and environment time","src/pool.rs"),("reset between requests","src/execution_context.rs reset")],
 tech="each script reports its identity, environment and how many requests its context has served; real V8"),
dict(id="P25", title="A script's call gets its own answer, once, whatever else goes on",
 statement="Each host call of a script (fetch, key-value, storage, database, worker, asset) reaches the host as the script made it, body included, and settles at most once, only after the host has answered it, with exactly that call's result or error; answers to other calls, other requests, or earlier requests on the same reused context never reach it. A call made in an unusual way, also one whose arguments cannot be read, settles as well.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of concurrent calls of concurrent and successive requests with right, failing, late and missing answers",
 why_tests_cant="Needs answers that arrive after their request has ended and its context serves another.",
 files=["src/runtime/scheduler.rs","src/execution_context.rs","src/runtime/bindings"], mech=[("callback ids never reissued","src/execution_context.rs reset"),("results dispatched to callbacks","src/execution_context.rs process_callbacks")],
 tech="every answer names its request and call; what the script was given is compared with it; real V8"),
dict(id="P26", title="A client gets exactly one response, the one its handler gave",
 statement="A request that ends normally has given its client exactly one response, with the status, headers and buffered body its own handler produced, or a 500 that reports the handler's exception. It does not end before its handler has answered, and serving a request never panics.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of concurrent requests, handlers that answer, throw, wait or hang, limits, and callers that give up",
 why_tests_cant="The tests serve one request at a time with prompt answers.",
 files=["src/execution_context.rs","src/runtime/bindings"], mech=[("response channel of the event","src/execution_context.rs"),("exit conditions of the event loop","src/event_loop.rs")],
 tech="responses carry their request's identity and are compared with the handler's program; real V8"),
dict(id="P27", title="A streamed response arrives whole, in order, and never ends falsely",
 statement="The client of a streamed or forwarded response receives exactly the bytes its source produced, in order, then exactly one end: success only if the source ended well and every byte was delivered, an error if the source failed or the request was cut short. It is never left waiting after the request is over. A script that reads a copy of a response (clone, tee) while the response is being sent gets the same bytes, however slow the client is and whether or not it stays.",
 over=["schedules","fault_sequences","configurations"], quant="every pace of source and client, chunk count, buffer size, source failure, limit, and abandoned request",
 why_tests_cant="The tests stream a few small chunks to a prompt client.",
 files=["src/worker.rs","src/execution_context.rs","src/runtime/scheduler.rs","src/runtime/stream_manager.rs"], mech=[("body pump in JavaScript","src/worker.rs __streamResponseBody"),("forwarding of native streams","src/worker.rs")],
 tech="bodies carry request and position; received bytes and the end are compared with the source's; real V8"),
dict(id="P28", title="When a client leaves, its body's source is told and the request ends",
 statement="When the client of a streamed or forwarded response goes away, the source (the script's stream, or the upstream service) is told soon, wherever it was at that moment, and a request with nothing else to do ends soon afterwards instead of lasting until its limit.",
 over=["schedules","crash_points"], quant="every moment at which a client may leave, for sources that are idle, waiting, sending or finished",
 why_tests_cant="One test leaves a stream at one moment.",
 files=["src/worker.rs","src/runtime/streams.rs","src/event_loop.rs"], mech=[("departure watched and handed to the source's cancel","src/worker.rs __streamResponseBody, __nativeStreamReaderClosed"),("client-gone exit","src/event_loop.rs")],
 tech="the client leaves at a seeded moment; the time at which source and request hear of it is bounded; real V8"),
dict(id="P29", title="Work given to waitUntil is finished before its request ends",
 statement="A request that is within its limits does not end before every promise given to waitUntil, early or late, alone or nested, fulfilled or rejected, has settled.",
 over=["schedules","histories","fault_sequences"], quant="every combination of waitUntil promises of any length with responses, failures and departures",
 why_tests_cant="The tests wait for one or two timers.",
 files=["src/execution_context.rs","src/event_loop.rs"], mech=[("waitUntil drain","src/execution_context.rs drain_waituntil")],
 tech="scripts report when waitUntil work starts and ends, compared with the end of the request; real V8"),
dict(id="P30", title="Pool limits hold, no request is refused in error, and no slot is lost",
 statement="Never more requests run in one isolate than configured; a request is refused for capacity only if its owner's isolates are all fully used; and when no request is running, however the earlier ones ended, every isolate counts as free, no more are kept than the pool may keep, and no owner keeps more than its share. More isolates than that exist only while all of them are in use.",
 over=["schedules","histories","fault_sequences","configurations"], quant="every sequence of requests, limits and departures, for every pool size, per-owner limit and concurrency",
 why_tests_cant="The tests never drop a request in the middle or fill a pool from several owners.",
 files=["src/pool.rs"], mech=[("slot released on drop","src/pool.rs AcquiredIsolate"),("eviction and per-owner limit","src/pool.rs")],
 tech="running requests are counted per isolate and owner; the pool's own statistics are checked after each history; real V8"),
dict(id="P31", title="A request stops soon after its own limit, and only for its own limit",
 statement="A request that exceeds its wall-clock, CPU or memory limit, be it while its script is loading, ends soon afterwards with that reason, and one that does not is never ended for it, whatever other requests share its isolate, its thread or its reused context. Every request ends in bounded time.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of requests that compute, wait, hang or spin for ever, sharing isolates and threads",
 why_tests_cant="The tests stop one spinning script at a time.",
 files=["src/execution_context.rs","src/security/timeout_guard.rs","src/security/cpu_enforcer.rs"], mech=[("guards per request","src/execution_context.rs exec"),("reason of the termination","src/execution_context.rs check_termination_reason")],
 tech="simulated wall and CPU clocks; the reason and time of each end is compared with what the script did; real V8"),
dict(id="P32", title="Nothing of a request goes on after its end",
 statement="After a request has ended or been abandoned, none of its script's code runs any more, its timers are gone, its host operations have been abandoned and its bodies are no longer being sent, even though its context stays cached or serves another request.",
 over=["schedules","crash_points","histories"], quant="every moment at which a request may end, with timers, intervals, calls and bodies in any state, on cached and reused contexts",
 why_tests_cant="The tests drop the whole context after the request.",
 files=["src/execution_context.rs","src/runtime/scheduler.rs"], mech=[("end-of-request message cancels the request's token","src/runtime/scheduler.rs EndRequest"),("reset between requests","src/execution_context.rs reset")],
 tech="scripts report everything they do with their request's identity; the host and the simulated timers are inspected after the end; real V8"),
dict(id="P33", title="A request body reaches its script whole, and its sender is told when to stop",
 statement="A script that reads its request's body, at once, chunk by chunk, or by passing it on, gets exactly the bytes the client sent, under the method, URL and headers the client gave, and an error if the client's body was cut short. When the script cancels the body or the request ends, the sender is told soon.",
 over=["schedules","fault_sequences"], quant="every pace of sender and script, body sizes, failing senders, and scripts that stop reading",
 why_tests_cant="The tests send small buffered bodies.",
 files=["src/execution_context.rs","src/runtime/stream_manager.rs","src/runtime/streams.rs"], mech=[("request body pump","src/runtime/stream_manager.rs pump_request_body"),("request stream in JavaScript","src/runtime/streams.rs")],
 tech="what the script echoes is compared with what was sent, and when the sender stopped with when the script did; real V8"),
dict(id="P34", title="Tasks report their handler's outcome exactly once, to whoever asked",
 statement="A task or scheduled event is handled by the worker's matching handler with the event's own data, and ends with exactly one report: success with the handler's value, or failure with its error. A task without a handler is reported as failed, and one that is cut short is never reported as finished.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of tasks and requests, for every style of handler and way to end: returning, responding, throwing, waiting, hanging, reaching limits",
 why_tests_cant="The tests run one task at a time that succeeds or throws at once.",
 files=["src/execution_context.rs","src/worker.rs"], mech=[("task dispatch","src/execution_context.rs"),("scheduled dispatch","src/worker.rs __runScheduled")],
 tech="each report is compared with the handler's program and the task's identity; real V8"),
dict(id="P38", title="A script's WebSockets carry every message once and end once, on both sides",
 statement="A script that opens a WebSocket (new WebSocket, or fetch with an Upgrade header) learns exactly once whether it was connected. From then on (for a fetched socket: from accept) its message events are exactly the peer's messages, unaltered and in order, and what it sends reaches the peer in order. It gets exactly one close event, last, with the code and reason of whoever closed the socket, which is clean unless the connection was lost. A close by the script reaches the peer. Nothing is open at the peer after the request is over.",
 over=["schedules","histories","fault_sequences"], quant="every interleaving of sockets' messages both ways, late accepts, closes by either side (also while connecting), lost connections, limits, and callers that give up, on fresh and reused contexts",
 why_tests_cant="No existing test has a peer for a WebSocket.",
 files=["src/runtime/scheduler.rs","src/runtime/bindings/websocket.rs","src/execution_context.rs"], mech=[("task and command channel per socket","src/runtime/scheduler.rs run_websocket"),("WebSocket in JavaScript","src/runtime/bindings/websocket.rs"),("events dispatched to the socket","src/execution_context.rs process_callbacks")],
 tech="a simulated peer counts and numbers its messages; what each side saw is compared with what the other did; real V8"),
dict(id="P39", title="A script that misbehaves harms only itself",
 statement="Whatever a script calls, constructs or alters of what the runtime offers it, with whatever arguments (getters, proxies and conversions that throw, cyclic, detached, empty or enormous values, the runtime's own internal functions), the process goes on, the script's own request ends within its limits, and the requests of all other workers are served as ever.",
 over=["inputs","schedules","histories","fault_sequences"], quant="every sequence of calls a script can make, on the contexts, isolates and threads it shares with requests of other workers",
 why_tests_cant="The tests call the runtime in the ways it is meant to be called, one worker at a time.",
 files=["src/runtime/bindings","src/runtime/crypto","src/worker.rs","src/execution_context.rs"], mech=[("arguments copied to plain values before they are read","src/runtime/bindings/args.rs"),("results and callbacks read from script values","src/execution_context.rs, src/worker.rs"),("native functions behind the web API","src/runtime/bindings, src/runtime/crypto")],
 tech="a seeded script walks everything reachable from globalThis and env and calls it with made-up and collected values, among well-behaved workers to which the checks of P18 and P23-P38 apply; real V8"),
dict(id="P35", title="Cryptographic operations compute what their specifications say",
 statement="Digests, HMAC, RSA, ECDSA and random values offered to scripts agree with the algorithms' specifications, accept exactly the valid signatures, and reject malformed keys with an exception.",
 over=["inputs"], quant="every key, message and signature",
 why_tests_cant="Only sample vectors are tested.",
 files=["src/runtime/crypto"], mech=[("native crypto functions","src/runtime/crypto")],
 tech="", na="pure functions of their inputs: no schedule, time, I/O or fault that a simulation could vary"),
dict(id="P36", title="Text, base64 and URL helpers follow their standards for every input",
 statement="TextEncoder, TextDecoder, atob, btoa and URL handling give the results the web standards define for every input, including malformed ones.",
 over=["inputs"], quant="every string and byte sequence",
 why_tests_cant="Only sample strings are tested.",
 files=["src/runtime/text_encoding.rs","src/runtime/bindings"], mech=[("native and JavaScript helpers","src/runtime")],
 tech="", na="pure functions of their inputs: no schedule, time, I/O or fault that a simulation could vary"),
dict(id="P37", title="Packed code caches and snapshots are told from source, and round-trip",
 statement="Packing a script's source with its code cache and unpacking it returns both unchanged, and data that is not a valid package is reported as such, never executed as something else.",
 over=["inputs"], quant="every source, cache and byte sequence",
 why_tests_cant="Two round trips are tested.",
 files=["src/snapshot.rs"], mech=[("pack and unpack","src/snapshot.rs")],
 tech="", na="a pure function of its input; whether V8 accepts a cache depends on the V8 build, which the simulation replaces"),
]
