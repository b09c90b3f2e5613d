"""Writes /verif/properties.jsonl (the list lives here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})
L = "a_sync/primitives/locks/"
prop("C01", "Semaphore permits are never exceeded, lost or granted out of order",
 "A Semaphore created with n permits never has more than n plus (releases beyond acquisitions) concurrent holders, and grants permits to waiting tasks in the order in which they began waiting. Cancelling a task that waits, or that was just woken but has not run yet, never loses a permit and never leaves a waiter asleep while a permit is free; acquire() returns True, locked() is true exactly when a newcomer would have to wait, and a negative initial value is refused.",
 ["schedules","histories"], "every interleaving of acquire, release, context-manager use, task cancellation and event-loop iterations",
 "The tests acquire and release in one or two fixed patterns; the cancellation test never asserts anything. The property quantifies over all placements of cancel/release between the wake-up of a waiter and its resumption.",
 [L+"semaphore.pyx"], [("hand-off: the value is decremented when a waiter is woken", L+"semaphore.pyx c_release/_c_wake_up_next"), ("a cancelled, already woken waiter gives the permit back and wakes the next", L+"semaphore.pyx __acquire")],
 [("_Semaphore__value","free permits",L+"semaphore.pyx"),("_Semaphore__waiters","FIFO of waiter futures",L+"semaphore.pyx")], ["Semaphore.acquire/release/locked/_value"])
prop("C02", "Semaphore-guarded calls: bounded concurrency, faithful results, per-thread",
 "A coroutine function decorated with a semaphore, or run inside its context manager, never has more concurrent executions than the semaphore has permits (for a ThreadsafeSemaphore: per thread, each thread being independent), and every call returns the wrapped function's result or raises its exception. The permit is returned on every outcome (return, exception, cancellation before, during or after acquisition), and a DummySemaphore never blocks and never limits. Creating and dropping any number of these objects leaves the process healthy.",
 ["schedules","fault_sequences","histories"], "every mix of concurrent guarded calls that return, raise or are cancelled at any point, on one or several threads",
 "Tests time a few sleeps under one decorated method; no test cancels a guarded call, makes it raise under contention, or uses two threads.",
 [L+"semaphore.pyx"], [("decorator wraps the coroutine function in the context manager", L+"semaphore.pyx decorate/__call__"),("one Semaphore per thread", L+"semaphore.pyx ThreadsafeSemaphore")])
prop("C03", "PrioritySemaphore grants freed permits to the best-priority waiter",
 "A PrioritySemaphore never has more holders than permits; a permit that is freed while tasks are waiting goes to the waiter with the numerically lowest priority (no priority given means -1), in waiting order among equal priorities, and a newcomer never overtakes a waiter. Context managers obtained for a priority stay valid for any later use, and no cancellation or release order loses a permit or leaves a waiter asleep while a permit is free.",
 ["schedules","histories"], "every interleaving of prioritised acquire, release, cancellation and event-loop iterations, with managers reused or freshly obtained",
 "The tests never contend for a PrioritySemaphore and assert anything; ordering, cancellation and manager reuse are untested.",
 [L+"prio_semaphore.pyx"], [("heap of per-priority context managers", L+"prio_semaphore.pyx c_getitem/_c_wake_up_next"),("cancelled woken waiter passes its permit on", L+"prio_semaphore.pyx __acquire")],
 [("_Semaphore__waiters","heap of managers",L+"prio_semaphore.pyx")], ["PrioritySemaphore[...].acquire/release"])
prop("C04", "CounterLock releases exactly the waiters whose target has been reached",
 "wait_for(v) on a CounterLock returns True once the counter is or has been raised to at least v, and stays blocked as long as the counter is below v; every waiter whose target is reached by one raise is released by it, whatever other targets exist or were cancelled. The counter never decreases: an attempt raises ValueError and changes nothing, and is_ready(v) is true exactly when the counter is at least v. A CounterLockCluster releases wait_for(v) exactly when all of its members reached v.",
 ["schedules","histories","inputs"], "all sequences of wait_for, set/value assignments (including jumps, equal and lower values, negative numbers) and cancellations over arbitrary targets",
 "Tests use one target value at a time; several targets, jumps past some of them, cancelled waiters and clusters are not exercised.",
 [L+"counter.pyx"], [("heap of awaited values with one event each", L+"counter.pyx wait_for/c_set")], [("_events/_heap","pending targets",L+"counter.pyx")], ["CounterLock.wait_for/set/value/is_ready", "CounterLockCluster.wait_for"])
prop("C05", "Event wakes every waiter on set and blocks while unset",
 "wait() on an Event returns True at once while the event is set, and otherwise blocks until the next set(); set() releases every task then waiting, even if clear() follows before those tasks run, and a task that starts waiting after clear() blocks until another set(). Cancelling one waiter affects no other waiter, and is_set() reflects the last set() or clear().",
 ["schedules","histories"], "all interleavings of wait, set, clear, cancel and loop iterations",
 "Tests sample a few orders with sleeps; set/clear pulses racing with cancellations of some waiters are not covered.",
 [L+"event.pyx"], [("set() resolves every pending waiter future", L+"event.pyx c_set")], None, ["Event.wait/set/clear/is_set"])
Q = "a_sync/primitives/queue.py"
prop("C06", "Queue delivers every item once, in order, through single and bulk operations",
 "Items leave a Queue in exactly the order in which they entered, each to exactly one receiver, whichever mix of get, get_nowait, get_all, get_all_nowait, get_multi and get_multi_nowait is used and however many getters and putters wait or are cancelled; a bounded queue never exceeds its size. Bulk gets return as documented: get_all at least one item (everything available when it need not wait), get_multi exactly i items (or, if allowed to return fewer, at least one and at most i), and a non-waiting bulk get that cannot be satisfied raises QueueEmpty and leaves the queue unchanged. join() completes exactly when every item put has been matched by task_done().",
 ["schedules","histories","inputs"], "all sequences of put and get variants, sizes and bulk amounts with waiting producers/consumers and cancellations (a bulk get cancelled midway excepted)",
 "Tests call each bulk method once with exactly enough items present; waiting bulk gets, shortages, bounded queues and join accounting are not covered.",
 [Q], [("delegation to asyncio.Queue and bulk loops", Q+" class Queue")], [("_queue/_unfinished_tasks","content and join accounting",Q)], ["Queue public API"])
prop("C07", "ProcessingQueue runs every accepted job exactly once and routes its outcome",
 "Each job submitted to an open ProcessingQueue by put, put_nowait or calling it is started exactly once, in submission order, with exactly its own arguments, and its own future receives that run's result or exception; at most num_workers jobs run at once and an idle worker never coexists with a waiting job. Jobs that raise ordinary exceptions and job futures that were cancelled or dropped by the caller affect no other job, join() completes exactly when all submitted jobs have finished, and a closed queue refuses new jobs with RuntimeError while finishing those accepted.",
 ["schedules","histories","fault_sequences"], "all submission/completion/failure/cancellation orders, worker counts, argument shapes and both result-returning and fire-and-forget queues",
 "No existing test touches ProcessingQueue directly; only TaskMapping's concurrency test creates one and asserts nothing about it.",
 [Q], [("worker loop", Q+" ProcessingQueue.__worker_coro"),("lazy worker start", Q+" _workers/_ensure_workers")], [("_workers","worker tasks",Q)], ["ProcessingQueue.put/put_nowait/__call__/join/close"])
prop("C08", "Priority queues always hand out the currently best item",
 "A PriorityProcessingQueue starts waiting jobs in ascending priority and, among equal priorities, in submission order, never comparing job arguments, and otherwise treats jobs as a ProcessingQueue does (each exactly once, own result, worker bound). A VariablePriorityQueue always returns an item that is minimal at the moment of the get, even if priorities of queued items changed after they were put, and loses or duplicates none.",
 ["histories","inputs","schedules"], "all sequences of submissions with arbitrary priorities (including ties and later changes), worker counts and completion orders",
 "Neither class is exercised by any test.",
 [Q], [("heap keyed by priority", Q+" PriorityProcessingQueue"),("re-heapify on get", Q+" _VariablePriorityQueueMixin._get")], None, ["PriorityProcessingQueue.put/put_nowait","VariablePriorityQueue.get"])
prop("C09", "SmartProcessingQueue shares one run per key and serves most-awaited first",
 "While a job is pending or running, submitting equal arguments (positional, and keyword in any order) to a SmartProcessingQueue yields the same future and no second run; after it completed, a new submission runs again. A free worker starts the waiting job whose future currently has the most waiting tasks, every future still held receives its own job's outcome, jobs whose futures were all dropped before starting are skipped, and no job outcome, cancelled waiter or dropped future stops the queue.",
 ["schedules","histories","fault_sequences"], "all orders of submissions, duplicate submissions, waiter arrivals and cancellations, drops and completions",
 "No test exercises this class.",
 [Q,"a_sync/_smart.py"], [("weak map of live futures by key", Q+" SmartProcessingQueue.put_nowait"),("waiter-count ordering", "a_sync/_smart.py SmartFuture.__lt__/num_waiters")], [("_futs","live futures by key",Q)], ["SmartProcessingQueue.put/put_nowait", "SmartFuture.num_waiters"])
prop("C10", "Smart futures and tasks count live waiters; shield isolates cancellation",
 "Awaiting a SmartFuture or SmartTask yields its result, exception or cancellation to every waiter, and its waiter count equals the number of unfinished tasks awaiting it (a waiting smart task that itself has waiters counting as that many), is zero once it is done, and shrinks when a waiting task ends. shield(x) gives the outcome of x; cancelling a task that awaits the shield never cancels x or other waiters, while cancellation of x cancels the shield. Loops using the smart task factory run coroutines exactly as ordinary tasks.",
 ["schedules","histories","fault_sequences"], "all interleavings of waiters arriving, nesting, being cancelled, and the future completing, failing or being cancelled",
 "The two tests await a sleeping SmartTask once; counting, cancellation and shield are not covered.",
 ["a_sync/_smart.py"], [("waiter sets maintained by done callbacks","a_sync/_smart.py _SmartFutureMixin"),("shield outer/inner callbacks","a_sync/_smart.py shield")], [("_waiters","tasks awaiting","a_sync/_smart.py")], ["SmartFuture/SmartTask/shield"])
T = "a_sync/task.py"
prop("C11", "TaskMapping starts one task per key and reports every key with its own result",
 "For a TaskMapping every key has exactly one task - the function is called once per key with that key and the mapping's fixed keyword arguments, whether the key came from an iterable (list, set, generator, async or awaitable iterable, several of them, with repeats) or from item access, which always returns that same task. Awaiting the mapping, gather, async iteration, map and the keys/values/items views each report every key exactly once with its own result, whatever the order in which tasks start and finish, and a failing task or a failing source iterable raises its exception instead of being dropped. This holds for any kind of mapped callable (coroutine functions, partials, callable objects, decorated functions, bound methods, methods and properties of a class mapped over its instances) and for the map method of decorated functions.",
 ["schedules","inputs","histories","fault_sequences"], "all key sets and source kinds, all task durations/failures and consumer speeds",
 "Tests use range(5) with equal delays, so results arrive in one order and no key repeats; slow sources, consumer pauses, failures mid-iteration and mixed access are not covered.",
 [T,"a_sync/utils/iterators.py"], [("__getitem__ starts missing tasks once",T+" __getitem__/__start_task"),("init loader feeds a queue", T+" _init_loader"),("completion event", T+" _next")], [("the dict itself","key -> task",T)], ["TaskMapping public API"])
prop("C12", "TaskMapping consumption, concurrency limit, aggregates and sorted views",
 "With a concurrency limit n, at most n calls of a TaskMapping run at once and all of them still complete, also when some tasks fail or are cancelled. Consuming operations (pop=True) leave the mapping empty, cancel the unfinished tasks they did not report, and a second consumption raises RuntimeError; non-consuming ones leave it intact. all, any, min, max and sum - of a mapping, or called on a decorated function, bound method, or a class's method or property - equal the built-in over the task results, asynchronously and in synchronous code, and the sorted view iterations return the elements in key or value order, ascending or reversed.",
 ["inputs","schedules","histories"], "all result multisets, concurrency limits, durations, and pop/non-pop sequences of operations",
 "The concurrency test looks at tasks before any is started; aggregates and pop semantics are barely called.",
 [T], [("ProcessingQueue used for the limit",T+" _queue"),("destroyed flag",T+" _if_pop_check_destroyed/_if_pop_clear")], [("_destroyed","mapping was consumed",T)], ["TaskMapping.all/any/min/max/sum/map/close/views"])
A = "a_sync/asyncio/"
prop("C13", "create_task runs any awaitable once and persists tasks exactly until done",
 "create_task returns a task that runs the given awaitable (coroutine, future, task or custom awaitable) exactly once and has its outcome and the requested name. With skip_gc_until_done the task survives without any user reference until it is done and is not retained afterwards; its failure is reported exactly once to the loop's exception handler, and neither its failure nor its cancellation ever disturbs other create_task calls.",
 ["histories","fault_sequences","schedules"], "all sequences of creations (persisted or not) whose tasks return, raise, are cancelled or outlive garbage collection",
 "Tests create one successful task each; failure and cancellation of persisted tasks, retention and reporting are not covered.",
 [A+"create_task.pyx"], [("set of persisted wrapper tasks, pruned on each call", A+"create_task.pyx __prune_persisted_tasks")], [("__persisted_tasks","strong references",A+"create_task.pyx")], ["create_task"])
prop("C14", "gather returns every result in input order or under its key",
 "gather of positional awaitables returns their results in argument order whatever the completion order, and gather of a mapping returns a dict with the mapping's keys in the mapping's order, each with its own result; awaitables run concurrently. exclude_if removes exactly the results it accepts, return_exceptions puts exceptions in place of results, and otherwise the first exception to occur propagates; enabling the progress bar changes nothing else.",
 ["schedules","inputs","configurations"], "all completion orders, result/exception patterns and option combinations, for positional and mapping input",
 "Tests use equal delays and never combine options or reorder completions.",
 [A+"gather.pyx",A+"as_completed.pyx"], [("re-ordering by mapping",A+"gather.pyx gather_mapping")], None, ["gather"])
prop("C15", "as_completed yields each outcome exactly once, in completion order, with its key",
 "as_completed over an iterable or mapping, as plain or async iterator, yields the outcome of every awaitable exactly once, in the order of completion, paired with its own key for mappings. A failing awaitable raises at its position (or is yielded as a value with return_exceptions), and when a timeout (also a fractional one) expires before all are done the remaining items raise TimeoutError and none that completed earlier is lost.",
 ["schedules","inputs","configurations"], "all completion orders, failures, timeouts and option combinations",
 "Tests sort or dict the results, so completion order, duplicates and pairing under failures are not decided.",
 [A+"as_completed.pyx"], [("wrapping of mapping values with keys",A+"as_completed.pyx __mapping_wrap"),("async generator over asyncio.as_completed",A+"as_completed.pyx __yield_as_completed")], None, ["as_completed"])
U = "a_sync/utils/iterators.py"
prop("C16", "Merged async iterators lose, invent and reorder nothing",
 "as_yielded delivers every item produced by every source exactly once, each source's items in that source's order, as soon as they are available, and ends exactly when all sources ended; any object, including falsy ones, is a valid item. If a source fails, its exception reaches the consumer instead of a silent end; a consumer may leave or be cancelled at any time. exhaust_iterator(s) consume their sources completely and put every item on the given queue in order, waiting for the queue to be processed if asked to join.",
 ["schedules","inputs","fault_sequences"], "all source counts, lengths, delays, failure points, and consumer pauses",
 "The existing suite has no test of as_yielded at all; it is only reached through TaskMapping.",
 [U], [("shared queue plus end sentinel",U+" as_yielded"),("join before completion",U+" exhaust_iterators")], [("queue","items in flight",U)], ["as_yielded","exhaust_iterator","exhaust_iterators"])
I = "a_sync/iter.pyx"
prop("C17", "ASync iterables give identical contents to sync and async consumers",
 "Iterating an ASyncIterable or ASyncIterator with for, async for, await, or its materialized attribute yields exactly the wrapped source's items in order and the source's exception where it raises; an ASyncIterable over a restartable source can be iterated repeatedly, an ASyncIterator continues where it stopped. A decorated async generator function (plain or bound as method, with any arguments) behaves likewise with the instance bound correctly for each instance, iteration in a thread without an event loop works as well, and sync iteration inside a running loop raises SyncModeInAsyncContextError instead of blocking or dropping items.",
 ["inputs","histories","configurations"], "all item sequences, failure points, and orders of partial consumption in either mode",
 "Tests iterate ranges completely in one mode; partial/mixed consumption, failures, falsy items and multiple instances are not covered.",
 [I], [("__next__ drives __anext__ on the loop",I+" ASyncIterator.__next__"),("per-instance binding cache",I+" ASyncGeneratorFunction.__get__")], None, ["ASyncIterable","ASyncIterator","ASyncGeneratorFunction"])
prop("C18", "filter and sort over async iterables agree with the built-ins",
 "filter on an async (or sync) iterable yields exactly the items whose predicate - sync or async - is truthy, in source order; sort yields a stable ordering identical to the built-in sorted with the same key and reverse flag, for sync and async key functions, never comparing anything but keys. Exceptions from source, predicate or key propagate, chained views compose, and a consumed sorter yields nothing twice.",
 ["inputs","configurations"], "all finite item sequences (ties, duplicates, incomparable payloads), predicates and keys, sync or async, ascending or reversed, consumed sync or async",
 "Tests sort distinct integers with sync keys; ties, async keys over async sources and chaining are not covered.",
 [I], [("ASyncFilter.__anext__",I),("ASyncSorter.__sort",I)], None, ["ASyncIterable.filter/sort","ASyncFilter","ASyncSorter"])
prop("C19", "utils.any and utils.all decide like the built-ins and stop early",
 "utils.any(*awaitables) is True exactly if some awaitable completes with a truthy value before any of those completing earlier raised, and utils.all likewise for falsy values; with no awaitables they are False and True. All awaitables run concurrently, the answer is given as soon as it is decided, those not needed any more are cancelled, and an exception that completes before the decision propagates.",
 ["schedules","inputs"], "all result/exception patterns and completion orders",
 "No test imports utils.any/all.",
 ["a_sync/utils/__init__.py"], [("as_completed loop with early exit","a_sync/utils/__init__.py any/all")], None, ["a_sync.utils.any","a_sync.utils.all"])
F = "a_sync/a_sync/function.pyx"
prop("C20", "Decorated functions honour the call-mode flag, same result in both modes",
 "A call of an @a_sync function runs synchronously exactly when the call's flag (sync, asynchronous, in either polarity) says so, else when the decorator's default says so, else as the function was defined; sync calls return the value, async calls return an awaitable of it. Both modes deliver the wrapped function's result or exception for the arguments given, the flag is never passed on to the wrapped function, contradictory (two) flags are refused, functions that cannot work this way (generators, parameters named like a flag) are refused when decorated, and a sync-mode call of an async function inside a running loop raises the documented error instead of blocking.",
 ["configurations","inputs"], "sync and async functions x default x flag name x flag value x arguments x outcome",
 "Tests cover a handful of these combinations on constant functions without arguments or exceptions.",
 [F,"a_sync/a_sync/_kwargs.pyx","a_sync/a_sync/_helpers.pyx"], [("flag resolution",F+" _run_sync"),("flag removal","a_sync/a_sync/_kwargs.pyx"),("executor for sync functions in async mode",F+" _asyncify")], None, ["a_sync(...)"])
prop("C21", "ASyncBase methods and properties honour instance, class and call flags",
 "For an ASyncBase object each method or (cached) property call is synchronous exactly when its call flag, else the member's own default, else the instance's or class's flag says so, and both modes give the member's value for that instance, its own arguments and exceptions - never another instance's. The hidden async counterpart of a property is callable with an explicit flag, and bound members of a live instance keep working after being cached, for many instances and after other instances are destroyed, also when reached with super() from an overriding member. Using members never disturbs other timers of the event loop.",
 ["configurations","inputs","histories"], "flag placement x member kind x member defaults x call flag x sync/async definition, over several live instances",
 "Tests use one class shape with constant values per case; cross-instance mixing, arguments, exceptions and lifetimes are not covered.",
 ["a_sync/a_sync/method.pyx","a_sync/a_sync/property.pyx","a_sync/a_sync/base.pyx","a_sync/a_sync/abstract.pyx"], [("bound method cache","a_sync/a_sync/method.pyx __get__"),("should_await resolution","a_sync/a_sync/method.pyx _should_await"),("flags on instances","a_sync/a_sync/base.pyx")], None, ["ASyncBase subclasses"])
prop("C22", "Cached properties compute once per instance and share the value",
 "An async or sync cached property runs its getter at most once per instance as long as it succeeds, no matter how many tasks of an event loop request it concurrently or which mode they use, and every request gets that one value (falsy values included). A failure reaches every request waiting for that computation and is not cached. Cancelling one requester neither cancels the computation nor affects others, instances never share values, and setting or deleting the cached value takes effect for the next request (a value set during a computation wins; deleting what is not cached raises KeyError).",
 ["schedules","histories"], "all interleavings of concurrent requests, cancellations, sets, deletes and sync/async access over several instances",
 "Tests await the property a few times sequentially with a timing threshold; concurrency, cancellation and falsy values are untested.",
 ["a_sync/a_sync/property.pyx"], [("per-instance in-flight task behind a shield","a_sync/a_sync/property.pyx cached_property get_lock"),("cache in the instance","a_sync/a_sync/property.pyx")], None, ["a_sync cached_property"])
prop("C23", "Singletons: one instance per class and mode, also under thread races",
 "A class using the a_sync singleton metaclass yields, for each distinct mode (sync, async), one and the same instance on every construction, initialised exactly once, also when several threads construct it simultaneously for the first time. Different classes, including subclasses, and different modes never share an instance.",
 ["schedules","configurations","histories"], "all interleavings of concurrent first constructions over threads, modes and class hierarchies",
 "Tests construct instances sequentially on one thread.",
 ["a_sync/a_sync/_meta.py","a_sync/a_sync/singleton.py"], [("double-checked locking per class","a_sync/a_sync/_meta.py ASyncSingletonMeta.__call__")], [("instances by mode","per class","a_sync/a_sync/_meta.py")], ["ASyncSingletonMeta classes"])
M = "a_sync/a_sync/modifiers/"
prop("C24", "The memory cache modifier never recomputes or mixes up results",
 "A function with the memory cache runs once per distinct argument list while its entry is live - for asynchronous calls, concurrent or not, and for synchronous calls of an async-defined function - and every such call gets the value for its own arguments (falsy values and keyword arguments included). Entries expire after the ttl and not before, at most maxsize entries are kept with the least recently used evicted first, unless typed keys were requested equal arguments share an entry, and failures are not cached. Instances do not share entries.",
 ["histories","schedules","configurations","inputs"], "all call sequences over arguments, time, concurrency and cache options",
 "Tests call one constant function twice and look at wall time.",
 [M+"cache/memory.py",M+"cache/__init__.py",M+"manager.pyx"], [("alru_cache with the configured options",M+"cache/memory.py")], None, ["@a_sync(cache_type/ram_cache_*)"])
prop("C25", "Semaphore and rate-limit modifiers bound every path to the function",
 "A function configured with semaphore=n - or the member of one instance configured so - never has more than n asynchronous executions in flight on a thread, and one configured with runs_per_minute=r allows a first burst of r executions and never starts more than r plus one per 60/r seconds of any period's length, through every asynchronous call path and synchronous calls of async-defined functions (function, method, class default for methods, property). All admitted calls eventually run and return their own result; several modifiers on one function each keep their guarantee, a cache hit consuming neither permits nor rate.",
 ["schedules","configurations","histories"], "all concurrent call patterns, modifier combinations and application points (function, class default, property)",
 "Tests check elapsed time of ten calls for a single configuration.",
 [M+"semaphores.py",M+"limiter.py",M+"manager.pyx"], [("stacking order limiter, semaphore, cache",M+"manager.pyx apply_async_modifiers")], None, ["@a_sync(semaphore=, runs_per_minute=)"])
prop("C26", "Executors run each call once, return its outcome and respect max_workers",
 "run and submit of the thread executors execute the given function exactly once with its arguments and deliver its result or exception to that call only; no more than max_workers run at once, with zero workers (sync mode) calls run inline in the caller's thread. A pruning executor may let idle threads end after its timeout but never loses a submitted call and starts threads again on demand, under any interleaving of submissions and thread exits; shutdown(wait=True) returns normally once the submitted calls are over, and later ones are refused.",
 ["schedules","histories","fault_sequences"], "all numbers of concurrent calls, failures, idle periods and worker counts",
 "Tests submit a few sleeping calls; exceptions, sync mode, the bound and pruning races are not asserted.",
 ["a_sync/executor.py"], [("work queue with idle timeout","a_sync/executor.py PruningThreadPoolExecutor"),("future bridging","a_sync/executor.py _AsyncExecutorMixin")], None, ["AsyncThreadPoolExecutor","PruningThreadPoolExecutor"])
prop("C27", "ASyncFuture expressions evaluate like their materialised values",
 "An expression built from ASyncFutures, plain values and other awaitables with arithmetic, comparison, item, membership or conversion operators yields, when awaited or materialised, exactly what the same expression over the results yields, including operand order and exceptions. Each underlying awaitable runs at most once however often and however concurrently the future and expressions over it are awaited, operands run concurrently, and a failure reaches every consumer unchanged. Materialising works in any thread where no loop runs, also one without an event loop; while the loop is running it gives the value of a future that has been awaited and is otherwise refused with a RuntimeError. __dependencies__ and __dependants__ list the futures an expression is built from and those built on it. All of this holds alike for futures made by the future decorator from functions and methods. (Cancelling a consumer is not covered.)",
 ["inputs","programs","schedules"], "all expression trees over integer-valued futures incl. shared subexpressions, reflected and in-place operators, and all await orders",
 "Tests evaluate single operators on the constants 0, 1, 2 sequentially; shared subexpressions and concurrent awaits are not covered.",
 ["a_sync/future.py"], [("operator coroutines","a_sync/future.py"),("single task per future","a_sync/future.py __task__/__await")], None, ["ASyncFuture","future decorator"])
prop("C28", "Primitives and decorated functions survive a change of event loop",
 "A Semaphore, PrioritySemaphore, ThreadsafeSemaphore, Event or CounterLock that is used on one event loop after another - created where there is no loop at all, beside one or inside one, first used on a loop that has since ended (cancelling its tasks, as asyncio.run does) or is paused while another one runs - works on the new loop as it would have on the old one: its state (permits, flag, counter value) is kept, tasks that died with their loop neither keep permits nor swallow wake-ups, waiters of a paused loop keep their place and are served when it runs again, and no operation raises or hangs because of the change. The same holds for functions decorated with semaphores or caches and for cached properties that are used on several loops in turn (a computation that died with its loop is made again). asyncio-bound objects (Queue, ProcessingQueue and their workers) belong to one loop and are not covered.",
 ["histories","configurations"], "all histories of operations on a primitive or decorated function cut by ends and pauses of event loops at any point, with waiters and holders left behind, with and without debug daemons",
 "No test uses two loops on one primitive.",
 ["a_sync/primitives/_debug.pyx","a_sync/primitives/locks/","a_sync/a_sync/modifiers/","a_sync/a_sync/property.pyx"], [("loop looked up per wait","a_sync/primitives/_debug.pyx _c_get_loop")], [("state and waiters kept across loops","internal","a_sync/primitives/locks/")], ["Semaphore, PrioritySemaphore, Event, CounterLock, @a_sync functions, cached properties"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
