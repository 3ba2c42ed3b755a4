LOOP = ("Stateless model checking of the real code on a controlled event loop (all schedules of callers, "
        "cancellations and timers up to a deviation bound) against a reference model")
SEQ = ("Bounded exhaustive enumeration of configurations/operation sequences of the real code, each execution "
       "compared step by step with a reference model")
THR = "Stateless model checking of the real code under a cooperative thread scheduler (all interleavings up to a preemption bound)"
NLOOP = ("Exhaustive within the stated scenarios and deviation bound (evidence lists them); trusts the controlled loop "
         "(FIFO ready queue, virtual time) as a faithful asyncio loop, and the reference model written from the documentation.")
NSEQ = ("Exhaustive over the stated alphabet and depth (evidence lists them); trusts the reference model written from the "
        "documentation and the controlled event loop.")

# ------------------------------------------------------------------------------------------------ primitives
prop("C04", "Semaphore: never more holders than permits, no lost wakeup, no leaked permit",
     """A Semaphore (or ThreadsafeSemaphore, per thread) of N permits never has more than N holders at once whichever of
     `async with`, acquire()/release() and the decorator form is used, and waiters get permits in the order in which they
     started waiting. Whenever a permit is free no caller stays blocked, and locked() says so. No schedule of acquires,
     releases, exceptions and cancellations (also before an acquire first runs, or right as it is granted) loses, leaks or
     invents a permit.""",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of callers, releases and cancellations at every event-loop step",
     """Existing tests acquire and release along one schedule; a lost wakeup or leaked permit needs a cancellation or a release
     at one specific loop step.""",
     ["a_sync/primitives/locks/semaphore.pyx"],
     [("waiter queue with direct hand-off of permits", "Semaphore.acquire/release"), ("per-thread semaphores", "ThreadsafeSemaphore")],
     LOOP, NLOOP, ["Semaphore.acquire", "Semaphore.release", "async with"])

prop("C05", "PrioritySemaphore: holders bounded, best priority first, no permit lost",
     """A PrioritySemaphore of N permits never has more than N holders over all priorities, and each permit that becomes free
     goes to a waiter of the best (smallest) priority among those waiting at that time, first come first served within a
     priority. No schedule of acquires, releases, exceptions and cancellations loses or invents a permit, leaves a caller
     blocked while a permit is free, or changes the priority of a waiter.""",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of callers with equal and different priorities, releases and cancellations",
     "The tests check priorities along one schedule without cancellation; the order depends on the heap and on who is cancelled when.",
     ["a_sync/primitives/locks/prio_semaphore.pyx"],
     [("heap of context managers and their waiters", "_AbstractPrioritySemaphore"), ("wake-up of the next waiter", "_wake_up_next")],
     LOOP, NLOOP, ["PrioritySemaphore.__getitem__", "async with sem[priority]"])

prop("C06", "Event: every waiter is released by set(), none is forgotten or released early",
     """A task that waits for an Event completes if and only if the event is set at its call or becomes set while it waits;
     a cancelled or late waiter never keeps another one from waking, and is_set() is exact. clear() affects later waits
     only, also when it directly follows set().""",
     ["schedules", "histories"],
     "every interleaving of waiters, set, clear and cancellations",
     "A forgotten waiter needs set/clear/cancel at a specific loop step between other waiters' wake-ups; tests use one order.",
     ["a_sync/primitives/locks/event.pyx"],
     [("waiter futures", "CythonEvent.wait/set/clear")], LOOP, NLOOP, ["Event.wait", "Event.set", "Event.clear", "Event.is_set"])

prop("C07", "CounterLock: waiters released exactly when the value reaches theirs",
     """A task that waits for a value v on a CounterLock completes if and only if the counter has reached v; the value
     never decreases (setting a lower one is an error and changes nothing), and raising it past several waited-for values
     releases all of them. A CounterLockCluster waits for all of its locks.""",
     ["schedules", "histories"],
     "every interleaving of waiters for different values, increments, settings and cancellations",
     "Tests wait for one value; values that are skipped over, or waiters cancelled meanwhile, are separate histories.",
     ["a_sync/primitives/locks/counter.pyx"],
     [("one event per waited-for value", "CounterLock.wait_for/set")], LOOP, NLOOP, ["CounterLock.wait_for", "CounterLock.value", "CounterLockCluster"])

prop("C08", "Queue: no item lost, duplicated or reordered, batch gets return what they say",
     """Over any sequence of puts and gets (single, multi, all, waiting or nowait) and any cancellation of them, each item put
     into a Queue is returned exactly once and in order, a batch get returns the number of items it promises (get_multi: i
     items, get_all: everything there and at least one), and a failed get changes nothing. Nobody stays blocked when what
     it waits for is there, the maximum size is never exceeded, and join() returns exactly when every item is done.""",
     ["schedules", "histories", "fault_sequences"],
     "every operation sequence up to a depth, and every interleaving of concurrent producers, consumers and cancellations",
     "Tests sample some sequences; a lost item needs a partial batch get to be cancelled or fail at a specific step.",
     ["a_sync/primitives/queue.py"],
     [("batch gets on top of asyncio.Queue", "Queue.get_all/get_multi/get_multi_nowait/get_all_nowait")],
     LOOP, NLOOP, ["Queue.put", "Queue.get", "Queue.get_multi", "Queue.get_all", "Queue.join"])

prop("C09", "ProcessingQueue: every item processed once, result to the right caller",
     """Each item put into a ProcessingQueue (or PriorityProcessingQueue) is processed exactly once (unless its future is
     cancelled before its turn: then not at all), by at most num_workers workers at a time, in order (of priority), and the caller who put it gets the result or exception of precisely that item.
     No exception, cancellation or dropped future of one item stops a worker or affects another item; no item waits while a
     worker is idle.""",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of puts, completions, failures, cancellations and dropped futures of a few items over 1-2 workers",
     "Tests let a few items succeed; a dead worker or misrouted result needs a fault of one item at a specific step among the others.",
     ["a_sync/primitives/queue.py"],
     [("worker coroutine", "_ProcessingQueue __worker_coro"), ("future per item", "ProcessingQueue.put/put_nowait")],
     LOOP, NLOOP, ["ProcessingQueue.put", "ProcessingQueue.put_nowait", "ProcessingQueue.__call__"])

prop("C10", "SmartProcessingQueue: one execution per distinct arguments, most awaited first",
     """While a request for some arguments is pending in a SmartProcessingQueue, further requests for equal arguments share
     its single execution and outcome, and a request made after it is done starts a new one. The queued job with the most
     waiters runs next; nobody is handed the result of other arguments or a future that can no longer complete, also when
     some of those who share it are cancelled or go away.""",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of requests for 1-3 keys, waits, cancellations, dropped futures and completions",
     "Sharing and priority depend on who waits, is cancelled or garbage collected at which step; the tests follow one schedule.",
     ["a_sync/primitives/queue.py", "a_sync/_smart.py"],
     [("weak map of live futures by key", "SmartProcessingQueue.put_nowait"), ("waiter count as priority", "SmartFuture / VariablePriorityQueue")],
     LOOP, NLOOP, ["SmartProcessingQueue.put_nowait", "VariablePriorityQueue.get_nowait"])

# ------------------------------------------------------------------------------------------------ asyncio helpers
prop("C11", "create_task: the awaitable's outcome; kept alive exactly until done if asked",
     """create_task returns a task with the outcome of the awaitable it was given, of whichever kind. With skip_gc_until_done
     the task survives garbage collection without any other reference until it is done, and is not kept alive by the library
     after that; an exception of a kept task that nobody else could see is reported once. No other task's failure or
     cancellation makes a create_task call fail or return a wrong task.""",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of create, finish (result, exception, cancellation), drop reference, collect and loop step up to a depth",
     "Needs a garbage collection and other tasks' completion at specific points; tests do neither.",
     ["a_sync/asyncio/create_task.pyx"],
     [("set of persisted tasks and its pruning", "create_task / __prune_persisted_tasks")], SEQ, NLOOP, ["create_task"])

prop("C12", "gather / as_completed: each result once, in its place or order of completion",
     """gather returns every result at its position or under its key for every completion order, mapped over all combinations
     of return_exceptions, exclude_if and mappings; as_completed yields every result exactly once in completion order, for
     sequences and mappings, sync and async iteration. Exceptions are raised or returned as asked, excluded items are left
     out, and a timeout takes effect at its time and not before.""",
     ["schedules", "configurations", "fault_sequences"],
     "every completion order, outcome kind and option combination for up to 3-4 awaitables",
     "Tests take one completion order for a few option sets.",
     ["a_sync/asyncio/gather.pyx", "a_sync/asyncio/as_completed.pyx"],
     [("mapping wrappers", "gather_mapping / as_completed_mapping"), ("exception wrapping", "_exc_wrap")], LOOP, NLOOP, ["gather", "as_completed"])

prop("C13", "as_yielded / exhaust_iterators: every item once, in order, as soon as possible",
     """as_yielded over several async iterators yields each item of each of them exactly once and without reordering one
     source, hands out an item as soon as one is available, ends when all sources have ended, and raises a source's exception
     only after all items that can still be had. When its consumer leaves or is cancelled, no source is asked any further.
     exhaust_iterators puts exactly the same items into its queue.""",
     ["schedules", "fault_sequences"],
     "every interleaving of producers and consumer, failures and cancellation of the consumer for 1-4 sources",
     "A lost last item or early end needs a particular order of production, sentinel and consumption; tests have one.",
     ["a_sync/utils/iterators.py"],
     [("one queue filled by a task per iterator", "as_yielded / exhaust_iterator"), ("sentinel item", "_Done")], LOOP, NLOOP, ["as_yielded", "exhaust_iterators"])

prop("C14", "Dual-mode iterators: same items in both modes, in order, filtered and sorted",
     """An ASyncIterable, ASyncIterator or generator function (also one used as a method) yields exactly the items of what it
     wraps, once and in order, with `for` and `async for`, from any thread, and however the two are mixed. filter() keeps
     exactly the items for which its sync or async predicate is true and asks only for the items that were taken; sort() yields
     the sorted list of its items (stable, key and reverse as in sorted()); await/materialized give the whole list. Exceptions
     of the source, predicate or key reach the consumer; nothing else does.""",
     ["inputs", "histories", "schedules"],
     "every composition of source, filter/sort, way of consumption and outcome per item; every schedule of key and predicate calls",
     "Tests consume one source with one key one way; early exhaustion, exceptions and re-use are separate histories.",
     ["a_sync/iter.py"],
     [("__next__/__anext__ on one underlying iterator", "ASyncIterator"), ("wrapped objects", "ASyncFilter, ASyncSorter"),
      ("descriptor of generator methods", "ASyncGeneratorFunction")], SEQ, NSEQ,
     ["ASyncIterable", "ASyncIterator", "ASyncGeneratorFunction", "ASyncFilter", "ASyncSorter"])

prop("C15", "TaskMapping: one call per key, every key yielded once with its own result",
     """A TaskMapping calls its function exactly once for every distinct key of its iterables (and for each key asked for), passes
     the key as the first argument not given by keyword, and every way to iterate over it (async for, map(), keys(), values(),
     items(), sorted views, gather, await; popping or not) yields every key exactly once with its own result, views in the
     order of the keys, async for as soon as a result is there. Exceptions of the function and of the iterables reach the
     consumer, and no consumer waits when there is nothing left to wait for.""",
     ["schedules", "histories", "inputs"],
     "every order in which keys arrive and calls finish or fail, with one or two consumers; every sequence of operations of a manual mapping",
     "Tests use functions and iterables that finish in one order; a lost key or a hang needs a key that arrives at one specific loop step.",
     ["a_sync/task.py"],
     [("loader task and its queue/event of keys", "_init_loader"), ("iteration while loading", "__aiter__, map"), ("views", "_TaskMappingView")],
     LOOP, NLOOP, ["TaskMapping", "TaskMapping.map", "TaskMapping.gather", "TaskMapping.keys/values/items"])

prop("C16", "TaskMapping: limit kept and used, aggregates right and early, clean end",
     """With concurrency=N a TaskMapping runs at most N calls of its function at once, and N whenever there are that many keys to
     do. all(), any(), max(), min() and sum() (sync or async, popping or not) give what the builtin gives for the results, all()
     and any() as soon as the answer is certain. When a popping iteration or aggregate ends, for whatever reason (exhausted,
     left early, exception, cancelled, close()), no call starts, none goes on (with a limit, those that run may finish), no
     more keys are loaded, the mapping is empty, and another popping use raises RuntimeError.""",
     ["schedules", "inputs", "fault_sequences"],
     "every order of arriving keys and finishing calls, every assignment of result values, every point at which the consumption ends",
     "Tests consume mappings to the end with results in one order; leftovers need an end at a specific step of loading and completion.",
     ["a_sync/task.py", "a_sync/primitives/queue.py"],
     [("queue of num_workers workers", "_queue/__start_task"), ("clean-up", "_if_pop_clear/clear/close"), ("aggregates", "all, any, max, min, sum")],
     LOOP, NLOOP, ["TaskMapping(concurrency=)", "TaskMapping.all/any/max/min/sum", "TaskMapping.close"])

prop("C17", "utils.any / utils.all: truth of all the results, decided as early as certain",
     """any() (all()) over awaitables returns whether at least one (every) result is true, independent of the order in which they
     complete; it returns as soon as the answer is certain and then cancels what it no longer needs. An exception that comes
     before that is raised to the caller.""",
     ["schedules", "inputs"],
     "every assignment of outcomes and every completion order for up to 3-4 awaitables",
     "Tests use fixed orders.", ["a_sync/utils/__init__.py"],
     [("as_completed with short cut", "any / all")], LOOP, NLOOP, ["a_sync.utils.any", "a_sync.utils.all"])

# ------------------------------------------------------------------------------------------------ dual mode
prop("C01", "@a_sync functions: right mode, run once with own arguments, errors passed on",
     """Every call of an @a_sync function runs the wrapped function exactly once with the arguments given, and returns its result
     (raises its exception) directly in sync mode and through an awaitable in async mode. The mode is that of the call's flag
     (sync=, asynchronous=), else of the default, else (A_SYNC_DEFAULT_MODE, then) of the function's kind, for each call anew;
     two flags are an error. A synchronous call of a coroutine function inside a running event loop is refused with
     SyncModeInAsyncContextError before anything runs. What can not be dual-mode (generator functions, arguments named like a
     flag, unknown defaults or modifiers) is refused, whatever was decorated before.""",
     ["inputs", "histories"],
     "every combination of function kind, way of decorating, default, flags, context, arguments and outcome; every history of decorations",
     "Tests pick single points of the product of kind, default, flag and context; validation caches depend on which functions lived and died before.",
     ["a_sync/a_sync/function.pyx", "a_sync/a_sync/decorator.py", "a_sync/a_sync/_helpers.pyx", "a_sync/a_sync/_kwargs.pyx"],
     [("flag evaluation", "_run_sync"), ("validation caches keyed by id()", "_validate_argspec_cached"), ("_await / _asyncify", "_helpers.pyx")],
     SEQ, NSEQ, ["@a_sync", "ASyncFunction.__call__", "ASyncFunction.map/any/all/min/max/sum"])

prop("C02", "Dual-mode classes: right mode and function on every instance, at any time",
     """Every method, property and generator method of an instance of a class derived from ASyncGenericBase runs the function of
     the right class (the most derived one, or the parent's through super()) exactly once on that very instance, in the mode
     asked for by the call's flag, else by the member's own default, else by the instance's flag, however that flag is given
     (argument of __init__, class attribute, inherited, set in __init__); the same after any sequence of uses of that or other
     instances, copies of instances and instances that died. Missing, ambiguous or non-bool flags and instances that were not
     initialized are errors and run nothing. Mapping a method or property over instances, or a bound method over arguments,
     gives each its own result.""",
     ["inputs", "histories"],
     "every combination of flag source, member, call flag, context and outcome; every sequence of uses over several instances up to a depth",
     "Bound methods, flags and signatures are cached per instance and class; a stale entry shows only after a specific history of instances.",
     ["a_sync/a_sync/base.pyx", "a_sync/a_sync/abstract.pyx", "a_sync/a_sync/method.pyx", "a_sync/a_sync/property.pyx", "a_sync/a_sync/_meta.py"],
     [("descriptor cache of bound methods", "_get_cached_bound"), ("flag lookup", "__a_sync_flag_name__"), ("ASyncMeta wraps members", "_meta.py")],
     SEQ, NSEQ, ["ASyncGenericBase", "a_sync.property", "instance.method()", "Class.method.map"])

prop("C19", "Cached properties: one getter run shared by all readers, value kept",
     """However many readers await a cached property of an instance at once, its getter runs once and all of them get its value
     (or its exception); afterwards every read, also synchronous, gives that value without another run until it is deleted.
     A failed or cancelled getter is not kept: the next read runs it again. A cancelled reader neither cancels the getter
     nor disturbs another reader. Values never pass from one instance, property or class (super()) to another.""",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of readers, getter outcomes and cancellations at every event-loop step; every sequence of sync operations up to a depth",
     "A second run or a lost value needs a read, cancellation or completion at one specific loop step.",
     ["a_sync/a_sync/property.pyx"],
     [("a task per instance and property in place of the lock", "get_lock/get_loader"), ("value store", "set_cache_value")],
     LOOP, NLOOP, ["a_sync.cached_property", "await instance.prop", "instance.__prop__()"])

prop("C03", "Singletons: one finished instance per class and mode, under any threads",
     """For a class whose metaclass is ASyncSingletonMeta every call for the same mode (given by keyword or by default) returns the
     same instance, made by exactly one successful run of __init__ and never handed out before that has finished; the two modes
     and a derived class have instances of their own, each with its own mode. A failing __init__ raises to its caller, is not
     kept, and blocks nobody. This holds however many threads call at once.""",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of 2-3 threads at line granularity up to a preemption bound; every sequence of creations up to a depth",
     "A second instance needs a switch between two particular lines of the metaclass; the tests use one thread.",
     ["a_sync/a_sync/_meta.py", "a_sync/a_sync/singleton.py"],
     [("double-checked locking per class", "ASyncSingletonMeta.__call__"), ("mode of the instance to be", "__a_sync_instance_will_be_sync__")],
     THR, "Exhaustive up to the stated preemption bound; preemptions at the lines of _meta.py (its source runs with a cooperative threading module) "
     "and at points of __init__; compiled base classes are atomic.", ["ASyncGenericSingleton", "ASyncSingletonMeta.__call__"])

prop("C18", "Executors: each call runs once and is answered, full capacity, safe pruning",
     """Every call accepted by an executor runs exactly once (never, if cancelled before it started) and its result or exception
     reaches its future; at most max_workers run at once, and that many whenever there are that many, also after bursts and after
     idle threads were pruned. Idle threads of a PruningThreadPoolExecutor end but for one; shutdown() and dropping the executor
     end all threads after the accepted work, without errors, however they meet with timeouts, submissions and completions.
     With max_workers=0 a call runs at once in the calling thread.""",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of submitters, workers and timeouts at line granularity up to a preemption bound",
     "Work lost to a thread that times out at the same moment needs one exact interleaving that real timing hardly ever gives.",
     ["a_sync/executor.py"],
     [("worker loop with timeout", "_worker"), ("idle count and thread creation", "_adjust_thread_count"), ("sync mode and wrap_future", "_AsyncExecutorMixin.submit/run")],
     THR, "Exhaustive up to the stated preemption bound (with delay bounding in the scenarios that say so); the sources of executor.py and of "
     "concurrent.futures run on cooperative locks, queues and threads, which are trusted; asyncio.wrap_future is trusted.",
     ["PruningThreadPoolExecutor", "AsyncThreadPoolExecutor", "AsyncProcessPoolExecutor", "submit", "run"])

prop("C20", "Memory cache: one run per key while cached, nothing shared, stale or failed",
     """With the memory cache (cache_type, ram_cache_maxsize, ram_cache_ttl, cache_typed on a decorator or a class), a call whose
     key is cached returns that result without running the function, and concurrent calls of one key share one run; a different
     argument, instance or (with cache_typed) type never gets another's result. A failed call is not cached. A result is kept
     until its time to live has passed or it is the least recently used of more than maxsize, and not longer, for as long as its
     instance lives. Flags are no part of the key. A cancelled caller does not disturb the others.""",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of calls, failures and pauses up to a depth; every interleaving of callers, completions, failures and cancellations",
     "The existing tests time single functions; keys, eviction order, expiry, sharing and idle bound methods need histories of calls.",
     ["a_sync/a_sync/modifiers/cache/memory.py", "a_sync/a_sync/modifiers/cache/__init__.py", "a_sync/a_sync/modifiers/manager.pyx",
      "a_sync/a_sync/function.pyx", "a_sync/a_sync/method.pyx"],
     [("translation of modifiers to async_lru", "apply_async_memory_cache"), ("where modifiers are applied", "_modified_fn/ASyncDescriptor.__init__")],
     SEQ, NSEQ + " async_lru is run as installed.", ["@a_sync(cache_type=...)", "class attributes", "ASyncBoundMethod"])

prop("C21", "Semaphore and rate modifiers: never over the limit, never held back for nothing",
     """With a semaphore of N given as a modifier (int or Semaphore object; decorator, class attribute, property, apply_semaphore or
     A_SYNC_SEMAPHORE) never more than N calls subject to it run at once, N do whenever there are that many, and no exception or
     cancellation loses a permit. With runs_per_minute=N no more than N + N*t/60 runs start within t seconds, and a call is not
     delayed while there is room. A call counts once. A cached result needs neither. An explicit value beats the environment's.
     Sync functions and properties, called asynchronously, are limited the same way.""",
     ["schedules", "histories", "fault_sequences", "inputs"],
     "every way to give a modifier, with every interleaving of callers, completions, failures and cancellations; every sequence of calls and pauses",
     "A limit that is applied twice or not at all shows only under concurrency, in one of many places where a modifier can be given.",
     ["a_sync/a_sync/modifiers/semaphores.py", "a_sync/a_sync/modifiers/limiter.py", "a_sync/a_sync/modifiers/manager.pyx",
      "a_sync/a_sync/modifiers/__init__.py", "a_sync/a_sync/_descriptor.py", "a_sync/a_sync/_meta.py", "a_sync/a_sync/config.py"],
     [("stacking of modifiers", "ModifierManager.apply_async_modifiers"), ("class attributes become shared limiters", "apply_class_defined_modifiers")],
     LOOP, NLOOP + " aiolimiter is run as installed.", ["@a_sync(semaphore=, runs_per_minute=)", "class attributes", "apply_semaphore", "environment defaults"])

# ------------------------------------------------------------------------------------------------ futures and tasks
prop("C22", "ASyncFuture: an expression over futures equals the one over plain values",
     """An expression of ASyncFutures and constants (arithmetic, reflected operators, powers, comparisons, indexing, attributes,
     membership, calls, conversions, sum) gives, when awaited, the value or exception that it gives for the results themselves,
     with operands in order; so do functions and methods decorated with @future and called with futures. Every underlying
     awaitable runs once, however often, from however many tasks and in whatever order the parts are awaited, also when some
     fail or are cancelled; whoever awaits gets that outcome, never None instead.""",
     ["inputs", "schedules", "fault_sequences"],
     "every operator with every pair of operand values and kinds up to an expression depth; every interleaving of awaiters and completions",
     "The tests try one pair of integers per operator; order of operands, failing and shared parts multiply.",
     ["a_sync/future.py"],
     [("materialization of operands", "_materialize"), ("operator methods", "ASyncFuture.__add__ ..."), ("decorator", "future/_ASyncFutureWrappedFn")],
     SEQ, NSEQ, ["ASyncFuture", "@future", "await fut"])

prop("C23", "Smart tasks and shield: asyncio's rules, with an exact count of waiters",
     """A SmartTask, SmartFuture or task awaited directly or through the smart shield gives every waiter its own outcome.
     Cancelling a shielded waiter cancels that waiter only; cancelling the inner one cancels all that wait for it. num_waiters is
     the number of those that wait, whoever came, was cancelled or came back, and 0 once done. No callback fails. With the smart
     task factory installed (set_smart_task_factory on the given, running or current loop) every asyncio program behaves as
     without it.""",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of direct and shielded waiters, completion, failure and cancellations of waiters and of the inner task",
     "Waiters are counted by callbacks that run some loop steps after a cancellation or completion; the tests have one waiter.",
     ["a_sync/_smart.py"],
     [("set of waiters and its clean-up", "_SmartFutureMixin.__await__/_waiter_done_cleanup_callback"), ("shield", "shield"), ("factory", "smart_task_factory")],
     LOOP, NLOOP, ["SmartTask", "SmartFuture", "shield", "set_smart_task_factory"])

# ------------------------------------------------------------------------------------------------ whole library
prop("C24", "Debug logging changes nothing but the log",
     """With debug logs enabled for any of the library's loggers, or EZASYNC_DEBUG_MODE set, every operation gives the same results,
     exceptions and order as without; classes of every shape are accepted or refused alike. Every record can be formatted. The
     daemons that log while somebody waits end once nobody does, and delay, wake or keep alive nothing.""",
     ["schedules", "histories", "inputs"],
     "the executions of the other properties' scenarios with debug logs on; every class shape, loud and quiet; every way for a daemon's wait to end",
     "The tests run quietly; the branches that log are separate code paths in nearly every compiled module.",
     ["a_sync/primitives/_debug.pyx", "a_sync/primitives/_loggable.pyx", "a_sync/a_sync/base.pyx", "a_sync/a_sync/abstract.pyx", "a_sync/a_sync/method.pyx",
      "a_sync/a_sync/property.pyx", "a_sync/a_sync/_meta.py", "a_sync/primitives/locks/prio_semaphore.pyx"],
     [("daemons", "_DebugDaemonMixin"), ("log branches", "c_logger.isEnabledFor(DEBUG)"), ("logger of the metaclass", "_update_logger")],
     LOOP, NLOOP, ["logging.getLogger('a_sync').setLevel(DEBUG)", "EZASYNC_DEBUG_MODE"])

prop("C25", "Instances outlive event loops, pauses and calls in flight, and leave no trace",
     """An instance can be used from one event loop after another, also when one was closed with its calls in flight, over pauses of
     any length: each call gives its own result and runs its function once (a cached value not at all), a permit held by a call
     that was cut off is free again. No timer of the program is lost, delayed or called twice, no callback fails. An instance
     and what it holds are freed once the program drops it (a memory cache keeps those it has results of; a generator method
     keeps its instance for five minutes).""",
     ["histories", "fault_sequences"],
     "every sequence of calls, cut off calls, pauses, timers, drops and changes of loop up to a depth",
     "The tests use an instance for milliseconds in one loop; the caches on instances are cleaned by timers of the loop.",
     ["a_sync/a_sync/method.pyx", "a_sync/iter.pyx", "a_sync/a_sync/property.pyx", "a_sync/primitives/locks/semaphore.pyx"],
     [("timers of cached bound methods", "_update_cache_timer/_pop_unused"), ("generator functions bound for five minutes", "ASyncGeneratorFunction.__get_cache_handle"),
      ("value store of cached properties", "_ASyncCachedPropertyDescriptor")],
     SEQ, NSEQ, ["instance.method()", "instance.prop", "asyncio.run"])

prop("C26", "Memory safety: no operations crash the interpreter or use freed memory",
     """Whatever is done with the compiled primitives (made, made badly or not at all by a subclass, named, shown, awaited,
     cancelled, released, initialized again, copied, pickled, dropped with waiters), in any order, the outcome is a result or a
     Python exception, never a crash, abort or use of freed memory; a name is kept as it was given. The same holds for
     the operations of all other properties.""",
     ["histories"],
     "every sequence of operations on every primitive in every state of initialization up to a depth, under a checking allocator",
     "The primitives manage C memory by hand; misuse rarely crashes at once.",
     ["a_sync/primitives/locks/event.pyx", "a_sync/primitives/locks/counter.pyx", "a_sync/primitives/locks/semaphore.pyx", "a_sync/primitives/locks/prio_semaphore.pyx"],
     [("names in C memory", "__init__/__dealloc__")],
     SEQ, NSEQ + " Misuse of memory shows as a crash, an abort of glibc's checking allocator or a wrong value.",
     ["Event", "CounterLock", "Semaphore", "ThreadsafeSemaphore", "DummySemaphore", "PrioritySemaphore"])

prop("C27", "Maps and aggregates of functions, methods, properties are right in any order",
     """map, any, all, min, max and sum of an @a_sync function, a bound method (over arguments), a method or a property (over
     instances, through the class) call that very function, also if the instances' class overrides it, at most once per key with
     the extra keyword arguments, at most `concurrency` at a time, and give each key its own result, or what the builtin of that
     name gives for the results, in whatever order they complete, for keys from any iterables, again on every use, and for two
     users at once (a cached property is computed once). The exception of a call reaches the user, unless any() or all() was
     certain before. The aggregates of a class's method or property are synchronous or awaitable as their flag, else the
     member's default asks for.""",
     ["inputs", "schedules", "fault_sequences"],
     "every combination of kind of member, default, flag, mode of the instances, iterables, values, limit and failing key; every order of completion",
     "Tests map one method over a few instances in their order; early decisions, failures and limits depend on the order of completion.",
     ["a_sync/a_sync/_descriptor.py", "a_sync/a_sync/function.pyx", "a_sync/a_sync/method.pyx", "a_sync/a_sync/property.pyx", "a_sync/task.py"],
     [("aggregates as cached dual-mode functions", "ASyncDescriptor.any/all/min/max/sum"), ("call of an unbound member", "ASyncMethodDescriptor.__call__")],
     SEQ, NSEQ, ["ASyncFunction.map/any/all/min/max/sum", "Cls.method.map/any/...", "Cls.prop.map/any/...", "instance.method.map/any/..."])
