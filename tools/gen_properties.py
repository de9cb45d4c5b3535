"""Writes /verif/properties.jsonl (one place to keep the statements in step with what is claimed)."""
import json, pathlib

A = "aioreactive/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [A + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe) or ["AsyncObserver.asend/athrow/aclose of the subscribed observer"],
            "hook_needed": hook,
        },
    })


prop("C01", "Observers see values then at most one terminal, nothing after",
     "For every observable built from the library's sources and operators, each subscribed observer receives zero or more values followed by at most one terminal notification (error or completion), and nothing after the terminal. It holds whatever the timing, when user functions or the observer's own handlers raise, and when several inner sources terminate at the same moment. Operators that guard their observer (skip, skip_last, take, take_last, take_until, distinct_until_changed, the indexed operators, debounce, merge/concat/flat_map, switch_latest, combine_latest, with_latest_from, reduce, slices) enforce it even when their source does not obey it.",
     ["programs", "schedules", "fault_sequences"],
     "all pipelines, notification timings, failing callbacks and misbehaving sources",
     "Tests run a handful of fixed pipelines on well-behaved sources with one schedule each; the guarantee quantifies over compositions, overlapping terminals and faults at any notification.",
     ["observers.py", "subject.py", "transform.py", "combine.py", "create.py", "timeshift.py", "filtering.py"],
     [("safe observer mailbox loop stops at the first terminal", A + "observers.py safe_observer"),
      ("stopped flags of the subjects", A + "subject.py")])

prop("C02", "Notifications to one observer never overlap",
     "An observer of any operator that guards its observer, or of a library-created source, is never entered again while an earlier call to it is still running, however many producers or inner sources push concurrently and however slow the observer is. Notifications issued to one operator one after another are delivered in that order.",
     ["schedules", "programs"],
     "all interleavings of concurrent producers, inner sources and slow observers",
     "Existing tests use observers that finish immediately, so an overlapping call is invisible to them.",
     ["observers.py", "combine.py", "filtering.py", "transform.py", "create.py", "timeshift.py"],
     [("mailbox worker awaits each delivery before receiving the next", A + "observers.py safe_observer")])

prop("C03", "Element-wise operators equal the list computation",
     "On any finite source, map, map_async, mapi, mapi_async, starmap, choose, choose_async, filter, filter_async, filteri, starfilter, scan, scan_async, reduce and reduce_async, alone or composed, emit exactly the values the corresponding computation on the list of source elements gives: same order, each once, None and falsy values included, and then complete. The user function is called once per element, in order, with the element (and for indexed operators its zero-based position in that subscription). scan emits every intermediate state starting from the initial state; reduce emits only the final state of a non-empty source.",
     ["inputs", "programs", "histories"],
     "all input sequences, element values, functions, operator compositions and re-subscriptions",
     "Tests use two or three small integers through a fixed function; they cannot cover values, lengths, compositions and repeated subscription.",
     ["transform.py", "filtering.py", "combine.py"],
     [("per-notification handler", A + "transform.py transform"), ("indexing by zipping with an infinite sequence per subscription", A + "combine.py zip_seq"),
      ("accumulator state per subscription", A + "transform.py _scan")])

prop("C04", "skip/take/slice equal Python slicing; distinct drops repeats",
     "On any finite source, skip(n), skip_last(n), take(n), take_last(n) and slicing with [start:stop:step] (step > 0) or slice(start, stop, step) emit exactly the elements Python list slicing selects, in order, then complete, for every length and every sign combination of the bounds. Indexing with an integer selects that single element when it exists. distinct_until_changed drops exactly those elements equal to their immediate predecessor.",
     ["inputs", "programs"],
     "all sequences, all counts and slice bounds including zero, negative and past-the-end, all element values",
     "Tests check xs[1:-1], xs[::2], take(0), take(2) and one distinct sequence; bounds and lengths interact.",
     ["filtering.py", "__init__.py"],
     [("slice composed of skip/take/take_last/skip_last/filteri", A + "filtering.py slice"), ("queues of skip_last and take_last", A + "filtering.py"),
      ("comparison with the latest notification", A + "filtering.py distinct_until_changed")])

prop("C05", "Merging loses, duplicates and reorders nothing",
     "merge, merge_seq, merge_inner and flat_map, flat_mapi, flat_map_async deliver every value of every inner source exactly once and keep the order within each inner source. The result completes exactly when the outer source and all inner sources have completed. It fails at the first error of the outer or any inner source, with that error.",
     ["schedules", "inputs", "programs"],
     "all sets of inner sources, arrival times, interleavings, completion orders (including inner sources that finish during subscription)",
     "Tests merge two fixed subjects once; conservation and completion depend on the interleaving of arrivals, completions and errors.",
     ["combine.py", "transform.py", "__init__.py"],
     [("merge mailbox with subscription map, queue and stop flag", A + "combine.py merge_inner")],
     state=[("Model", "live inner subscriptions, queued inner sources, outer finished, next key", A + "combine.py Model")])

prop("C06", "Bounded merge and concat respect concurrency and order",
     "merge_inner(n) with n > 0 never has more than n inner sources subscribed at once, starts waiting sources in arrival order as soon as a slot is free, and runs every one of them. concat and concat_seq (concurrency one) emit all values of each source before any value of the next, and subscribe to the next source only after the previous one has completed. Completion comes only after the last source has completed.",
     ["schedules", "inputs"],
     "all arrival and completion orders, numbers of inner sources, concurrency limits and synchronously finishing sources",
     "One test concatenates one subject and one list with a limit of 1.",
     ["combine.py", "__init__.py", "transform.py"],
     [("queueing against the subscription count", A + "combine.py merge_inner"), ("concat as merge with limit one", A + "combine.py concat_seq")])

prop("C07", "switch_latest mirrors only the most recent inner source",
     "switch_latest and flat_map_latest_async emit the values of the most recent inner source only: once a newer inner source has been subscribed, no value, error or completion of an older one is forwarded, and the older one's subscription has been disposed (before the newer one is subscribed to: at most one inner source is subscribed at a time). Values of the current inner source are forwarded exactly once and in order. The result completes exactly when the outer source has completed and the latest inner source (if any) has completed, and fails at the first error of the outer or current inner source.",
     ["schedules", "inputs"],
     "all timings of switches, inner values, completions and errors",
     "There is no test for switch_latest at all.",
     ["transform.py", "__init__.py"],
     [("switch mailbox with current subscription and id", A + "transform.py switch_latest")])

prop("C08", "combine_latest and with_latest_from pair the right values",
     "combine_latest emits, for every value of either input once both have produced one, the pair (latest of source, latest of other). with_latest_from emits, for every value of the source once the other has produced one, the pair (that value, latest of other), and emits nothing for values of the other. Pairs come in arrival order, no pair is lost or duplicated while neither input has terminated, None and falsy values included, and an error of either input is forwarded.",
     ["schedules", "inputs"],
     "all interleavings of the two inputs and all values",
     "The only test combines never() with never().",
     ["combine.py", "__init__.py"],
     [("mailbox serialising both inputs with Option-valued latest", A + "combine.py combine_latest, with_latest_from")])

prop("C09", "Errors are never lost and arrive once, unchanged",
     "An exception raised by a source, by an iterable, async iterable or awaitable being turned into a source, by a user function given to an operator, or by subscribing to an inner source reaches the downstream observer as exactly one error notification carrying that same exception object, after all values that preceded it and with nothing after it. An exception raised by the observer's own send handler is reported to that observer's error handler in the same way. Only where a user's own code is awaiting a send on a subject may the exception be raised to that sender instead.",
     ["fault_sequences", "programs", "inputs"],
     "all positions at which a callback, source or observer can raise, all operators and sources",
     "Tests make a mapper, predicate or observer fail on the first element of a list; the failing position, operator and source vary in use.",
     ["observers.py", "create.py", "transform.py", "combine.py", "filtering.py", "timeshift.py"],
     [("try/except around delivery in the safe observer", A + "observers.py safe_observer"), ("error branches of sources", A + "create.py")])

prop("C10", "catch continues with the handler's sequence; retry is bounded",
     "catch(handler) emits the source's values and, if the source fails, calls the handler once with that exception and continues with the values and the terminal of the sequence it returns; without an error it is transparent, and an exception raised by the handler becomes the error. retry(n) subscribes to the source again after each failure, at most n times per subscription, then reports the last error. A failed source's subscription that has been established is disposed before the next one is used.",
     ["fault_sequences", "inputs", "histories"],
     "all failure positions and repetitions, retry counts, nested use, repeated subscription",
     "catch and retry have no tests.",
     ["transform.py", "__init__.py"],
     [("catch subscribes to the handler's source on error", A + "transform.py catch"), ("retry built on catch", A + "transform.py retry")])

prop("C11", "After dispose the observer is left alone",
     "Once dispose_async() of a subscription has returned, no value, error or completion that enters the pipeline afterwards reaches the observer, and disposing never makes up a completion or an error. Library-created sources (other than single) and timed operators stop: remaining elements, ticks and pending delayed or debounced values are not delivered, except for a call already in progress. Disposing is idempotent and may be done from inside the observer's own handlers or before the first notification.",
     ["schedules", "programs", "histories"],
     "all pipelines and all points at which dispose can be called, including between any two internal steps",
     "Tests dispose a mapped subject after one value; the point of disposal and the operator vary.",
     ["observers.py", "create.py", "combine.py", "transform.py", "timeshift.py", "filtering.py", "subject.py"],
     [("cancellation of producer tasks", A + "create.py of_async_worker, interval"), ("disposables returned by subscribe", A + "observers.py auto_detach_observer")])

prop("C12", "Ended or disposed subscriptions release every upstream one",
     "When a subscription is disposed, or ends because its observer got a terminal notification, every upstream subscription the pipeline opened on its behalf (sources, inner sources, the other input of combining operators) is disposed or was already finished, within the same instant of loop time (a source whose subscribe call is still in progress: once that call has returned). The same holds when subscribing fails half-way or is cancelled while a source is still being subscribed to; once it has failed or been cancelled, nothing but a call already in progress reaches the observer any more. In particular an operator that ends early (take, take_until, indexed zip, an error in one branch or a failing observer) unsubscribes from sources that are still live, and an inner source is never left subscribed after the outer subscription is gone.",
     ["schedules", "programs", "fault_sequences"],
     "all operators, all ways and moments of ending",
     "No test looks at whether upstream subscriptions are released.",
     ["observers.py", "combine.py", "transform.py", "filtering.py", "timeshift.py"],
     [("auto-detach of registered disposables", A + "observers.py auto_detach_observer"), ("cancel functions of merge and switch", A + "combine.py merge_inner"),
      ("composite disposables", A + "combine.py")],
     observe=["subscribe_async/dispose_async of instrumented upstream observables"])

prop("C13", "A subject reaches exactly the observers subscribed at the send",
     "Every value sent on an AsyncSubject is delivered once to each observer subscribed when the send starts (observers that do not raise), in subscription order, and values sent one after another arrive in send order; an observer that subscribes later never sees it, an observer that unsubscribed before the send never sees it (even if another observer compares equal to it), and observers unsubscribing during a send never make another observer miss or repeat it (an observer that unsubscribes, or a close or dispose issued, while a send is under way may cut that one send short). After close or throw every subscribed observer gets exactly that one terminal and later sends are ignored. After the subject is disposed every use of it raises ObjectDisposedException, and with no observer a value is dropped without blocking.",
     ["histories", "schedules"],
     "all histories of subscribe, unsubscribe, send, close, throw, dispose, also issued from inside handlers",
     "Tests use one observer and a linear script.",
     ["subject.py"],
     [("iteration over a copy of the observer list", A + "subject.py AsyncMultiSubject"), ("stop and dispose flags", A + "subject.py")])

prop("C14", "A single subject waits for its observer and loses nothing",
     "Sends, throws and closes on an AsyncSingleSubject issued before an observer is attached wait for it and are then delivered once each, in the order they were issued; with an observer attached each send completes only after the observer has handled it. At most one terminal is delivered and later sends are ignored. After the subscription or the subject is disposed, every pending or later send, throw or close ends with ObjectDisposedException instead of being delivered or blocking.",
     ["histories", "schedules"],
     "all histories and interleavings of producers, subscription and disposal",
     "Tests send one notification early and subscribe once; disposal with waiting producers and overlapping terminals are not reached.",
     ["subject.py"],
     [("wait future resolved on subscription", A + "subject.py AsyncSingleSubject"), ("stop and dispose flags", A + "subject.py AsyncSingleSubject")])

prop("C15", "Async iteration yields every value once, in order, with back-pressure",
     "Iterating an observable with async for (to_async_iterable or AsyncIteratorObserver) yields exactly the values it sends, each once and in order, then stops at completion or raises the source's error. A producer's send returns only after the iterator has picked the value up, so at most one value is handed over at a time even with several concurrent producers, whose values are yielded in the order in which they were sent, and a completed or failed hand-over never leaves the producer blocked. A consumer that gives up waiting for a value (timeout or cancellation) loses nothing: the next step yields the next value. A producer that gives up a send that is still waiting (timeout or cancellation) affects at most its own value: everything sent by others, before or after, is still yielded once and in order. When the iteration is left and disposed, nobody who is still sending stays blocked: pending and later sends return.",
     ["schedules", "inputs", "fault_sequences"],
     "all speeds of producers and consumer, several producers, cancellations of consumers and producers",
     "Tests iterate from_iterable([1, 2, 3]) only.",
     ["observers.py", "observables.py", "leave.py"],
     [("push and pull futures with serialised access", A + "observers.py AsyncIteratorObserver")])

prop("C16", "Sources emit exactly what they were created from, per subscription",
     "from_iterable, from_async_iterable, of_async/from_async, single, empty, never, fail, defer, create and timer/interval emit exactly the elements they were given (or the awaited result, or the given error), in order and then the matching terminal: completion once exhausted, the error for a failing input, nothing for never. Each subscription to a re-iterable source replays the whole sequence, defer calls its factory exactly once per subscription, and nothing runs before subscription.",
     ["inputs", "histories", "schedules"],
     "all element values, lengths, failing positions and repeated or concurrent subscriptions",
     "Tests subscribe once to short integer lists.",
     ["create.py", "__init__.py", "iterable/to_async_observable.py"],
     [("source workers", A + "create.py")])

prop("C17", "delay, interval and timer keep the exact timeline",
     "delay(d) re-emits every notification, errors and completion included, in order and d seconds of loop time after the source issued it, so relative intervals are preserved (later only when the observer is still busy). interval(s, p) emits 0, 1, 2, ... the first s seconds after subscription and each next one p seconds after the previous one has been handled; timer(s), or a period of zero, emits 0 once and completes. This holds for each subscription separately.",
     ["inputs", "schedules", "configurations"],
     "all delays, periods, notification times, observer speeds and subscriptions",
     "Tests delay notifications that are at least one full delay apart, where a wrong clock goes unnoticed.",
     ["timeshift.py", "create.py"],
     [("due-time queue", A + "timeshift.py delay"), ("sleeping handler", A + "create.py interval")])

prop("C18", "debounce emits exactly the values followed by silence",
     "debounce(d) emits a value exactly d seconds of loop time after it arrived if no other value arrived in between, and drops it otherwise; emitted values keep their order and are emitted once. Completion and errors of the source are forwarded without delay, and a value overtaken by them is at most emitted before them, never after. Repeated equal values count as separate values.",
     ["inputs", "schedules"],
     "all arrival patterns and timeouts",
     "Two tests with two values each.",
     ["timeshift.py"],
     [("indexed double posting to the mailbox", A + "timeshift.py debounce")])

prop("C19", "run and awaitable observers resolve to the outcome of the stream",
     "run(source) and awaiting an AsyncAwaitableObserver give the last value sent before completion (None and falsy values included), raise the stream's error, and end as cancelled when the stream completes without a value. If the stream does not end within the timeout, run raises a timeout error. Whatever the outcome, run has disposed its subscription when it ends, and each of the observer's callbacks is called once per notification until the stream has ended.",
     ["inputs", "schedules", "fault_sequences"],
     "all sequences, terminals, timeouts, cancellations and callbacks",
     "Tests await integer streams that complete.",
     ["subscription.py", "observers.py"],
     [("future resolved by the terminal", A + "observers.py AsyncAwaitableObserver"), ("async with around the wait", A + "subscription.py run")])

prop("C20", "Subscriptions to one observable are independent",
     "Several subscriptions to the same observable, simultaneous or one after another, behave as if each had its own pipeline: counters, indices, accumulators, buffers, timers, retry budgets and handlers are per subscription, and disposing, failing or slowing down one does not change what the others receive. The same holds for one operator value applied to several sources. (A hot source shared by the subscriptions, such as a subject, still makes its sender wait for its slowest observer.)",
     ["histories", "programs", "schedules"],
     "all pipelines, subscription times, disposals and failures",
     "Tests subscribe to each pipeline exactly once.",
     ["transform.py", "filtering.py", "combine.py", "timeshift.py", "create.py", "__init__.py"],
     [("state created inside subscribe functions", A + "filtering.py, transform.py, timeshift.py")])

prop("C21", "The virtual-time loop runs everything in time order, exactly on time",
     "On a VirtualTimeEventLoop time starts at 0, never goes backwards and advances only when nothing is ready, to the earliest pending timer. Every call_later/call_at callback that is not cancelled runs exactly once, at its due time (or at once when that has passed), in due-time order; cancelled ones never run, however many there are; call_soon callbacks run in the order scheduled, before time advances.",
     ["histories", "inputs"],
     "all programs of timers, immediate callbacks and cancellations, including ones scheduled from callbacks",
     "Tests schedule three timers and cancel one; the bulk clean-up of cancelled timers is never reached.",
     ["testing/virtual_events.py"],
     [("timer heap and advance step", A + "testing/virtual_events.py _run_once")],
     observe=["callbacks scheduled by the harness, loop.time()"])

prop("C22", "The test observer and test subjects record and emit faithfully",
     "AsyncTestObserver records every notification it gets, once, in order, with the loop time at which it arrived, and calls the callback it was given once per notification. AsyncTestSubject and AsyncTestSingleSubject emit scheduled values, errors and closes exactly once at the requested absolute or relative loop time, in time order, also when scheduled from the past or concurrently.",
     ["inputs", "histories"],
     "all scripts of scheduled notifications and callbacks",
     "The suite uses these tools but never checks the tools themselves.",
     ["testing/observer.py", "testing/subject.py"],
     [("recording before forwarding", A + "testing/observer.py"), ("call_at and sleep based scheduling", A + "testing/subject.py")])

prop("C23", "Chained methods, slicing and function operators agree",
     "For every operator available as an AsyncRx method (and [] slicing), the method gives the same notifications at the same times as the function of that name applied with pipe, for any source and arguments. Wrapping with AsyncRx, as_chained or as_async_observable changes nothing, and subscribing with three functions is the same as subscribing with an observer made of them.",
     ["programs", "inputs"],
     "all methods, arguments, sources and chains",
     "Tests compare three chains of map and filter.",
     ["__init__.py", "observables.py"],
     [("method wrappers", A + "__init__.py AsyncRx")])

prop("C24", "The reactivex bridge forwards the stream and its disposal",
     "An observable converted to a reactivex Observable delivers exactly the same values in order and the same terminal to a reactivex observer, without raising errors in the event loop. Disposing the reactivex subscription, at any time including before the stream has started, stops delivery and disposes the underlying subscription.",
     ["inputs", "schedules"],
     "all sequences, terminals and disposal moments",
     "There is no test for it.",
     ["leave.py"],
     [("start and dispose tasks", A + "leave.py to_observable")])

prop("C25", "take and take_until end the stream as soon as they can",
     "take(n) forwards the first n values and completes with the n-th (at once for n = 0), without waiting for another value or for the source to end; positive slice bounds behave the same. take_until(other) forwards the source's values until the other produces its first value and then completes at that moment, forwards an error of either, and is not affected by the other merely completing.",
     ["schedules", "inputs"],
     "all counts, arrival patterns and sources that never end",
     "take is tested on lists that end anyway; take_until has no test.",
     ["filtering.py"],
     [("remaining counter", A + "filtering.py take"), ("close on first value of other", A + "filtering.py take_until")])

prop("C26", "A send is not finished before the observer has handled it",
     "Sending on a subject returns only after every subscribed observer has finished handling the value, also through map, filter, choose, starmap, scan and their async variants; values sent one after another by an awaiting producer are therefore handled one at a time, in order. Async sources that push without a queue (from_async_iterable, interval) do not produce the next element before the previous one has been handled.",
     ["schedules", "programs"],
     "all observer speeds and element-wise pipelines",
     "No test measures when a send returns.",
     ["subject.py", "transform.py", "filtering.py", "create.py"],
     [("awaited delivery", A + "subject.py, transform.py transform")])

prop("C27", "Ended subscriptions leave nothing behind",
     "However many subscriptions have been made and ended (disposed at any moment, completed, failed, subscribing failed or cancelled, run() over, async iteration left and disposed) and however many notifications have passed through a live one, the library keeps only what live subscriptions need: no background task of an ended subscription remains, its observer and elements are no longer referenced, and neither the number of tasks, live objects and entries in containers, nor the depth of the call stack, nor the work per subscription or notification grows with the number of subscriptions, notifications or given-up (cancelled) calls, except for what is buffered by contract (the n elements of take_last and skip_last, values within a delay or debounce period, sources waiting for their turn in a merge or concat).",
     ["histories", "programs", "schedules"],
     "all operators and sources, all ways of ending, any number of subscriptions and notifications",
     "A leak has no effect on the few notifications a test compares; it shows in long-running use only.",
     ["observers.py", "create.py", "combine.py", "timeshift.py", "transform.py", "filtering.py", "subject.py", "msg.py"],
     [("workers of the safe observer and their cancellation", A + "observers.py safe_observer, auto_detach_observer"), ("inner subscriptions kept by merge_inner", A + "combine.py merge_inner"),
      ("pending tasks of debounce and delay", A + "timeshift.py"), ("observers of a subject", A + "subject.py")],
     observe=["objects known to the garbage collector at rest, tasks of the loop, call depth at a notification"])

prop("C28", "Nothing fails behind the scenes",
     "Whatever the timing, the way a subscription ends and the failures of sources and user functions: no task or future of the library ends with an exception that nobody receives or is destroyed while pending, the event loop's exception handler is not called, and no coroutine of the library is left un-awaited; the only exceptions that may end there are those raised by an observer's own error or completion handler. A garbage collection at any moment changes nothing as long as source and subscription are referenced.",
     ["schedules", "faults", "histories"],
     "all operators, sources, disposal points and failing functions",
     "asyncio reports such failures on stderr only; a test passes all the same, and whether a task is collected early depends on the collector.",
     ["observers.py", "create.py", "combine.py", "timeshift.py", "transform.py", "subject.py", "iterable/to_async_iterable.py", "leave.py"],
     [("tasks started by the library", A + "observers.py, create.py, timeshift.py, msg.py"), ("future of AsyncAwaitableObserver", A + "observers.py AsyncAwaitableObserver")],
     observe=["loop exception handler, exceptions of all tasks and futures, pending tasks at collection, un-awaited coroutines"])

prop("C29", "Operators that are not about time take no time",
     "Only delay, debounce, timer and interval wait for the clock. Every other operator passes on what a notification causes at once: each value, error and completion reaches the observer in the instant it was issued (for pairs: in which its later half was) or, if the observer was still busy, in the instant it gets free, and inner, next or fallback sources are subscribed to in the instant the notification that calls for them arrives. Nothing is kept back until a later notification when what has arrived already determines it.",
     ["schedules", "inputs"],
     "all operators without a clock, all timelines and observer speeds",
     "Tests compare what arrives, not when, or run on a clock with nothing happening between events.",
     ["transform.py", "filtering.py", "combine.py", "create.py", "observers.py"],
     [("queue and worker of the safe observer", A + "observers.py safe_observer"), ("mailboxes of the combining operators", A + "combine.py, transform.py"),
      ("element-wise forwarding", A + "transform.py transform, filtering.py")])

prop("C30", "A pipeline is an inert value that works on any event loop",
     "Composing sources and operators does nothing but compose: it needs no event loop, runs no user function, subscribes to nothing, pulls no element and starts no task or timer. The resulting observable can be built outside any loop or on another one and used on several event loops one after another, also when earlier ones were stopped and closed in the middle of a subscription: every subscription delivers the same values, terminals and relative times as that of a freshly built pipeline, on any asyncio event loop whatever its clock shows.",
     ["programs", "histories"],
     "all pipelines, numbers of loops and moments at which a loop is stopped",
     "Every test builds and uses its pipeline inside one loop.",
     ["create.py", "transform.py", "combine.py", "filtering.py", "timeshift.py", "observables.py"],
     [("state is made per subscription", A + "subscribe_async of every operator"), ("tasks and clocks", A + "create.py, timeshift.py")])

prop("C31", "A producer that gives up a send affects only what it was sending",
     "Cancelling or timing out a send that is still in progress, at any step, affects at most the notification being sent: it may not reach every observer or every later stage, but it is never delivered twice; everything sent before or afterwards is delivered exactly once, in order and to every observer as if nothing had been given up, state kept by operators stays consistent, and no later send blocks or fails because of it. It holds for subjects, single subjects (also while a send waits for an observer) and for sends into any operator.",
     ["schedules", "faults"],
     "all operators, steps at which a send is given up and observer speeds",
     "No test cancels a producer or uses a time-out around a send.",
     ["subject.py", "transform.py", "filtering.py", "combine.py", "observers.py"],
     [("waiting sends", A + "subject.py AsyncSingleSubject"), ("delivery loop", A + "subject.py AsyncMultiSubject.asend"), ("awaited forwarding", A + "transform.py transform")])

prop("C32", "Adapters that only hand notifications on are transparent",
     "Whatever only passes notifications on can be inserted anywhere without observable effect: AsyncAnonymousObserver, AsyncNotificationObserver, three functions in place of an observer (missing ones ignore their notification), anonymous and user-defined observables and observers, AsyncRx, as_async_observable, as_chained and the pipeable subscribe_async give the same values (the very same objects), terminals, times, and propagation of failures, of waiting and of disposal. A Notification carries exactly the value or exception of its kind, hands it on to exactly the matching function or observer method, once per call and as often as asked, awaits it and lets its exception through, and two notifications are equal exactly if they are of the same kind with equal payloads.",
     ["programs", "inputs", "schedules"],
     "all pipelines, places, nestings of adapters, payloads and observer behaviours",
     "Tests use an adapter once at the end of a short pipeline, with numbers.",
     ["observers.py", "observables.py", "notification.py", "subscription.py", "__init__.py"],
     [("forwarding", A + "observers.py AsyncAnonymousObserver, AsyncNotificationObserver; observables.py"), ("double dispatch and equality", A + "notification.py"), ("spellings of subscribe_async", A + "__init__.py AsyncRx, subscription.py")])

prop("C33", "Diagnostics settings change nothing",
     "What a program built on the library observes - values, terminals, times, order, calls of its functions, subscriptions, disposals, failures - is the same whether debug logging is on or off (also when elements cannot be formatted), whether asyncio runs in debug mode, whether assertions are compiled in (python -O), and whatever the hash seed of the interpreter.",
     ["programs", "schedules", "configurations"],
     "all workloads of the other checks, under each setting",
     "The tests run under one setting; a side effect in an assertion or a log call, or an order taken from a hash, shows under another one only.",
     ["subject.py", "observers.py", "create.py", "transform.py", "combine.py", "filtering.py", "timeshift.py", "subscription.py", "leave.py"],
     [("log calls", A + "all modules"), ("assertions", A + "observers.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
