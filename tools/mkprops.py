import json
P=[]
R="src/rpp/rpp/"
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[(f if f.startswith("src/") else R+f) for f in files],mechanism=[dict(name=a,where=(b if b.startswith("src/") else R+b)) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=m,where=R+w) for a,m,w in state]
    P.append(d)
p("C01","Subscribers see values then at most one terminal, whatever the sources do",
 "Every subscriber of every pipeline receives zero or more values followed by at most one terminal notification (error or completion), and receives nothing after that terminal. This stays true when a source keeps emitting after its own terminal, terminates several times, or when operators of a single source are driven re-entrantly from inside the subscriber's value callback.",
 ["programs","histories"],"for every composition of operators and every sequence of source events, legal or not, including events issued from inside value callbacks",
 "Tests drive one operator at a time with well-behaved sources; the combination of operator chain, misbehaving source and re-entrant driving is unbounded.",
 ["observers/observer.hpp","observers/lambda_observer.hpp","observers/dynamic_observer.hpp","operators/*.hpp"],
 [("observer upstream/disposed gate","observers/observer.hpp"),("disposable strategies","observers/details/disposable_strategy.hpp")],
 ["subscriber callbacks"])
p("C02","Disposing a subscription silences it and releases everything upstream",
 "Once a subscription has been disposed, from outside or from inside any of its own callbacks, no source event issued afterwards produces a notification for it. By then every subscription the pipeline had made on its behalf to its sources has been released, each exactly once, and no new one is made later.",
 ["programs","histories"],"for every pipeline and every event history, with the disposal placed at any point of the history, including inside a callback",
 "Tests dispose at a few hand-picked points of single operators; they do not place disposal at every point of a history of a composed pipeline.",
 ["observers/observer.hpp","disposables/*.hpp","observers/details/disposable_strategy.hpp","observables/details/disposable_strategy.hpp","operators/*.hpp"],
 [("upstream registration with the observer","observers/observer.hpp"),("composite disposables","disposables/composite_disposable.hpp")],
 ["per-source subscription count and release count after each step","subscriber callbacks"])
p("C03","A finished pipeline holds nothing: every subscription, callback and value freed",
 "After a pipeline has delivered its terminal notification, every subscription it made (to the main source, other sources, inner, notifier and fallback observables) has been released, and every registered finaliser has run exactly once. Once the user drops the handles, every value, callable and observer the pipeline kept has been destroyed.",
 ["programs","histories"],"for every pipeline and every history that ends in completion, error, disposal, or abandonment",
 "Leaks and double releases show only in particular orders of inner and outer termination; tests check a fixed few with one observer each.",
 ["disposables/*.hpp","operators/*.hpp","operators/details/*.hpp","subjects/details/subject_state.hpp"],
 [("reference-counted disposables","disposables/refcount_disposable.hpp"),("observer disposes itself on terminal","observers/observer.hpp"),("finally operator","operators/finally.hpp")],
 ["live-instance counts","per-source release counts","finaliser counts"])
p("C04","An exception thrown by a user callback becomes exactly one error notification",
 "When a function the user passed to a source or operator throws (a selector, predicate, accumulator, key or comparison function, observable factory, notifier or generator), the subscriber receives that same exception as its only terminal notification after the values delivered before it. Nothing propagates out of the call that triggered it, the upstream subscriptions are released, and no later value is delivered.",
 ["fault_sequences","programs"],"for every operator that takes a function, every call of that function at which it throws, and every pipeline position",
 "Tests throw on the first call in a handful of operators; they do not enumerate the call index, the state the operator is in, or what is composed around it.",
 ["operators/*.hpp","sources/*.hpp","observables/observable.hpp","schedulers/details/*.hpp"],
 [("try/catch around user callables forwarding to on_error","operators/map.hpp"),("subscribe guard","observables/observable.hpp"),("create/from_callable","sources/create.hpp")],
 ["subscriber callbacks","exceptions escaping the driving call"])
p("C05","Single-source operators compute their documented function of the sequence",
 "For every input sequence and every parameter, the element-wise, selecting, limiting and accumulating operators (map, filter, take, skip, take while, take last, element at, first, last, distinct, distinct until changed, scan, reduce, buffer, tap, start with values) emit exactly the documented function of what the source has emitted so far, at the moment it becomes known, and terminate when and how documented. The same holds for any chain of them.",
 ["inputs","programs"],"for every finite event history of the source, every parameter value including 0 and 1 and counts beyond the length, and every chain",
 "Tests use sequences of a few items and one or two parameters per operator; the boundary interactions (exact-length buffers, repeated values, zero counts, chains) are not enumerable.",
 ["operators/map.hpp","operators/filter.hpp","operators/take.hpp","operators/skip.hpp","operators/take_while.hpp","operators/take_last.hpp","operators/element_at.hpp","operators/first.hpp","operators/last.hpp","operators/distinct.hpp","operators/distinct_until_changed.hpp","operators/scan.hpp","operators/reduce.hpp","operators/buffer.hpp","operators/tap.hpp","operators/start_with.hpp"],
 [("per-operator observer strategies","operators/take_last.hpp")],["notifications after each source event"])
p("C06","Windows and groups partition the source without loss, reordering or leaks",
 "Counted windows, toggled windows and key groups deliver each source value to exactly the windows or groups it belongs to, in source order, opening and closing each sub-stream exactly when documented. Every sub-stream still open gets the source's terminal notification, a sub-stream that is dropped or unsubscribed does not disturb the others, and the source is released once neither the outer subscriber nor any sub-stream subscriber is interested.",
 ["inputs","histories"],"for every source sequence, window size, opening/closing interleaving, key function, and every subset and order of unsubscriptions of sub-streams and of the outer stream",
 "Tests cover fixed keys and sizes; the interleavings of openings, closings, partial unsubscription and termination are combinatorial.",
 ["operators/window.hpp","operators/window_toggle.hpp","operators/group_by.hpp","observables/grouped_observable.hpp","operators/buffer.hpp"],
 [("per-window subject","operators/window.hpp"),("per-key subject map","operators/group_by.hpp"),("refcount disposable shared with sub-streams","disposables/refcount_disposable.hpp")],
 ["outer and per-sub-stream notifications after each step","source subscription state"])
p("C07","Flattening operators forward the right inner values and end at the right time",
 "Merge and flat map forward every value of every inner observable as it arrives; concat and start-with subscribe inner observables strictly one after another in order; switch-on-next forwards only the most recent inner observable and releases the previous one. Each completes only when the outer and every relevant inner observable have completed, ends on the first error of any of them, and then releases all the others.",
 ["histories"],"for every interleaving of outer and inner subscription, emission, completion and error events, with any number of inner observables, synchronous or asynchronous",
 "Tests try two or three inner observables in fixed orders; the event interleavings over several hot and cold inners are exponential.",
 ["operators/merge.hpp","operators/flat_map.hpp","operators/concat.hpp","operators/switch_on_next.hpp","operators/start_with.hpp","sources/concat.hpp","operators/details/combining_strategy.hpp"],
 [("shared merge state with refcount","operators/merge.hpp"),("concat queue and stages","operators/concat.hpp"),("inner refcount replaced on switch","operators/switch_on_next.hpp")],
 ["notifications and subscription state after each event"])
p("C08","Combining operators pair and terminate values as documented",
 "Combine-latest emits on every event once all inputs have a value, using the latest of each; with-latest-from does so only on main-source events; zip pairs the n-th values of all inputs; take-until mirrors its source until the other observable emits or terminates. Each emits exactly the documented tuples in event order, completes and fails when documented for every termination order, and then releases all inputs.",
 ["histories"],"for every interleaving of values, completions and errors over two to four inputs, including one observable used as several inputs",
 "Tests exercise a few interleavings of two or three inputs; the order of terminations relative to buffered values is combinatorial.",
 ["operators/combine_latest.hpp","operators/with_latest_from.hpp","operators/zip.hpp","operators/take_until.hpp","operators/details/combining_strategy.hpp"],
 [("combining strategy with refcounted disposables","operators/details/combining_strategy.hpp"),("pending queues","operators/zip.hpp")],
 ["notifications and subscription state after each event"])
p("C09","Resubscribing operators resubscribe exactly as often as asked, in order",
 "Repeat, retry, retry-when and resume-on-error subscribe to their source (or replacement) exactly as many times as documented for the observed sequence of completions, errors and notifier events, one attempt at a time and never after disposal or the final terminal. Values of all attempts are forwarded in order, and the final terminal is the documented one.",
 ["inputs","fault_sequences"],"for every count (including 0, 1 and unbounded), every sequence of per-attempt outcomes, synchronous or asynchronous, and every disposal point",
 "Tests use one or two counts with sources that always fail or always succeed; sequences of outcomes and disposal between attempts are not covered.",
 ["operators/retry.hpp","operators/retry_when.hpp","operators/repeat.hpp","operators/on_error_resume_next.hpp","sources/concat.hpp"],
 [("attempt state with in-drain flag","operators/retry.hpp"),("notifier observer","operators/retry_when.hpp")],
 ["source subscription log","notifications"])
p("C10","Cold sources deliver exactly their sequence to every subscriber",
 "Every creation function (just, from iterable, from callable, create, defer, concat, empty, never, error, interval, timer) delivers to each subscriber, independently of how many others subscribed before or concurrently, exactly its documented values in order followed by its documented terminal, for every storage policy and every scheduler. Nothing runs before subscription, emission stops at disposal, and the user's own objects are not modified.",
 ["inputs","configurations"],"for every container kind and content, storage policy, scheduler, number and nesting of subscriptions, and disposal point",
 "Tests check a few literal values per source and mostly one subscriber; they do not cross containers, storage, schedulers, nesting and early disposal.",
 ["sources/*.hpp","memory_model.hpp"],
 [("from_iterable scheduling loop","sources/from.hpp"),("packed containers","memory_model.hpp")],
 ["notifications per subscriber","copies/moves of user values"])
p("C11","Time-based operators act at the documented moments, in order",
 "On any timeline, delay, observe-on, debounce, throttle, timeout, interval, timer and scheduled subscription deliver each value at the documented virtual time (never earlier), in source order, with documented treatment of values pending at completion, error or disposal. No value is lost, duplicated or delivered after the terminal.",
 ["histories","inputs"],"for every sequence of timed source events, every period, every scheduler clock advance pattern and every disposal time",
 "Tests advance the clock through one or two fixed scenarios per operator; boundary ties and bursts across the period are unbounded.",
 ["operators/delay.hpp","operators/observe_on.hpp","operators/debounce.hpp","operators/throttle.hpp","operators/timeout.hpp","operators/subscribe_on.hpp","sources/interval.hpp","sources/timer.hpp","schedulers/test_scheduler.hpp"],
 [("emission queue drained by a worker","operators/delay.hpp"),("last-emission time checks","operators/debounce.hpp")],
 ["(virtual time, notification) log"])
p("C12","Subjects multicast every event to exactly the current subscribers",
 "A subject delivers each event, in order, to exactly the subscribers present when it is emitted; a behaviour subject first gives a new subscriber its latest value and a replay subject the retained values within its count and age bounds, and late subscribers of a terminated subject get its terminal. Subscribing and unsubscribing from inside a callback neither loses, duplicates nor reorders events for other subscribers, and an event emitted from inside a callback is delivered in full before the outer one goes on.",
 ["histories"],"for every history of subscribe, unsubscribe, emit, terminate and clock operations, including ones issued re-entrantly from subscriber callbacks",
 "Tests run short straight-line scenarios with one or two observers; re-entrant histories with many observers are not explored.",
 ["subjects/*.hpp","subjects/details/*.hpp"],
 [("observer list with terminal state","subjects/details/subject_state.hpp"),("replay buffer pruning","subjects/replay_subject.hpp")],
 ["per-subscriber log after each operation"],[("observers list","current subscribers or terminal","subjects/details/subject_state.hpp")])
p("C13","Connectable observables subscribe once and share until the last one leaves",
 "A connectable observable subscribes to its source only when connected and at most once per connection, sharing events among subscribers; disposing the connection releases the source. With automatic reference counting the source is subscribed on the first subscriber, kept while any remains, released with the last, and subscribed again by a later first subscriber.",
 ["histories"],"for every history of subscribe, unsubscribe, connect, disconnect and source events",
 "Tests cover the basic connect and one ref-count cycle; repeated connects, terminations and re-subscriptions in arbitrary order are not covered.",
 ["observables/connectable_observable.hpp","operators/multicast.hpp","operators/publish.hpp","operators/ref_count.hpp","subjects/details/subject_on_subscribe.hpp"],
 [("connection state under mutex","observables/connectable_observable.hpp")],
 ["source subscription count","per-subscriber log"])
p("C14","Disposable containers dispose every child exactly once and stay disposed",
 "For any history of add, remove, clear and dispose calls on composite and reference-counted disposables and their handles (strong, weak, empty), each child is disposed exactly once when its parent is disposed or cleared or when it is added to a disposed parent, a removed child is not disposed by the parent, and disposal is permanent. A reference-counted disposable releases its target exactly when the last reference goes, and these calls may be made from inside a disposal callback.",
 ["histories"],"for every history of container operations over every fixed or dynamic capacity, including operations issued from inside disposal callbacks",
 "Tests do single add/remove/clear/dispose calls with one or two children; longer histories, over-capacity and re-entrant ones are not explored.",
 ["disposables/composite_disposable.hpp","disposables/refcount_disposable.hpp","disposables/callback_disposable.hpp","disposables/disposable_wrapper.hpp","disposables/details/container.hpp","disposables/details/base_disposable.hpp"],
 [("state machine guarding the child container","disposables/composite_disposable.hpp"),("reference counter with dispose bit","disposables/refcount_disposable.hpp")],
 ["dispose count per child","is_disposed of every handle"])
p("C15","No subscriber ever observes a moved-from, altered or dead value",
 "Whatever mix of copies, moves and references a pipeline uses, every value delivered to any callback or subscriber is intact and equal to what was emitted, and objects the user passes by reference are never moved from or modified. When a value is shared among several subscribers or kept for later, each sees it unaltered by what another consumer does with its own copy.",
 ["programs","inputs"],"for every pipeline, value category of each emission, number of subscribers, and consumer that moves from what it gets",
 "Tests count copies on a few operators with a single subscriber; a wrong forward only shows when a particular operator is followed by a consumer that steals the value.",
 ["observers/observer.hpp","operators/*.hpp","subjects/*.hpp","sources/from.hpp","memory_model.hpp","utils/tuple.hpp"],
 [("forwarding of values through strategies","operators/scan.hpp"),("copy per subscriber","subjects/details/subject_state.hpp")],
 ["instrumented value type"])
p("C16","Type erasure and static composition do not change what a pipeline does",
 "Converting any observable to its dynamic form, wrapping an observer as dynamic, selecting through a variant, or regrouping a chain of operators into a separately composed operator changes neither the notifications, nor their order, nor when upstream subscriptions are made and released. Statically composed chains and their erased equivalents behave identically for every event history.",
 ["programs","histories"],"for every chain of operators, every placement of erasure points, and every event and disposal history",
 "The static resource strategy depends on the exact chain of types, so each new combination is new compile-time code; tests instantiate few chains.",
 ["observables/dynamic_observable.hpp","observables/variant_observable.hpp","observers/dynamic_observer.hpp","observables/details/chain_strategy.hpp","observables/details/disposable_strategy.hpp","observers/details/disposable_strategy.hpp"],
 [("virtual tables","observers/dynamic_observer.hpp"),("compile-time disposable capacity","observables/details/disposable_strategy.hpp")],
 ["notification and subscription logs of both forms"])
p("C17","Queue-based schedulers run tasks in due-time order, first come first served",
 "On the current-thread, run-loop, test and immediate schedulers every scheduled task runs exactly when due and not before, in order of due time and then of scheduling, never nested inside another task of the same queue (except for the immediate and the test scheduler, which run due tasks inline), and rescheduling requests are honoured. A task whose handler is disposed does not run, and an exception from a task reaches its handler as an error without disturbing other tasks.",
 ["histories","programs"],"for every tree of tasks scheduling further tasks with arbitrary delays, reschedule results, exceptions and disposal",
 "Tests schedule two or three nested tasks; trees of recursive, delayed, repeating and disposing tasks are unbounded.",
 ["schedulers/current_thread.hpp","schedulers/immediate.hpp","schedulers/run_loop.hpp","schedulers/test_scheduler.hpp","schedulers/details/queue.hpp","schedulers/details/utils.hpp","schedulers/details/worker.hpp","schedulers/fwd.hpp"],
 [("time-ordered stable queue","schedulers/details/queue.hpp"),("queue ownership per thread","schedulers/current_thread.hpp")],
 ["task execution log with virtual time"])
p("C18","Threaded schedulers run each worker's tasks once, in order and never overlapping",
 "For new-thread, thread-pool, computational and run-loop schedulers used from any threads, every task of a worker runs exactly as often as requested unless disposed, never before its due time nor held back once it is due and the worker is idle, never overlapping another task of the same worker, and in order of due time and scheduling. Disposal prevents tasks not yet started, no task is lost or stuck, and the threads end cleanly, without deadlock or data race, under every schedule.",
 ["schedules","histories"],"for every set of workers and threads scheduling delayed, repeating, nested and disposed tasks, under every thread interleaving",
 "The scheduler tests sample one interleaving per run on the real clock (and are excluded from the reliable suite); lost wake-ups and races need particular schedules.",
 ["schedulers/new_thread.hpp","schedulers/thread_pool.hpp","schedulers/computational.hpp","schedulers/run_loop.hpp","schedulers/details/queue.hpp","schedulers/current_thread.hpp"],
 [("shared queue with condition variable","schedulers/new_thread.hpp"),("pool of new_thread workers","schedulers/thread_pool.hpp")],
 ["task start/end log with virtual thread and time","deadlock and race detection"])
p("C19","Multi-source operators serialise concurrent sources and lose nothing",
 "When the sources of merge, flat map, concat, switch-on-next, zip, combine-latest, with-latest-from, take-until or toggled windows emit from different threads, the subscriber is never called by two threads at once, gets at most one terminal with nothing after it, and sees each source's values in that source's order. What it receives is an outcome of some serial order of the source events: nothing required is lost, duplicated or invented, and there is no deadlock, data race or use of released memory.",
 ["schedules"],"for every interleaving of two or more threads driving the sources, including terminations, inner subscriptions and disposal",
 "Tests use one thread or a fixed sleep pattern; the failing windows are a few instructions wide.",
 ["operators/merge.hpp","operators/concat.hpp","operators/switch_on_next.hpp","operators/zip.hpp","operators/combine_latest.hpp","operators/with_latest_from.hpp","operators/take_until.hpp","operators/window_toggle.hpp","operators/details/combining_strategy.hpp","utils/utils.hpp"],
 [("mutex-guarded observer","operators/details/combining_strategy.hpp"),("atomic stages","operators/concat.hpp")],
 ["subscriber callbacks with overlap detection under a controlled scheduler"])
p("C20","Subjects stay consistent under concurrent emission and subscription",
 "Serialised subjects may be driven from several threads: every subscriber sees whole events one at a time, all subscribers see the same order, and nothing is lost or duplicated. Any subject may be subscribed to and unsubscribed from while another thread emits: each subscriber gets a contiguous run of the events, one that is present throughout gets all of them, and there is no deadlock, data race or use of released memory.",
 ["schedules"],"for every interleaving of emitting, subscribing, unsubscribing and terminating threads",
 "Tests have at most a two-thread smoke test on the real scheduler; subscription racing with emission or termination is not covered.",
 ["subjects/*.hpp","subjects/details/subject_state.hpp"],
 [("mutexes and copy-on-subscribe list","subjects/details/subject_state.hpp")],
 ["per-subscriber logs under a controlled scheduler"])
p("C21","Concurrent disposal runs each disposal action exactly once and misses none",
 "When threads concurrently add to, remove from, clear, dispose and query the same disposables and reference counts, every child owned by a disposed container ends up disposed exactly once, never before it should be, and none is missed. No call deadlocks, spins forever, races on data or touches released memory.",
 ["schedules"],"for every interleaving of two or more threads operating on shared disposables",
 "Tests contain two small races on real threads; atomic state machines fail only in windows a few instructions wide.",
 ["disposables/composite_disposable.hpp","disposables/refcount_disposable.hpp","disposables/callback_disposable.hpp","disposables/details/base_disposable.hpp","observers/details/disposable_strategy.hpp"],
 [("compare-exchange state machine","disposables/composite_disposable.hpp"),("atomic reference counter","disposables/refcount_disposable.hpp")],
 ["dispose counts under a controlled scheduler"])
p("C22","A subscription can be disposed from any thread at any time, safely",
 "Disposing a subscription from one thread while other threads emit, complete, subscribe inner observables or run scheduled tasks leaves every source subscription released exactly once and every thread able to finish. Emissions started after the disposal returned are not delivered, and there is no deadlock, data race, crash, or use of released memory under any schedule.",
 ["schedules","programs"],"for every pipeline with one or more emitting threads and a disposing thread, under every interleaving",
 "Tests dispose from the emitting thread; concurrent disposal is only exercised by chance.",
 ["observers/observer.hpp","observers/details/disposable_strategy.hpp","disposables/*.hpp","operators/*.hpp"],
 [("atomic disposed state checked before delivery","observers/observer.hpp")],
 ["callbacks and release counts under a controlled scheduler"])
p("C23","Thread-hopping operators keep order, completeness and thread placement",
 "Observe-on, delay, subscribe-on, debounce and timeout with threaded schedulers deliver every required value exactly once in source order, one at a time, on the chosen scheduler's thread, with the terminal last, for every relative speed of the producing and consuming threads. They finish without deadlock, data race or lost wake-up, including when disposed midway.",
 ["schedules","histories"],"for every sequence of emissions and every interleaving of the producer, scheduler and disposing threads and of the clock",
 "Tests run one timing on the real clock or use a single-threaded test scheduler; hand-over races are not sampled.",
 ["operators/delay.hpp","operators/observe_on.hpp","operators/subscribe_on.hpp","operators/debounce.hpp","operators/timeout.hpp","schedulers/new_thread.hpp","schedulers/thread_pool.hpp"],
 [("hand-over queue with active flag","operators/delay.hpp"),("locked debounce state","operators/debounce.hpp")],
 ["subscriber log with thread identity under a controlled scheduler"])
p("C24","Blocking subscription returns exactly when the stream has ended",
 "Subscribing through the blocking form returns only after the terminal notification (or disposal) has been delivered, with all earlier values delivered before it, and always returns once that has happened. This holds whichever thread terminates the stream and however it interleaves with the waiting thread.",
 ["schedules","inputs"],"for every pipeline, terminating thread, and interleaving of the terminating and waiting threads",
 "Tests run one real-time interleaving; a missed wake-up or early return needs a specific schedule.",
 ["observables/blocking_observable.hpp","operators/as_blocking.hpp"],
 [("mutex and condition variable hand-shake","observables/blocking_observable.hpp")],
 ["return of the call relative to notifications under a controlled scheduler"])
p("C25","Shared connections stay single under concurrent subscribers",
 "When threads concurrently subscribe to, unsubscribe from and connect a shared (connectable or reference-counted) observable, at most one source subscription is active at a time, it is active whenever a subscriber that has finished subscribing remains and the source has not ended, and it is released once none remains. No schedule leads to deadlock, data race, or leaked subscription.",
 ["schedules"],"for every interleaving of threads subscribing, unsubscribing and connecting",
 "No test drives connections from several threads.",
 ["observables/connectable_observable.hpp","operators/ref_count.hpp","operators/multicast.hpp","subjects/details/subject_state.hpp"],
 [("connection guarded by a mutex and refcount","observables/connectable_observable.hpp")],
 ["source subscription and release log under a controlled scheduler"])
X="src/extensions/"
p("C26","Strand scheduler runs its tasks on the executor, in order and not overlapping",
 "Tasks scheduled through the asio strand scheduler run only on threads running the io context, never overlapping, in due-time order and first come first served when equally due, exactly as often as requested and not before they are due. Disposed tasks do not run and repeated tasks keep their requested spacing.",
 ["histories","configurations"],"for every set of immediate, delayed, nested, repeating and disposed tasks and every number of context threads",
 "Tests post a few tasks with one thread; ordering under mixes of delays and repeats is not covered.",
 [X+"rppasio/rppasio/schedulers/strand.hpp"],[("strand executor and timers",X+"rppasio/rppasio/schedulers/strand.hpp")],["task log"])
p("C27","Qt bridge delivers signals and main-thread tasks faithfully",
 "Tasks given to the Qt main-thread scheduler run on the application thread, in due order, exactly as requested unless disposed; an observable made from a Qt signal delivers each emission's arguments in order while subscribed and the object lives, completes when the object is destroyed, and disconnects on disposal.",
 ["histories"],"for every history of signal emissions, subscriptions, disposals, object destruction and scheduled tasks",
 "Tests emit one signal once or schedule one task; histories are not explored.",
 [X+"rppqt/rppqt/sources/from_signal.hpp",X+"rppqt/rppqt/schedulers/main_thread.hpp"],
 [("QObject connections and queued invocations",X+"rppqt/rppqt/sources/from_signal.hpp")],["task and signal logs"])
p("C28","gRPC bridges carry every message in order and report the final status once",
 "For unary, client-streaming, server-streaming and bidirectional calls, every message pushed by one side is observed by the other exactly once and in order, completion of a request stream is observed as completion, a failing status is observed as one error, and a successful one as completion, for any interleaving of both directions. Cancelling either side ends the other without leak or deadlock.",
 ["histories","inputs"],"for every number and content of messages in each direction and every order of completions, errors and disposals",
 "Tests send a few messages through one in-process server in fixed orders.",
 [X+"rppgrpc/rppgrpc/client_reactor.hpp",X+"rppgrpc/rppgrpc/server_reactor.hpp",X+"rppgrpc/rppgrpc/details/base.hpp"],
 [("reactor read/write queues",X+"rppgrpc/rppgrpc/details/base.hpp")],["message logs of both ends"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
import os
for d in P:
    jsonschema.validate(d,s)
    for fl in d["anchors"]["files"]+[m["where"] for m in d["anchors"]["mechanism"]]:
        if "*" not in fl and not os.path.exists("/repo/"+fl): print(d["id"],"missing",fl)
    n=d["statement"].count(". ")+1
    if n>3: print(d["id"],"sentences",n)
print(len(P))
