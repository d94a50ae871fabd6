import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs=None,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))
A='aioreactive/'
p('C01','Serialised, grammar-conforming delivery to observers',
 "Behind every source or operator that serialises its output (take, skip, merge, switch_latest, from_iterable, single, ...) the downstream observer receives exactly the notifications that were issued, in the order issued, each once, up to and including the first OnError/OnCompleted and nothing after it, and the next call starts only after the previous call has returned. If the observer raises while handling a value, it next receives exactly one OnError carrying that exception and nothing more. The upstream subscription is told to dispose before the terminal notification is delivered.",
 ['histories','schedules','inputs'],"for all sequences of issued notifications (including ones issued during a slow asend or after a terminal), all durations and all failures of the observer's own handlers",
 "Tests send a handful of values through observers that return at once; none issues notifications during a suspended asend, after a terminal, or with a raising observer at a chosen position.",
 [A+'observers.py',A+'notification.py'],[('safe_observer: single mailbox worker that awaits each downstream call','aioreactive/observers.py safe_observer'),('Notification.accept_observer dispatch','aioreactive/notification.py')],
 ['calls made on the subscribed observer'])
p('C02','Termination and dispose release every upstream subscription',
 "When an operator's output terminates (its own decision, an upstream error or completion) or its subscriber disposes the returned subscription, every upstream subscription it opened that has not itself terminated gets disposed, including when the termination happens before the upstream subscribe call has returned. This covers take, skip, skip_last, take_last, take_until, slice, distinct_until_changed, scan, merge/merge_inner/flat_map/concat, switch_latest, combine_latest, with_latest_from, zip_seq, catch, debounce, delay and the element-wise operators.",
 ['histories','schedules','inputs'],"for all interleavings of upstream notifications, subscribe completion and dispose, and all numbers of inner subscriptions",
 "No test observes whether an upstream subscription is released; the timing of termination against subscribe completion is never varied.",
 [A+'observers.py',A+'combine.py',A+'transform.py',A+'filtering.py',A+'timeshift.py'],[('auto_detach_observer agent collects upstream disposables and disposes them','aioreactive/observers.py auto_detach_observer'),('dispose messages to inner-subscription workers','aioreactive/combine.py merge_inner, aioreactive/transform.py switch_latest'),('returned AsyncDisposable composites','all operators')],
 ['dispose_async calls on subscriptions returned by the sources'])
p('C03','Subject broadcasts to exactly the current observers',
 "AsyncSubject delivers each value to every observer subscribed when asend is called, once each, in subscription order, awaiting each before the next; observers that subscribe later do not see it, and an observer that unsubscribes while a value is being delivered never causes another observer to be skipped or served twice. Its first athrow or aclose is delivered once to each current observer and everything sent afterwards is dropped; after disposing the subject every send, throw, close and subscribe raises ObjectDisposedException.",
 ['histories','inputs','schedules'],"for all numbers of observers and all sequences of subscribe, unsubscribe (also during delivery), asend, athrow, aclose and dispose by non-overlapping producers",
 "Tests use one or two fixed observers and never unsubscribe during delivery or use a stopped or disposed subject systematically.",
 [A+'subject.py'],[('AsyncMultiSubject iterates over a snapshot of its observers; stopped and disposed flags','aioreactive/subject.py AsyncMultiSubject')],['calls on subscribed observers'],
 [('_observers','currently subscribed observers','aioreactive/subject.py'),('_is_stopped','terminal already sent','aioreactive/subject.py')])
p('C04','Single subject waits, orders, stops once and never hangs',
 "AsyncSingleSubject holds each asend, athrow and aclose until an observer has subscribed and then delivers to it in the order the calls were made, at most one terminal in total and nothing issued after that terminal, even when producers overlap and the observer is slow. After it is disposed (directly or through the subscription) every call raises ObjectDisposedException, a producer still waiting for an observer is woken and gets the same exception, and no call ever blocks the event loop.",
 ['histories','schedules','inputs'],"for all interleavings of overlapping producers, subscribe and dispose, and all observer delays",
 "Tests run one producer against an already subscribed or soon subscribed observer; overlapping terminals and dispose during the wait are never scheduled.",
 [A+'subject.py'],[('AsyncSingleSubject wait future, stopped and disposed flags','aioreactive/subject.py AsyncSingleSubject')],['calls on the subscribed observer, outcome of each producer call'],
 [('_wait','resolved once an observer subscribed or the subject was disposed','aioreactive/subject.py'),('_is_stopped','a terminal has been issued','aioreactive/subject.py')])
p('C05','Element-wise operators equal their list counterparts',
 "map, map_async, starmap, mapi, mapi_async, filter, filter_async, filteri, starfilter, choose and choose_async emit, in source order, exactly what the corresponding Python comprehension over the source values yields, whatever the values are (None and falsy included). The supplied function is called exactly once per source value, with the value (for starmap/starfilter: its components; for mapi/filteri: the value and its 0-based position in this subscription), and a source error or completion is forwarded once after the results of all earlier values.",
 ['inputs','histories'],"for all source sequences, all user functions (sync and async, any return value) and all values including None, falsy and tuples",
 "Tests sample a few integer sequences with one function each.",
 [A+'transform.py',A+'filtering.py',A+'combine.py'],[('transform(): handler per value, terminals passed through','aioreactive/transform.py transform'),('zip_seq(seq.infinite) supplies indices','aioreactive/combine.py zip_seq')],['downstream notifications, calls of the user function'])
p('C06','skip, skip_last, take, take_last, take_until select exactly',
 "For every source sequence xs and count n >= 0: skip(n) emits xs[n:], take(n) emits xs[:n] and completes together with its n-th value, skip_last(n) emits all but the last n values (each as soon as n later values have arrived), and take_last(n) emits the last n values followed by completion once the source completes; values are passed through unchanged, None included, and errors are forwarded (take_last then emits no values). take_until(other) emits the source's values issued before other's first value, completes at that value, and otherwise follows the source; an error of either is forwarded, a completion of other alone changes nothing.",
 ['inputs','histories'],"for all counts, all source sequences and all interleavings of the two sources of take_until",
 "Tests use two or three fixed counts on short integer sequences; take_until, skip_last and take_last with None, zero or over-long counts are not exercised.",
 [A+'filtering.py'],[('remaining counters','aioreactive/filtering.py skip, take'),('bounded queues','aioreactive/filtering.py skip_last, take_last'),('second observer that closes','aioreactive/filtering.py take_until')],['downstream notifications'])
p('C07','Slice notation on streams equals Python list slicing',
 "For a finite source with values xs, source[a:b:s] and slice(a, b, s) emit exactly list(xs)[a:b:s] followed by completion for every start a and stop b (positive, zero, negative, beyond either end, or omitted) and every step s >= 1 or omitted, and source[k] emits list(xs)[k:k+1] (the last element for k = -1). A negative step raises TypeError.",
 ['inputs','configurations'],"for all integers or None a, b, all steps s >= 1, all keys k and all source lengths",
 "Two slices ([1:-1] and [::2]) are tested out of an unbounded family.",
 [A+'filtering.py',A+'__init__.py'],[('slice(): translation into skip/take/skip_last/take_last/filteri','aioreactive/filtering.py slice'),('AsyncRx.__getitem__','aioreactive/__init__.py')],['downstream notifications'])
p('C08','scan and reduce equal the running and final fold',
 "scan and scan_async emit after each source value the left fold of the accumulator over all values received so far in this subscription, starting from the initial value, with the accumulator called exactly once per value in order; reduce and reduce_async emit only the final fold when the source completes (nothing for an empty source). An exception of the accumulator or of the source is delivered once as the terminal and nothing is emitted after it.",
 ['inputs','histories'],"for all source sequences, initial values, accumulators (sync, async, raising at any position)",
 "Tests fold one or two integer sequences; raising accumulators, repeated subscriptions and non-numeric states are not sampled.",
 [A+'transform.py'],[('_scan accumulator state per subscription','aioreactive/transform.py _scan'),('reduce_async = scan_async then take_last(1)','aioreactive/transform.py reduce_async')],['downstream notifications, accumulator calls'])
p('C09','distinct_until_changed drops exactly the repeats',
 "distinct_until_changed emits a source value if and only if it is the first value of the subscription or is not equal to the value received immediately before it, in order; errors and completion are forwarded.",
 ['inputs','histories'],"for all source sequences over values with arbitrary equality, None and falsy values included",
 "One test uses one short integer sequence.",
 [A+'filtering.py',A+'notification.py'],[('latest notification compared by ==','aioreactive/filtering.py distinct_until_changed'),('Notification.__eq__','aioreactive/notification.py')],['downstream notifications'])
p('C10','Merging loses, duplicates and reorders nothing',
 "merge, merge_seq, merge_inner, flat_map, flat_mapi, flat_map_async and flat_mapi_async subscribe each inner sequence once and forward every value of every inner exactly once, in arrival order; they complete exactly when the outer and all inners have completed, and the first error of the outer or any inner terminates the result. merge_inner(n) with n > 0 never has more than n inners subscribed at once, starts waiting inners in arrival order as earlier ones complete, and with n = 0 there is no limit.",
 ['histories','schedules','inputs'],"for all numbers of inners, all interleavings of outer and inner notifications (including inners that complete while being subscribed) and all concurrency limits",
 "Tests merge two or three fixed sequences; concurrency limits and interleaved completions are sampled once or not at all.",
 [A+'combine.py',A+'transform.py',A+'__init__.py'],[('merge_inner worker: subscriptions map, FIFO queue, stop flag','aioreactive/combine.py merge_inner')],['downstream notifications, subscribe calls on inners'],
 [('subscriptions','active inner subscriptions by key','aioreactive/combine.py Model'),('queue','inners waiting for a slot','aioreactive/combine.py Model'),('is_stopped','outer completed','aioreactive/combine.py Model')])
p('C11','Concatenation is strictly sequential',
 "concat, concat_seq and concat_map emit all values of the first sequence, then all of the second, and so on in the given order; a sequence is subscribed only after the previous one has completed, each exactly once, the result completes after the last one, and an error ends the result without subscribing further sequences.",
 ['histories','schedules','inputs'],"for all numbers and lengths of sequences and all completion timings",
 "Tests concatenate two fixed sequences.",
 [A+'combine.py',A+'transform.py',A+'__init__.py'],[('merge_inner(1) over the sequence of sources','aioreactive/combine.py concat_seq')],['downstream notifications, subscribe calls'])
p('C12','switch_latest follows only the most recent inner',
 "switch_latest, flat_map_latest and flat_map_latest_async forward values and errors only from the inner sequence most recently produced by the outer: once the outer has produced a newer inner, nothing further from the older one is forwarded, and the older one is disposed before the newer one is subscribed. The result completes exactly when the outer has completed and the latest inner (if any) has completed, and an error of the outer or of the latest inner terminates it.",
 ['histories','schedules','inputs'],"for all numbers of inners and all interleavings of outer and inner notifications, including inners that keep emitting after being replaced",
 "switch_latest has no completion test and no test in which a replaced inner still emits.",
 [A+'transform.py'],[('inner ids compared with the latest id; worker owning the current subscription','aioreactive/transform.py switch_latest')],['downstream notifications, dispose and subscribe calls on inners'])
p('C13','combine_latest, with_latest_from and zip_seq pair correctly',
 "combine_latest emits the pair (latest source value, latest other value) for every value of either side once both have produced one; with_latest_from emits (source value, latest other value) for every source value that arrives after other's first value and nothing on values of other; zip_seq pairs the i-th source value with the i-th item of the iterable and completes when the iterable is exhausted. Values are passed through unchanged (None included), the first error or completion of either side terminates the result, and pairs keep arrival order.",
 ['histories','inputs','schedules'],"for all interleavings of the two sides and all values",
 "Tests cover one or two fixed interleavings of with_latest_from and none of combine_latest or zip_seq.",
 [A+'combine.py'],[('mailbox serialising both sides; Option state for latest values','aioreactive/combine.py combine_latest, with_latest_from'),('iterator advanced once per value','aioreactive/combine.py zip_seq')],['downstream notifications'])
p('C14','catch switches over once and retry counts attempts',
 "catch(handler) forwards the source unchanged until it fails, then calls the handler once with the error and forwards the handler's sequence to its end, errors included. retry(n) forwards the source and resubscribes to it after each failure, at most n times per subscription, delivering every attempt's values in order and the last error when all n+1 attempts failed; completion of any attempt ends it.",
 ['histories','inputs'],"for all failure positions, all retry counts n >= 0, all handler sequences (failing ones included) and repeated subscriptions",
 "There is no test of catch or retry.",
 [A+'transform.py'],[('catch: handler sequence replaces the source','aioreactive/transform.py catch'),('retry: bounded chain of attempts','aioreactive/transform.py retry')],['downstream notifications, subscribe calls on the source'])
p('C15','Creation functions emit exactly their contents',
 "from_iterable and from_async_iterable emit every item of the iterable once, in order, then complete, or deliver the exception the iterable raises as the terminal error; single(v) emits v and completes, empty() completes, never() emits nothing, fail(e) delivers e, from_async/of_async emits the awaited result and completes (or delivers its exception), and defer calls its factory once per subscription and subscribes to the result (or delivers the factory's exception). interval(d, p) emits 0, 1, 2, ... the first after d and each next one p later, for p = 0 emitting 0 only and completing; timer(d) is interval(d, 0).",
 ['inputs','histories'],"for all iterables (empty, raising at any position, None items), all values, errors, delays and periods",
 "Tests use short well-behaved lists and one single value.",
 [A+'create.py'],[('of_seq, of_async_iterable workers','aioreactive/create.py'),('of_async_worker with safe_observer','aioreactive/create.py'),('interval handler loop','aioreactive/create.py interval')],['downstream notifications, sleeps'])
p('C16','delay preserves the sequence and never delivers early',
 "delay(s) delivers every source notification, terminals included, exactly once and in order, none earlier than s seconds after the source issued it, waiting no longer than needed for that. Disposing one subscription stops its deliveries and releases the source without affecting any other subscription of the same delayed observable.",
 ['histories','schedules','inputs'],"for all delays s >= 0, all arrival times and all dispose times",
 "Tests check one or two fixed schedules and a single subscription.",
 [A+'timeshift.py'],[('queue of (notification, due time) and a worker that sleeps until due','aioreactive/timeshift.py delay')],['downstream notifications, sleeps'])
p('C17','debounce emits exactly the values followed by silence',
 "debounce(s) emits a source value exactly once if no further notification arrives from the source within s seconds after it, and never otherwise; emitted values keep source order. Errors and completion are forwarded as soon as they arrive, and disposing delivers nothing more, no completion included.",
 ['histories','schedules','inputs'],"for all arrival times and dispose times",
 "Tests check two fixed schedules.",
 [A+'timeshift.py'],[('per-notification index posted twice, at arrival and after the timeout','aioreactive/timeshift.py debounce')],['downstream notifications'])
p('C18','Async iteration yields every value with back-pressure',
 "Iterating an observable with async for (to_async_iterable, AsyncIteratorObserver) yields exactly the values sent, in the order the producer calls were admitted, each once, then ends on completion or raises the error; several producers may overlap and a slow consumer loses nothing. A producer's asend, athrow or aclose returns only after the consumer has taken that notification, and always returns once it has; no producer waits forever while the consumer is ready.",
 ['schedules','histories','inputs'],"for all interleavings of one consumer with any number of overlapping producers",
 "Tests iterate one source with one producer; overlapping producers and the return of the terminal call are not observed.",
 [A+'observers.py',A+'observables.py',A+'leave.py'],[('push/pull futures, busy flag and awaiter queue','aioreactive/observers.py AsyncIteratorObserver')],['values yielded, completion of producer calls'])
p('C19','Awaiting a source yields its last value or its error',
 "run(source) and AsyncAwaitableObserver resolve with the last value sent before completion, raise the source's error, are cancelled when the source completes without values, and time out after the given number of seconds otherwise; run disposes its subscription in every case. Only the first terminal counts, values after it or after dispose change nothing, and user callbacks are invoked exactly once per accepted notification.",
 ['histories','inputs'],"for all notification sequences, including ones that violate the grammar, and all values (None and falsy included)",
 "Tests await a few well-formed sequences.",
 [A+'observers.py',A+'subscription.py'],[('AsyncAwaitableObserver state: last value, has value, stopped','aioreactive/observers.py'),('run(): async with subscription, wait_for','aioreactive/subscription.py')],['outcome of the await, dispose calls'])
p('C20','Virtual time is monotone, ordered and never early',
 "On VirtualTimeEventLoop time starts at 0 and never decreases; every timer callback that is not cancelled runs exactly once, at a loop time not before its due time, timers run in due-time order, and time advances only to the due time of the next live timer and only when nothing is ready to run. A cancelled callback never runs, whatever the number of timers and of cancellations.",
 ['histories','inputs'],"for all sets of timers, due times (past ones included), cancellations at any time and any number of timers above and below the clean-up thresholds",
 "Tests schedule a handful of timers and cancel none; the bulk clean-up of cancelled timers is never reached.",
 [A+'testing/virtual_events.py'],[('_run_once: cancelled-timer clean-up, heap pop, time update','aioreactive/testing/virtual_events.py')],['callback executions and loop.time()'])
p('C21','Method, function and adapter forms agree',
 "Every AsyncRx method, and every operator exported by the package, builds the same stream as the corresponding module-level operator with the same arguments in the same order (merge and concat put the receiver first). Observers and observables built from plain functions or a notification function forward every notification to the right callback exactly once with the value unchanged (missing callbacks are ignored), subscribing with three functions equals subscribing with the observer made of them, Notification.accept calls the one matching function, and notifications are equal exactly when kind and content are; to_observable forwards values, error and completion to the reactivex observer.",
 ['inputs','programs','configurations'],"for all operators, arguments, values and notification sequences",
 "Tests call a subset of the methods on one input each.",
 [A+'__init__.py',A+'observers.py',A+'observables.py',A+'notification.py',A+'leave.py',A+'types.py'],[('AsyncRx methods delegating to operators','aioreactive/__init__.py'),('AsyncAnonymousObserver, AsyncNotificationObserver, AsyncAnonymousObservable','aioreactive/observers.py, observables.py'),('Notification classes','aioreactive/notification.py')],['downstream notifications'])
p('C22','Subscriptions of one observable are independent',
 "Subscribing several times, at any times, to the same built observable (any operator or creation function except the subjects and one-shot inputs such as iterators or awaitables) gives each subscriber the notifications it would have received alone: no counters, queues, indices, latest values, retry budgets or cancellation are shared, and disposing one subscription never affects another.",
 ['histories','schedules','programs'],"for all operators and all interleavings of two or more subscriptions of the same observable",
 "Tests subscribe once to each observable they build.",
 [A+'transform.py',A+'filtering.py',A+'combine.py',A+'create.py',A+'timeshift.py'],[('all operator state is allocated inside subscribe_async','every operator')],['notifications of each subscriber'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
