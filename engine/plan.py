"""Which units decide which property."""

F, C, T, O, S, N = "filtering", "combine", "transform", "observers", "subjects", "inner"
ELEM = [f"{F}:E_{n}" for n in ("map", "map_async", "starmap", "starmap_async", "mapi", "mapi_async", "filter",
                               "filter_async", "starfilter", "filteri", "choose", "choose_async")]
SELECT = [f"{F}:{n}" for n in ("Skip", "Take", "SkipLast", "TakeLast", "TakeUntil")]
PAIR = [f"{C}:{n}" for n in ("CombineLatest", "WithLatestFrom", "ZipSeq")]
FOLD = [f"{T}:{n}" for n in ("ScanSync", "ScanAsync", "Reduce", "ReduceAsync")]
SWITCH = [f"{N}:{n}" for n in ("SwitchLatestSlow", "SwitchLatest", "SwitchLatestOuter", "FlatMapLatest", "FlatMapLatestAsync")]
MERGE = [f"{N}:{n}" for n in ("MergeInnerBurst", "MergeInner3", "MergeInnerOuter", "MergeInner", "FlatMap", "FlatMapI", "FlatMapAsync",
                              "FlatMapIAsync", "MergeSeq", "Merge", "MergeSlow")]
CONCAT = [f"{N}:{n}" for n in ("ConcatSlow", "Concat", "ConcatMap", "ConcatSeq", "Concat2", "ConcatSeqSlow")]
CREATE = [f"create:{n}" for n in ("OfSeq", "OfAsyncIterable", "Single", "Empty", "Never", "Fail", "OfAsync", "Defer", "Interval",
                                  "Timer", "IntervalSlow", "TimerSlow")]
TIMED = ["timed:Debounce", "timed:Delay"]

PLAN = {
    "C01": [f"{O}:SafeObserver", f"{O}:AutoDetach"],
    "C02": [x for x in SWITCH + MERGE[2:] + CONCAT] + [f"{C}:CombineLatest", f"{O}:AutoDetach", f"{C}:WithLatestFrom", f"{C}:ZipSeq"] + SELECT + [f"{F}:Distinct"] + FOLD
    + [f"{T}:Catch"] + TIMED + ELEM,
    "C03": [f"{S}:Subject"],
    "C04": [f"{S}:SingleSubject"],
    "C05": ELEM,
    "C06": SELECT,
    "C07": ["slicing:Slice", "slicing:GetItem", "slicing:GetKey"],
    "C08": FOLD,
    "C09": [f"{F}:Distinct"],
    "C10": MERGE,
    "C11": CONCAT,
    "C12": SWITCH,
    "C13": PAIR,
    "C14": [f"{T}:Catch", f"{T}:Retry"],
    "C15": CREATE,
    "C16": ["timed:Delay"],
    "C17": ["timed:Debounce"],
    "C18": ["leave:Iterate", "leave:IterateVia"],
    "C19": ["leave:Awaitable", "leave:Run", "leave:RunGiven"],
}
FORMS = """
F_AsyncRx_delay F_rx_delay F_AsyncRx_debounce F_rx_debounce F_rx_merge_inner F_AsyncRx_combine_latest F_rx_combine_latest
F_AsyncRx_flat_map_async F_rx_flat_map_async F_rx_flat_map F_AsyncRx_flat_map F_rx_flat_mapi F_AsyncRx_skip F_rx_skip
F_AsyncRx_take F_rx_take F_AsyncRx_skip_last F_rx_skip_last F_AsyncRx_take_last F_rx_take_last F_AsyncRx_take_until
F_rx_take_until F_AsyncRx_distinct_until_changed F_rx_distinct_until_changed F_AsyncRx_map F_rx_map F_rx_map_async
F_AsyncRx_starmap F_rx_starmap F_rx_mapi F_rx_mapi_async F_AsyncRx_filter F_rx_filter F_AsyncRx_filter_async F_rx_filter_async
F_AsyncRx_starfilter F_rx_starfilter F_AsyncRx_filteri F_rx_filteri F_AsyncRx_choose F_rx_choose F_AsyncRx_choose_async
F_rx_choose_async F_rx_reduce F_AsyncRx_reduce F_rx_reduce_async F_AsyncRx_reduce_async F_rx_scan F_rx_scan_async F_rx_retry
F_rx_catch F_AsyncRx_with_latest_from F_rx_with_latest_from F_AsyncRx_merge F_rx_merge F_AsyncRx_concat F_rx_concat F_rx_merge_seq
F_rx_concat_seq F_AsyncRx_flat_map_latest_async F_rx_flat_map_latest_async F_rx_merge_inner__ F_rx_switch_latest F_rx_defer
F_AsyncRx_from_iterable F_rx_from_iterable F_AsyncRx_empty F_rx_empty F_rx_never F_AsyncRx_single F_rx_single
F_AsyncRx_from_async_iterable F_rx_from_async_iterable F_rx_from_async F_rx_of_async F_rx_interval F_rx_timer Iterated
W_AsyncRx_subscribed_with_observer W_AsyncRx_subscribed_with_functions W_AsyncRx_subscribed_with_keywords
W_AsyncRx_subscribed_with_pipe W_AsyncRx_create_subscribed_with_observer W_AsyncRx_create_subscribed_with_functions
W_as_chained_subscribed_with_observer W_as_chained_subscribed_with_functions W_as_async_observable_subscribed_with_observer
W_as_async_observable_subscribed_with_functions W_AsyncRx_as_async_observable_subscribed_with_observer
W_AsyncRx_as_async_observable_subscribed_with_functions W_AsyncAnonymousObservable_subscribed_with_observer
W_AsyncAnonymousObservable_subscribed_with_functions W_AsyncAnonymousObservable_subscribed_with_keywords
W_AsyncAnonymousObservable_subscribed_with_pipe W_AsyncIterableObservable_subscribed_with_observer
W_AsyncIterableObservable_subscribed_with_functions W_AsyncIterableObservable_subscribed_with_keywords
W_AsyncIterableObservable_subscribed_with_pipe W_to_async_iterable_subscribed_with_observer
W_to_async_iterable_subscribed_with_functions W_AsyncRx_to_async_iterable_subscribed_with_observer
W_AsyncRx_to_async_iterable_subscribed_with_functions W_anonymous_observer W_notification_observer W_anonymous_with_nothing
W_keywords_with_nothing W_anonymous_with_N W_keywords_with_N W_anonymous_with_E W_keywords_with_E W_anonymous_with_NE
W_keywords_with_NE W_anonymous_with_C W_keywords_with_C W_anonymous_with_NC W_keywords_with_NC W_anonymous_with_EC
W_keywords_with_EC F_subject F_subject_kw F_single_subject F_single_subject_kw Notes ToObservable
""".split()
PLAN["C21"] = [f"forms:{u}" for u in FORMS]
PLAN["C22"] = TIMED + [x for x in SWITCH if x not in (f"{N}:SwitchLatestOuter",)] + [x for x in MERGE if not x.endswith(("Burst", "3", "MergeInner"))] + CONCAT[1:] + PAIR \
    + SELECT + [f"{F}:Distinct"] + FOLD + [f"{T}:Catch", f"{T}:Retry"] + ELEM + [x for x in CREATE if x not in ("create:OfAsyncIterable", "create:OfAsync")]

# "!": the same contract where an event may also happen between any two steps of the event loop (one per segment)
FINE = {
    "C01": [f"{O}:SafeObserver!"],
    "C03": [f"{S}:Subject!"],
    "C05": [x + "!" for x in ELEM if not x.endswith(("E_mapi", "E_mapi_async", "E_filteri"))],
    "C06": [x + "!" for x in SELECT],
    "C08": [x + "!" for x in FOLD],
    "C09": [f"{F}:Distinct!"],
    "C10": [f"{N}:Merge!", f"{N}:MergeSeq!", f"{N}:MergeSlow!"],
    "C11": [f"{N}:ConcatMap!", f"{N}:ConcatSeqSlow!", f"{N}:ConcatSeq!", f"{N}:Concat2!"],
    "C12": [f"{N}:SwitchLatestSlow!", f"{N}:SwitchLatest!", f"{N}:SwitchLatestOuter!", f"{N}:FlatMapLatest!"],
    "C13": [x + "!" for x in PAIR],
    "C14": [f"{T}:Catch!", f"{T}:Retry!"],
    "C15": [x + "!" for x in CREATE],
    "C16": ["timed:Delay!"],
    "C18": ["leave:IterateFine", "leave:IterateVia!"],
    "C19": ["leave:Awaitable!", "leave:Run!", "leave:RunGiven!"],
}
DEEP = {          # thorough tier only (minutes each)
    "C01": [f"{O}:AutoDetach!"],
    "C04": [f"{S}:SingleSubject!"],
    "C10": [f"{N}:MergeInner!", f"{N}:FlatMap!", f"{N}:FlatMapAsync!"],
    "C11": [f"{N}:Concat!"],
}


def units_of(prop, tier):
    return FINE.get(prop, []) + PLAN.get(prop, []) + (DEEP.get(prop, []) if tier != "quick" else [])


_MAIN = {}
for _p, _us in [(_p, units_of(_p, "thorough")) for _p in PLAN]:
    if _p not in ("C02", "C22"):
        for _u in _us:
            _MAIN.setdefault(_u, _p)


def prop_of(label, spec):
    """the property an obligation belongs to"""
    if label[:4] in ("C02 ", "C22 ", "C01 "):
        return label[:3]
    return _MAIN.get(spec)

# what the proof of each property says and what it leaves out (MANIFEST level_note, DESIGN.md)
NOTES = {
    "C01": "safe_observer and auto_detach_observer are proved for arbitrarily many notifications, a slow or raising observer and terminals before the upstream subscribe call returns; the operators are then checked against this contract.",
    "C02": "Release is an obligation in every operator unit: at each settled state after a terminal or dispose, every upstream that subscribed and has not ended is disposed.",
    "C03": "Subject: any number of anonymous observers (a symbolic list), one tracked observer, one producer at a time.",
    "C04": "Single subject: any history with at most three overlapping producers.",
    "C05": "Every element-wise operator, for any number of values; function results opaque, functions may suspend.",
    "C06": "All counts n >= 0 and any number of values.",
    "C08": "Any number of values; accumulator opaque, may raise, may suspend.",
    "C09": "Any number of values; == opaque, reflexive and symmetric.",
    "C10": "merge_inner for every n >= 0, any number of waiting inners, at most 3 inners live at once (2 with bursts); merge/merge_seq with 2 and 3 sequences; flat_map family composed.",
    "C11": "merge_inner(1) with any number of waiting inners, bursts and suspended subscribe calls; concat_seq with 3 sequences, concat_map composed.",
    "C12": "Any number of inners; at most one further inner arrives while a subscribe call of an inner is suspended.",
    "C13": "Any number of values on either side, suspended subscribe calls.",
    "C14": "catch for any history; retry for every n, with catch replaced by its contract.",
}
NOTES.update({
    "C07": "slice and indexing for every start, stop and step (including None and negative), any number of values; the stages are replaced by the contracts proved for C05/C06.",
    "C15": "Every creation function; iterables of any length that may raise anywhere, symbolic delays and periods, arbitrarily many ticks.",
    "C16": "Any number of queued notifications with any arrival times, symbolic delay s >= 0, slow observer, dispose at any quiescent point.",
    "C17": "Unlimited history; at most 3 notifications within any s seconds.",
    "C18": "Unlimited history with at most 3 overlapping producers, consumer may be cancelled and come back.",
    "C19": "AsyncAwaitableObserver with up to 2 overlapping calls; run with symbolic time-out, with and without a given observer.",
    "C21": "Every package function and AsyncRx method is verified against the contract of the operator it names (so all forms agree); forwarding observables and observers with every combination of callbacks; Notification; to_observable with reactivex.create and Disposable assumed by contract.",
    "C22": "Frame condition: everything reachable from the built observable and the package's global state is unchanged at every quiescent point of every unit, so nothing a subscription changes is visible to another. from_async_iterable keeps a shared set of its tasks and is decided by the bounded stand-in only.",
})
PARTIAL = {}
