"""C21: every form of an operator satisfies the operator's contract; adapters forward notifications.

Each form (package function, module function, AsyncRx method) is verified against the same contract
unit, so the forms agree because they all meet it.
"""
import sys

import z3

from ..base import *
from . import combine, create, filtering, inner, leave, timed, transform

F = sys.modules["aioreactive.filtering"]
T = sys.modules["aioreactive.transform"]
K = sys.modules["aioreactive.combine"]
Cr = sys.modules["aioreactive.create"]
Ts = sys.modules["aioreactive.timeshift"]
L = sys.modules["aioreactive.leave"]
A = rx.AsyncRx
UNITS = []


MODULES = (F, T, K, Cr, Ts, L)
SAME = {"from_iterable": "of_seq", "from_async_iterable": "of_async_iterable", "from_async": "of_async"}


class RefRx:
    """the package with every function and every method replaced by the module-level operator"""

    def __getattr__(self, n):
        if n == "AsyncRx":
            return RefMethods
        if n in REFS:
            return REFS[n]
        n = SAME.get(n, n)
        for m in MODULES:
            if n in m.__dict__:
                return m.__dict__[n]
        return getattr(rx, n)


class RefMethods:
    def __init__(self, source):
        self.source = source

    def __getattr__(self, n):
        f = getattr(REF, n)
        return lambda *a: f(*a)(self.source) if n != "distinct_until_changed" else f(self.source)
    from_iterable = staticmethod(lambda it: REF.from_iterable(it))
    from_async_iterable = staticmethod(lambda it: REF.from_async_iterable(it))
    empty = staticmethod(lambda: REF.empty())
    single = staticmethod(lambda v: REF.single(v))


REF = RefRx()
REFS = {
    "merge": lambda o: lambda s: K.merge_inner(0)(Cr.of_seq([s, o])),
    "merge_seq": lambda ss: K.merge_inner(0)(Cr.of_seq(ss)),
    "concat": lambda o: lambda s: K.concat_seq([s, o]),
    "merge_inner": lambda n=0: K.merge_inner(n),
    "switch_latest": lambda: T.switch_latest,
}


def form(base, name, build, **kw):
    """`ref`: the same contract on the module-level operator; where that fails too the operator, not the form, is wrong"""
    d = dict(name=name, build=lambda u, w: build(u, w, rx), **kw)
    ref = type("Ref", (base,), dict(d, name=name + " (module-level operator)", build=lambda u, w: build(u, w, REF)))
    cls = type("F_" + "".join(c if c.isalnum() else "_" for c in name), (base,), dict(d, ref=ref))
    cls.__module__ = __name__
    globals()[cls.__name__] = cls
    UNITS.append(cls.__name__)


def xs(u, w):
    return u.source(w, "xs")


# ---------------------------------------------------------------- counts and selections
for _n, _b in (("skip", filtering.Skip), ("take", filtering.Take), ("skip_last", filtering.SkipLast), ("take_last", filtering.TakeLast)):
    form(_b, f"AsyncRx.{_n}", lambda u, w, rx, n=_n: getattr(rx.AsyncRx(xs(u, w)), n)(u.n))
    form(_b, f"rx.{_n}", lambda u, w, rx, n=_n: getattr(rx, n)(u.n)(xs(u, w)))
form(filtering.TakeUntil, "AsyncRx.take_until", lambda u, w, rx: rx.AsyncRx(xs(u, w)).take_until(u.source(w, "other")))
form(filtering.TakeUntil, "rx.take_until", lambda u, w, rx: rx.take_until(u.source(w, "other"))(xs(u, w)))
form(filtering.Distinct, "AsyncRx.distinct_until_changed", lambda u, w, rx: rx.AsyncRx(xs(u, w)).distinct_until_changed())
form(filtering.Distinct, "rx.distinct_until_changed", lambda u, w, rx: rx.distinct_until_changed(xs(u, w)))

# ---------------------------------------------------------------- element-wise
for _c in filtering.ELEMS:
    _n = _c.__name__
    if hasattr(A, _n):
        form(_c, f"AsyncRx.{_n}", lambda u, w, rx, n=_n: getattr(rx.AsyncRx(xs(u, w)), n)(u.fn(w)))
    if hasattr(rx, _n):
        form(_c, f"rx.{_n}", lambda u, w, rx, n=_n: getattr(rx, n)(u.fn(w))(xs(u, w)))

# ---------------------------------------------------------------- folds


def _f(u, w):
    return afn(w) if u.is_async else XFn(w)


for _n, _b in (("reduce", transform.Reduce), ("reduce_async", transform.ReduceAsync), ("scan", transform.ScanSync), ("scan_async", transform.ScanAsync)):
    form(_b, f"rx.{_n}", lambda u, w, rx, n=_n: getattr(rx, n)(_f(u, w), w.initial)(xs(u, w)))
    if hasattr(A, _n):
        form(_b, f"AsyncRx.{_n}", lambda u, w, rx, n=_n: getattr(rx.AsyncRx(xs(u, w)), n)(_f(u, w), w.initial))
form(transform.Retry, "rx.retry", lambda u, w, rx: rx.retry(SymInt(u.n))(w.o_xs))
form(transform.Catch, "rx.catch", lambda u, w, rx: rx.catch(XFn(w, "handler"))(xs(u, w)))

# ---------------------------------------------------------------- two sources
for _n, _b in (("combine_latest", combine.CombineLatest), ("with_latest_from", combine.WithLatestFrom)):
    form(_b, f"AsyncRx.{_n}", lambda u, w, rx, n=_n: getattr(rx.AsyncRx(xs(u, w)), n)(u.source(w, "ys")))
    form(_b, f"rx.{_n}", lambda u, w, rx, n=_n: getattr(rx, n)(u.source(w, "ys"))(xs(u, w)))
if hasattr(rx, "zip_seq"):
    form(combine.ZipSeq, "rx.zip_seq", lambda u, w, rx: rx.zip_seq(combine.XIterable(w))(xs(u, w)))

# ---------------------------------------------------------------- merges


class MergeOrder(inner.Merge):
    """merge puts the receiver first"""

    def on_subscribe(self, w, s):
        if s == "ys":
            w.require(w.src["xs"].sub == 1, "the receiver is subscribed first")


for _b, _n in ((MergeOrder, "merge"), (inner.Concat2, "concat")):
    form(_b, f"AsyncRx.{_n}", lambda u, w, rx, n=_n: getattr(rx.AsyncRx(xs(u, w)), n)(u.source(w, "ys")))
    form(_b, f"rx.{_n}", lambda u, w, rx, n=_n: getattr(rx, n)(u.source(w, "ys"))(xs(u, w)))


class MergeSeq2(MergeOrder):
    pass


form(MergeSeq2, "rx.merge_seq", lambda u, w, rx: rx.merge_seq([u.source(w, s) for s in u.sources]))
form(inner.Concat2, "rx.concat_seq", lambda u, w, rx: rx.concat_seq([u.source(w, s) for s in u.sources]))


def light(base):
    """the contract with an observer that returns at once and single notifications"""
    return type("L" + base.__name__, (base,), dict(out_suspend=False, bursts=False))


for _b, _n in ((inner.FlatMap, "flat_map"), (inner.FlatMapI, "flat_mapi"), (inner.FlatMapAsync, "flat_map_async"),
               (inner.FlatMapLatest, "flat_map_latest"), (inner.FlatMapLatestAsync, "flat_map_latest_async"), (inner.ConcatMap, "concat_map")):
    if hasattr(A, _n):
        form(light(_b), f"AsyncRx.{_n}", lambda u, w, rx, n=_n: getattr(rx.AsyncRx(xs(u, w)), n)(w.fn))
    if hasattr(rx, _n):
        form(light(_b), f"rx.{_n}", lambda u, w, rx, n=_n: getattr(rx, n)(w.fn)(xs(u, w)))
form(light(inner.MergeInner), "rx.merge_inner", lambda u, w, rx: rx.merge_inner(u.n)(xs(u, w)))
form(light(inner.MergeInner), "rx.merge_inner()", lambda u, w, rx: rx.merge_inner()(xs(u, w)),
     assumptions=lambda u: [z3.Int("n") == 0], must_cover=("out.N", "out.C", "inner subscribed"))
form(light(inner.SwitchLatest), "rx.switch_latest", lambda u, w, rx: rx.switch_latest()(xs(u, w)), must_cover=inner.FlatMapLatest.must_cover[:-1][:7])

# ---------------------------------------------------------------- time
for _b, _n in ((timed.Delay, "delay"), (timed.Debounce, "debounce")):
    form(_b, f"AsyncRx.{_n}", lambda u, w, rx, n=_n: getattr(rx.AsyncRx(xs(u, w)), n)(SymReal(z3.Real("s"))), **({"MAXT": 2} if _n == "debounce" else {}))

# ---------------------------------------------------------------- creation
    form(_b, f"rx.{_n}", lambda u, w, rx, n=_n: getattr(rx, n)(SymReal(z3.Real("s")))(xs(u, w)), **({"MAXT": 2} if _n == "debounce" else {}))
form(create.Defer, "rx.defer", lambda u, w, rx: rx.defer(XFn(w, "factory")))
form(create.OfSeq, "AsyncRx.from_iterable", lambda u, w, rx: rx.AsyncRx.from_iterable(combine.XIterable(w)))
form(create.OfSeq, "rx.from_iterable", lambda u, w, rx: rx.from_iterable(combine.XIterable(w)))
form(create.Empty, "AsyncRx.empty", lambda u, w, rx: (u.expect(w, "C"), rx.AsyncRx.empty())[1])
form(create.Empty, "rx.empty", lambda u, w, rx: (u.expect(w, "C"), rx.empty())[1])
form(create.Never, "rx.never", lambda u, w, rx: rx.never())


def _single(f):
    def build(u, w, rx):
        v = w.value("v")
        u.expect(w, "N", v)
        u.expect(w, "C")
        return f(rx, v)
    return build


form(create.Single, "AsyncRx.single", _single(lambda rx, v: rx.AsyncRx.single(v)))
form(create.Single, "rx.single", _single(lambda rx, v: rx.single(v)))


form(create.OfAsyncIterable, "AsyncRx.from_async_iterable", lambda u, w, rx: rx.AsyncRx.from_async_iterable(create.XAIter(w)))
form(create.OfAsyncIterable, "rx.from_async_iterable", lambda u, w, rx: rx.from_async_iterable(create.XAIter(w)))
form(create.OfAsync, "rx.from_async", lambda u, w, rx: rx.from_async(w.extcall("workflow", XFn(w, "workflow"))))
form(create.OfAsync, "rx.of_async", lambda u, w, rx: rx.of_async(w.extcall("workflow", XFn(w, "workflow"))))
form(create.Interval, "rx.interval", lambda u, w, rx: rx.interval(SymReal(z3.Real("d")), SymReal(z3.Real("p"))))
form(create.Timer, "rx.timer", lambda u, w, rx: rx.timer(SymReal(z3.Real("d"))))


class Iterated(leave.IterateVia):
    """iterating through the method form"""
    name = "AsyncRx.to_async_iterable (iterated)"

    def make(self, w):
        return A(w.src).to_async_iterable()


UNITS.append("Iterated")


# ---------------------------------------------------------------- forwarding observables
class Forward(Op):
    """every notification reaches the matching callback once with its content; absent callbacks are ignored"""
    stub_safe = False
    via = "observer"           # how the subscriber is given
    must_cover = ("xs.N", "xs.E", "xs.C", "out.N", "out.E", "out.C")
    have = (True, True, True)

    def wrap(self, w, src):
        return src

    def build(self, w):
        return self.wrap(w, self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        if self.have["NEC".index(k)]:
            self.expect(w, k, v)

    def setup(self, w):
        obs = self.build(w)
        self.built(w, obs)
        w.spawn(self.subscribe(w, obs), "subscribe", self.subscribed)

    def callbacks(self, w):
        o = w.out

        async def f(v):
            await o.asend(v)

        async def g(e):
            await o.athrow(e)

        async def h():
            await o.aclose()
        return [x if y else None for x, y in zip((f, g, h), self.have)]

    def subscribe(self, w, obs):
        v = self.via
        if v == "observer":
            return obs.subscribe_async(w.out)
        fs = self.callbacks(w)
        if v == "functions":
            return obs.subscribe_async(*fs)
        if v == "keywords":
            return obs.subscribe_async(**{k: f for k, f in zip(("send", "throw", "close"), fs) if f is not None})
        if v == "anonymous":
            return obs.subscribe_async(rx.AsyncAnonymousObserver(*fs))
        if v == "notification":
            async def n(x):
                await self.notified(w, x)
            return obs.subscribe_async(rx.AsyncNotificationObserver(n))
        assert v == "pipe"
        return rx.subscribe_async(w.out)(obs)

    async def notified(self, w, x):
        if isinstance(x, OnNext):
            await w.out.asend(x.value)
        elif isinstance(x, OnError):
            await w.out.athrow(x.exception)
        else:
            w.require(isinstance(x, OnCompleted), "a notification is a value, an error or the completion")
            await w.out.aclose()

    def at_quiet(self, w):
        if w.g.disposed and self.settled(w):
            st = w.src["xs"]
            if st.ret:
                w.require(st.disposed or st.over, "disposing disposes the source's subscription")
        super().at_quiet(w)


def forward(name, wrap, **kw):
    have = kw.get("have", (True,) * 3)
    kw["must_cover"] = ("xs.N", "xs.E", "xs.C") + tuple("out." + k for k, h in zip("NEC", have) if h)
    cls = type("W_" + "".join(c if c.isalnum() else "_" for c in name), (Forward,), dict(name=name, wrap=wrap, release=False, **kw))
    cls.__module__ = __name__
    globals()[cls.__name__] = cls
    UNITS.append(cls.__name__)


WRAPS = {
    "AsyncRx": lambda u, w, s: A(s),
    "AsyncRx.create": lambda u, w, s: A.create(s),
    "as_chained": lambda u, w, s: rx.as_chained(s),
    "as_async_observable": lambda u, w, s: rx.as_async_observable(s),
    "AsyncRx.as_async_observable": lambda u, w, s: A(s).as_async_observable(),
    "AsyncAnonymousObservable": lambda u, w, s: rx.AsyncAnonymousObservable(s.subscribe_async),
    "AsyncIterableObservable": lambda u, w, s: rx.AsyncIterableObservable(s),
    "to_async_iterable": lambda u, w, s: L.to_async_iterable(s),
    "AsyncRx.to_async_iterable": lambda u, w, s: A(s).to_async_iterable(),
}
for _n, _wr in WRAPS.items():
    for _v in ("observer", "functions", "keywords", "pipe") if _n in ("AsyncRx", "AsyncAnonymousObservable", "AsyncIterableObservable") else ("observer", "functions"):
        forward(f"{_n} subscribed with {_v}", _wr, via=_v)
for _v in ("anonymous", "notification"):
    forward(f"{_v} observer", WRAPS["AsyncRx"], via=_v)
for _h in range(7):
    _have = (bool(_h & 1), bool(_h & 2), bool(_h & 4))
    for _v in ("anonymous", "keywords"):
        forward(f"{_v} with {''.join(k for k, x in zip('NEC', _have) if x) or 'nothing'}", WRAPS["AsyncAnonymousObservable"], via=_v, have=_have)


class SubjectForms(Forward):
    """subscribing to a subject with functions"""
    via = "functions"
    disposes = False
    make = staticmethod(lambda: rx.AsyncSubject())
    must_cover = ("out.N", "out.E", "out.C")

    def build(self, w):
        w.subj = self.make()
        w.src["xs"].obv = w.subj
        return w.subj


class F_subject(SubjectForms):
    name = "AsyncSubject subscribed with functions"


class F_subject_kw(SubjectForms):
    name = "AsyncSubject subscribed with keywords"
    via = "keywords"


class F_single_subject(SubjectForms):
    name = "AsyncSingleSubject subscribed with functions"
    make = staticmethod(lambda: rx.AsyncSingleSubject())


class F_single_subject_kw(F_single_subject):
    name = "AsyncSingleSubject subscribed with keywords"
    via = "keywords"


UNITS += ["F_subject", "F_subject_kw", "F_single_subject", "F_single_subject_kw"]


# ---------------------------------------------------------------- notifications
class Notes(Unit):
    """accept calls the one matching function with the content; == is equality of kind and content"""
    name = "Notification"
    must_cover = ("N", "E", "C", "equal", "different", "foreign")

    def init(self, w):
        w.g = Ghost()
        w.g.got = []
        w.out = XObserver(w, "out", 1)

    def make(self, w):
        k = "NEC"[w.path.choose(3, "kind")]
        if k == "N":
            v = w.value("v")
            return k, v, OnNext(v)
        if k == "E":
            v = w.error()
            return k, v, OnError(v)
        return k, None, OnCompleted()

    def setup(self, w):
        p = w.path
        k, v, a = self.make(w)
        w.k, w.v = k, v
        what = p.choose(3, "what")
        if what == 0:
            k2, v2, b = self.make(w)
            if k == k2 == "E" and p.choose(2, "same"):
                v2, b = v, OnError(v)
            eq = (v is v2) if k == "E" else True if k == "C" else v == v2
            r, r2 = a == b, a != b
            if k == k2:
                w.require(same_truth(r, eq), "notifications of one kind are equal exactly when their contents are")
                w.require(same_truth(r2, vnot(eq)), "!= is the negation of ==")
                w.cover("equal")
            else:
                w.require(not r and r2, "notifications of different kinds differ")
                w.cover("different")
            w.require(not (a == 1) and not (a == v if k == "N" and v is not None else False), "a notification differs from other objects")
            w.cover("foreign")
            w.g.got = None
        elif what == 1:
            async def f(v):
                await self.got(w, "N", v)

            async def g(e):
                await self.got(w, "E", e)

            async def h():
                await self.got(w, "C", None)
            w.spawn(a.accept(f, g, h), "accept")
        else:
            w.spawn(a.accept_observer(w.out), "accept")

    async def got(self, w, k, v):
        self.check(w, k, v)

    def check(self, w, k, v):
        w.require(k == w.k, "the function of the notification's kind is called")
        if k != "C":
            w.require(same(v, w.v), "with its content")
        w.require(not w.g.got, "once")
        w.g.got.append(k)
        w.cover(k)

    def on_call(self, w, name, target, args):
        self.check(w, {"asend": "N", "athrow": "E", "aclose": "C"}[name], args[0] if args else None)
        return ("ret", None)

    def at_quiet(self, w):
        if w.g.got is not None:
            w.require(w.g.got == [w.k], "the matching function is called once")


def vnot(x):
    return mkbool(z3.Not(x.t)) if isinstance(x, SymBool) else not x


def same_truth(a, b):
    x, y = boolterm(a), boolterm(b)
    return mkbool(x == y)


UNITS += ["Notes"]


# ---------------------------------------------------------------- to_observable
class RxObservable:
    """contract of reactivex.create(subscribe): an observable that calls subscribe(observer, scheduler)"""

    def __init__(self, subscribe):
        self.sub = subscribe


class RxDisposable:
    """contract of reactivex.disposable.Disposable: dispose runs the action once"""

    def __init__(self, action=None):
        self.action, self.done = action, False

    def dispose(self):
        if not self.done:
            self.done = True
            if self.action is not None:
                self.action()


class RxShim:
    @staticmethod
    def create(subscribe):
        return RxObservable(subscribe)
    Observable = RxObservable


if hasattr(L, "reactivex"):
    L.reactivex = RxShim
if hasattr(L, "Disposable"):
    L.Disposable = RxDisposable
if hasattr(L, "Observable"):
    L.Observable = RxObservable


class RxObv:
    __vskip__ = ("world",)

    def __init__(self, world):
        self.world = world

    def on_next(self, v):
        self.world.unit.on_out(self.world, "N", v)

    def on_error(self, e):
        self.world.unit.on_out(self.world, "E", e)

    def on_completed(self):
        self.world.unit.on_out(self.world, "C", None)


class ToObservable(Op):
    """values, error and completion are forwarded; dispose releases the source, also while it is being subscribed"""
    name = "to_observable"
    stub_safe = False
    release = False
    must_cover = ("out.N", "out.E", "out.C", "released", "subscribed")

    def build(self, w):
        return L.to_observable(self.source(w, "xs"))

    def setup(self, w):
        o = self.build(w)
        if not isinstance(o, RxObservable):
            raise w.path.stop(Unsupported("to_observable does not use reactivex.create"))
        w.o = RxObv(w)
        w.sub = o.sub(w.o, None)
        w.require(hasattr(w.sub, "dispose"), "subscribing returns a disposable")
        w.cover("subscribed")

    def do_dispose(self, w):
        w.g.disposed = True
        w.note("dispose")
        w.sub.dispose()

    def on_source(self, w, s, k, v):
        self.expect(w, k, v)

    def at_quiet(self, w):
        st = w.src["xs"]
        w.require(st.sub == 1, "the source is subscribed")
        if w.g.disposed and st.ret and self.settled(w):
            w.require(st.disposed or st.over, "dispose releases the source")
            w.cover("released")
        super().at_quiet(w)


UNITS += ["ToObservable"]
