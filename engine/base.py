"""Units: the contract of one public operator, as a ghost automaton over its environment.

`Op` is the common protocol: named sources, one output observer, optional stubs for
the callees' contracts, expectations ("owed" notifications) and release obligations.
"""
import asyncio
import sys

import z3

from . import frame, load
from .state import seqterm
from .sym import *
from .world import AsyncDisposable, OnCompleted, OnError, OnNext, World, XDisp, XObservable, XObserver, rx, show

I = z3.IntVal


class Ghost:
    pass


class Unit:
    name = "unit"
    must_cover = ()
    timed = False
    sums = True           # candidate invariants a + b == c between integers
    stub_safe = False
    stubs = None
    cur_world = None
    expects = ()          # exceptions of the kind a verifier limitation might raise, that this contract speaks about

    wide_errors = True    # errors of two kinds: an instance of Exception only, and an instance of many classes
    fine = False          # events happen between any two steps of the event loop, not only when it is idle
    replayable = True     # a counterexample can be replayed by running the unit on its concrete values

    def params(self):
        return []

    def assumptions(self):
        return []

    def init(self, w):
        w.g = Ghost()

    def setup(self, w):
        raise NotImplementedError

    frame = False         # check that subscriptions do not change the built observable (C22)

    def built(self, w, obs):
        if self.frame:
            w.fobs = obs
            frame.take(w, obs)

    def quiet(self, w):
        self.at_quiet(w)
        if self.frame:
            frame.check(w)

    def events(self, w):
        return []

    def before_event(self, w, name):
        pass

    def on_call(self, w, name, target, args):
        return None

    def on_exception(self, w, role, ex):
        w.require(False, f"{role}: unexpected {type(ex).__name__}")

    def at_quiet(self, w):
        pass

    def terms(self, w):
        return []


# ---------------------------------------------------------------- contract stubs of safe_observer / auto_detach_observer
class SafeStub(rx.AsyncObserver):
    """contract of safe_observer (proved as unit SafeObserver for C01): what is issued reaches the
    observer once, in order, up to the first terminal; the subscriptions are disposed at the terminal"""
    __vskip__ = ("world",)

    def __init__(self, world, obv):
        self.world, self.obv = world, obv
        self.term = False
        self.disps = []
        self.q = []
        self.busy = False

    def put(self, k, v):
        w = self.world
        if self.obv is w.out:
            w.unit.on_issue(w, self.obv, k, v)
            return
        self.q.append(OnNext(v) if k == "N" else OnError(v) if k == "E" else OnCompleted())
        if not self.busy:
            self.busy = True
            w.loop.create_task(self.pump())

    async def pump(self):
        while self.q:
            n = self.q.pop(0)
            if isinstance(n, OnNext):
                try:
                    await self.obv.asend(n.value)
                except Exception as ex:
                    self.term = True
                    self.detach()
                    await self.obv.athrow(ex)
                    break
            elif isinstance(n, OnError):
                await self.obv.athrow(n.exception)
            else:
                await self.obv.aclose()
        self.busy = False

    async def asend(self, value):
        if not self.term:
            self.put("N", value)

    async def athrow(self, error):
        if not self.term:
            self.term = True
            self.detach()
            self.put("E", error)

    async def aclose(self):
        if not self.term:
            self.term = True
            self.detach()
            self.put("C", None)

    def detach(self):
        ds, self.disps = self.disps, []

        async def go():
            for d in ds:
                await d.dispose_async()
        if ds:
            self.world.loop.create_task(go())


def stub_auto_detach(world, obv):
    st = SafeStub(world, obv)

    async def auto_detach(co):
        d = await co
        st.disps.append(d)
        if st.term:
            st.detach()
        return d
    return st, auto_detach


def stub_safe(world, obv, disposable):
    st = SafeStub(world, obv)
    st.disps.append(disposable)
    return st


def install_stubs():
    import aioreactive.observers as ob
    o_ad, o_so = getattr(ob, "auto_detach_observer", None), getattr(ob, "safe_observer", None)

    def ad(obv):
        u = CUR_UNIT[0]
        if u is not None and u.stub_safe and u.cur_world is not None:
            return stub_auto_detach(u.cur_world, obv)
        return o_ad(obv)

    def so(obv, disposable):
        u = CUR_UNIT[0]
        if u is not None and u.stub_safe and u.cur_world is not None:
            return stub_safe(u.cur_world, obv, disposable)
        return o_so(obv, disposable)
    ad.__vreal__, so.__vreal__ = o_ad, o_so
    for n, m in list(sys.modules.items()):
        if n == "aioreactive" or n.startswith("aioreactive."):
            if m.__dict__.get("auto_detach_observer") is o_ad and o_ad is not None:
                m.__dict__["auto_detach_observer"] = ad
            if m.__dict__.get("safe_observer") is o_so and o_so is not None:
                m.__dict__["safe_observer"] = so


CUR_UNIT = [None]
install_stubs()


def stubbable(module, name):
    """let a unit replace this function by its contract (unit.stubs[name]) in every module that uses it"""
    import importlib
    m = importlib.import_module(module)
    real = m.__dict__.get(name)
    if real is None or hasattr(real, "__vreal__"):
        return

    def call(*a, **k):
        u = CUR_UNIT[0]
        f = u.stubs.get(name) if u is not None and u.stubs else None
        if f is not None and u.cur_world is not None:
            return f(u.cur_world, *a, **k)
        return real(*a, **k)
    call.__vreal__ = real
    call.__name__ = name
    for n, mod in list(sys.modules.items()):
        if (n == "aioreactive" or n.startswith("aioreactive.")) and mod.__dict__.get(name) is real:
            mod.__dict__[name] = call


# ---------------------------------------------------------------- user functions
class XFn(Boxable):
    """a user function: every call is reported to the unit, which decides its outcome"""
    vkind = "fn"
    __vskip__ = ("world",)

    def __init__(self, world, name="f", ident=30):
        self.world, self.name, self.ident, self.static = world, name, ident, True

    def __call__(self, *args):
        w = self.world
        w.note("call", self.name, *[show(a) for a in args])
        r = w.unit.on_fn(w, self, args)
        if r[0] == "raise":
            raise r[1]
        return r[1]


def afn(world, name="f", ident=31):
    """an async user function"""
    x = XFn(world, name, ident)
    x.is_async = True

    async def f(*args):
        w = x.world
        return await w.extcall("fn", x, *args)
    f.__dict__["x"] = x
    return f


# ---------------------------------------------------------------- operators over sources
class SrcSt:
    """what the environment knows about one source"""

    def __init__(self, name):
        self.name = name
        self.obv = None        # observer handed to the source
        self.sub = 0           # number of subscribe calls (concrete)
        self.ret = False       # subscribe call has returned
        self.over = False      # the source has sent its terminal
        self.disposed = False


class Op(Unit):
    """An operator from sources to one observer."""
    stub_safe = True
    sources = ("xs",)
    value_kinds = True            # source values may be None
    disposes = True               # explore dispose by the subscriber
    release = True                # check release of upstreams (C02)
    src_errors = True
    fn_suspend = True
    out_suspend = True
    check_exceptions = True
    bursts = False                # also explore two notifications issued back to back (nothing else runs in between)

    # --- to be given by the contract
    def build(self, w):
        raise NotImplementedError

    def on_source(self, w, s, kind, v):
        """spec: environment source s issues (kind, v); call self.expect(...)"""
        raise NotImplementedError

    # --- protocol
    def init(self, w):
        w.g = Ghost()
        w.g.term = False           # the output has terminated
        w.g.disposed = False       # the subscriber disposed
        w.g.closing = False        # the terminal is owed or sent
        w.g.exp = []               # owed notifications
        w.src = {}
        for i, s in enumerate(self.sources):
            x = XObservable(w, s, 10 + i)
            st = SrcSt(s)
            w.src[s] = st
            setattr(w, "o_" + s, x)
        w.out = XObserver(w, "out", 1)
        w.sub = None
        self.ghost(w)

    def ghost(self, w):
        pass

    def source(self, w, s):
        return getattr(w, "o_" + s)

    def setup(self, w):
        obs = self.build(w)
        self.built(w, obs)
        w.spawn(obs.subscribe_async(w.out), "subscribe", self.subscribed)

    @staticmethod
    def subscribed(w, r, ex):
        if ex is not None:
            w.require(False, f"subscribe raised {type(ex).__name__}")
        w.sub = r
        w.cover("subscribed")

    def events(self, w):
        ev = []
        if w.cut is not None:
            def go(w):
                p, w.cut = w.cut, None
                p.fut.set_result(None)
            return [("loop", go)]
        first = self.emissions(w)
        for s, k in first:
            ev.append((f"{s}.{k}", lambda w, s=s, k=k: self.emit(w, s, k)))
        if self.bursts:
            for s, k in first:
                for s2, k2 in first:
                    if (s2 != s or k == "N") and self.burst_ok(w, s, k, s2, k2):
                        ev.append((f"{s}.{k}+{s2}.{k2}", lambda w, a=(s, k), b=(s2, k2): self.emit2(w, a, b)))
        for i, p in enumerate(w.pend):
            ev.extend(self.resume_events(w, p, i))
        if self.disposes and w.sub is not None and not w.g.disposed:
            ev.append(("dispose", self.do_dispose))
        ev.extend(self.more_events(w))
        return ev

    def more_events(self, w):
        return []

    def burst_ok(self, w, s, k, s2, k2):
        return True

    def emissions(self, w):
        """notifications the sources may issue now"""
        out = []
        for s in self.sources:
            st = w.src[s]
            if st.obv is not None and not st.over and not st.disposed and "src:" + s not in w.calls:
                for k in ("N", "E", "C"):
                    if k == "E" and not self.src_errors:
                        continue
                    out.append((s, k))
        return out

    def emit2(self, w, a, b):
        (s, k), (s2, k2) = a, b
        w.cover("burst")
        if s != s2:
            self.emit(w, s, k)
            self.emit(w, s2, k2)
            return

        async def both():
            await self.issue(w, s, k)
            if not w.src[s].over and not w.src[s].disposed:
                await self.issue(w, s2, k2)
        w.spawn(both(), "src:" + s)

    def newvalue(self, w, s):
        return w.value("v")

    def emit(self, w, s, k):
        w.spawn(self.issue(w, s, k), "src:" + s)

    def issue(self, w, s, k):
        st = w.src[s]
        v = self.newvalue(w, s) if k == "N" else w.error() if k == "E" else None
        w.note(s, k, show(v))
        if k != "N":
            st.over = True
        if not w.g.term and not w.g.disposed:
            self.on_source(w, s, k, v)
        w.cover(f"{s}.{k}")
        m = st.obv
        return m.asend(v) if k == "N" else m.athrow(v) if k == "E" else m.aclose()

    def do_dispose(self, w):
        w.g.disposed = True
        w.note("dispose")
        self.on_dispose(w)
        w.spawn(w.sub.dispose_async(), "dispose")

    def on_dispose(self, w):
        pass

    def resume_events(self, w, p, i):
        n = p.name
        if n == "subscribe":
            return [(f"{p.target.name}.subscribed", lambda w, p=p: self.sub_return(w, p))]
        if n in ("asend", "athrow", "aclose"):
            return [("out.return", lambda w, p=p: w.resume(p))]
        if n == "dispose":
            return [("disposed.return", lambda w, p=p: w.resume(p))]
        if n == "fn":
            return self.fn_events(w, p)
        return []

    def sub_return(self, w, p):
        st = w.src[p.target.name]
        st.ret = True
        w.resume(p, XDisp(w, "d_" + st.name, 50 + self.sources.index(st.name)))

    def on_call(self, w, name, target, args):
        if name == "subscribe":
            st = w.src[target.name]
            st.sub += 1
            w.require(st.sub == 1, f"{target.name} is subscribed once")
            st.obv = args[0]
            return ("susp",)
        if name == "dispose":
            s = target.name[2:]
            w.src[s].disposed = True
            return ("ret", None)
        if name in ("asend", "athrow", "aclose"):
            self.on_out(w, {"asend": "N", "athrow": "E", "aclose": "C"}[name], args[0] if args else None)
            return ("susp",) if self.out_suspend else ("ret", None)
        if name == "fn":
            return self.on_fn(w, target, args)
        return ("susp",)

    def on_issue(self, w, obv, k, v):
        """notification handed to the serialised output"""
        self.on_out(w, k, v)

    # --- expectations
    def expect(self, w, k, v=None):
        """the output owes this notification"""
        if not w.g.closing:
            w.g.exp.append((k, v))
            if k != "N":
                w.g.closing = True

    def on_out(self, w, k, v):
        w.note("out", k, show(v))
        g = w.g
        if g.disposed:
            return
        if g.term:
            w.require(False, f"nothing is sent after the terminal (got {k})")
            return
        if not g.exp:
            w.require(False, f"no notification is owed (got {k})")
            return
        ek, ev = g.exp.pop(0)
        if ek != k:
            w.require(False, f"{ek} is owed, got {k}")
            return
        if k != "C":
            w.require(same(v, ev), f"{k} carries the owed content")
        else:
            w.require(True, "the completion is owed")
        if k != "N":
            g.term = True
        w.cover("out." + k)

    def terminated(self, w):
        """spec decided: terminal owed; call after expect"""

    def at_quiet(self, w):
        g = w.g
        if g.exp and not g.disposed and not self.may_owe(w):
            w.require(False, f"owed notification {g.exp[0][0]} was not sent")
        if g.disposed:
            g.exp.clear()
        if self.release and (g.term or g.disposed) and self.settled(w):
            for s in self.sources:
                st = w.src[s]
                if st.ret:
                    w.require(st.disposed or st.over, f"C02 upstream {s} is released after "
                              + ("termination" if g.term else "dispose"))
                    w.cover("released")
        self.forget(w)

    def forget(self, w):
        """the environment drops the handles it will not use again"""
        for s in self.sources:
            st = w.src[s]
            if (st.over or st.disposed) and st.ret and "src:" + s not in w.calls:
                st.obv = None
        if w.g.disposed and "dispose" not in w.calls:
            w.sub = None

    def settled(self, w):
        return not w.calls and not w.pend and w.cut is None

    def may_owe(self, w):
        return bool(w.pend) or w.cut is not None


def same(a, b):
    """identity of contents (the value passed through unchanged)"""
    if a is b:
        return True
    try:
        x, y = box(a), box(b)
    except Unsupported:
        Cur.path.abort = None
        return False
    if x.eq(y):
        return True
    return mkbool(x == y)
