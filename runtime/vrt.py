"""Concrete side of the checks: the real code of $VERIF_REPO on a deterministic virtual-time loop.

Nothing here decides a proof.  It is used to (a) replay counterexamples of the
verifier on the real code, (b) stand in, as a bounded check, for functions the
verifier cannot reach, (c) cross-check the contracts against CPython.
"""
import asyncio

try:
    import reactivex  # noqa: F401  (before the clock is replaced: not part of the code under test)
except ImportError:
    pass
import datetime as _dt
import os
import sys
import time as _time

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

EPOCH = _dt.datetime(2020, 1, 1, tzinfo=_dt.timezone.utc)
CUR = {"loop": None}


KNOWN = set()
SEEN_KNOWN = {}
for _l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")):
    if _l.startswith("known:"):
        KNOWN.add(_l.split("id=")[1].split()[0])


class Hang(BaseException):
    pass


class Deadlock(BaseException):
    pass


class _Sel:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        lp = self.loop
        lp.iters += 1
        if lp.iters > lp.max_iters:
            raise Hang("livelock: too many event loop iterations")
        if timeout is None:
            raise Deadlock("deadlock: nothing can ever run again")
        if timeout > 0 and lp._scheduled:
            lp._now = max(lp._now, lp._scheduled[0]._when)
        return []

    def close(self):
        pass


class VLoop(asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._now = 0.0
        self.iters = 0
        self.max_iters = 200000
        self._selector = _Sel(self)
        self.errors = []
        self.set_exception_handler(lambda l, c: self.errors.append(c))

    def time(self):
        return self._now

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        pass


def vnow():
    lp = CUR["loop"]
    return lp._now if lp is not None else 0.0


_real_monotonic = _time.monotonic
_real_time = _time.time


class _VDT(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        if CUR["loop"] is None:
            return _dt.datetime.fromtimestamp(_real_time(), tz)
        d = EPOCH + _dt.timedelta(seconds=vnow())
        return d.astimezone(tz) if tz is not None else d.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return (EPOCH + _dt.timedelta(seconds=vnow())).replace(tzinfo=None)


def install():
    _dt.datetime = _VDT
    _time.monotonic = lambda: vnow() if CUR["loop"] is not None else _real_monotonic()
    _time.time = lambda: (EPOCH.timestamp() + vnow()) if CUR["loop"] is not None else _real_time()


install()
import logging

logging.disable(logging.CRITICAL)
import aioreactive as rx  # noqa: E402
from aioreactive import AsyncObservable, AsyncObserver  # noqa: E402
from expression.system import AsyncDisposable, ObjectDisposedException  # noqa: E402


class Err(Exception):
    """A user error; identified by its number, compared by identity."""

    def __init__(self, n):
        super().__init__(n)
        self.n = n

    def __repr__(self):
        return f"Err({self.n})"


class WideErr(Err, TimeoutError, ConnectionError, ValueError, KeyError, IndexError, ZeroDivisionError, AssertionError,
              NotImplementedError, asyncio.InvalidStateError, ObjectDisposedException):
    """A user error that is an instance of many exception classes: no clause may treat it specially."""

    def __init__(self, n):
        TimeoutError.__init__(self, n)
        self.n = n

    __str__ = __repr__ = Err.__repr__


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, BaseException):
        return False
    return a == b


def same_ev(a, b):
    return a[0] == b[0] and (a[0] == "C" or same(a[1], b[1]))


def same_seq(xs, ys):
    return len(xs) == len(ys) and all(same_ev(x, y) for x, y in zip(xs, ys))


class Rt:
    """One execution."""
    count = 0

    def __init__(self):
        self.loop = VLoop()
        self.log = []  # global order of everything
        self.errs = {}
        Rt.count += 1
        self.errcls = Err if Rt.count % 3 else WideErr
        self.fails = []
        self.bg = []

    def err(self, n):
        if n not in self.errs:
            self.errs[n] = self.errcls(n)
        return self.errs[n]

    def fail(self, msg):
        self.fails.append(msg)

    def known(self, ident, msg):
        """a listed finding (known_findings.txt); anything not listed there counts as a failure"""
        if ident in KNOWN:
            SEEN_KNOWN[ident] = msg
        else:
            self.fails.append(msg)

    def expect(self, cond, msg):
        if not cond:
            self.fails.append(msg)

    @property
    def now(self):
        return self.loop._now

    async def settle(self, n=5000):
        for _ in range(n):
            await asyncio.sleep(0)
            if not self.loop._ready:
                return
        raise Hang("livelock: event loop never becomes idle")

    async def gap(self, g):
        if g == "-":
            return
        if g == "0":
            await asyncio.sleep(0)
        elif g == "q":
            await self.settle()
        else:
            await asyncio.sleep(float(g))

    def spawn(self, coro):
        t = self.loop.create_task(coro)
        self.bg.append(t)
        return t

    def run(self, mk):
        CUR["loop"] = self.loop
        asyncio.set_event_loop(self.loop)
        try:
            import signal

            def alarm(*a):
                raise Hang("the event loop is blocked by a synchronous loop")

            old = signal.signal(signal.SIGALRM, alarm)
            signal.setitimer(signal.ITIMER_REAL, 20)
            try:
                self.loop.run_until_complete(mk(self))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
        except (Hang, Deadlock) as ex:
            self.fails.append(f"{type(ex).__name__}: {ex}")
        finally:
            CUR["loop"] = None
            try:
                for t in asyncio.all_tasks(self.loop):
                    t._log_destroy_pending = False
            except Exception:
                pass
            self.loop._ready.clear()
            self.loop._scheduled.clear()
            asyncio.set_event_loop(None)
            self.loop.close()
        return self.fails


class Sub:
    def __init__(self, src, obv, t):
        self.src, self.obv, self.t = src, obv, t
        self.disposed = []
        self.term = False


class Src(AsyncObservable):
    """A controllable source that records its subscriptions."""

    def __init__(self, rt, name="s", prelude=(), slow=0):
        self.rt, self.name, self.prelude, self.slow = rt, name, prelude, slow
        self.subs = []

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        sub = Sub(self, obv, self.rt.now)
        self.subs.append(sub)
        self.rt.log.append(("sub", self.name, len(self.subs) - 1, self.rt.now))
        if self.slow:
            await asyncio.sleep(self.slow)
        for k, v in self.prelude:
            await self.emit(k, v, sub)
        n = len(self.subs) - 1

        async def dispose():
            sub.disposed.append(self.rt.now)
            self.rt.log.append(("disp", self.name, n, self.rt.now))

        return AsyncDisposable.create(dispose)

    async def emit(self, k, v=None, sub=None):
        if sub is None:
            if not self.subs:
                return
            sub = self.subs[-1]
        if k == "N":
            await sub.obv.asend(v)
        elif k == "E":
            sub.term = True
            await sub.obv.athrow(v)
        else:
            sub.term = True
            await sub.obv.aclose()

    def leaked(self):
        return [i for i, s in enumerate(self.subs) if not s.term and not s.disposed]


class Rec(AsyncObserver):
    """Recording observer.  mode: ("fast",) ("slow", t) ("yield",) ("raise", k, errno)"""

    def __init__(self, rt, mode=("fast",), name="o"):
        self.rt, self.mode, self.name = rt, tuple(mode), name
        self.got = []  # (kind, value)
        self.times = []
        self.busy = False
        self.overlap = False
        self.nvals = 0

    async def _on(self, k, v):
        if self.busy:
            self.overlap = True
        self.busy = True
        self.got.append((k, v) if k != "C" else ("C",))
        self.times.append(self.rt.now)
        self.rt.log.append(("out", self.name, k, v, self.rt.now))
        try:
            if self.mode[0] == "slow":
                await asyncio.sleep(self.mode[1])
            elif self.mode[0] == "yield":
                await asyncio.sleep(0)
            elif self.mode[0] == "raise" and k == "N":
                self.nvals += 1
                if self.nvals - 1 == self.mode[1]:
                    raise self.rt.err(self.mode[2])
        finally:
            self.busy = False
            self.rt.log.append(("ret", self.name, k, v, self.rt.now))

    async def asend(self, value):
        await self._on("N", value)

    async def athrow(self, error):
        await self._on("E", error)

    async def aclose(self):
        await self._on("C", None)


def upto_terminal(evs):
    out = []
    for e in evs:
        out.append(e)
        if e[0] in "EC":
            break
    return out
