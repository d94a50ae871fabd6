"""The environment of a verification unit: event loop, sources, observers, functions."""
import asyncio
import contextvars
import os
import sys

import z3

from . import load, sym, vtime
from .sym import *

load.load()
import aioreactive as rx  # noqa: E402
from aioreactive.notification import Notification, OnCompleted, OnError, OnNext  # noqa: E402
from expression.system import AsyncDisposable  # noqa: E402

NOTE_CLS.append(Notification)


def _box_note(v):
    if isinstance(v, OnNext):
        return Val.VNote(z3.IntVal(0), box(v.value))
    if isinstance(v, OnError):
        return Val.VNote(z3.IntVal(1), box(v.exception))
    if isinstance(v, OnCompleted):
        return Val.VNote(z3.IntVal(2), VNone)
    return None


sym.BOXERS.append(_box_note)


def _unbox_note(t):
    p = Cur.path
    k = z3.simplify(Val.nk(t))
    p.assume(z3.And(Val.is_VNote(t), k >= 0, k <= 2))
    if p.branch(k == 0):
        return OnNext(unbox(Val.nv(t)))
    if p.branch(k == 1):
        return OnError(unbox(Val.nv(t), "error"))
    return OnCompleted()


sym.UNBOXERS["note"] = _unbox_note
sym.BOXERS.append(lambda v: Val.VTime(z3.ToReal(numterm(v.t)) if numterm(v.t).sort() == z3.IntSort() else numterm(v.t))
                  if isinstance(v, vtime.VDateTime) else None)
sym.UNBOXERS["time"] = vtime.VDateTime


class Handle:
    __vskip__ = ("context",)

    def __init__(self, cb, args, context):
        self.cb, self.args, self.context = cb, args, context or contextvars.copy_context()
        self.dead = False

    def cancel(self):
        self.dead = True

    def cancelled(self):
        return self.dead

    def run(self):
        self.context.run(self.cb, *self.args)


class Timer:
    __vskip__ = ("context", "loop", "fired")
    fired = None

    def __init__(self, loop, when, cb, args, context):
        self.loop, self.due, self.cb, self.args = loop, when, cb, args
        self.context = context or contextvars.copy_context()

    def cancel(self):
        if self in self.loop.world.timers:
            self.loop.world.timers.remove(self)
        if self.fired is not None:
            self.fired.dead = True

    def cancelled(self):
        return self not in self.loop.world.timers

    def when(self):
        return self.due

    def __hash__(self):
        return id(self)


class Loop(asyncio.AbstractEventLoop):
    def __init__(self, world):
        self.world = world
        self.ready = []

    def call_soon(self, cb, *args, context=None):
        h = Handle(cb, args, context)
        self.ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, cb, *args, context=None):
        return self.call_at(self.time() + delay, cb, *args, context=context)

    def call_at(self, when, cb, *args, context=None):
        t = Timer(self, when, cb, args, context)
        self.world.timers.append(t)
        return t

    def time(self):
        return self.world.now

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio.Task(coro, loop=self, name="t", context=context)

    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def call_exception_handler(self, ctx):
        pass

    def get_exception_handler(self):
        return None

    def set_exception_handler(self, h):
        pass


# ------------------------------------------------------------------ environment objects
class XObserver(rx.AsyncObserver, Boxable):
    vkind = "observer"
    __vskip__ = ("world",)

    def __init__(self, world, name, ident, static=True):
        self.world, self.name, self.ident, self.static = world, name, ident, static

    def __eq__(self, o):
        if not isinstance(o, XObserver):
            return False
        return vis(self, o)

    __hash__ = object.__hash__

    async def asend(self, value):
        await self.world.extcall("asend", self, value)

    async def athrow(self, error):
        await self.world.extcall("athrow", self, error)

    async def aclose(self):
        await self.world.extcall("aclose", self)


class XDisp(AsyncDisposable, Boxable):
    vkind = "disposable"
    __vskip__ = ("world",)

    def __init__(self, world, name, ident, static=True):
        self.world, self.name, self.ident, self.static = world, name, ident, static

    def __eq__(self, o):
        if not isinstance(o, XDisp):
            return False
        return vis(self, o)

    __hash__ = object.__hash__

    async def dispose_async(self):
        await self.world.extcall("dispose", self)


class XObservable(rx.AsyncObservable, Boxable):
    vkind = "observable"
    __vskip__ = ("world",)

    def __init__(self, world, name, ident, static=True):
        self.world, self.name, self.ident, self.static = world, name, ident, static

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, rx.AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        return await self.world.extcall("subscribe", self, obv)


class Pending:
    """an external call that has not returned yet"""
    __vskip__ = ("world",)

    def __init__(self, name, target, args, fut):
        self.name, self.target, self.args, self.fut = name, target, args, fut


class Req:
    def __init__(self, label, cond, pc, trace):
        self.label, self.cond, self.pc, self.trace = label, cond, pc, trace


ENGINE_SUSPECT = (TypeError, AttributeError, NotImplementedError, SystemError)
_CODE = os.path.join(load.REPO, "aioreactive") + os.sep


def watch_raises():
    """notes when the code under verification meets an error that may come from a C function refusing a symbolic
    operand, even if the code swallows it: such a path is never a verdict"""
    m = sys.monitoring
    try:
        m.use_tool_id(4, "vraises")
    except ValueError:
        return

    def raised(code, off, ex):
        if isinstance(ex, ENGINE_SUSPECT) and not isinstance(ex, ExtError) and code.co_filename.startswith(_CODE):
            p = Cur.path
            if p is not None and p.suspect is None and Replay.model is None:
                p.suspect = ex
    m.register_callback(4, m.events.RAISE, raised)
    m.set_events(4, m.events.RAISE)


watch_raises()


class World:
    proving = False
    eager = False
    midstep = False           # an event between two steps of the event loop (no time passes)
    __vskip__ = ("loop", "unit", "path", "trace", "reqs", "exc", "spawned", "covers", "segment", "cutfut_any",
                 "in_event", "outcome", "replaying", "evk", "eager", "proving", "midstep")

    def __init__(self, unit, path):
        self.unit, self.path = unit, path
        self.replaying = False
        unit.cur_world = self
        Cur.path = path
        self.loop = Loop(self)
        self.now = 0.0
        self.timers = []
        self.pend = []
        self.cut = None
        self.calls = {}          # role -> in-flight env call (task)
        self.trace = []
        self.reqs = []
        self.covers = set()
        self.exc = []
        self.nid = 100
        self.roots = []
        asyncio._set_running_loop(self.loop)
        vtime.Clock.now = staticmethod(lambda: self.now)
        load.Hooks.cut = self.cutpoint
        sym.UNBOXERS["observer"] = lambda i: XObserver(self, "obv", i, static=False)
        sym.UNBOXERS["disposable"] = lambda i: XDisp(self, "disp", i, static=False)
        sym.UNBOXERS["observable"] = lambda i: XObservable(self, "obs", i, static=False)

    # -- values
    def value(self, name="v", none=True):
        t = self.path.fresh(name, Val)
        if none and self.path.choose(2, name) == 1:
            return None
        self.path.assume(z3.Not(Val.is_VNone(t)))
        return Opq(t)

    def error(self, name="e"):
        t = self.path.fresh(name, z3.IntSort())
        wide = self.unit.wide_errors and self.path.choose(2, "class of " + name) == 1
        if not self.path.replay:
            self.path.assume(WideE(t) == wide)
        return (WideError if wide else ExtError)(SymInt(t))

    def int(self, name="i"):
        return SymInt(self.path.fresh(name, z3.IntSort()))

    # -- obligations
    def require(self, cond, label):
        if self.replaying:
            return
        t = boolterm(cond)
        self.reqs.append(Req(label, t, list(self.path.pc), list(self.trace)))
        # continue under the assumption that it holds (it is reported if it does not)
        if not z3.is_true(z3.simplify(t)):
            if z3.is_false(z3.simplify(t)):
                raise self.path.stop(PathEnd("failed obligation"))
            if not self.path.sat(t):
                raise self.path.stop(PathEnd("failed obligation"))
            self.path.assume(t)

    def cover(self, label):
        self.covers.add(label)

    def note(self, *a):
        self.trace.append(" ".join(str(x) for x in a))

    # -- external calls
    async def extcall(self, name, target, *args):
        self.note("ext", name, getattr(target, "name", target), *[show(a) for a in args])
        act = self.unit.on_call(self, name, target, args)
        if act is None:
            act = ("susp",)
        if act[0] == "ret":
            return act[1]
        if act[0] == "raise":
            raise act[1]
        fut = self.loop.create_future()
        p = Pending(name, target, args, fut)
        if len(act) > 1:
            p.role = act[1]
        self.pend.append(p)
        try:
            return await fut
        except asyncio.CancelledError:
            if p in self.pend:
                self.pend.remove(p)
            raise

    async def cutpoint(self, is_while):
        flag = self.path.__dict__.pop("cutflag", False)
        if is_while:
            flag = self.path.__dict__.pop("popflag", False) or flag
        if not flag or Replay.model is not None:
            return
        fut = self.loop.create_future()
        self.cut = Pending("cut", None, (), fut)
        await fut

    def resume(self, p, value=None, exc=None):
        self.pend.remove(p)
        if exc is not None:
            p.fut.set_exception(exc)
        else:
            p.fut.set_result(value)

    # -- running
    def spawn(self, coro, role, done=None):
        """an environment-side call into the code"""
        async def runner():
            try:
                r = await coro
            except (Unsupported, PathEnd):
                raise
            except asyncio.CancelledError as ex:
                self.calls.pop(role, None)
                if done:
                    done(self, None, ex)
            except Exception as ex:
                self.calls.pop(role, None)
                if isinstance(ex, ENGINE_SUSPECT) and not isinstance(ex, ExtError) and not isinstance(ex, self.unit.expects) and self.proving:
                    # possibly a C function refusing a symbolic operand: never a verdict (a concrete replay decides)
                    raise self.path.stop(Unsupported(f"{role}: {type(ex).__name__}: {ex}"[:200]))
                if done:
                    done(self, None, ex)
                else:
                    self.unit.on_exception(self, role, ex)
            else:
                self.calls.pop(role, None)
                if done:
                    done(self, r, None)
        n = len(self.loop.ready)
        self.calls[role] = self.loop.create_task(runner())
        if self.unit.fine and self.eager:
            # the caller's task may have been scheduled at any earlier time: it runs now
            h = self.loop.ready.pop(n)
            h.run()

    def drain(self):
        n = 0
        inject = self.unit.fine
        while self.loop.ready:
            if inject:
                # the environment may act between any two steps of the event loop (once per segment)
                self.pend = [p for p in self.pend if not p.fut.done()]
                evs = [] if self.cut is not None else self.unit.events(self)
                k = self.path.choose(len(evs) + 1, "interleave")
                if k:
                    inject = False
                    self.note("-- interleaved", evs[k - 1][0])
                    self.midstep = True
                    self.unit.before_event(self, evs[k - 1][0])
                    self.midstep = False
                    self.eager = True
                    evs[k - 1][1](self)
                    self.eager = False
                    self.cover("interleaved")
                    continue
            self.tick(1)
            n += 1
            if n > 3000:
                raise self.path.stop(Unsupported("no quiescence"))

    def tick(self, n):
        h = self.loop.ready.pop(0)
        if not h.dead:
            h.run()
        if self.path.abort is not None:
            raise self.path.abort


def show(v):
    if isinstance(v, Sym):
        return str(v.t)
    if isinstance(v, ExtError):
        return f"err({show(v.ident)})"
    if isinstance(v, tuple):
        return "(" + ",".join(show(x) for x in v) + ")"
    return type(v).__name__ if not isinstance(v, (int, str, type(None), bool)) else repr(v)
