"""C15: creation functions."""
import sys

import z3

from ..base import *
from .combine import XIterable
from .timed import advance, timer_events

K = sys.modules["aioreactive.create"]


class Source(Op):
    """a creation function: no upstream"""
    sources = ()
    release = False
    quiet_after_dispose = False

    def on_out(self, w, k, v):
        if w.g.disposed and self.quiet_after_dispose:
            w.require(False, f"nothing is delivered after dispose (got {k})")
        super().on_out(w, k, v)


class OfSeq(Source):
    """every item once, in order, then completion; the iterable's exception is the terminal error"""
    name = "from_iterable"
    must_cover = ("out.N", "out.C", "out.E", "subscribed")

    def build(self, w):
        return rx.from_iterable(XIterable(w))

    def next_item(self, w):
        g = w.g
        c = w.path.choose(3, "item")
        if c == 0:
            w.path.cutflag = True
            it = w.value("item")
            if not g.disposed:
                self.expect(w, "N", it)
            return it
        if c == 1:
            self.expect(w, "C")
            raise StopIteration
        e = w.error()
        self.expect(w, "E", e)
        raise e


class XAIter:
    __vskip__ = ("world",)

    def __init__(self, world):
        self.world = world

    def __aiter__(self):
        self.world.unit.on_iter(self.world)
        return self

    async def __anext__(self):
        return await self.world.extcall("anext", self)


class OfAsyncIterable(Source):
    """every item once, in order, then completion; the iterable's exception is the terminal error"""
    name = "from_async_iterable"
    must_cover = ("out.N", "out.C", "out.E", "subscribed", "dispose")
    quiet_after_dispose = True

    def build(self, w):
        return rx.from_async_iterable(XAIter(w))

    def on_iter(self, w):
        pass

    def on_dispose(self, w):
        w.cover("dispose")

    def on_call(self, w, name, target, args):
        if name == "anext":
            w.require(not w.g.exp, "an item is taken after the previous one was delivered")
            return ("susp",)
        return super().on_call(w, name, target, args)

    def resume_events(self, w, p, i):
        if p.name != "anext":
            return super().resume_events(w, p, i)

        def item(w):
            v = w.value("item")
            self.expect(w, "N", v)
            w.resume(p, v)

        def end(w):
            self.expect(w, "C")
            w.resume(p, None, StopAsyncIteration())

        def fail(w):
            e = w.error()
            self.expect(w, "E", e)
            w.resume(p, None, e)
        return [("item", item), ("end", end), ("fail", fail)]


class Single(Source):
    """the value, then completion"""
    name = "single"
    must_cover = ("out.N", "out.C", "subscribed")

    def build(self, w):
        v = w.value("v")
        self.expect(w, "N", v)
        self.expect(w, "C")
        return rx.single(v)


class Empty(Source):
    """completion"""
    name = "empty"
    must_cover = ("out.C", "subscribed")

    def build(self, w):
        self.expect(w, "C")
        return rx.empty()


class Never(Source):
    """nothing"""
    name = "never"
    must_cover = ("subscribed",)

    def build(self, w):
        return rx.never()

    def at_quiet(self, w):
        w.require(not w.timers, "nothing is pending")
        super().at_quiet(w)


class Fail(Source):
    """the error"""
    name = "fail"
    must_cover = ("out.E", "subscribed")

    def build(self, w):
        e = w.error()
        self.expect(w, "E", e)
        return K.fail(e)


class OfAsync(Source):
    """the awaited result, then completion; or its exception"""
    name = "from_async"
    must_cover = ("out.N", "out.C", "out.E", "subscribed")

    def build(self, w):
        x = XFn(w, "workflow")
        return rx.from_async(w.extcall("workflow", x))

    def resume_events(self, w, p, i):
        if p.name != "workflow":
            return super().resume_events(w, p, i)

        def done(w):
            v = w.value("r")
            self.expect(w, "N", v)
            self.expect(w, "C")
            w.resume(p, v)

        def fail(w):
            e = w.error()
            self.expect(w, "E", e)
            w.resume(p, None, e)
        return [("done", done), ("fail", fail)]


class Defer(Op):
    """the factory is called once, its observable subscribed; its exception is delivered"""
    name = "defer"
    must_cover = ("out.N", "out.C", "out.E", "subscribed", "raised", "xs.N", "xs.C", "released")
    check_exceptions = False

    def ghost(self, w):
        w.g.calls = 0

    def build(self, w):
        w.fn = XFn(w, "factory")
        r = rx.defer(w.fn)
        w.require(w.g.calls == 0, "the factory is not called before subscribing")
        return r

    def on_fn(self, w, f, args):
        w.g.calls += 1
        w.require(w.g.calls == 1, "the factory is called once")
        w.require(len(args) == 0, "the factory is called without arguments")
        if w.path.choose(2, "factory") == 0:
            return ("ret", self.source(w, "xs"))
        e = w.error()
        w.cover("raised")
        self.expect(w, "E", e)
        return ("raise", e)

    def on_source(self, w, s, k, v):
        self.expect(w, k, v)

    def at_quiet(self, w):
        if not w.g.disposed and not w.pend and not w.g.term:
            w.require(w.g.calls == 1, "the factory is called")
        super().at_quiet(w)


class Interval(Source):
    """0, 1, 2, ...: the first after d, each next one p later; with p = 0 only 0, then completion"""
    name = "interval"
    must_cover = ("out.N", "out.C", "timer", "subscribed", "dispose")
    timed = True
    out_suspend = False
    quiet_after_dispose = True
    period = z3.Real("p")

    def params(self):
        return [("d", "real", z3.Real("d")), ("p", "real", z3.Real("p"))]

    def assumptions(self):
        return [z3.Real("d") >= 0, z3.Real("p") >= 0]

    def ghost(self, w):
        w.g.i = 0
        w.g.due = SymReal(z3.Real("d"))
        w.g.busy = False

    def build(self, w):
        return rx.interval(SymReal(z3.Real("d")), SymReal(z3.Real("p")))

    def before_event(self, w, name):
        if not name.startswith("timer") and name != "loop":
            advance(w)

    def more_events(self, w):
        return timer_events(w)

    def on_dispose(self, w):
        w.cover("dispose")

    def on_out(self, w, k, v):
        g = w.g
        if k != "N" or g.term or g.disposed or g.exp:
            return super().on_out(w, k, v)
        w.note("out", k, show(v))
        w.require(not g.busy, "one notification at a time")
        w.require(isinstance(v, (int, SymInt)) and same(v, g.i), "the values count up from 0")
        w.require(self.on_time(w), "a value is emitted at its due time")
        w.cover("out.N")
        if w.path.branch(self.period == 0):
            self.expect(w, "C")
            g.due = None
        else:
            g.i = g.i + 1
            g.due = w.now + SymReal(self.period)
        g.busy = self.out_suspend

    def on_time(self, w):
        return boolterm(numterm(w.now) == numterm(w.g.due))

    def at_quiet(self, w):
        g = w.g
        if not g.disposed and not g.term and not g.busy and not w.g.exp:
            w.require(z3.Or([numterm(t.due) == numterm(g.due) for t in w.timers]),
                      "the next value is scheduled for its due time")
        if g.term or g.disposed:
            g.due, g.i, g.busy = None, 0, False
        super().at_quiet(w)


class Timer(Interval):
    """0 after d, then completion"""
    name = "timer"
    period = z3.RealVal(0)

    def build(self, w):
        return rx.timer(SymReal(z3.Real("d")))


class IntervalSlow(Interval):
    """a slow observer: the values count up, one at a time, the next p after the previous call returned"""
    name = "interval (slow observer, p > 0)"
    out_suspend = True
    must_cover = ("out.N", "timer", "subscribed", "dispose")

    def assumptions(self):
        return [z3.Real("d") >= 0, z3.Real("p") > 0]

    def on_time(self, w):
        return boolterm(numterm(w.now) >= numterm(w.g.due))

    def resume_events(self, w, p, i):
        if p.name in ("asend",):
            def ret(w, p=p):
                w.g.busy = False
                if w.g.due is not None:
                    w.g.due = w.now + SymReal(self.period)
                w.resume(p)
            return [("out.return", ret)]
        return super().resume_events(w, p, i)


class TimerSlow(IntervalSlow):
    """a slow observer: 0 after d, then completion"""
    name = "timer (slow observer)"
    period = z3.RealVal(0)
    must_cover = ("out.N", "out.C", "timer", "subscribed", "dispose")

    def build(self, w):
        return rx.timer(SymReal(z3.Real("d")))
