"""C18: async iteration; C19: awaiting a source."""
import asyncio

import z3

from ..base import *
from .timed import advance, timer_events


class Iterate(Unit):
    """every notification is taken once, in call order; a producer returns exactly when its notification was taken"""
    name = "AsyncIteratorObserver"
    producers = ("p1", "p2", "p3")
    kinds, cancels, nones = "NEC", True, True
    must_cover = ("N", "E", "C", "value", "error", "end", "returned", "waited", "cancelled")
    notes = ("AsyncIteratorObserver: at most 3 producer calls in flight at once (unlimited calls in total), one consumer",)

    def init(self, w):
        g = w.g = Ghost()
        g.wait = []          # producers whose notification has not been taken, in call order
        g.what = {}
        g.taken = []         # taken, call not returned yet
        g.over = False       # the terminal has been taken
        g.cancel = False
        g.fresh = False
        w.src = XObservable(w, "xs", 10)
        w.obv = None
        w.it = None
        w.nsub = 0
        w.ready = False

    def make(self, w):
        return rx.AsyncIteratorObserver(w.src)

    def setup(self, w):
        w.it = self.make(w).__aiter__()

    def events(self, w):
        ev = []
        g = w.g
        if w.obv is not None and not g.over:
            for r in self.producers:
                if r not in w.calls:
                    for k in self.kinds:
                        ev.append((f"{r}.{k}", lambda w, r=r, k=k: self.produce(w, r, k)))
                    break
        if "next" not in w.calls and not g.over:
            ev.append(("next", self.next))
        if "next" in w.calls and w.ready and not g.fresh and not g.wait and self.cancels:
            ev.append(("cancel", self.cancel))
        for p in w.pend:
            ev.append(("subscribed", lambda w, p=p: self.subscribed(w, p)))
        return ev

    def subscribed(self, w, p):
        w.ready = w.g.fresh = True      # (a consumer cancelled while it resumes from subscribing is not considered)
        w.resume(p, XDisp(w, "d", 50))

    def cancel(self, w):
        w.g.cancel = True
        w.cover("cancelled")
        w.calls["next"].cancel()

    def next(self, w):
        g = w.g

        def done(w, r, ex):
            c, g.cancel = g.cancel, False
            if isinstance(ex, asyncio.CancelledError):
                w.require(c, "the consumer is not cancelled by itself")
                return
            w.require(bool(g.wait), "nothing is taken that was not sent")
            p = g.wait[0]
            if self.fine and len(g.wait) > 1:
                # a call made while a waiting one is being woken may be admitted first
                p = next((q for q in g.wait if self.carries(g.what[q], r, ex)), p)
            g.wait.remove(p)
            k, v = g.what[p]
            g.taken.append(p)
            if k == "N":
                w.require(ex is None, "a value is yielded")
                w.require(same(r, v), "the value is the next one sent")
                w.cover("value")
            elif k == "E":
                w.require(ex is not None and same(ex, v), "the error is raised")
                g.over = True
                w.cover("error")
            else:
                w.require(isinstance(ex, StopAsyncIteration), "the iteration ends")
                g.over = True
                w.cover("end")
        w.spawn(w.it.__anext__(), "next", done)

    @staticmethod
    def carries(what, r, ex):
        k, v = what
        if k == "N":
            return ex is None and same(r, v)
        return ex is not None and same(ex, v) if k == "E" else isinstance(ex, StopAsyncIteration)

    def produce(self, w, r, k):
        g = w.g
        v = w.value(none=self.nones) if k == "N" else w.error() if k == "E" else None
        w.cover(k)
        w.note(r, k, show(v))
        if g.wait:
            w.cover("waited")
        g.wait.append(r)
        g.what[r] = (k, v)

        def done(w, res, ex):
            w.require(ex is None, "the producer's call does not raise")
            if self.fine and r not in g.taken:
                q = next((q for q in g.taken if g.what[q][0] == k and (k == "C" or same(g.what[q][1], v))), None)
                if q is not None:       # two calls with the same content: either may be the one that was taken
                    g.taken[g.taken.index(q)] = r
                    g.wait[g.wait.index(r)] = q
            w.require(r in g.taken, "the call returns only after the notification was taken")
            if r in g.taken:
                g.taken.remove(r)
            del g.what[r]
            w.cover("returned")
        m = w.obv
        w.spawn(m.asend(v) if k == "N" else m.athrow(v) if k == "E" else m.aclose(), r, done)

    def on_call(self, w, name, target, args):
        w.require(name == "subscribe" and target is w.src, "only the source is called")
        w.nsub += 1
        w.require(w.nsub == 1, "the source is subscribed once")
        w.obv = args[0]
        return ("susp",)

    def at_quiet(self, w):
        g = w.g
        g.fresh = False
        w.require(not g.taken, "the call returns once the notification was taken")
        if "next" in w.calls and w.ready and not g.over:
            w.require(not g.wait, "a ready consumer gets the next notification")


class IterateFine(Iterate):
    """calls that overlap in every way: each notification is taken once, its producer returns then, nobody waits for ever"""
    name = "AsyncIteratorObserver (events between any two steps)"
    fine = True
    kinds, cancels, nones = "NC", False, False
    must_cover = ("N", "C", "value", "end", "returned", "waited", "interleaved")


class IterateVia(Iterate):
    """the same through to_async_iterable"""
    name = "to_async_iterable"
    producers = ("p1",)
    must_cover = ("N", "E", "C", "value", "error", "end", "returned", "cancelled")

    def make(self, w):
        return rx.to_async_iterable(w.src)


class Awaitable(Unit):
    """the last value before completion, the error, or cancelled; the first terminal counts; one callback per notification"""
    name = "AsyncAwaitableObserver"
    roles = ("a", "b")
    must_cover = ("result", "error", "cancelled", "ignored", "disposed", "callback", "abandoned")
    notes = ("AsyncAwaitableObserver: at most 2 overlapping calls",)

    def init(self, w):
        g = w.g = Ghost()
        g.has = g.stopped = False
        g.last = None
        g.res = None
        g.owed = {}
        w.fns = [afn(w, n, 31 + i) for i, n in enumerate(("send", "throw", "close"))]
        w.obv = None

    def setup(self, w):
        w.obv = rx.AsyncAwaitableObserver(*w.fns)

    def events(self, w):
        ev = []
        for r in self.roles:
            if r not in w.calls:
                for k in "NEC":
                    ev.append((f"{r}.{k}", lambda w, r=r, k=k: self.produce(w, r, k)))
                break
        for p in w.pend:
            ev.append(("return", lambda w, p=p: w.resume(p)))
        ev.append(("dispose", self.dispose))
        if w.g.res is None:
            ev.append(("abandon", self.abandon))
        return ev

    def dispose(self, w):
        w.cover("disposed")
        w.g.stopped = True
        w.obv.dispose()

    def abandon(self, w):
        """whoever awaits the observer is cancelled (or times out)"""
        w.cover("abandoned")
        w.g.res = ("X", None)
        w.obv.cancel()

    def produce(self, w, r, k):
        g = w.g
        v = w.value() if k == "N" else w.error() if k == "E" else None
        if g.stopped:
            w.cover("ignored")
        else:
            g.owed[r] = (k, v)
            if k == "N":
                g.has, g.last = True, v
            else:
                g.stopped = True
                if g.res is None:
                    g.res = ("E", v) if k == "E" else ("N", g.last) if g.has else ("X", None)

        def done(w, res, ex):
            w.require(ex is None, "the call does not raise")
            w.require(r not in g.owed, "the callback is invoked")
        m = w.obv
        w.spawn(m.asend(v) if k == "N" else m.athrow(v) if k == "E" else m.aclose(), r, done)

    def on_call(self, w, name, target, args):
        g = w.g
        t = asyncio.current_task(w.loop)
        r = next((r for r in self.roles if w.calls.get(r) is t), None)
        w.require(name == "fn" and r in g.owed, "a callback is invoked once per accepted notification")
        k, v = g.owed.pop(r)
        w.require(target.name == {"N": "send", "E": "throw", "C": "close"}[k], "the matching callback is invoked")
        w.require(len(args) == (k != "C"), "with its argument")
        if k != "C":
            w.require(same(args[0], v), "with the value that was sent")
        w.cover("callback")
        return ("susp",)

    def at_quiet(self, w):
        g, f = w.g, w.obv
        if g.res is None:
            w.require(not f.done(), "the observer is pending before the first terminal")
            return
        w.require(f.done(), "the observer is done after the first terminal")
        k, v = g.res
        if k == "X":
            w.require(f.cancelled(), "completing without values cancels")
            w.cover("cancelled")
        else:
            w.require(not f.cancelled(), "the observer has a result")
            if k == "E":
                e = f.exception()
                w.require(e is not None and same(e, v), "the error is the result")
                w.cover("error")
            else:
                w.require(f.exception() is None and same(f.result(), v), "the last value is the result")
                w.cover("result")


class Run(Op):
    """run: last value, error, cancelled or time-out; the subscription is disposed before it returns"""
    name = "run"
    must_cover = ("result", "error", "cancelled", "timeout", "released")
    disposes = False
    timed = True
    given = False

    def params(self):
        return [("T", "real", z3.Real("T"))]

    def assumptions(self):
        return [z3.Real("T") > 0]

    def ghost(self, w):
        g = w.g
        g.has, g.last, g.res, g.due, g.done, g.tie = False, None, None, None, False, False

    def setup(self, w):
        a = {"timeout": SymReal(z3.Real("T"))}
        if self.given:
            w.own = rx.AsyncAwaitableObserver()
            a["observer"] = w.own
        w.spawn(rx.run(self.source(w, "xs"), **a), "run", self.finished)

    def before_event(self, w, name):
        if not name.startswith("timer") and name != "loop":
            advance(w)

    def more_events(self, w):
        return timer_events(w)

    def sub_return(self, w, p):
        w.g.due = w.now + SymReal(z3.Real("T"))
        super().sub_return(w, p)

    def on_source(self, w, s, k, v):
        g = w.g
        if g.res is None:
            if k == "N":
                g.has, g.last = True, v
            else:
                g.tie = g.due is not None and bool(w.now >= g.due)      # issued at the very time of the time-out
                g.res = ("E", v) if k == "E" else ("N", g.last) if g.has else ("X", None)

    def finished(self, w, r, ex):
        g = w.g
        g.done = True
        w.require(w.src["xs"].disposed, "the subscription is disposed before run returns")
        w.cover("released")
        if isinstance(ex, TimeoutError) and not isinstance(ex, ExtError):
            w.require(g.res is None or g.tie, "no time-out after the terminal")
            w.require(boolterm(numterm(w.now) == numterm(g.due)), "the time-out comes after the given number of seconds")
            w.cover("timeout")
            return
        w.require(g.res is not None, "run returns after the terminal only")
        k, v = g.res
        if k == "X":
            w.require(isinstance(ex, asyncio.CancelledError), "completing without values cancels")
            w.cover("cancelled")
        elif k == "E":
            w.require(ex is not None and same(ex, v), "the error is raised")
            w.cover("error")
        else:
            w.require(ex is None and same(r, v), "the last value is returned")
            w.cover("result")

    def at_quiet(self, w):
        g = w.g
        if not g.done and w.src["xs"].ret:
            w.require(g.res is None, "run returns once the source has terminated")
            w.require(z3.Or([numterm(t.due) == numterm(g.due) for t in w.timers]), "run times out at the given time")
        if g.done:
            w.require(not w.timers, "no timer is left")


class RunGiven(Run):
    """the same with an observer given by the caller"""
    name = "run (observer given)"
    given = True
