"""C08 (scan/reduce), C14 (catch/retry)."""
import sys

import z3

from ..base import *

T = sys.modules["aioreactive.transform"]


class Scan(Op):
    """every value is folded once, in order; each result is emitted; the accumulator may fail"""
    must_cover = ("out.N", "out.C", "out.E", "called", "raised", "released")
    is_async = False
    final = False

    def ghost(self, w):
        w.g.owed = []
        w.g.acc = w.initial = self.start(w)
        w.g.any = False

    def start(self, w):
        return Opq(z3.Const("initial", Val))

    def assumptions(self):
        return [z3.Not(Val.is_VNone(z3.Const("initial", Val)))]

    def build(self, w):
        f = afn(w) if self.is_async else XFn(w)
        return self.op()(f, w.initial)(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            g.owed.append(v)
        elif k == "C" and self.final:
            if g.any:
                self.expect(w, "N", g.acc)
            self.expect(w, "C")
        else:
            self.expect(w, k, v)

    def on_fn(self, w, f, args):
        g = w.g
        if g.disposed or g.term:
            return ("ret", w.value("r"))
        if not g.owed:
            w.require(False, "the accumulator is called once per value")
        v = g.owed.pop(0)
        w.require(len(args) == 2, "the accumulator gets state and value")
        w.require(same(args[0], g.acc), "the accumulator gets the fold of all earlier values")
        w.require(same(args[1], v), "the accumulator gets the value")
        w.cover("called")
        if self.is_async and self.fn_suspend:
            return ("susp",)
        return self.result(w)

    def result(self, w):
        g = w.g
        if w.path.choose(2, "raise") == 1:
            ex = w.error("fe")
            w.cover("raised")
            g.owed.clear()
            if not g.disposed:
                self.expect(w, "E", ex)
            return ("raise", ex)
        r = w.value("r")
        g.acc, g.any = r, True
        if not self.final and not g.disposed:
            self.expect(w, "N", r)
        return ("ret", r)

    def fn_events(self, w, p):
        def go(w):
            r = self.result(w)
            if r[0] == "raise":
                w.resume(p, exc=r[1])
            else:
                w.resume(p, r[1])
        return [("f.return", go)]

    def at_quiet(self, w):
        if w.g.owed and not w.g.disposed and not w.g.term and not self.may_owe(w):
            w.require(False, "the accumulator was not called for a value")
        super().at_quiet(w)
        if w.g.disposed or w.g.term:
            w.g.owed.clear()


class ScanSync(Scan):
    name = "scan"
    op = staticmethod(lambda: rx.scan)


class ScanAsync(Scan):
    name = "scan_async"
    is_async = True
    op = staticmethod(lambda: rx.scan_async)


class Reduce(Scan):
    name = "reduce"
    final = True
    out_suspend = False
    op = staticmethod(lambda: T.reduce)


class ReduceAsync(Scan):
    name = "reduce_async"
    final = True
    is_async = True
    fn_suspend = True
    op = staticmethod(lambda: T.reduce_async)


class Catch(Op):
    """source until it fails, then the handler's sequence to its end"""
    name = "catch"
    sources = ("xs", "ys")
    must_cover = ("out.N", "out.C", "out.E", "handled", "ys.N", "ys.C", "ys.E", "released")

    def ghost(self, w):
        w.g.failed = None
        w.g.handled = False

    def build(self, w):
        return rx.catch(XFn(w, "handler"))(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        if s == "xs" and k == "E":
            w.g.failed = v
        else:
            self.expect(w, k, v)

    def on_fn(self, w, f, args):
        g = w.g
        w.require(not g.handled, "the handler is called once")
        g.handled = True
        w.require(g.failed is not None and len(args) == 1, "the handler is called when the source failed")
        w.require(same(args[0], g.failed), "the handler gets the error")
        w.cover("handled")
        return ("ret", self.source(w, "ys"))

    def on_call(self, w, name, target, args):
        if name == "subscribe" and target.name == "ys":
            w.require(w.g.handled, "the handler's sequence is subscribed after the failure")
            w.require(w.src["xs"].over or w.src["xs"].disposed, "the source is over")
        return super().on_call(w, name, target, args)

    def at_quiet(self, w):
        g = w.g
        if g.failed is not None and not g.disposed and not self.may_owe(w):
            w.require(w.src["ys"].sub == 1, "the handler's sequence is subscribed")
        super().at_quiet(w)


class CatchObs(rx.AsyncObservable):
    """contract of catch(handler)(source): the source until it fails, then handler(error) (unit Catch)"""

    def __init__(self, source, handler):
        self.source, self.handler = source, handler

    async def subscribe_async(self, send=None, throw=None, close=None):
        raise Cur.path.stop(Unsupported("subscription through the contract of catch"))


stubbable("aioreactive.transform", "catch")


class Retry(Op):
    """retry(n) is n+1 nested attempts: catch(source, e -> n > 0 ? retry(n-1) : fail(e)), by induction on n"""
    name = "retry"
    sources = ()
    must_cover = ("again", "exhausted", "out.E")
    disposes = False
    notes = ("retry: composed with the contract of catch (unit catch, proved); the n+1 attempts follow by induction on n",)
    stubs = {"catch": lambda w, handler: lambda source: CatchObs(source, handler)}
    n = z3.Int("n")

    def params(self):
        return [("n", "int", self.n)]

    def assumptions(self):
        return [self.n >= 0]

    def ghost(self, w):
        w.o_xs = XObservable(w, "xs", 10)
        w.cur = None
        w.g.left = SymInt(self.n)
        w.g.err = None

    def build(self, w):
        return rx.retry(SymInt(self.n))(w.o_xs)

    def setup(self, w):
        r = self.build(w)
        self.built(w, r)
        self.attempt(w, r)
        w.top = r

    def attempt(self, w, r):
        if not isinstance(r, CatchObs):
            raise w.path.stop(Unsupported("retry is not built from catch"))
        w.require(r.source is w.o_xs, "every attempt subscribes the source")
        w.cur = r

    def events(self, w):
        if w.cur is None:
            return [(f"{p.name}.return", lambda w, p=p: w.resume(p)) for p in w.pend]
        return [("fail", self.fail), ("fail elsewhere", self.other)]

    def other(self, w):
        """another subscription of the same observable fails at the same attempt: nothing changes here"""
        w.cur.handler(w.error("e0"))
        w.cover("other")

    def fail(self, w):
        g = w.g
        e = w.error()
        r = w.cur.handler(e)
        if w.path.branch(numterm(g.left) > 0):
            w.require(isinstance(r, CatchObs), "a failed attempt is followed by another while the budget lasts")
            g.left = g.left - 1
            self.attempt(w, r)
            w.cover("again")
        else:
            w.require(not isinstance(r, CatchObs), "no more than n retries")
            w.cover("exhausted")
            w.cur = None
            self.expect(w, "E", e)
            w.spawn(r.subscribe_async(w.out), "subscribe", self.subscribed)

    def may_owe(self, w):
        return False

    def at_quiet(self, w):
        super().at_quiet(w)
        if w.cur is None:
            w.require(w.g.term, "the last error is delivered")
