"""C16, C17: delay and debounce over the virtual clock."""
import z3

from ..base import *
from ..vtime import VDateTime


def advance(w):
    """time passes until the next environment event; no timer is overdue"""
    if w.midstep:
        return
    t = SymReal(w.path.fresh("now", z3.RealSort()))
    w.path.assume(boolterm(t >= w.now))
    for x in w.timers:
        w.path.assume(boolterm(x.due >= t))
    w.now = t


def timer_events(w):
    ev = []
    for i, x in enumerate(w.timers):
        def fire(w, x=x):
            for y in w.timers:
                if y is not x:
                    w.path.assume(boolterm(y.due >= x.due))
            if not w.path.sat():
                raise w.path.stop(PathEnd("another timer is due first"))
            if x.due > w.now:
                w.now = x.due
            w.timers.remove(x)
            w.cover("timer")
            x.fired = w.loop.call_soon(x.cb, *x.args, context=x.context)
        ev.append((f"timer{i}", fire))
    return ev


class Timed(Op):
    timed = True
    out_suspend = True

    def params(self):
        return [("s", "real", z3.Real("s"))]

    def assumptions(self):
        return [z3.Real("s") >= 0]

    def before_event(self, w, name):
        if not name.startswith("timer") and name != "loop":
            advance(w)

    def more_events(self, w):
        return timer_events(w)


class Delay(Timed):
    """every notification is delivered once, in order, at the later of its due time and the return of the previous one"""
    name = "delay"
    must_cover = ("out.N", "out.E", "out.C", "timer", "released", "waits")
    stub_safe = True

    def ghost(self, w):
        w.g.head = None                                                   # next notification owed and its due time
        w.g.rest = SymList(z3.Empty(SeqV), ("pair", "next", "time"))      # the values after it
        w.g.last = None                                                   # the terminal after those
        w.g.busy = False

    def build(self, w):
        return rx.delay(SymReal(z3.Real("s")))(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        n = OnNext(v) if k == "N" else OnError(v) if k == "E" else OnCompleted()
        n = (n, VDateTime(w.now + SymReal(z3.Real("s"))))
        if k == "N":
            w.g.rest.append(n)
        else:
            w.g.last = n

    def shift(self, w):
        g = w.g
        if g.head is None:
            if g.rest:
                g.head = g.rest.pop(0)
            else:
                g.head, g.last = g.last, None

    def terms(self, w):
        g = w.g
        r = seqterm(g.rest)
        return [("all", "seq", r if g.last is None else z3.Concat(r, z3.Unit(box(g.last))))]

    def on_out(self, w, k, v):
        g = w.g
        w.note("out", k, show(v))
        if g.disposed:
            w.require(False, f"nothing is delivered after dispose (got {k})")
            return
        w.require(not g.busy, "one notification at a time")
        self.shift(w)
        w.require(g.head is not None, f"a notification is owed (got {k})")
        n, due = g.head
        g.head = None
        w.require(boolterm(w.now >= due.t), f"{k} is not delivered early")
        kind = "N" if isinstance(n, OnNext) else "E" if isinstance(n, OnError) else "C"
        w.require(k == kind, f"{kind} is owed, got {k}")
        if k == "N":
            w.require(same(v, n.value), "N carries the owed content")
        if k == "E":
            w.require(same(v, n.exception), "E carries the owed content")
        g.busy = True
        if k != "N":
            g.term = True
        w.cover("out." + k)

    def resume_events(self, w, p, i):
        if p.name in ("asend", "athrow", "aclose"):
            def ret(w, p=p):
                w.g.busy = False
                w.resume(p)
            return [("out.return", ret)]
        return super().resume_events(w, p, i)

    def at_quiet(self, w):
        g = w.g
        if not g.disposed and not g.busy and w.cut is None:
            self.shift(w)
            if g.head is not None:
                w.require(z3.Or(*[numterm(t.due) == numterm(g.head[1].t) for t in w.timers]),
                          "the next notification is delivered as soon as it is due")
            if w.timers:
                w.cover("waits")
        if g.disposed:
            g.head = g.last = None
            g.rest = SymList(z3.Empty(SeqV), ("pair", "next", "time"))
        super().at_quiet(w)


class Debounce(Timed):
    """a value is emitted exactly when s seconds pass without another notification; terminals at once"""
    name = "debounce"
    must_cover = ("out.N", "out.E", "out.C", "timer", "released", "superseded")
    notes = ("at most 3 notifications of the source within any s seconds",)
    MAXT = 3

    def ghost(self, w):
        w.g.has = False
        w.g.v = None
        w.g.due = 0.0

    def build(self, w):
        return rx.debounce(SymReal(z3.Real("s")))(self.source(w, "xs"))

    def emissions(self, w):
        return super().emissions(w) if len(w.timers) < self.MAXT else []

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            if g.has:
                w.cover("superseded")
            g.has, g.v, g.due = True, v, w.now + SymReal(z3.Real("s"))
        else:
            g.has = False
            self.expect(w, k, v)

    def on_out(self, w, k, v):
        g = w.g
        if k != "N" or g.disposed or g.term or g.exp:
            if g.disposed:
                w.require(False, f"nothing is delivered after dispose (got {k})")
            return super().on_out(w, k, v)
        w.note("out", k, show(v))
        w.require(g.has, "a value is emitted only if it was the latest and not emitted yet")
        w.require(boolterm(numterm(w.now) == numterm(g.due)), "a value is emitted s seconds after it arrived")
        w.require(same(v, g.v), "the emitted value is the latest one")
        g.has = False
        g.v = None
        w.cover("out.N")

    def at_quiet(self, w):
        g = w.g
        if g.has and not g.disposed and not g.term:
            w.require(z3.Or(*[numterm(t.due) == numterm(g.due) for t in w.timers]),
                      "the latest value is emitted once it has been followed by s seconds of silence")
        if not g.has or g.disposed or g.term:
            g.has, g.v, g.due = False, None, 0.0
        super().at_quiet(w)
