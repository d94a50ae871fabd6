"""C05/C06/C09: element-wise and selecting operators."""
import z3

import sys

from ..base import *

F = sys.modules["aioreactive.filtering"]
T = sys.modules["aioreactive.transform"]


class CountOp(Op):
    """operators with a symbolic count n >= 0"""

    def params(self):
        return [("n", "int", z3.Int("n"))]

    def assumptions(self):
        return [z3.Int("n") >= 0]

    @property
    def n(self):
        return SymInt(z3.Int("n"))


class Skip(CountOp):
    """xs[n:]"""
    name = "skip"
    must_cover = ("out.N", "out.C", "out.E", "released")

    def build(self, w):
        return rx.skip(self.n)(self.source(w, "xs"))

    def ghost(self, w):
        w.g.i = 0               # values received so far

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            if g.i >= self.n:
                self.expect(w, "N", v)
            g.i = g.i + 1
        else:
            self.expect(w, k, v)

    def terms(self, w):
        i, n = numterm(w.g.i), z3.Int("n")
        return [("left", "int", z3.If(n > i, n - i, I(0))), ("seen", "int", z3.If(n > i, i, n))]


class Take(Skip):
    """xs[:n], completing with the n-th value"""
    name = "take"

    def build(self, w):
        return rx.take(self.n)(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            if g.i < self.n:
                self.expect(w, "N", v)
                if g.i + 1 == self.n:
                    self.expect(w, "C")
            g.i = g.i + 1
        else:
            self.expect(w, k, v)


class Queued(CountOp):
    def ghost(self, w):
        w.g.last = SymList(z3.Empty(SeqV))      # the last n values received


class SkipLast(Queued):
    """xs[:len-n], each value as soon as n later ones have arrived"""
    name = "skip_last"
    must_cover = ("out.N", "out.C", "out.E", "released")

    def build(self, w):
        return F.skip_last(self.n)(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            g.last.append(v)
            if vlen(g.last) > self.n:
                self.expect(w, "N", g.last.pop(0))
        else:
            self.expect(w, k, v)


class TakeLast(Queued):
    """xs[-n:] then completion, once the source completes"""
    name = "take_last"
    must_cover = ("out.N", "out.C", "out.E", "released")

    def ghost(self, w):
        super().ghost(w)
        w.g.flush = False
        w.g.pos = 0

    def build(self, w):
        return rx.take_last(self.n)(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            g.last.append(v)
            if vlen(g.last) > self.n:
                g.last.pop(0)
        elif k == "E":
            self.expect(w, k, v)
        else:
            g.flush = True

    def on_out(self, w, k, v):
        g = w.g
        if g.flush and not g.disposed and not g.term:
            if k == "N":
                w.require(g.pos < vlen(g.last), "no more than the last n values")
                w.require(same(v, unbox(seqterm(g.last)[numterm(g.pos)])), "the last n values in order")
                g.pos = g.pos + 1
                w.cover("out.N")
                return
            if k == "C":
                w.require(g.pos == vlen(g.last), "completion after all of the last n values")
                self.expect(w, "C")
        super().on_out(w, k, v)

    def at_quiet(self, w):
        g = w.g
        if g.flush and not g.disposed and not g.term and not self.may_owe(w):
            w.require(False, "the last values and completion were not sent")
        super().at_quiet(w)


class TakeUntil(Op):
    name = "take_until"
    sources = ("xs", "other")
    must_cover = ("out.N", "out.C", "out.E", "released", "other.N", "other.C", "other.E")

    def build(self, w):
        return F.take_until(self.source(w, "other"))(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        if s == "xs":
            self.expect(w, k, v)
        elif k == "N":
            self.expect(w, "C")
        elif k == "E":
            self.expect(w, "E", v)


class Distinct(Op):
    name = "distinct_until_changed"
    must_cover = ("out.N", "out.C", "out.E", "released")

    def build(self, w):
        return rx.distinct_until_changed(self.source(w, "xs"))

    def ghost(self, w):
        w.g.first = True
        w.g.prev = None

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            if g.first or not (v == g.prev):
                self.expect(w, "N", v)
                w.cover("changed")
            else:
                w.cover("repeat")
            g.first, g.prev = False, v
        else:
            self.expect(w, k, v)


# ---------------------------------------------------------------- element-wise (C05)
class Elem(Op):
    """f is called once per value, in order, and decides what is emitted"""
    must_cover = ("out.N", "out.C", "out.E", "called", "released")
    indexed = False
    star = False
    is_async = False
    what = "map"              # map | filter | choose
    composed = False

    def ghost(self, w):
        w.g.owed = []          # calls owed: (v,) or (v, i)
        w.g.cur = None
        if self.indexed:
            w.g.i = 0
        if self.composed:
            self.out_suspend = False
            self.fn_suspend = False

    def fn(self, w):
        return afn(w) if self.is_async else XFn(w)

    def build(self, w):
        return self.op()(self.fn(w))(self.source(w, "xs"))

    def newvalue(self, w, s):
        if self.star:
            n = w.path.choose(4, "arity")
            return tuple(w.value("c") for _ in range(n))
        return w.value("v")

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            g.owed.append((v, g.i) if self.indexed else (v,))
            if self.indexed:
                g.i = g.i + 1
        else:
            self.expect(w, k, v)

    def on_fn(self, w, f, args):
        g = w.g
        if g.disposed:
            return ("ret", self.result(w, None))
        if not g.owed:
            w.require(False, "the function is called once per value")
        o = g.owed.pop(0)
        want = tuple(o[0]) if self.star else o
        w.require(len(want) == len(args), "the function gets the value" + (" and its index" if self.indexed else ""))
        for a, b in zip(args, want):
            w.require(same(a, b), "the function gets the value" + (" and its index" if self.indexed else ""))
        w.cover("called")
        if self.is_async and self.fn_suspend:
            g.cur = o[0]
            return ("susp",)
        return ("ret", self.result(w, o[0]))

    def fn_events(self, w, p):
        def go(w):
            v, w.g.cur = w.g.cur, None
            w.resume(p, self.result(w, v))
        return [("f.return", go)]

    def result(self, w, v):
        if self.what == "map":
            r = w.value("r")
            self.expect(w, "N", r)
            return r
        if self.what == "filter":
            # any value may be returned; its truth decides
            r = w.value("p") if w.path.choose(2, "bool") else w.path.choose(2, "p") == 1
            if r:
                self.expect(w, "N", v)
                return r
            w.cover("dropped")
            return r
        if w.path.choose(2, "some"):
            r = w.value("r")
            self.expect(w, "N", r)
            return Some(r)
        w.cover("dropped")
        return Nothing

    def at_quiet(self, w):
        if w.g.owed and not w.g.disposed and not self.may_owe(w):
            w.require(False, "the function was not called for a value")
        super().at_quiet(w)
        if w.g.disposed:
            w.g.owed.clear()


from expression import Nothing, Some  # noqa: E402


def elem(nm, op, **kw):
    return type(nm, (Elem,), dict(name=nm, op=staticmethod(op), **kw))


ELEMS = [
    elem("map", lambda: rx.map),
    elem("map_async", lambda: rx.map_async, is_async=True),
    elem("starmap", lambda: rx.starmap, star=True),
    elem("starmap_async", lambda: T.starmap_async, star=True, is_async=True),
    elem("mapi", lambda: rx.mapi, indexed=True, composed=True),
    elem("mapi_async", lambda: rx.mapi_async, indexed=True, is_async=True, composed=True),
    elem("filter", lambda: rx.filter, what="filter"),
    elem("filter_async", lambda: rx.filter_async, what="filter", is_async=True),
    elem("starfilter", lambda: F.starfilter, what="filter", star=True),
    elem("filteri", lambda: F.filteri, what="filter", indexed=True, composed=True),
    elem("choose", lambda: rx.choose, what="choose"),
    elem("choose_async", lambda: rx.choose_async, what="choose", is_async=True),
]
for _c in ELEMS:
    globals()["E_" + _c.__name__] = _c
