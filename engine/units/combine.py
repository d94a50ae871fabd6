"""C13: combine_latest, with_latest_from, zip_seq."""
import sys

import z3

from ..base import *

K = sys.modules["aioreactive.combine"]


class CombineLatest(Op):
    name = "combine_latest"
    sources = ("xs", "ys")
    must_cover = ("out.N", "out.C", "out.E", "released", "ys.N", "ys.C", "ys.E", "xs.C", "xs.E")

    def ghost(self, w):
        w.g.hx = w.g.hy = False
        w.g.x = w.g.y = None

    def build(self, w):
        return rx.combine_latest(self.source(w, "ys"))(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        g = w.g
        if k != "N":
            self.expect(w, k, v)
            return
        if s == "xs":
            g.hx, g.x = True, v
        else:
            g.hy, g.y = True, v
        if g.hx and g.hy:
            self.expect(w, "N", (g.x, g.y))


class WithLatestFrom(CombineLatest):
    name = "with_latest_from"

    def build(self, w):
        return rx.with_latest_from(self.source(w, "ys"))(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        g = w.g
        if k != "N":
            self.expect(w, k, v)
        elif s == "ys":
            g.hy, g.y = True, v
        elif g.hy:
            self.expect(w, "N", (v, g.y))


class XIter:
    """iterator over the user's iterable: the i-th item, exhaustion or an exception, decided by the unit"""
    __vskip__ = ("world",)

    def __init__(self, world):
        self.world = world

    def __iter__(self):
        return self

    def __next__(self):
        return self.world.unit.next_item(self.world)


class XIterable:
    __vskip__ = ("world",)

    def __init__(self, world):
        self.world = world

    def __iter__(self):
        return XIter(self.world)


class ZipSeq(Op):
    """the i-th value is paired with the i-th item; exhaustion completes; the iterable's exception is delivered"""
    name = "zip_seq"
    must_cover = ("out.N", "out.C", "out.E", "released", "exhausted", "item")
    raises = False

    def ghost(self, w):
        w.g.cur = []          # value waiting for its item

    def build(self, w):
        return K.zip_seq(XIterable(w))(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        if k == "N":
            w.g.cur.append(v)
        else:
            self.expect(w, k, v)

    def next_item(self, w):
        g = w.g
        if g.term or g.disposed:
            return w.value("item")
        w.require(len(g.cur) == 1, "one item is taken per value")
        v = g.cur.pop(0)
        c = w.path.choose(2, "item")
        if c == 0:
            it = w.value("item")
            w.cover("item")
            self.expect(w, "N", (v, it))
            return it
        w.cover("exhausted")
        self.expect(w, "C")
        raise StopIteration

    def at_quiet(self, w):
        g = w.g
        if g.cur and not g.disposed and not g.term and not self.may_owe(w):
            w.require(False, "a value was not paired")
        super().at_quiet(w)
        if g.term or g.disposed:
            g.cur.clear()
