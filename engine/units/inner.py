"""C10, C11, C12: operators over sequences of sequences."""
import sys

import z3

from ..base import *

T = sys.modules["aioreactive.transform"]
K = sys.modules["aioreactive.combine"]


class Inn:
    """an inner sequence the operator has subscribed"""

    def __init__(self, disp, obv):
        self.disp, self.obv = disp, obv
        self.ret = self.over = self.disposed = False


class Item:
    """a pending inner (keeps the list's length concrete)"""

    def __init__(self, x):
        self.x = x


class InnerOp(Op):
    """the source's values are observables; w.inn lists the inners that are subscribed"""
    live = 2               # inners subscribed and not over at the same time (environment bound)
    pending = 2            # inners produced and not subscribed (environment bound)
    inner_suspend = True   # the inners' subscribe calls may suspend
    outer_suspend = True   # the outer's subscribe call may suspend
    late = 1               # inners the outer still produces after the output's terminal (environment bound)
    src_errors = True
    out_suspend = False
    sums = False

    def ghost(self, w):
        g = w.g
        g.todo = []            # produced by the outer, not subscribed
        g.outer = False        # the outer completed
        g.late = 0
        w.inn = {}             # slot -> Inn
        w.subbing = None       # slot whose subscribe call has not returned

    def newvalue(self, w, s):
        g = w.g
        if g.closing or g.disposed:
            g.late += 1
        return XObservable(w, "inner", w.int("inner"), static=False)

    # -- environment
    def can_produce(self, w):
        if w.g.closing or w.g.disposed:
            return w.g.late < self.late
        return len(w.inn) + vlen(w.g.todo) < self.live + self.pending

    def emissions(self, w):
        out = [(s, k) for s, k in super().emissions(w) if k != "N" or self.can_produce(w)]
        for i, x in w.inn.items():
            if not x.over and not x.disposed and "src:" + i not in w.calls:
                out.extend((i, k) for k in ("N", "E", "C"))
        return out

    def issue(self, w, s, k):
        if s not in w.inn:
            if s not in w.src:                # the inner is gone (second half of a burst)
                async def nothing():
                    pass
                return nothing()
            return super().issue(w, s, k)
        x = w.inn[s]
        v = w.value("v") if k == "N" else w.error() if k == "E" else None
        w.note(s, k, show(v))
        if k != "N":
            x.over = True
        if not w.g.closing and not w.g.disposed:
            self.on_inner(w, x, k, v)
        w.cover("inner." + k)
        m = x.obv
        return m.asend(v) if k == "N" else m.athrow(v) if k == "E" else m.aclose()

    def emit2(self, w, a, b):
        (s, k), (s2, k2) = a, b
        w.cover("burst")
        if s != s2:
            self.emit(w, s, k)
            if not (s2 in w.inn and (w.inn[s2].over or w.inn[s2].disposed)):
                self.emit(w, s2, k2)
            return

        async def both():
            await self.issue(w, s, k)
            st = w.src.get(s) or w.inn.get(s)
            if st is not None and not st.over and not st.disposed:
                await self.issue(w, s2, k2)
        w.spawn(both(), "src:" + s)

    def on_call(self, w, name, target, args):
        if name == "subscribe" and target.name not in w.src:
            w.note("subscribe inner", show(target.ident))
            self.on_inner_subscribe(w, target)
            self.prune(w)
            slot = next(f"i{n}" for n in range(1, 9) if f"i{n}" not in w.inn)
            serial = w.int("serial")
            for x in w.inn.values():
                w.path.assume(numterm(serial) != numterm(x.disp.ident))
            w.inn[slot] = Inn(XDisp(w, "disp", serial, static=False), args[0])
            w.require(w.subbing is None, "inners are subscribed one at a time")
            if not self.inner_suspend:
                w.inn[slot].ret = True
                return ("ret", w.inn[slot].disp)
            w.subbing = slot
            return ("susp",)
        if name == "subscribe" and not self.outer_suspend:
            super().on_call(w, name, target, args)
            w.src["xs"].ret = True
            return ("ret", XDisp(w, "d_xs", 50))
        if name == "dispose" and target.name not in ("d_xs",):
            for i, x in w.inn.items():
                if w.path.branch(numterm(x.disp.ident) == numterm(target.ident)):
                    x.disposed = True
                    w.note("disposed", i)
            return ("ret", None)
        return super().on_call(w, name, target, args)

    def resume_events(self, w, p, i):
        if p.name == "subscribe" and p.target.name not in w.src:
            return [("inner subscribed", lambda w, p=p: self.inner_return(w, p))]
        return super().resume_events(w, p, i)

    def inner_return(self, w, p):
        x = w.inn[w.subbing]
        x.ret = True
        w.subbing = None
        w.resume(p, x.disp)

    def take(self, w, target):
        """the target is the first pending inner"""
        g = w.g
        if not vlen(g.todo):
            w.require(False, "only inners produced by the outer are subscribed, each once")
        x = g.todo.pop(0)
        w.require(same(target, x.x if isinstance(x, Item) else x), "inners are subscribed in arrival order, each once")
        w.cover("inner subscribed")

    def at_quiet(self, w):
        super().at_quiet(w)
        g = w.g
        if (g.term or g.disposed) and self.settled(w):
            for i, x in w.inn.items():
                if x.ret:
                    w.require(x.disposed or x.over, "C02 inner is released after "
                              + ("termination" if g.term else "dispose"))
                    w.cover("inner released")
        self.prune(w)
        if not any(r.startswith("src:i") for r in w.calls):         # canonical slot names, oldest first
            old = dict(w.inn)
            w.inn.clear()
            for n, (i, x) in enumerate(old.items()):
                w.inn[f"i{n + 1}"] = x
                if w.subbing == i:
                    w.subbing = f"i{n + 1}"
        if g.term or g.disposed:
            g.todo.clear()
            g.outer = False

    def prune(self, w):
        for i in list(w.inn):
            x = w.inn[i]
            if x.ret and (x.over or x.disposed) and "src:" + i not in w.calls:
                del w.inn[i]

    def active(self, w):
        return [x for x in w.inn.values() if not x.over and not x.disposed]


class SwitchLatest(InnerOp):
    """only the most recently produced inner is forwarded; older ones are disposed before the next is subscribed"""
    name = "switch_latest"
    must_cover = ("out.N", "out.C", "out.E", "inner subscribed", "inner.N", "inner.E", "inner.C", "superseded", "burst",
                  "released", "inner released")
    live = 1
    pending = 1
    bursts = True
    inner_suspend = False
    outer_suspend = False
    notes = ("switch_latest: bursts of two notifications without a scheduling point in between are included when the "
             "inners' subscribe calls do not suspend; when they do, at most one further inner arrives meanwhile",)

    def build(self, w):
        return T.switch_latest(self.source(w, "xs"))

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            g.todo.append(Item(v))
            if self.active(w):
                w.cover("superseded")
        elif k == "E":
            self.expect(w, "E", v)
        else:
            g.outer = True
            self.finish(w)

    def finish(self, w):
        if w.g.outer and not w.g.todo and not self.active(w):
            self.expect(w, "C")

    def on_inner(self, w, x, k, v):
        g = w.g
        if k == "C":
            self.finish(w)
        elif not g.todo:
            self.expect(w, k, v)

    def on_inner_subscribe(self, w, target):
        g = w.g
        for x in w.inn.values():
            w.require(x.over or x.disposed, "the older inner is disposed before the newer is subscribed")
        if not (g.term or g.disposed or g.closing):
            while len(g.todo) > 1 and not w.path.branch(boolterm(same(target, g.todo[0].x))):
                g.todo.pop(0)
            self.take(w, target)

    def at_quiet(self, w):
        g = w.g
        if not (g.term or g.disposed) and self.settled(w):
            w.require(not g.todo, "the latest inner is subscribed")
        super().at_quiet(w)


class SwitchLatestSlow(SwitchLatest):
    """the same while the subscribe call of an inner is suspended"""
    name = "switch_latest (suspended inner subscriptions)"
    must_cover = tuple(x for x in SwitchLatest.must_cover if x != "burst")
    bursts = False
    inner_suspend = True
    late = 0


class SwitchLatestOuter(SwitchLatest):
    name = "switch_latest (suspended outer subscription)"
    must_cover = tuple(x for x in SwitchLatest.must_cover if x != "burst")
    bursts = False
    outer_suspend = True


class MergeInner(InnerOp):
    """every inner is subscribed once, in arrival order, at most n at a time; everything is forwarded"""
    name = "merge_inner"
    must_cover = ("out.N", "out.C", "out.E", "inner subscribed", "inner.N", "inner.E", "inner.C", "waiting", "started waiting",
                  "released", "inner released")
    live = 2
    inner_suspend = False
    outer_suspend = False

    def params(self):
        return [("n", "int", z3.Int("n"))]

    def assumptions(self):
        return [z3.Int("n") >= 0]

    @property
    def n(self):
        return SymInt(z3.Int("n"))

    def build(self, w):
        return K.merge_inner(self.n)(self.source(w, "xs"))

    def can_produce(self, w):
        if w.g.closing or w.g.disposed:
            return w.g.late < self.late
        a = len(self.active(w))
        return a < self.live or bool(self.n == a)

    def on_source(self, w, s, k, v):
        g = w.g
        if k == "N":
            g.todo.append(v)
        elif k == "E":
            self.expect(w, "E", v)
        else:
            g.outer = True
            self.finish(w)

    def finish(self, w):
        if w.g.outer and not vlen(w.g.todo) and not self.active(w):
            self.expect(w, "C")

    def on_inner(self, w, x, k, v):
        if k == "C":
            self.finish(w)
        else:
            self.expect(w, k, v)

    def on_inner_subscribe(self, w, target):
        g = w.g
        n = z3.Int("n")
        a = len(self.active(w))
        w.require(mkbool(z3.Or(n == 0, n > a)), "at most n inners are subscribed at once")
        if not (g.term or g.disposed or g.closing):
            self.take(w, target)
            if g.waited:
                w.cover("started waiting")

    def ghost(self, w):
        super().ghost(w)
        w.g.waited = False

    def at_quiet(self, w):
        g = w.g
        if not (g.term or g.disposed) and w.subbing is None:
            a = len(self.active(w))
            if vlen(g.todo):
                w.require(self.n == a, "no inner waits while fewer than n are subscribed")
                w.cover("waiting")
                g.waited = True
            else:
                g.waited = False
        super().at_quiet(w)
        if g.term or g.disposed:
            g.waited = False

    def terms(self, w):
        a, n = len(self.active(w)), z3.Int("n")
        return [("active", "int", I(a)), ("within capacity", "prop", z3.Or(n == 0, n >= a))]


class MergeInnerBurst(MergeInner):
    name = "merge_inner (bursts)"
    must_cover = MergeInner.must_cover + ("burst",)
    bursts = True

    def burst_ok(self, w, s, k, s2, k2):
        return s != "xs" or s2 != "xs" or k2 != "N"


class MergeInner3(MergeInner):
    name = "merge_inner (3 live inners)"
    live = 3


class MergeInnerSlow(MergeInner):
    """the same while the subscribe call of an inner is suspended"""
    name = "merge_inner (suspended inner subscriptions)"
    inner_suspend = True
    late = 0

    def emissions(self, w):
        """what arrives after the terminal only meets the serialised output, which drops it"""
        return [] if w.g.closing or w.g.disposed else super().emissions(w)

    def can_produce(self, w):
        return w.subbing is None and super().can_produce(w)


class MergeInnerSlow0(MergeInnerSlow):
    name = "merge_inner(0) (suspended inner subscriptions)"
    must_cover = tuple(x for x in MergeInner.must_cover if x not in ("waiting", "started waiting"))

    def assumptions(self):
        return [z3.Int("n") == 0]


class MergeInnerOuter(MergeInner):
    name = "merge_inner (suspended outer subscription)"
    outer_suspend = True


class Concat(MergeInner):
    """merge_inner(1): strictly one after the other"""
    name = "merge_inner(1)"
    live = 1
    bursts = True

    def assumptions(self):
        return [z3.Int("n") == 1]

    def burst_ok(self, w, s, k, s2, k2):
        return s != "xs" or s2 != "xs" or k2 != "N"


class ConcatSlow(MergeInnerSlow):
    name = "merge_inner(1) (suspended inner subscriptions)"
    live = 1

    def assumptions(self):
        return [z3.Int("n") == 1]


class Mapped:
    """an operator that first maps each source value to an inner (its function is called once per value, in order)"""
    op = None
    is_async = indexed = False

    def ghost(self, w):
        super().ghost(w)
        w.fn = afn(w) if self.is_async else XFn(w)
        w.g.i = 0
        w.g.arg = []

    def build(self, w):
        return getattr(T, self.op)(w.fn)(self.source(w, "xs"))

    def newvalue(self, w, s):
        super().newvalue(w, s)              # counts late values
        return w.value("x")

    def on_source(self, w, s, k, v):
        if k != "N":
            return super().on_source(w, s, k, v)
        w.g.arg.append(v)

    def on_fn(self, w, fn, args):
        g = w.g
        late = g.term or g.disposed or g.closing
        if not late:
            if not vlen(g.arg):
                w.require(False, "the function is called once per value")
            v = g.arg.pop(0)
            w.require(len(args) == (2 if self.indexed else 1), "the function's arity")
            w.require(same(args[0], v), "the function gets the value")
            if self.indexed:
                w.require(args[1] == g.i, "the function gets the position of the value")
                g.i = g.i + 1
        w.cover("fn")
        if self.is_async and not self.indexed:
            return ("susp",)
        return ("ret", self.mapped(w))

    def mapped(self, w):
        x = XObservable(w, "inner", w.int("inner"), static=False)
        if not (w.g.term or w.g.disposed or w.g.closing):
            super().on_source(w, "xs", "N", x)
        return x

    def fn_events(self, w, p):
        return [("fn.return", lambda w, p=p: w.resume(p, self.mapped(w)))]

    def at_quiet(self, w):
        g = w.g
        if not (g.term or g.disposed):
            w.require(vlen(g.arg) == 0, "the function is called for every value")
        else:
            g.arg.clear()
            g.i = 0
        super().at_quiet(w)


class _FM(Mapped, MergeInner):
    live = 2
    must_cover = ("out.N", "out.C", "out.E", "inner subscribed", "inner.N", "inner.E", "inner.C", "fn", "released", "inner released")

    def assumptions(self):
        return [z3.Int("n") == 0]


class FlatMap(_FM):
    name = op = "flat_map"


class FlatMapI(_FM):
    name = op = "flat_mapi"
    indexed = True


class FlatMapAsync(_FM):
    name = op = "flat_map_async"
    is_async = True


class FlatMapIAsync(_FM):
    name = op = "flat_mapi_async"
    is_async = indexed = True


class ConcatMap(Mapped, Concat):
    name = op = "concat_map"
    bursts = False
    must_cover = _FM.must_cover + ("waiting", "started waiting")

    def build(self, w):
        return T.concat_map(w.fn)(self.source(w, "xs"))


class FlatMapLatest(Mapped, SwitchLatest):
    name = op = "flat_map_latest"
    bursts = False
    must_cover = _FM.must_cover + ("superseded",)


class FlatMapLatestAsync(FlatMapLatest):
    name = op = "flat_map_latest_async"
    is_async = True


class MergeSeq(Op):
    """merge_seq of three sequences: everything of each is forwarded"""
    name = "merge_seq (3 sequences)"
    sources = ("xs", "ys", "zs")
    must_cover = ("out.N", "out.C", "out.E", "released")
    out_suspend = False
    sums = False
    slow = ()                 # sources whose subscribe calls suspend

    def build(self, w):
        return rx.merge_seq([self.source(w, s) for s in self.sources])

    def on_source(self, w, s, k, v):
        if k == "C":
            if all(w.src[x].over for x in self.sources):
                self.expect(w, "C")
        else:
            self.expect(w, k, v)

    def on_call(self, w, name, target, args):
        r = super().on_call(w, name, target, args)
        if name == "subscribe":
            self.on_subscribe(w, target.name)
            if target.name not in self.slow:
                w.src[target.name].ret = True
                return ("ret", XDisp(w, "d_" + target.name, 50 + self.sources.index(target.name)))
        return r

    def on_subscribe(self, w, s):
        pass

    def at_quiet(self, w):
        super().at_quiet(w)
        if not (w.g.term or w.g.disposed) and self.settled(w):
            self.all_subscribed(w)

    def all_subscribed(self, w):
        for s in self.sources:
            w.require(w.src[s].sub == 1, f"{s} is subscribed")


class Merge(MergeSeq):
    name = "merge"
    sources = ("xs", "ys")

    def build(self, w):
        return rx.merge(self.source(w, "ys"))(self.source(w, "xs"))


class MergeSlow(Merge):
    name = "merge (suspended subscriptions)"
    slow = ("xs", "ys")


class ConcatSeq(MergeSeq):
    name = "concat_seq (3 sequences)"

    def build(self, w):
        return K.concat_seq([self.source(w, s) for s in self.sources])

    def on_subscribe(self, w, s):
        i = self.sources.index(s)
        for n, x in enumerate(self.sources):
            w.require(w.src[x].over if n < i else not w.src[x].sub or n == i,
                      "a sequence is subscribed after the previous ones completed, in the given order")
        if w.g.closing and not w.g.disposed:
            w.require(False, "nothing is subscribed after an error")

    def all_subscribed(self, w):
        for n, s in enumerate(self.sources):
            w.require(w.src[s].sub == 1, f"{s} is subscribed")
            if not w.src[s].over:
                break


class Concat2(ConcatSeq):
    name = "concat"
    sources = ("xs", "ys")

    def build(self, w):
        return rx.concat(self.source(w, "ys"))(self.source(w, "xs"))


class ConcatSeqSlow(ConcatSeq):
    name = "concat_seq (suspended subscriptions)"
    slow = ("xs", "ys", "zs")
