"""C03/C04: subjects."""
import asyncio
import sys

import z3

from ..base import *
from expression.system import ObjectDisposedException

CALLS = {"N": "asend", "E": "athrow", "C": "aclose"}


class Subject(Unit):
    """each value reaches exactly the observers subscribed at the call, once, in order, one after the other"""
    name = "AsyncSubject"
    must_cover = ("N", "E", "C", "delivered", "dropped", "after dispose", "unsubscribed during delivery", "finished")
    producers = ("p",)
    handles = ("h1",)

    def init(self, w):
        g = w.g = Ghost()
        g.obs = SymList(z3.Empty(SeqV), "observer")
        g.stopped = g.disposed = False
        g.snap, g.pos, g.val, g.kind, g.busy = {}, {}, {}, {}, {}
        w.subj = rx.AsyncSubject()
        w.h = {}
        w.hid = {}

    def setup(self, w):
        pass

    def events(self, w):
        ev = []
        g = w.g
        for r in self.producers:
            if r not in w.calls:
                for k in "NEC":
                    ev.append((f"{r}.{k}", lambda w, r=r, k=k: self.produce(w, r, k)))
                break                      # producers are symmetric: use the first free one
        if "sub" not in w.calls:
            ev.append(("subscribe", lambda w: self.subscribe(w, None)))
            for h in self.handles:
                if h not in w.h:
                    ev.append(("subscribe tracked", lambda w, h=h: self.subscribe(w, h)))
                    break
        for h in self.handles:
            if h in w.h:
                ev.append((f"unsubscribe {h}", lambda w, h=h: self.unsubscribe(w, h)))
        if not g.disposed:
            ev.append(("dispose", self.do_dispose))
        for p in w.pend:
            ev.append((f"{p.role}.return", lambda w, p=p: self.returned(w, p)))
        return ev

    def subscribe(self, w, h):
        g = w.g
        o = XObserver(w, "o", w.int("o"), static=False)
        w.path.assume(z3.Not(seqin(seqterm(g.obs), box(o))))
        w.note("subscribe", show(o.ident), h)

        def done(w, r, ex):
            if g.disposed:
                w.require(isinstance(ex, ObjectDisposedException), "subscribing to a disposed subject raises")
                return
            w.require(ex is None, "subscribing does not raise")
            if h is not None:
                w.h[h], w.hid[h] = r, o
        if not g.disposed:
            g.obs.append(o)
        w.spawn(w.subj.subscribe_async(o), "sub", done)

    def unsubscribe(self, w, h):
        d, o = w.h.pop(h), w.hid.pop(h)
        w.g.obs.remove(o)
        if w.g.snap:
            w.cover("unsubscribed during delivery")

        def done(w, r, ex):
            w.require(ex is None, "unsubscribing does not raise")
        w.spawn(d.dispose_async(), "unsub", done)

    def do_dispose(self, w):
        w.g.disposed = True
        w.spawn(w.subj.dispose_async(), "dispose")

    def produce(self, w, r, k):
        g = w.g
        v = w.value() if k == "N" else w.error() if k == "E" else None
        w.cover(k)
        w.note(r, k, show(v))
        dead = g.disposed
        if not dead:
            if g.stopped:
                w.cover("dropped")
                g.snap[r] = SymList(z3.Empty(SeqV), "observer")
            else:
                g.snap[r] = SymList(seqterm(g.obs), "observer")
            g.pos[r], g.val[r], g.kind[r], g.busy[r] = 0, v, k, False
            if k != "N":
                g.stopped = True

        def done(w, res, ex):
            if dead:
                w.cover("after dispose")
                w.require(isinstance(ex, ObjectDisposedException), "a disposed subject raises")
                return
            w.require(ex is None, f"{CALLS[k]} does not raise")
            w.require(w.g.pos[r] == vlen(w.g.snap[r]), "every subscribed observer got it before the call returned")
            w.cover("finished")
            for d in (g.snap, g.pos, g.val, g.kind, g.busy):
                d.pop(r)
        m = w.subj
        w.spawn(m.asend(v) if k == "N" else m.athrow(v) if k == "E" else m.aclose(), r, done)

    def on_call(self, w, name, target, args):
        g = w.g
        t = asyncio.current_task(w.loop)
        r = next((r for r in self.producers if w.calls.get(r) is t), None)
        w.require(r is not None and r in g.snap, "observers are called by the producer only")
        k = {"asend": "N", "athrow": "E", "aclose": "C"}[name]
        w.require(k == g.kind[r], "the notification that was sent")
        w.require(not g.busy[r], "each observer is awaited before the next")
        w.require(g.pos[r] < vlen(g.snap[r]), "no observer is served twice")
        w.require(box(target) == seqterm(g.snap[r])[numterm(g.pos[r])], "the observers subscribed at the call, in order")
        if k != "C":
            w.require(same(args[0], g.val[r]), "with the value that was sent")
        g.pos[r] = g.pos[r] + 1
        g.busy[r] = True
        w.cover("delivered")
        return ("susp", r)

    def returned(self, w, p):
        w.g.busy[p.role] = False
        w.resume(p)


class SingleSubject(Unit):
    """calls wait for the observer, are delivered in call order up to the first terminal, and never hang"""
    name = "AsyncSingleSubject"
    must_cover = ("N", "E", "C", "delivered", "dropped", "waited", "after dispose", "woken by dispose", "finished")
    producers = ("p1", "p2", "p3")
    notes = ("AsyncSingleSubject: at most 3 producer calls in flight at once (unlimited calls in total), one subscription",)

    def init(self, w):
        g = w.g = Ghost()
        g.wait = []             # producers waiting, in call order
        g.what = {}             # producer -> (kind, value)
        g.at = {}               # producer -> waiting / in observer
        g.stopped = g.disposed = g.sub = False
        w.subj = rx.AsyncSingleSubject()
        w.obv = XObserver(w, "obv", 1)
        w.handle = None

    def setup(self, w):
        pass

    def events(self, w):
        ev = []
        g = w.g
        for r in self.producers:
            if r not in w.calls:
                for k in "NEC":
                    ev.append((f"{r}.{k}", lambda w, r=r, k=k: self.produce(w, r, k)))
                break
        if not g.sub and not g.disposed:
            ev.append(("subscribe", self.subscribe))
        if not g.disposed:
            ev.append(("dispose", self.do_dispose))
        else:
            ev.append(("subscribe late", self.subscribe))
        if w.handle is not None and not g.disposed:
            ev.append(("dispose subscription", self.unsub))
        for p in w.pend:
            ev.append((f"{p.role}.return", lambda w, p=p: w.resume(p)))
        return ev

    def subscribe(self, w):
        dead = w.g.disposed
        if not dead:
            w.g.sub = True

        def done(w, r, ex):
            if dead:
                w.require(isinstance(ex, ObjectDisposedException), "subscribing to a disposed subject raises")
                return
            w.require(ex is None, "subscribing does not raise")
            w.handle = r
        w.spawn(w.subj.subscribe_async(w.obv), "sub", done)

    def do_dispose(self, w):
        w.g.disposed = True
        w.spawn(w.subj.dispose_async(), "dispose")

    def unsub(self, w):
        w.g.disposed = True
        w.spawn(w.handle.dispose_async(), "dispose")

    def produce(self, w, r, k):
        g = w.g
        v = w.value() if k == "N" else w.error() if k == "E" else None
        w.cover(k)
        w.note(r, k, show(v))
        dead = g.disposed
        if not dead:
            g.wait.append(r)
            g.what[r] = (k, v)
            g.at[r] = "waiting"
            if not g.sub:
                w.cover("waited")

        def done(w, res, ex):
            if dead:
                w.cover("after dispose")
                w.require(isinstance(ex, ObjectDisposedException), "a disposed subject raises")
                return
            at = g.at.pop(r)
            g.what.pop(r)
            if at == "waiting":
                if g.disposed:
                    w.cover("woken by dispose")
                    w.require(isinstance(ex, ObjectDisposedException), "a waiting producer gets ObjectDisposedException")
                else:
                    w.require(g.stopped and ex is None, "the call returns only after delivery, or when dropped after a terminal")
                    w.require(bool(g.wait) and g.wait[0] == r, "calls are decided in call order")
                    w.cover("dropped")
                g.wait.remove(r)
            else:
                w.require(ex is None, f"{CALLS[k]} does not raise")
                w.cover("finished")
        m = w.subj
        w.spawn(m.asend(v) if k == "N" else m.athrow(v) if k == "E" else m.aclose(), r, done)

    def on_call(self, w, name, target, args):
        g = w.g
        t = asyncio.current_task(w.loop)
        r = next((r for r in self.producers if w.calls.get(r) is t), None)
        w.require(r is not None and r in g.at, "the observer is called by a producer only")
        w.require(target is w.obv and g.sub, "the subscribed observer is called")
        w.require(not g.disposed, "nothing is delivered after dispose")
        w.require(not g.stopped, "nothing is delivered after the terminal")
        w.require(g.at[r] == "waiting" and g.wait[0] == r, "delivery in call order, once")
        k = {"asend": "N", "athrow": "E", "aclose": "C"}[name]
        w.require(k == g.what[r][0], "the notification that was sent")
        if k != "C":
            w.require(same(args[0], g.what[r][1]), "with the value that was sent")
        g.wait.pop(0)
        g.at[r] = "observer"
        if k != "N":
            g.stopped = True
        w.cover("delivered")
        return ("susp", r)

    def at_quiet(self, w):
        g = w.g
        if g.sub or g.disposed:
            w.require(not g.wait, "no producer is left waiting")
        w.require(all(r in self.producers for r in w.calls), "no other call is left hanging")
