"""C01/C02: safe_observer and auto_detach_observer, the contracts every other unit relies on."""
import sys

import z3

from ..base import *

OB = sys.modules["aioreactive.observers"]
AllN = z3.Function("AllN", SeqV, z3.BoolSort())     # every element is an OnNext (recursive definition, used by lemma)


def note(k, v):
    return OnNext(v) if k == "N" else OnError(v) if k == "E" else OnCompleted()


class SafeObserver(Unit):
    """The observer gets what was issued, in order, up to the first terminal, one call at a time; if it
    raises on a value it gets that error and nothing more; the subscription is disposed before the terminal."""
    name = "safe_observer"
    must_cover = ("N", "E", "C", "raised", "raised.E", "after", "disposed")

    def init(self, w):
        g = w.g = Ghost()
        g.ns = SymList(z3.Empty(SeqV), "note")      # values issued and not delivered yet
        g.fin = None         # the first terminal issued
        g.junk = SymList(z3.Empty(SeqV), "note")    # everything issued after it
        g.done = False       # the terminal has been delivered
        g.busy = False       # the observer is handling a notification
        g.err = None         # the observer raised this
        g.disposed = False
        g.begun = False
        g.dpend = False
        w.out = XObserver(w, "out", 1)
        w.obv = None
        w.disp = XDisp(w, "d", 50)

    def setup(self, w):
        w.obv = OB.safe_observer.__vreal__(w.out, w.disp)

    def terms(self, w):
        g = w.g
        ns, junk = seqterm(g.ns), seqterm(g.junk)
        mid = [z3.Unit(box(g.fin))] if g.fin is not None else []
        return [("queued", "seq", z3.Concat(*([ns] + mid + [junk]))),
                ("junk", "seq", junk), ("all values", "prop", AllN(ns))]

    def lemmas(self, w):
        s = seqterm(w.g.ns)
        p = w.path
        n = z3.Length(s)
        p.assume(AllN(z3.Empty(SeqV)))
        p.assume(z3.Implies(z3.And(AllN(s), n > 0),
                            z3.And(Val.is_VNote(s[0]), Val.nk(s[0]) == 0, AllN(z3.Extract(s, 1, n - 1)))))

    def before_event(self, w, name):
        self.lemmas(w)

    def events(self, w):
        ev = []
        for k in "NEC":
            if "issue" not in w.calls:
                ev.append((f"issue.{k}", lambda w, k=k: self.issue(w, k)))
        for p in w.pend:
            if p.name == "dispose":
                ev.append(("disposed", lambda w, p=p: self.resume(w, p, None)))
            else:
                ev.append(("out.return", lambda w, p=p: self.resume(w, p, None)))
                if p.name == "asend":
                    ev.append(("out.raise", lambda w, p=p: self.resume(w, p, w.error("oe"))))
        return ev

    def resume(self, w, p, ex):
        if p.name != "dispose":
            w.g.busy = False
            if ex is not None:
                w.cover("raised")
                w.g.err = ex
        w.resume(p, None, ex)

    def issue(self, w, k):
        g = w.g
        v = w.value() if k == "N" else w.error() if k == "E" else None
        w.note("issue", k, show(v))
        n = note(k, v)
        if g.fin is not None:
            w.cover("after")
            g.junk.append(n)
        elif k != "N":
            g.fin = n
        else:
            old = seqterm(g.ns)
            g.ns.append(n)
            w.path.assume(z3.Implies(AllN(old), AllN(seqterm(g.ns))))
            self.lemmas(w)
        m = w.obv
        w.spawn(m.asend(v) if k == "N" else m.athrow(v) if k == "E" else m.aclose(), "issue")

    def on_call(self, w, name, target, args):
        g = w.g
        if name == "dispose":
            g.disposed = True
            w.cover("disposed")
            return ("susp",)
        k = {"asend": "N", "athrow": "E", "aclose": "C"}[name]
        v = args[0] if args else None
        w.require(target is w.out, "the wrapped observer is called")
        w.require(not g.busy, "the next call starts only after the previous one has returned")
        w.require(not g.done, "nothing is delivered after the terminal")
        g.busy = True
        w.cover(k)
        if k != "N":
            g.done = True
            w.require(g.disposed, "the subscription is disposed before the terminal")
        if g.err is not None:
            w.require(k == "E", "an observer that raised gets an error next")
            w.require(same(v, g.err), "the error it raised")
            w.cover("raised.E")
            return ("susp",)
        self.lemmas(w)
        if g.ns:
            w.require(k == "N", "values are delivered before the terminal")
            w.require(box(note("N", v)) == seqterm(g.ns)[0], "the next value issued")
            g.ns.pop(0)
            self.lemmas(w)
        else:
            w.require(g.fin is not None, "only what was issued is delivered")
            w.require(box(note(k, v)) == box(g.fin), "the first terminal issued")
        return ("susp",)

    def at_quiet(self, w):
        g = w.g
        if not w.pend and not g.done:
            w.require(z3.And(z3.Length(seqterm(g.ns)) == 0, z3.BoolVal(g.fin is None)), "everything issued is delivered")
            w.require(g.err is None, "the error the observer raised is delivered")
        if g.done:
            # what was issued after the terminal is of no interest any more
            pass


class AutoDetach(Unit):
    """Every subscription attached before or after the terminal is disposed exactly once, none before it."""
    name = "auto_detach_observer"
    stub_safe = True
    must_cover = ("term", "held disposed", "late disposed", "attached")

    def init(self, w):
        g = w.g = Ghost()
        g.held = []          # attached before the terminal, in order
        g.pos = 0            # how many of them are disposed
        g.late = None        # attached after the terminal, to be disposed
        g.term = False
        w.out = XObserver(w, "out", 1)
        w.obv = w.attach = w.last = None

    def setup(self, w):
        w.obv, w.attach = OB.auto_detach_observer.__vreal__(w.out)

    def on_issue(self, w, obv, k, v):
        w.note("issue", k)

    def events(self, w):
        if w.cut is not None:
            def go(w):
                p, w.cut = w.cut, None
                p.fut.set_result(None)
            return [("loop", go)]
        ev = []
        if "attach" not in w.calls:
            ev.append(("attach", self.do_attach))
        if not w.g.term:
            ev.append(("term.C", lambda w: self.do_term(w, "C")))
            ev.append(("term.E", lambda w: self.do_term(w, "E")))
        for p in w.pend:
            ev.append((p.name + ".return", lambda w, p=p: self.ret(w, p)))
        return ev

    def do_attach(self, w):
        w.spawn(w.attach(w.extcall("subscribe", w.out)), "attach", self.attached)

    @staticmethod
    def attached(w, r, ex):
        w.require(ex is None, "attaching does not raise")
        w.require(same(r, w.last), "the subscription is returned")
        w.cover("attached")
        w.last = None


    def do_term(self, w, k):
        w.g.term = True
        w.cover("term")
        w.spawn(w.obv.aclose() if k == "C" else w.obv.athrow(w.error()), "term")

    def ret(self, w, p):
        if p.name != "subscribe":
            w.resume(p)
            return
        g = w.g
        d = XDisp(w, "d", w.int("d"), static=False)
        w.last = d
        if g.term:
            g.late = d
        else:
            g.held.append(d)
        w.resume(p, d)

    def on_call(self, w, name, target, args):
        g = w.g
        if name == "subscribe":
            return ("susp",)
        if name == "dispose":
            w.require(g.term, "no subscription is disposed before the terminal")
            if g.pos < vlen(g.held):
                w.require(box(target) == seqterm(g.held)[numterm(g.pos)], "each held subscription is disposed once")
                g.pos = g.pos + 1
                w.cover("held disposed")
            else:
                w.require(g.late is not None, "nothing is disposed twice")
                w.require(same(target, g.late), "the late subscription is disposed")
                w.cover("late disposed")
                g.late = None
            return ("ret", None)
        w.require(False, f"unexpected call {name}")

    def at_quiet(self, w):
        g = w.g
        if g.term and w.cut is None and not w.pend:
            w.require(g.pos == vlen(g.held), "C02 every held subscription is disposed")
            w.require(g.late is None, "C02 a late subscription is disposed")
