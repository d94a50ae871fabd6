"""C07: slice as a composition of the stages' contracts (units of C05, C06 and C13)."""
import sys

import z3

from expression.collections import seq as eseq

from ..base import *

FI = sys.modules["aioreactive.filtering"]
for _m, _n in (("filtering", "skip"), ("filtering", "take"), ("filtering", "skip_last"), ("filtering", "take_last"),
               ("filtering", "filteri"), ("filtering", "starfilter"), ("filtering", "filter"), ("combine", "zip_seq"),
               ("transform", "map"), ("transform", "starmap"), ("transform", "mapi"), ("filtering", "starfilteri")):
    try:
        stubbable("aioreactive." + _m, _n)
    except ImportError:
        pass


class Stage(rx.AsyncObservable):
    """the observable an operator returns, known by its contract only"""

    def __init__(self, op, arg, source):
        self.op, self.arg, self.source = op, arg, source

    async def subscribe_async(self, *a):
        raise Cur.path.stop(Unsupported("a stage is not subscribed here"))


def stage(op):
    return lambda w, *a: (lambda source: Stage(op, a[0] if a else None, source))


STUBS = {n: stage(n) for n in ("skip", "take", "skip_last", "take_last", "filteri", "starfilter", "filter", "zip_seq",
                               "map", "starmap", "mapi", "starfilteri")}


def tbool(v):
    """truth of what a user function returned"""
    if isinstance(v, SymBool):
        return v.t
    return z3.BoolVal(bool(v))


SCRIPT = """
import asyncio, json, sys
import aioreactive as rx
from aioreactive.filtering import slice as rslice
form, a, b, s, L = json.loads(sys.argv[1])
async def main():
    xs = rx.from_iterable(range(L))
    try:
        if form == "slice":
            o = rslice(a, b, s)(xs) if s is not None else rslice(a, b)(xs)
        elif form == "getitem":
            o = rx.AsyncRx(xs)[slice(a, b, s)]
        else:
            o = rx.AsyncRx(xs)[a]
    except TypeError:
        print(json.dumps("TypeError"))
        return
    got, done = [], asyncio.Event()
    async def send(v): got.append(v)
    async def close(): done.set()
    async def throw(e): got.append(repr(e)); done.set()
    await o.subscribe_async(send, throw, close)
    try:
        await asyncio.wait_for(done.wait(), 10)
    except asyncio.TimeoutError:
        got.append("no terminal")
    print(json.dumps(got))
asyncio.run(main())
"""


def replay_slice(form, a, b, s, L):
    import json
    import os
    import subprocess
    from .. import load
    env = dict(os.environ, PYTHONPATH=load.REPO, PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-c", SCRIPT, json.dumps([form, a, b, s, L])], env=env, cwd="/",
                           capture_output=True, text=True, timeout=60)
        got = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return None
    if s is not None and s < 0:
        want = "TypeError"
    else:
        want = list(range(L))[slice(a, b, s) if form != "getkey" else slice(a, a + 1 if a != -1 else None)]
    return None if got == want else [f"{form}({a}, {b}, {s}) of range({L}): got {got}, expected {want}"[:600]]


class Slice(Unit):
    """the stages select exactly the positions list(xs)[a:b:s] selects, for every length, start, stop and step"""
    name = "slice"
    must_cover = ("built", "negative step")
    stubs = STUBS
    notes = ("slice: composed with the contracts of skip, take, skip_last, take_last (C06), filteri, starfilter, map (C05) "
             "and zip_seq (C13), all proved; completion follows because every stage completes when its source does",)
    a, b, s, L, i, j = z3.Ints("a b s L i j")

    def init(self, w):
        w.g = Ghost()
        w.src = XObservable(w, "xs", 10)

    def setup(self, w):
        p = w.path
        self.W = w
        a = None if p.choose(2, "start") else SymInt(self.a)
        b = None if p.choose(2, "stop") else SymInt(self.b)
        st = p.choose(3, "step")
        s = None if st == 1 else SymInt(self.s)
        p.assume(self.L >= 0)
        if st == 2:
            p.assume(self.s < 0)
            try:
                self.apply(w, a, b, s)
            except TypeError:
                w.require(True, "a negative step raises TypeError")
                w.cover("negative step")
            else:
                w.require(False, "a negative step raises TypeError")
            return
        p.assume(self.s >= 1)
        r = self.apply(w, a, b, s)
        w.cover("built")
        self.compare(w, r, *self.expected(w, a, b, s))

    replayable = False
    expects = (TypeError,)

    def replay(self, model, choices):
        """the slice of the model, run by the unmodified code on range(L), against Python's list slicing"""
        m = lambda t: model.eval(t, model_completion=True).as_long()
        ch = [c[0] for c in choices]
        a, b, s, L = m(self.a), m(self.b), m(self.s), m(self.L)
        if max(abs(a), abs(b), abs(s), L) > 100000:
            return None
        return replay_slice(self.form, None if ch[0] else a, None if ch[1] else b, None if ch[2] == 1 else s, L)

    form = "slice"

    def apply(self, w, a, b, s):
        if s is None:
            return FI.slice(a, b)(w.src)
        return FI.slice(a, b, s)(w.src)

    def expected(self, w, a, b, s):
        """Python's slice.indices for a positive step"""
        L = self.L

        def clamp(v, d):
            if v is None:
                return d
            t = v.t
            return z3.If(t < 0, z3.If(t + L < 0, z3.IntVal(0), t + L), z3.If(t > L, L, t))
        return clamp(a, z3.IntVal(0)), clamp(b, L), (z3.IntVal(1) if s is None else s.t)

    # -- meaning of the composed contracts on a source of length L: the window [lo, hi) of positions and a
    #    predicate; the values are those of the source
    def compare(self, w, r, ea, eb, es):
        p = w.path
        lo, hi, keep, val = self.window(w, r, self.i)
        inwin = z3.And(lo <= self.i, self.i < hi, keep)
        exp = z3.And(ea <= self.i, self.i < eb, ((self.i - ea) % es) == 0)
        inr = z3.And(0 <= self.i, self.i < self.L)
        # modulo: the only facts needed are congruence and x % 1 == 0
        w.require(z3.Implies(z3.And(inr, exp), lo == ea), "the first selected position counts as index 0")
        w.require(z3.Implies(z3.And(inr, inwin), lo == ea), "the first selected position counts as index 0")
        w.require(z3.Implies(z3.And(inr, inwin), exp), "only positions of the slice are emitted")
        w.require(z3.Implies(z3.And(inr, exp), inwin), "every position of the slice is emitted")
        w.require(z3.And(0 <= lo, hi <= self.L), "only positions of the source are emitted")
        w.require(same(val, self.item(self.i)), "the values are the source's")

    def item(self, i):
        return Opq(Val.VOpq(i))

    def window(self, w, r, i):
        """(lo, hi, predicate at position i, value at position i); the predicate may only be used at the end"""
        p = w.path
        if isinstance(r, rx.AsyncRx):
            for k, v in vars(r).items():
                if isinstance(v, rx.AsyncObservable):
                    return self.window(w, v, i)
        if r is w.src:
            return z3.IntVal(0), self.L, z3.BoolVal(True), self.item(i)
        if not isinstance(r, Stage):
            raise p.stop(Unsupported(f"slice is built from {type(r).__name__}"))
        lo, hi, keep, val = self.window(w, r.source, i)
        op = r.op
        plain = z3.is_true(z3.simplify(keep))
        if op in ("skip", "take", "skip_last", "take_last"):
            if not plain:
                raise p.stop(Unsupported("positions counted after a filter"))
            n = numterm(r.arg)
            w.require(n >= 0, f"{op} gets a count >= 0")
            mn = lambda x, y: z3.If(x < y, x, y)
            mx = lambda x, y: z3.If(x > y, x, y)
            if op == "skip":
                lo = mn(lo + n, hi)
            elif op == "take":
                hi = mn(hi, lo + n)
            elif op == "skip_last":
                hi = mx(lo, hi - n)
            else:
                lo = mx(lo, hi - n)
            return lo, hi, keep, val
        if op == "zip_seq":
            if r.arg is not eseq.infinite:
                raise p.stop(Unsupported("zip_seq with another sequence"))
            if not plain:
                raise p.stop(Unsupported("positions counted after a filter"))
            return lo, hi, keep, (val, mkint(i - lo))
        if op in ("map", "starmap"):
            return lo, hi, keep, (r.arg(val) if op == "map" else r.arg(*val))
        if op == "mapi":
            if not plain:
                raise p.stop(Unsupported("positions counted after a filter"))
            return lo, hi, keep, r.arg(val, mkint(i - lo))
        if op in ("filter", "starfilter", "filteri", "starfilteri"):
            if op in ("filteri", "starfilteri") and not plain:
                raise p.stop(Unsupported("positions counted after a filter"))

            def pred(k, v):
                ar = (v,) if op == "filter" else tuple(v) if op == "starfilter" else (v, mkint(k - lo)) if op == "filteri" \
                    else tuple(v) + (mkint(k - lo),)
                return tbool(r.arg(*ar))
            q = pred(i, val)
            if plain and op in ("filter", "starfilter"):
                # a predicate that keeps a prefix of the window: an end position
                lo2, hi2, _, v2 = self.window(w, r.source, self.j)
                qj = pred(self.j, v2)
                inw = lambda k: z3.And(lo <= k, k < hi)
                if not p.sat(z3.And(inw(i), inw(self.j), i < self.j, qj, z3.Not(q))):
                    e = p.fresh("end", z3.IntSort())
                    w.require(True, "the filter keeps a prefix")
                    p.assume(z3.And(lo <= e, z3.Or(e <= hi, hi < lo), z3.Implies(inw(i), q == (i < e))))
                    return lo, e, keep, val
            return lo, hi, z3.And(keep, q), val
        raise p.stop(Unsupported(f"stage {op}"))


class GetItem(Slice):
    """source[a:b:s]"""
    name = "AsyncRx.__getitem__ (slice)"

    form = "getitem"

    def apply(self, w, a, b, s):
        return rx.AsyncRx(w.src)[slice(a, b, s)]


class GetKey(Slice):
    """source[k] selects list(xs)[k:k+1], the last element for k = -1"""
    name = "AsyncRx.__getitem__ (index)"
    must_cover = ("built",)
    form = "getkey"

    def replay(self, model, choices):
        m = lambda t: model.eval(t, model_completion=True).as_long()
        a, L = m(self.a), m(self.L)
        return replay_slice(self.form, a, None, None, L) if max(abs(a), L) <= 100000 else None

    def setup(self, w):
        w.path.assume(self.L >= 0)
        r = rx.AsyncRx(w.src)[SymInt(self.a)]
        w.cover("built")
        k = SymInt(self.a)
        ea, eb, _ = self.expected(w, k, k + 1, None)
        eb = z3.If(self.a == -1, self.L, eb)
        self.compare(w, r, ea, eb, z3.IntVal(1))
