"""Operators with their specification as a function of the arrival-ordered events.

Every entry: build(p, rt, srcs) -> observable, spec(p, evs) -> expected outputs for
the events so far, nsrc, gen(rng) -> params.  Events are (src, kind, value).
The specification functions are written from the property statements.
"""
from vrt import rx
from aioreactive import combine as _cmb, create as _crt, filtering as _flt, transform as _trf, timeshift as _ts
from expression import Nothing, Some

pipe = rx.pipe
FALSY = [True, False, 1, 0, None, "x", "", (), (0,)]


def pub(mod, name):
    """The public function if exported by the package, else the module one."""
    return getattr(rx, name, None) or getattr(mod, name)


class Calls:
    def __init__(self):
        self.args = []


def only0(evs):
    return [(k, v) for s, k, v in evs if s == 0]


def fwd_term(evs):
    for k, v in evs:
        if k == "C":
            return [("C",)]
        if k == "E":
            return [("E", v)]
    return []


def vals(evs):
    out = []
    for k, v in evs:
        if k != "N":
            break
        out.append(v)
    return out


def term(evs):
    for k, v in evs:
        if k != "N":
            return ("C",) if k == "C" else ("E", v)
    return None


def with_term(vs, t):
    return [("N", v) for v in vs] + ([t] if t else [])


# -- C06 ---------------------------------------------------------------------
def s_take(p, evs):
    xs, t = vals(only0(evs)), term(only0(evs))
    n = p["n"]
    if n > 0 and len(xs) >= n:
        return with_term(xs[:n], ("C",))
    return with_term(xs[:n], t)


def s_skip(p, evs):
    xs, t = vals(only0(evs)), term(only0(evs))
    return with_term(xs[p["n"]:], t)


def s_skip_last(p, evs):
    xs, t = vals(only0(evs)), term(only0(evs))
    n = p["n"]
    return with_term(xs[: max(0, len(xs) - n)], t)


def s_take_last(p, evs):
    xs, t = vals(only0(evs)), term(only0(evs))
    n = p["n"]
    if t is None:
        return []
    if t[0] == "E":
        return [t]
    return with_term(xs[len(xs) - n:] if n <= len(xs) and n > 0 else ([] if n == 0 else xs), t)


def s_take_until(p, evs):
    out = []
    for s, k, v in evs:
        if s == 0:
            out.append((k, v) if k != "C" else ("C",))
            if k != "N":
                break
        elif k == "N":
            out.append(("C",))
            break
        elif k == "E":
            out.append(("E", v))
            break
    return out


# -- C07 ---------------------------------------------------------------------
def s_slice(p, evs):  # only used on complete sources
    xs, t = vals(only0(evs)), term(only0(evs))
    if t is None or t[0] == "E":
        return None
    return with_term(xs[p["a"]:p["b"]:p["s"]], t)


# -- C05 ---------------------------------------------------------------------
def mkf(p, rt, srcs, tagname):
    calls = srcs["calls"]

    def f(*a):
        calls.args.append(a)
        return (tagname, len(calls.args) - 1) + a if p.get("none") is None or len(calls.args) % p["none"] else None

    return f


def mkpred(p, rt, srcs):
    calls = srcs["calls"]

    def f(*a):
        calls.args.append(a)
        m = p["mask"]
        return FALSY[m[(len(calls.args) - 1) % len(m)]]

    return f


def mkchoose(p, rt, srcs):
    calls = srcs["calls"]

    def f(*a):
        calls.args.append(a)
        m = p["mask"]
        r = FALSY[m[(len(calls.args) - 1) % len(m)]]
        return Some(r) if (len(calls.args) - 1 + p["off"]) % 3 else Nothing

    return f


def asy(f):
    import asyncio

    async def g(*a):
        await asyncio.sleep(0)
        return f(*a)

    return g


def s_el(p, evs):
    """results of the i-th call are recomputed independently of the implementation"""
    e0 = only0(evs)
    xs, t = vals(e0), term(e0)
    out = []
    m = p.get("mask")
    for i, x in enumerate(xs):
        op = p["op"]
        star = op.startswith("star")
        idx = op in ("mapi", "mapi_async", "filteri")
        a = tuple(x) if star else ((x, i) if idx else (x,))
        if "map" in op:
            r = ("f", i) + a
            if p.get("none") is not None and not (i + 1) % p["none"]:
                r = None
            out.append(r)
        elif "filter" in op:
            if FALSY[m[i % len(m)]]:
                out.append(x)
        else:
            if (i + p["off"]) % 3:
                out.append(FALSY[m[i % len(m)]])
    return with_term(out, t)


def el_args(p, evs):
    xs = vals(only0(evs))
    op = p["op"]
    return [tuple(x) if op.startswith("star") else ((x, i) if op in ("mapi", "mapi_async", "filteri") else (x,)) for i, x in enumerate(xs)]


EL = {
    "map": lambda p, rt, s: pub(_trf, "map")(mkf(p, rt, s, "f")),
    "map_async": lambda p, rt, s: pub(_trf, "map_async")(asy(mkf(p, rt, s, "f"))),
    "starmap": lambda p, rt, s: pub(_trf, "starmap")(mkf(p, rt, s, "f")),
    "mapi": lambda p, rt, s: pub(_trf, "mapi")(mkf(p, rt, s, "f")),
    "mapi_async": lambda p, rt, s: pub(_trf, "mapi_async")(asy(mkf(p, rt, s, "f"))),
    "filter": lambda p, rt, s: pub(_flt, "filter")(mkpred(p, rt, s)),
    "filter_async": lambda p, rt, s: pub(_flt, "filter_async")(asy(mkpred(p, rt, s))),
    "filteri": lambda p, rt, s: pub(_flt, "filteri")(mkpred(p, rt, s)),
    "starfilter": lambda p, rt, s: pub(_flt, "starfilter")(mkpred(p, rt, s)),
    "choose": lambda p, rt, s: pub(_flt, "choose")(mkchoose(p, rt, s)),
    "choose_async": lambda p, rt, s: pub(_flt, "choose_async")(asy(mkchoose(p, rt, s))),
}


# -- C08 ---------------------------------------------------------------------
def mkacc(p, rt, srcs):
    calls = srcs["calls"]

    def f(*a):
        calls.args.append(a)
        if p.get("fail") is not None and len(calls.args) - 1 == p["fail"]:
            raise rt.err(900)
        return ("acc", len(calls.args) - 1) if not p.get("none") or len(calls.args) % p["none"] else None

    return f


def s_scan(p, evs):
    e0 = only0(evs)
    xs, t = vals(e0), term(e0)
    out, cur = [], p["init"]
    for i, x in enumerate(xs):
        if p.get("fail") is not None and i == p["fail"]:
            return [("N", o) for o in out], "accerr"
        cur = ("acc", i) if not p.get("none") or (i + 1) % p["none"] else None
        out.append(cur)
    if "reduce" in p["op"]:
        if t is None:
            return [], None
        if t[0] == "E":
            return [t], None
        return with_term(out[-1:], t), None
    return with_term(out, t), None


def acc_args(p, evs):
    xs = vals(only0(evs))
    res, cur = [], p["init"]
    for i, x in enumerate(xs):
        res.append((cur, x))
        if p.get("fail") is not None and i == p["fail"]:
            break
        cur = ("acc", i) if not p.get("none") or (i + 1) % p["none"] else None
    return res


SC = {
    "scan": lambda p, rt, s: pub(_trf, "scan")(mkacc(p, rt, s), p["init"]),
    "scan_async": lambda p, rt, s: pub(_trf, "scan_async")(asy(mkacc(p, rt, s)), p["init"]),
    "reduce": lambda p, rt, s: pub(_trf, "reduce")(mkacc(p, rt, s), p["init"]),
    "reduce_async": lambda p, rt, s: pub(_trf, "reduce_async")(asy(mkacc(p, rt, s)), p["init"]),
}


def s_distinct(p, evs):
    e0 = only0(evs)
    xs, t = vals(e0), term(e0)
    out = [x for i, x in enumerate(xs) if i == 0 or not (x == xs[i - 1])]
    return with_term(out, t)


# -- C13 ---------------------------------------------------------------------
def s_combine(p, evs):
    out, have, cur = [], [False, False], [None, None]
    for s, k, v in evs:
        if k == "C":
            return out + [("C",)]
        if k == "E":
            return out + [("E", v)]
        have[s], cur[s] = True, v
        if have[0] and have[1]:
            out.append(("N", (cur[0], cur[1])))
    return out


def s_wlf(p, evs):
    out, have, cur = [], False, None
    for s, k, v in evs:
        if k == "C":
            return out + [("C",)]
        if k == "E":
            return out + [("E", v)]
        if s == 1:
            have, cur = True, v
        elif have:
            out.append(("N", (v, cur)))
    return out


def s_zip(p, evs):
    out, seq = [], p["seq"]
    i = 0
    for k, v in only0(evs):
        if k == "C":
            return out + [("C",)]
        if k == "E":
            return out + [("E", v)]
        if i >= len(seq):
            return out + [("C",)]
        out.append(("N", (v, seq[i])))
        i += 1
    return out


OPS = {
    "take": (lambda p, rt, s: pipe(s[0], rx.take(p["n"])), s_take, 1),
    "skip": (lambda p, rt, s: pipe(s[0], rx.skip(p["n"])), s_skip, 1),
    "skip_last": (lambda p, rt, s: pipe(s[0], rx.skip_last(p["n"])), s_skip_last, 1),
    "take_last": (lambda p, rt, s: pipe(s[0], rx.take_last(p["n"])), s_take_last, 1),
    "take_until": (lambda p, rt, s: pipe(s[0], pub(_flt, "take_until")(s[1])), s_take_until, 2),
    "distinct_until_changed": (lambda p, rt, s: pub(_flt, "distinct_until_changed")(s[0]), s_distinct, 1),
    "combine_latest": (lambda p, rt, s: pipe(s[0], rx.combine_latest(s[1])), s_combine, 2),
    "with_latest_from": (lambda p, rt, s: pipe(s[0], pub(_cmb, "with_latest_from")(s[1])), s_wlf, 2),
    "zip_seq": (lambda p, rt, s: pipe(s[0], _cmb.zip_seq(p["seq"])), s_zip, 1),
}
for _n in EL:
    OPS[_n] = (lambda p, rt, s, _n=_n: pipe(s[0], EL[_n](p, rt, s[-1])), s_el, 1)
for _n in SC:
    OPS[_n] = (lambda p, rt, s, _n=_n: pipe(s[0], SC[_n](p, rt, s[-1])), lambda p, e: s_scan(p, e)[0], 1)
SAFE = ["take", "skip", "skip_last", "take_last", "take_until", "distinct_until_changed", "combine_latest", "with_latest_from", "zip_seq"]
