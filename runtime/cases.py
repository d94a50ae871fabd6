"""Case families per property: gen(rng) -> params (python literal), run(params, rt) coroutine."""
import asyncio
import inspect

from vrt import (AsyncDisposable, AsyncObservable, AsyncObserver, Err, ObjectDisposedException, Rec, Rt, Src, rx,
                 same, same_ev, same_seq, upto_terminal)
import ops
from ops import Calls, pipe, pub

VALS = [None, False, 0, 1, 2, "", "a", (), (1, 2), True, 1.0, 3, [], "b"]
FAM = {}


def fam(prop, name, gen, small=None, weight=1):
    def deco(fn):
        FAM.setdefault(prop, []).append((name, gen, fn, small, weight))
        return fn

    return deco


def rvals(r, n):
    return [r.choice(VALS) for _ in range(n)]


def rscript(r, nsrc=1, maxn=7, tup=False, extra=False, gaps=("-", "q", "0")):
    """events [src, kind, val, gap]; each source conforms to the grammar unless extra"""
    n = r.randint(0, maxn)
    done = [False] * nsrc
    out = []
    for _ in range(n):
        s = r.randrange(nsrc)
        if done[s] and not extra:
            continue
        x = r.random()
        g = r.choice(gaps)
        if x < 0.72:
            v = (r.choice(VALS), r.choice(VALS)) if tup else r.choice(VALS)
            out.append((s, "N", v, g))
        elif x < 0.88:
            out.append((s, "C", None, g))
            done[s] = True
        else:
            out.append((s, "E", r.randint(1, 3), g))
            done[s] = True
    if nsrc == 1 and not done[0] and r.random() < 0.6:
        out.append((0, r.choice("CCE"), 4, "q"))
    return out


def payload(rt, k, v):
    return rt.err(v) if k == "E" else v


async def play(rt, srcs, script, after=None):
    evs = []
    for s, k, v, g in script:
        pv = payload(rt, k, v)
        evs.append((s, k, pv))
        await srcs[s].emit(k, pv)
        await rt.gap(g)
        if g == "q" and after:
            after(list(evs))
    await rt.settle()
    if after:
        after(list(evs))
    return evs


def show(evs):
    return repr(evs)


async def op_case(p, rt):
    """generic: one subscription, compare outputs after every settled prefix"""
    op = p["op"]
    build, spec, nsrc = ops.OPS[op]
    calls = Calls()
    srcs = [Src(rt, f"s{i}") for i in range(nsrc)]
    obs = build(p, rt, srcs + [{"calls": calls}])
    rec = Rec(rt, p.get("mode", ("fast",)))
    await obs.subscribe_async(rec)
    await rt.settle()
    slow = rec.mode[0] == "slow"

    def after(evs):
        if slow:
            return
        exp = spec(p, evs)
        if exp is None:
            return
        if op in ops.SC:
            e, x = ops.s_scan(p, evs)
            if x == "accerr":
                if "reduce" in op:
                    e = []
                e = e + [("E", rt.err(900))]
            exp = e
        rt.expect(same_seq(rec.got, exp), f"{op} {p}: after {show(evs)} delivered {rec.got}, expected {exp}")

    evs = await play(rt, srcs, p["script"], after)
    if slow:
        await asyncio.sleep(1000)
        slow = False
        after(evs)
    rt.expect(not rec.overlap, f"{op}: overlapping calls of the observer")
    if op in ops.EL:
        ea = ops.el_args(p, evs)
        rt.expect(same(calls.args, ea), f"{op} {p}: function called with {calls.args}, expected {ea}")
    if op in ops.SC:
        ea = ops.acc_args(p, evs)
        rt.expect(same(calls.args, ea), f"{op} {p}: accumulator called with {calls.args}, expected {ea}")
    return rec, evs, srcs


# ---------------------------------------------------------------- C05
def g_el(r):
    op = r.choice(sorted(ops.EL))
    p = {"op": op, "script": rscript(r, tup=op.startswith("star"), gaps=("q", "q", "-"))}
    if "filter" in op or "choose" in op:
        p["mask"] = [r.randrange(len(ops.FALSY)) for _ in range(r.randint(1, 5))]
        p["off"] = r.randint(0, 2)
    elif r.random() < 0.4:
        p["none"] = r.randint(1, 3)
    if r.random() < 0.25:
        p["mode"] = ("yield",)
    return p


@fam("C05", "elementwise", g_el, weight=4)
async def c05(p, rt):
    await op_case(p, rt)


# ---------------------------------------------------------------- C06
def g_06(r):
    op = r.choice(["take", "skip", "skip_last", "take_last", "take_until"])
    nsrc = 2 if op == "take_until" else 1
    p = {"op": op, "n": r.choice([0, 1, 1, 2, 2, 3, 5]), "script": rscript(r, nsrc, maxn=8)}
    if r.random() < 0.25:
        p["mode"] = r.choice([("slow", 0.5), ("yield",)])
    return p


def small_06():
    for op in ("take", "skip", "skip_last", "take_last"):
        for n in range(0, 5):
            for ln in range(0, 6):
                for t in "CE-":
                    sc = [(0, "N", VALS[(i * 5) % 7] if i % 2 else i, "q") for i in range(ln)]
                    if t != "-":
                        sc.append((0, t, 1, "q"))
                    yield {"op": op, "n": n, "script": sc}


@fam("C06", "select", g_06, small_06, weight=3)
async def c06(p, rt):
    await op_case(p, rt)


def g_06x(r):
    return {"op": r.choice(["take", "skip_last", "take_last", "skip"]), "n": r.randint(0, 40),
            "script": [(0, "N", i, "-") for i in range(r.randint(0, 60))] + [(0, "C", None, "q")]}


@fam("C06", "long", g_06x)
async def c06x(p, rt):
    await op_case(p, rt)


# ---------------------------------------------------------------- C07
async def slice_case(p, rt):
    src = Src(rt)
    key = p.get("key")
    if p["form"] == "item":
        obs = rx.AsyncRx(src)[key]
        xs = p["xs"]
        exp = xs[key:key + 1] if key != -1 else xs[-1:]
    elif p["form"] == "getitem":
        obs = rx.AsyncRx(src)[p["a"]:p["b"]:p["s"]]
        exp = p["xs"][p["a"]:p["b"]:p["s"]]
    else:
        args = [p["a"], p["b"]] + ([p["s"]] if p["s"] is not None else [])
        obs = pipe(src, ops._flt.slice(*args))
        exp = p["xs"][p["a"]:p["b"]:p["s"]]
    rec = Rec(rt)
    await obs.subscribe_async(rec)
    for x in p["xs"]:
        await src.emit("N", x)
        if p["gap"]:
            await rt.settle()
    await rt.settle()
    await src.emit("C")
    await rt.settle()
    exp = [("N", x) for x in exp] + [("C",)]
    rt.expect(same_seq(rec.got, exp), f"slice {p}: got {rec.got} expected {exp}")


def g_07(r):
    ln = r.randint(0, 9)
    b = lambda: r.choice([None, None] + list(range(-ln - 2, ln + 3)))
    f = r.choice(["item", "getitem", "fn"])
    p = {"form": f, "xs": [r.choice(VALS) for _ in range(ln)], "gap": r.random() < 0.5}
    if f == "item":
        p["key"] = r.randint(-ln - 2, ln + 2)
    else:
        p.update(a=b(), b=b(), s=r.choice([None, 1, 1, 2, 3, 4]))
    return p


def small_07():
    for ln in (0, 1, 3, 4):
        bs = [None] + list(range(-ln - 1, ln + 2))
        for a in bs:
            for b in bs:
                for s in (None, 2) if ln > 2 else (1,):
                    yield {"form": "getitem" if s != 2 else "fn", "xs": list(range(ln)), "gap": False, "a": a, "b": b, "s": s}
        for k in range(-ln - 1, ln + 1):
            yield {"form": "item", "xs": list(range(ln)), "gap": False, "key": k}


fam("C07", "slice", g_07, small_07, weight=3)(slice_case)


@fam("C07", "negstep", lambda r: {"s": r.randint(-5, -1), "a": r.choice([None, 0, 2, -1]), "b": r.choice([None, 5])})
async def c07n(p, rt):
    src = Src(rt)
    for f in ("fn", "item"):
        try:
            if f == "fn":
                obs = pipe(src, ops._flt.slice(p["a"], p["b"], p["s"]))
            else:
                obs = rx.AsyncRx(src)[p["a"]:p["b"]:p["s"]]
            await obs.subscribe_async(Rec(rt))
        except TypeError:
            continue
        rt.fail(f"negative step accepted {p} {f}")


# ---------------------------------------------------------------- C08
def g_08(r):
    p = {"op": r.choice(sorted(ops.SC)), "init": r.choice(VALS), "script": rscript(r, gaps=("q", "q", "-"))}
    if r.random() < 0.3:
        p["fail"] = r.randint(0, 4)
    if r.random() < 0.3:
        p["none"] = r.randint(1, 2)
    return p


@fam("C08", "fold", g_08, weight=4)
async def c08(p, rt):
    await op_case(p, rt)


@fam("C08", "real_acc", lambda r: {"xs": [r.randint(-5, 9) for _ in range(r.randint(0, 12))], "init": r.randint(-3, 3), "k": r.choice(["scan", "reduce"])})
async def c08b(p, rt):
    src = rx.from_iterable(p["xs"])
    f = lambda a, x: 3 * a - x
    obs = pipe(src, getattr(rx, p["k"], None)(f, p["init"]) if hasattr(rx, p["k"]) else getattr(ops._trf, p["k"])(f, p["init"]))
    rec = Rec(rt)
    await obs.subscribe_async(rec)
    await rt.settle()
    cur, out = p["init"], []
    for x in p["xs"]:
        cur = f(cur, x)
        out.append(cur)
    exp = ops.with_term(out if p["k"] == "scan" else out[-1:], ("C",))
    rt.expect(same_seq(rec.got, exp), f"{p}: got {rec.got} expected {exp}")


# ---------------------------------------------------------------- C09
class Odd:
    """a value whose equality is not identity"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Odd) and self.n % 3 == o.n % 3

    def __hash__(self):
        return 0

    def __repr__(self):
        return f"Odd({self.n})"


def g_09(r):
    pool = r.choice([[1, 2], [None, 0, False], [1, True, 1.0, 2], ["a", "", None], [(), (1,)], [0]])
    n = r.randint(0, 10)
    sc = [(0, "N", r.choice(pool), r.choice("-q0")) for _ in range(n)]
    if r.random() < 0.8:
        sc.append((0, r.choice("CCE"), 1, "q"))
    p = {"op": "distinct_until_changed", "script": sc}
    if r.random() < 0.25:
        p["mode"] = ("slow", 0.5)
    return p


@fam("C09", "distinct", g_09, weight=3)
async def c09(p, rt):
    await op_case(p, rt)


@fam("C09", "user_eq", lambda r: {"ns": [r.randint(0, 6) for _ in range(r.randint(1, 9))]})
async def c09b(p, rt):
    xs = [Odd(n) for n in p["ns"]]
    src, rec = Src(rt), Rec(rt)
    await ops.OPS["distinct_until_changed"][0]({}, rt, [src]).subscribe_async(rec)
    for x in xs:
        await src.emit("N", x)
    await rt.settle()
    exp = [x for i, x in enumerate(xs) if i == 0 or not (x == xs[i - 1])]
    got = [v for k, v in rec.got if k == "N"]
    rt.expect(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), f"{p}: got {got} expected {exp}")


# ---------------------------------------------------------------- C13
def g_13(r):
    op = r.choice(["combine_latest", "with_latest_from", "zip_seq"])
    nsrc = 1 if op == "zip_seq" else 2
    p = {"op": op, "script": rscript(r, nsrc, maxn=8)}
    if op == "zip_seq":
        p["seq"] = rvals(r, r.randint(0, 6))
    if r.random() < 0.25:
        p["mode"] = r.choice([("slow", 0.5), ("yield",)])
    return p


@fam("C13", "pair", g_13, weight=3)
async def c13(p, rt):
    await op_case(p, rt)


@fam("C13", "zip_raise", lambda r: {"k": r.randint(0, 4), "n": r.randint(0, 6)})
async def c13b(p, rt):
    def it():
        for i in range(p["k"]):
            yield i
        raise rt.err(5)

    src, rec = Src(rt), Rec(rt)
    await pipe(src, ops._cmb.zip_seq(it())).subscribe_async(rec)
    for i in range(p["n"]):
        await src.emit("N", i)
    await rt.settle()
    k = min(p["k"], p["n"])
    exp = [("N", (i, i)) for i in range(k)] + ([("E", rt.err(5))] if p["n"] > p["k"] else [])
    rt.expect(same_seq(rec.got, exp), f"{p}: got {rec.got} expected {exp}")


# ---------------------------------------------------------------- C01
CARRIERS = ["skip", "take", "take_until", "merge", "distinct", "zip_seq", "combine", "switch", "safe", "detach", "concat", "skip_last"]


def g_01(r):
    n = r.randint(1, 9)
    sc = []
    for i in range(n):
        x = r.random()
        g = r.choice(["-", "-", "0", "q", 0.25, 0.75])
        sc.append((0, "N", (i, r.choice(VALS)), g) if x < 0.7 else (0, r.choice("CE"), i, g))
    return {"carrier": r.choice(CARRIERS), "script": sc,
            "mode": r.choice([("fast",), ("slow", 0.5), ("yield",), ("raise", r.randint(0, 4), 77), ("slow", 0.5)])}


def carry(rt, name, src, obsv):
    """the observable whose output is issued 1:1 from src (after the wrapping) -- or None"""
    if name == "skip":
        return pipe(src, rx.skip(0))
    if name == "skip_last":
        return pipe(src, rx.skip_last(0))
    if name == "take":
        return pipe(src, rx.take(10 ** 6))
    if name == "take_until":
        return pipe(src, pub(ops._flt, "take_until")(rx.never()))
    if name == "distinct":
        return pub(ops._flt, "distinct_until_changed")(src)
    if name == "zip_seq":
        return pipe(src, ops._cmb.zip_seq(range(10 ** 6)))
    if name == "combine":
        return pipe(src, rx.combine_latest(Src(rt, "other", prelude=[("N", "o")])))
    return None


@fam("C01", "carrier", g_01, weight=4)
async def c01(p, rt):
    from aioreactive import observers as O
    name = p["carrier"]
    rec = Rec(rt, p["mode"])
    src = Src(rt)
    disp = []
    issued = []
    conv = lambda k, v: (k, v) if k != "C" else ("C",)

    class D(AsyncDisposable):
        async def dispose_async(self):
            disp.append(len(rec.got))
            rt.log.append(("disposed",))

    if name in ("safe", "detach") and not hasattr(O, "safe_observer"):
        name = "skip"
    if name == "detach" and not hasattr(O, "auto_detach_observer"):
        name = "skip"
    if name == "safe":
        obv = O.safe_observer(rec, D())
    elif name == "detach":
        obv, auto = O.auto_detach_observer(rec)

        async def mk():
            return D()

        await auto(mk())
    elif name in ("merge", "switch", "concat"):
        outer = Src(rt, "outer")
        o = {"merge": lambda: pipe(outer, rx.merge_inner()), "concat": lambda: pipe(outer, rx.merge_inner(1)),
             "switch": lambda: pipe(outer, rx.switch_latest())}[name]()
        await o.subscribe_async(rec)
        await outer.emit("N", src)
        await outer.emit("C")
        await rt.settle()
        obv = src.subs[0].obv
    else:
        await carry(rt, name, src, rec).subscribe_async(rec)
        obv = src.subs[0].obv
    await rt.settle()
    i = 0
    for _, k, v, g in p["script"]:
        pv = payload(rt, k, v)
        if name == "zip_seq" and k == "N":
            issued.append(("N", (pv, i)))
            i += 1
        elif name == "combine" and k == "N":
            issued.append(("N", (pv, "o")))
        else:
            issued.append(conv(k, pv))
        if k == "N":
            await obv.asend(pv)
        elif k == "E":
            await obv.athrow(pv)
        else:
            await obv.aclose()
        await rt.gap(g)
    await asyncio.sleep(1000)
    if name in ("merge", "concat", "switch"):
        # inner completion is processed by the operator's own agent: nothing may be lost before it
        pass
    exp = upto_terminal(issued)
    if rec.mode[0] == "raise":
        vs = [i for i, e in enumerate(exp) if e[0] == "N"]
        if len(vs) > rec.mode[1]:
            exp = exp[: vs[rec.mode[1]] + 1] + [("E", rt.err(rec.mode[2]))]
    if name in ("merge", "concat", "switch"):
        # a completion travels through the operator's agent; values sent by the inner after its own
        # terminal are outside the contract of a source
        it = next((i for i, e in enumerate(issued) if e[0] != "N"), None)
        if it is not None and it + 1 < len(issued):
            return
    rt.expect(same_seq(rec.got, exp), f"{p}: delivered {rec.got}, issued {issued}, expected {exp}")
    rt.expect(not rec.overlap, f"{p}: overlapping calls of the observer")
    terms = [i for i, e in enumerate(rec.got) if e[0] in "EC"]
    if name == "safe" and terms:
        rt.expect(disp and disp[0] <= terms[0], f"{p}: not disposed before the terminal notification: {disp} {rec.got}")
    if name == "detach" and terms:
        rt.expect(bool(disp), f"{p}: attached subscription not disposed")
    if name not in ("safe", "detach", "merge", "concat", "switch") and terms and not any(k != "N" for _, k, _, _ in p["script"]):
        rt.expect(bool(src.subs[0].disposed), f"{p}: upstream not disposed on termination")


@fam("C01", "from_iterable", lambda r: {"xs": rvals(r, r.randint(0, 7)), "mode": r.choice([("slow", 0.5), ("yield",), ("raise", r.randint(0, 3), 77), ("fast",)]), "k": r.choice(["from_iterable", "single", "concat"])})
async def c01b(p, rt):
    xs = p["xs"]
    if p["k"] == "single":
        xs = xs[:1] or [None]
        o = rx.single(xs[0])
    elif p["k"] == "concat":
        o = rx.concat_seq([rx.from_iterable(xs), rx.from_iterable(xs)])
        xs = xs + xs
    else:
        o = rx.from_iterable(xs)
    rec = Rec(rt, p["mode"])
    await o.subscribe_async(rec)
    await asyncio.sleep(1000)
    exp = [("N", x) for x in xs] + [("C",)]
    if rec.mode[0] == "raise" and len(xs) > rec.mode[1]:
        exp = exp[: rec.mode[1] + 1] + [("E", rt.err(77))]
    rt.expect(same_seq(rec.got, exp), f"{p}: delivered {rec.got}, expected {exp}")
    rt.expect(not rec.overlap, f"{p}: overlapping calls")


# ---------------------------------------------------------------- C02
REL1 = ["take", "skip", "skip_last", "take_last", "take_until", "slice", "distinct_until_changed", "scan", "scan_async", "reduce",
        "combine_latest", "with_latest_from", "zip_seq", "debounce", "delay", "map", "filter", "starfilter", "map_async", "mapi", "filteri", "choose"]


def rel_params(r, op):
    return {"op": op, "n": r.randint(0, 3), "init": 0, "fail": r.choice([None, 0, 1, 2]), "mask": [0, 1], "off": 1, "seq": [1, 2, 3][: r.randint(0, 3)],
            "a": r.choice([None, 0, 1, -2]), "b": r.choice([None, 1, 3, -1]), "s": r.choice([1, 2])}


def g_02(r):
    op = r.choice(REL1)
    nsrc = 2 if op in ("take_until", "combine_latest", "with_latest_from") else 1
    p = rel_params(r, op)
    p["script"] = rscript(r, nsrc, maxn=6, gaps=("-", "q", "0", 0.25), tup=op == "starfilter")
    p["pre"] = [[(k, v) for _, k, v, _ in rscript(r, 1, maxn=3, tup=op == "starfilter")] if r.random() < 0.35 else [] for _ in range(nsrc)]
    p["slow"] = [r.choice([0, 0, 0, 1]) for _ in range(nsrc)]
    p["dispose"] = r.choice([None, None, "end", 0, 1, 2, 3])
    p["mode"] = r.choice([("fast",), ("fast",), ("slow", 0.5), ("raise", r.randint(0, 2), 77)])
    return p


def build_rel(p, rt, srcs, calls):
    op = p["op"]
    if op == "slice":
        return pipe(srcs[0], ops._flt.slice(p["a"], p["b"], p["s"]))
    if op == "debounce":
        return pipe(srcs[0], ops._ts.debounce(1.0))
    if op == "delay":
        return pipe(srcs[0], rx.delay(1.0))
    return ops.OPS[op][0](p, rt, srcs + [{"calls": calls}])


def check_leaks(rt, p, srcs, why):
    for s in srcs:
        lk = s.leaked()
        rt.expect(not lk, f"{p}: subscription(s) {lk} of {s.name} not disposed after {why}; log {rt.log}")


@fam("C02", "release", g_02, weight=5)
async def c02(p, rt):
    srcs = []
    for i in range(len(p["pre"])):
        srcs.append(Src(rt, f"s{i}", [(k, payload(rt, k, v)) for k, v in p["pre"][i]], p["slow"][i]))
    rec = Rec(rt, p["mode"])
    obs = build_rel(p, rt, srcs, Calls())
    raw = p["op"] in ops.EL or p["op"] in ops.SC or p["op"] in ("delay",)
    if raw and rec.mode[0] == "raise":
        rec.mode = ("fast",)
    if rec.mode[0] == "raise" and p["op"] == "slice":
        rec.mode = ("fast",)
    disposable = None

    async def sub():
        nonlocal disposable
        disposable = await obs.subscribe_async(rec)

    t = rt.spawn(sub())
    if any(p["slow"]):
        await rt.settle()
    else:
        await t
        await rt.settle()
    done = [any(k != "N" for k, _ in pre) for pre in p["pre"]]
    disposed = False
    for i, (s, k, v, g) in enumerate(p["script"]):
        if p["dispose"] == i and disposable is not None:
            await disposable.dispose_async()
            disposed = True
            break
        if not srcs[s].subs or srcs[s].subs[-1].term or done[s]:
            continue
        await srcs[s].emit(k, payload(rt, k, v))
        await rt.gap(g)
    await asyncio.sleep(1000)
    rt.expect(t.done(), f"{p}: subscribe never returned")
    if t.done() and t.exception():
        return
    if not disposed and p["dispose"] == "end" and disposable is not None:
        await disposable.dispose_async()
        disposed = True
        await asyncio.sleep(1000)
    if disposed:
        check_leaks(rt, p, srcs, "dispose of the returned subscription")
    elif any(e[0] in "EC" for e in rec.got):
        check_leaks(rt, p, srcs, f"termination {rec.got}")


def g_02m(r):
    k = r.randint(1, 3)
    sc = []
    for _ in range(r.randint(1, 9)):
        x = r.random()
        g = r.choice("qqq-")
        if x < 0.35:
            sc.append(("o", "N", r.randrange(k), g))
        elif x < 0.45:
            sc.append(("o", r.choice("CCE"), 1, g))
        else:
            sc.append((r.randrange(k), r.choice("NNNCCE"), r.randint(0, 9), g))
    return {"op": r.choice(["merge", "merge1", "merge2", "switch", "flat_map", "concat_map", "flat_map_latest"]), "k": k, "script": sc,
            "dispose": r.choice([None, None, "end", "end", 1, 3]), "mode": r.choice([("fast",), ("fast",), ("slow", 0.5)]),
            "pre": [[(k2, v) for _, k2, v, _ in rscript(r, 1, maxn=2)] if r.random() < 0.3 else [] for _ in range(k)]}


def build_flat(p, outer, inners):
    op = p["op"]
    ident = lambda x: x
    return {"merge": lambda: pipe(outer, rx.merge_inner()), "merge1": lambda: pipe(outer, rx.merge_inner(1)), "merge2": lambda: pipe(outer, rx.merge_inner(2)),
            "switch": lambda: pipe(outer, rx.switch_latest()), "flat_map": lambda: pipe(outer, rx.flat_map(ident)), "concat_map": lambda: pipe(outer, ops._trf.concat_map(ident)),
            "flat_map_latest": lambda: pipe(outer, ops._trf.flat_map_latest(ident))}[op]()


@fam("C02", "release_inner", g_02m, weight=4)
async def c02m(p, rt):
    outer = Src(rt, "outer")
    inners = [Src(rt, f"i{j}", [(k, payload(rt, k, v)) for k, v in p["pre"][j]]) for j in range(p["k"])]
    rec = Rec(rt, p["mode"])
    d = await build_flat(p, outer, inners).subscribe_async(rec)
    await rt.settle()
    used = set()
    disposed = False
    for i, (s, k, v, g) in enumerate(p["script"]):
        if p["dispose"] == i:
            await d.dispose_async()
            disposed = True
            break
        if s == "o":
            if outer.subs[-1].term:
                continue
            if k == "N":
                if v in used:
                    continue
                used.add(v)
                await outer.emit("N", inners[v])
            else:
                await outer.emit(k, payload(rt, k, v))
        else:
            if not inners[s].subs or inners[s].subs[-1].term:
                continue
            await inners[s].emit(k, payload(rt, k, v))
        await rt.gap(g)
    await asyncio.sleep(1000)
    if p["dispose"] == "end":
        await d.dispose_async()
        disposed = True
        await asyncio.sleep(1000)
    if disposed or any(e[0] in "EC" for e in rec.got):
        check_leaks(rt, p, [outer] + inners, f"dispose={disposed} / {rec.got}")


class Multi(AsyncObservable):
    """a source with a scripted prelude per subscription (cold)"""

    def __init__(self, rt, attempts, asyncly=False):
        self.rt, self.attempts, self.asyncly = rt, attempts, asyncly
        self.subs = []

    async def subscribe_async(self, send=None, throw=None, close=None):
        obv = send if isinstance(send, AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        n = len(self.subs)
        st = {"term": False, "disposed": 0}
        self.subs.append(st)
        evs = self.attempts[min(n, len(self.attempts) - 1)]

        async def go():
            for k, v in evs:
                if self.asyncly:
                    await asyncio.sleep(0.25)
                if st["disposed"]:
                    return
                if k == "N":
                    await obv.asend(v)
                elif k == "E":
                    st["term"] = True
                    await obv.athrow(v)
                    return
                else:
                    st["term"] = True
                    await obv.aclose()
                    return

        if self.asyncly:
            self.rt.spawn(go())
        else:
            await go()

        async def dispose():
            st["disposed"] += 1

        return AsyncDisposable.create(dispose)


def g_02c(r):
    att = [[("N", i) for i in range(r.randint(0, 2))] + ([("E", j)] if r.random() < 0.6 else []) for j in range(3)]
    return {"att": att, "async": r.random() < 0.5, "op": r.choice(["catch", "retry"]), "n": r.randint(0, 3),
            "h": [("N", 5)] + r.choice([[], [("C", None)], [("E", 9)]]), "when": r.choice([0, 0.3, 0.6, 0.8, 5])}


@fam("C02", "release_catch", g_02c, weight=2)
async def c02c(p, rt):
    att = [[(k, payload(rt, k, v)) for k, v in a] for a in p["att"]]
    src = Multi(rt, att, p["async"])
    hs = Multi(rt, [[(k, payload(rt, k, v)) for k, v in p["h"]]], p["async"])
    o = pipe(src, rx.catch(lambda e: hs)) if p["op"] == "catch" else pipe(src, rx.retry(p["n"]))
    rec = Rec(rt)
    d = await o.subscribe_async(rec)
    if p["when"]:
        await asyncio.sleep(p["when"])
    await d.dispose_async()
    n = len(rec.got)
    await asyncio.sleep(1000)
    for nm, s in (("source", src), ("handler", hs)):
        for i, st in enumerate(s.subs):
            rt.expect(st["term"] or st["disposed"], f"{p}: {nm} subscription {i} leaked; {s.subs}")
    rt.expect(len(rec.got) == n, f"{p}: notifications after dispose: {rec.got[n:]}")


# ---------------------------------------------------------------- C10 / C11
def flat_script(r, k):
    sc = []
    for _ in range(r.randint(1, 12)):
        x = r.random()
        g = r.choice("qq-0")
        if x < 0.33:
            sc.append(("o", "N", r.randrange(k), g))
        elif x < 0.43:
            sc.append(("o", r.choice("CCCE"), 1, g))
        else:
            sc.append((r.randrange(k), r.choice("NNNNCCE"), r.randint(0, 9), g))
    return sc


async def merge_case(p, rt, limit):
    k = p["k"]
    outer = Src(rt, "outer")
    inners = [Src(rt, f"i{j}") for j in range(k)]
    rec = Rec(rt, p["mode"])
    d = await build_flat(p, outer, inners).subscribe_async(rec)
    await rt.settle()
    active, queue, stopped, over = [], [], False, False
    exp = []
    used = set()

    async def chk():
        await rt.settle()
        subs = [j for j in range(k) if inners[j].subs]
        act = [j for j in range(k) if inners[j].subs and not inners[j].subs[-1].term]
        if not over:
            rt.expect(sorted(act) == sorted(active), f"{p}: subscribed inners {act}, expected {active}, log {rt.log}")
            rt.expect(not limit or len(act) <= limit, f"{p}: {len(act)} inners subscribed, limit {limit}")
        for j in subs:
            rt.expect(len(inners[j].subs) == 1, f"{p}: inner {j} subscribed {len(inners[j].subs)} times")
        if rec.mode[0] == "fast":
            rt.expect(same_seq(rec.got, exp), f"{p}: delivered {rec.got} expected {exp}; log {rt.log}")

    pend = False
    for s, kk, v, g in p["script"]:
        if over:
            break
        if s == "o":
            if outer.subs[-1].term:
                continue
            if kk == "N":
                if v in used:
                    continue
                used.add(v)
                await outer.emit("N", inners[v])
                if not limit or len(active) < limit:
                    active.append(v)
                else:
                    queue.append(v)
                pend = True
            elif kk == "C":
                await outer.emit("C")
                stopped = True
                if not active and not queue:
                    exp.append(("C",))
                    over = True
            else:
                e = payload(rt, kk, v)
                await outer.emit("E", e)
                exp.append(("E", e))
                over = True
        else:
            if pend:
                await rt.settle()
                pend = False
            if s not in active:
                continue
            if not inners[s].subs:
                rt.fail(f"{p}: inner {s} was never subscribed; log {rt.log}")
                return
            if kk == "N":
                await inners[s].emit("N", v)
                exp.append(("N", v))
            elif kk == "C":
                await inners[s].emit("C")
                active.remove(s)
                if queue:
                    active.append(queue.pop(0))
                    pend = True
                elif not active and stopped:
                    exp.append(("C",))
                    over = True
            else:
                e = payload(rt, kk, v)
                await inners[s].emit("E", e)
                exp.append(("E", e))
                over = True
        await rt.gap(g)
        if g == "q":
            await chk()
    await rt.settle()
    await chk()
    await asyncio.sleep(1000)
    rt.expect(same_seq(rec.got, exp), f"{p}: delivered {rec.got} expected {exp}; log {rt.log}")
    rt.expect(not rec.overlap, f"{p}: overlapping calls")
    # order of subscription
    order = [int(e[1][1:]) for e in rt.log if e[0] == "sub" and e[1].startswith("i")]
    arr = [v for s, kk, v, g in p["script"] if s == "o" and kk == "N"]
    seen = []
    for v in arr:
        if v not in seen:
            seen.append(v)
    pos = [seen.index(j) for j in order]
    rt.expect(pos == sorted(pos), f"{p}: inners subscribed out of order {order}")


LIM = {"merge": 0, "flat_map": 0, "merge1": 1, "merge2": 2, "concat_map": 1}


def g_10(r):
    k = r.randint(1, 4)
    return {"op": r.choice(["merge", "merge2", "flat_map", "merge2", "merge1"]), "k": k, "script": flat_script(r, k), "mode": r.choice([("fast",), ("fast",), ("slow", 0.5), ("yield",)])}


@fam("C10", "merge", g_10, weight=4)
async def c10(p, rt):
    await merge_case(p, rt, LIM[p["op"]])


def g_11(r):
    k = r.randint(1, 4)
    return {"op": r.choice(["merge1", "concat_map"]), "k": k, "script": flat_script(r, k), "mode": r.choice([("fast",), ("fast",), ("slow", 0.5)])}


@fam("C11", "concat_hot", g_11, weight=3)
async def c11(p, rt):
    await merge_case(p, rt, 1)


@fam("C11", "concat_cold", lambda r: {"xss": [rvals(r, r.randint(0, 4)) for _ in range(r.randint(0, 5))], "k": r.choice(["seq", "map", "concat", "chain"]), "fail": r.choice([None, None, 0, 1, 2]), "mode": r.choice([("fast",), ("slow", 0.25), ("yield",)]), "sync": r.random() < 0.4}, weight=2)
async def c11b(p, rt):
    subs = []

    class S(AsyncObservable):
        def __init__(self, i, xs):
            self.i, self.xs = i, xs

        async def subscribe_async(self, send=None, throw=None, close=None):
            subs.append(self.i)
            rt.log.append(("sub", self.i))
            if p["sync"]:
                obv = send if isinstance(send, AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
                for x in self.xs:
                    await obv.asend(x)
                rt.log.append(("end", self.i))
                await (obv.athrow(rt.err(self.i)) if p["fail"] == self.i else obv.aclose())
                return AsyncDisposable.empty()
            o = pipe(rx.from_iterable(self.xs))
            if p["fail"] == self.i:
                o = rx.concat_seq([o, ops._crt.fail(rt.err(self.i))])
            return await o.subscribe_async(send, throw, close) if not isinstance(send, AsyncObserver) else await o.subscribe_async(send)

    xss = p["xss"]
    ss = [S(i, xs) for i, xs in enumerate(xss)]
    if p["k"] in ("concat", "chain"):
        ss, xss = ss[:2], xss[:2]
        if len(ss) < 2:
            return
        o = pipe(ss[0], rx.concat(ss[1])) if p["k"] == "concat" else rx.AsyncRx(ss[0]).concat(ss[1])
    elif p["k"] == "seq":
        o = rx.concat_seq(ss)
    else:
        o = pipe(rx.from_iterable(range(len(ss))), ops._trf.concat_map(lambda i: ss[i]))
    rec = Rec(rt, p["mode"])
    await o.subscribe_async(rec)
    await asyncio.sleep(1000)
    exp, nsub = [], 0
    for i, xs in enumerate(xss):
        nsub += 1
        exp += [("N", x) for x in xs]
        if p["fail"] == i:
            exp.append(("E", rt.err(i)))
            break
    else:
        exp.append(("C",))
    rt.expect(same_seq(rec.got, exp), f"{p}: got {rec.got} expected {exp}")
    rt.expect(subs == list(range(nsub)), f"{p}: subscriptions {subs}, expected {list(range(nsub))}")


def g_10c(r):
    return {"xss": [[(i, j) for j in range(r.randint(0, 4))] for i in range(r.randint(0, 5))], "op": r.choice(["merge_seq", "flat_map", "flat_mapi", "flat_map_async", "flat_mapi_async", "merge", "merge_inner2", "chain_merge"]),
            "mode": r.choice([("fast",), ("slow", 0.25), ("yield",)])}


@fam("C10", "cold", g_10c, weight=2)
async def c10c(p, rt):
    xss = p["xss"]
    cnt = [0] * len(xss)

    def mk(i):
        def fac():
            cnt[i] += 1
            return rx.from_iterable(xss[i])

        return rx.defer(fac) if hasattr(rx, "defer") else ops._crt.defer(fac)

    op = p["op"]
    idxs = []

    def f(i, *rest):
        idxs.append((i,) + rest)
        return mk(i)

    async def af(i, *rest):
        return f(i, *rest)

    base = rx.from_iterable(range(len(xss)))
    if op in ("merge", "chain_merge"):
        if len(xss) < 2:
            return
        xss = xss[:2]
        o = pipe(mk(0), rx.merge(mk(1))) if op == "merge" else rx.AsyncRx(mk(0)).merge(mk(1))
    elif op == "merge_seq":
        o = rx.merge_seq([mk(i) for i in range(len(xss))])
    elif op == "merge_inner2":
        o = pipe(rx.from_iterable([mk(i) for i in range(len(xss))]), rx.merge_inner(2))
    else:
        o = pipe(base, pub(ops._trf, op)(af if op.endswith("async") else f))
    rec = Rec(rt, p["mode"])
    await o.subscribe_async(rec)
    await asyncio.sleep(1000)
    got = rec.got
    rt.expect(got and got[-1] == ("C",) and all(k == "N" for k, *_ in got[:-1]), f"{p}: got {got}, expected values then completion")
    vs = [e[1] for e in got if e[0] == "N"]
    for i, xs in enumerate(xss):
        sub = [v for v in vs if v[0] == i]
        rt.expect(sub == xs, f"{p}: inner {i} forwarded as {sub}, expected {xs}")
    rt.expect(len(vs) == sum(map(len, xss)), f"{p}: {len(vs)} values forwarded")
    rt.expect(all(c == 1 for c in cnt[: len(xss)]), f"{p}: subscribed {cnt} times")
    if op in ("flat_mapi", "flat_mapi_async"):
        rt.expect(idxs == [(i, i) for i in range(len(xss))], f"{p}: mapper called with {idxs}")


# ---------------------------------------------------------------- C12
def g_12(r):
    k = r.randint(1, 4)
    return {"op": r.choice(["switch", "flat_map_latest", "flat_map_latest_async"]), "k": k, "script": flat_script(r, k), "mode": r.choice([("fast",), ("fast",), ("slow", 0.5)])}


@fam("C12", "switch", g_12, weight=4)
async def c12(p, rt):
    k = p["k"]
    outer = Src(rt, "outer")
    inners = [Src(rt, f"i{j}") for j in range(k)]
    rec = Rec(rt, p["mode"])
    if p["op"] == "flat_map_latest_async":
        async def ident(x):
            return x
        o = pipe(outer, rx.flat_map_latest_async(ident))
    else:
        o = build_flat(p, outer, inners)
    await o.subscribe_async(rec)
    await rt.settle()
    cur, curdone, stopped, over = None, False, False, False
    exp, used, hist = [], set(), []
    for s, kk, v, g in p["script"]:
        if over:
            break
        if s == "o":
            if outer.subs[-1].term:
                continue
            if kk == "N":
                if v in used:
                    continue
                used.add(v)
                await outer.emit("N", inners[v])
                cur, curdone = v, False
                hist.append(v)
            elif kk == "C":
                await outer.emit("C")
                stopped = True
                if cur is None or curdone:
                    exp.append(("C",))
                    over = True
            else:
                e = payload(rt, kk, v)
                await outer.emit("E", e)
                exp.append(("E", e))
                over = True
        else:
            if not inners[s].subs or inners[s].subs[-1].term:
                continue
            pv = payload(rt, kk, v)
            await inners[s].emit(kk, pv)
            if s == cur:
                if kk == "N":
                    exp.append(("N", pv))
                elif kk == "E":
                    exp.append(("E", pv))
                    over = True
                else:
                    curdone = True
                    if stopped:
                        exp.append(("C",))
                        over = True
        await rt.gap(g)
        if g == "q" and rec.mode[0] == "fast":
            rt.expect(same_seq(rec.got, exp), f"{p}: delivered {rec.got} expected {exp}; log {rt.log}")
            if cur is not None and not over:
                rt.expect(bool(inners[cur].subs), f"{p}: latest inner {cur} not subscribed; log {rt.log}")
    await asyncio.sleep(1000)
    rt.expect(same_seq(rec.got, exp), f"{p}: delivered {rec.got} expected {exp}; log {rt.log}")
    rt.expect(not rec.overlap, f"{p}: overlapping calls")
    # older disposed before newer subscribed
    live = set()
    for e in rt.log:
        if e[0] == "sub" and e[1].startswith("i"):
            j = int(e[1][1:])
            for a in live:
                if not inners[a].subs[-1].term:
                    rt.fail(f"{p}: inner {j} subscribed while inner {a} is neither completed nor disposed; log {rt.log}")
            live.add(j)
        if e[0] == "disp" and e[1].startswith("i"):
            live.discard(int(e[1][1:]))


# ---------------------------------------------------------------- C14
def g_14(r):
    n = r.randint(1, 4)
    att = []
    for j in range(n):
        att.append([("N", (j, i)) for i in range(r.randint(0, 3))] + [r.choice([("E", j), ("E", j), ("C", None)])])
    return {"op": r.choice(["catch", "retry"]), "att": att, "n": r.randint(0, 4), "async": r.random() < 0.5,
            "h": [("N", r.choice(VALS)) for _ in range(r.randint(0, 2))] + r.choice([[], [("C", None)], [("E", 9)]])}


@fam("C14", "retry", g_14, weight=3)
async def c14(p, rt):
    att = [[(k, payload(rt, k, v)) for k, v in a] for a in p["att"]]
    src = Multi(rt, att, p["async"])
    h = [(k, payload(rt, k, v)) for k, v in p["h"]]
    hs = Multi(rt, [h], p["async"])
    hc = []

    def handler(e):
        hc.append(e)
        return hs

    conv = lambda e: e if e[0] != "C" else ("C",)
    o = pipe(src, rx.catch(handler)) if p["op"] == "catch" else pipe(src, rx.retry(p["n"]))
    for rep in range(2):
        rec = Rec(rt)
        base = len(src.subs)
        src.attempts = [att[-1]] * 0 + att
        if rep:
            src.attempts = [att[0]] * base + att if base else att
            hc.clear()
        await o.subscribe_async(rec)
        await asyncio.sleep(1000)
        exp = []
        if p["op"] == "catch":
            exp = [conv(e) for e in att[0]]
            if exp[-1][0] == "E":
                rt.expect(len(hc) == 1 and hc[0] is exp[-1][1], f"{p}: handler called with {hc}")
                exp = exp[:-1] + [conv(e) for e in h]
            else:
                rt.expect(not hc, f"{p}: handler called with {hc}")
            nsub = 1
        else:
            nsub = 0
            for j in range(p["n"] + 1):
                a = att[min(j, len(att) - 1)]
                nsub += 1
                exp += [conv(e) for e in a]
                if a[-1][0] == "C" or j == p["n"]:
                    break
                exp.pop()
        rt.expect(same_seq(rec.got, exp), f"{p} (subscription {rep}): got {rec.got} expected {exp}")
        rt.expect(len(src.subs) - base == nsub, f"{p} (subscription {rep}): source subscribed {len(src.subs) - base} times, expected {nsub}")


# ---------------------------------------------------------------- C15
def g_15(r):
    return {"k": r.choice(["list", "gen", "range", "raise", "aiter", "araise", "single", "empty", "never", "fail", "async", "async_raise", "defer", "defer_raise", "chain", "aiter_slow"]),
            "xs": rvals(r, r.randint(0, 7)), "n": r.randint(0, 5), "mode": r.choice([("fast",), ("slow", 0.25), ("yield",)])}


@fam("C15", "create", g_15, weight=3)
async def c15(p, rt):
    k, xs, n = p["k"], p["xs"], p["n"]
    end = ("C",)
    fac = [0]

    def boom():
        for i, x in enumerate(xs):
            if i == n:
                raise rt.err(1)
            yield x
        if n >= len(xs):
            raise rt.err(1)

    async def agen():
        for x in xs:
            if k == "aiter_slow":
                await asyncio.sleep(0.5)
            yield x

    async def aboom():
        for i, x in enumerate(xs):
            if i == n:
                raise rt.err(1)
            yield x
        if n >= len(xs):
            raise rt.err(1)

    exp = [("N", x) for x in xs] + [end]
    again = True
    fai = pub(ops._crt, "from_async_iterable") if hasattr(rx, "from_async_iterable") else ops._crt.of_async_iterable
    if k == "list":
        o = rx.from_iterable(list(xs))
    elif k == "chain":
        o = rx.AsyncRx.from_iterable(list(xs))
    elif k == "range":
        o = rx.from_iterable(range(n))
        exp = [("N", i) for i in range(n)] + [end]
    elif k == "gen":
        o, again = rx.from_iterable(x for x in xs), False
    elif k == "raise":
        o, again = rx.from_iterable(boom()), False
        exp = [("N", x) for x in xs[:n]] + [("E", rt.err(1))]
    elif k in ("aiter", "aiter_slow"):
        o, again = fai(agen()), False
    elif k == "araise":
        o, again = fai(aboom()), False
        exp = [("N", x) for x in xs[:n]] + [("E", rt.err(1))]
    elif k == "single":
        v = (xs + [None])[0]
        o = rx.single(v)
        exp = [("N", v), end]
    elif k == "empty":
        o, exp = rx.empty(), [end]
    elif k == "never":
        o, exp = rx.never(), []
    elif k == "fail":
        o, exp = ops._crt.fail(rt.err(1)), [("E", rt.err(1))]
    elif k in ("async", "async_raise"):
        v = (xs + [None])[0]

        async def work():
            await asyncio.sleep(0.5)
            if k == "async_raise":
                raise rt.err(1)
            return v

        o, again = rx.from_async(work()), False
        exp = [("N", v), end] if k == "async" else [("E", rt.err(1))]
    else:
        def factory():
            fac[0] += 1
            if k == "defer_raise":
                raise rt.err(1)
            return rx.from_iterable(list(xs))

        o = pub(ops._crt, "defer")(factory)
        if k == "defer_raise":
            exp = [("E", rt.err(1))]
    for rep in range(2 if again else 1):
        rec = Rec(rt, p["mode"])
        if k.startswith("defer"):
            rt.expect(fac[0] == rep, f"{p}: factory called {fac[0]} times before subscription {rep}")
        await o.subscribe_async(rec)
        await asyncio.sleep(1000)
        rt.expect(same_seq(rec.got, exp), f"{p}: got {rec.got} expected {exp}")
        if k.startswith("defer"):
            rt.expect(fac[0] == rep + 1, f"{p}: factory called {fac[0]} times")


@fam("C15", "interval", lambda r: {"d": r.choice([0, 0.25, 1, 2.5]), "p": r.choice([0, 0, 0.25, 0.5, 2]), "n": r.randint(1, 9), "timer": r.random() < 0.2})
async def c15b(p, rt):
    o = pub(ops._crt, "timer")(p["d"]) if p["timer"] else pub(ops._crt, "interval")(p["d"], p["p"])
    per = 0 if p["timer"] else p["p"]
    rec = Rec(rt)
    await asyncio.sleep(3)
    t0 = rt.now
    d = await o.subscribe_async(rec)
    if per == 0:
        await asyncio.sleep(100)
        rt.expect(same_seq(rec.got, [("N", 0), ("C",)]) and rec.times == [t0 + p["d"]] * 2, f"{p}: {rec.got} at {rec.times}")
        return
    T = p["d"] + per * (p["n"] - 1) + per / 2
    await asyncio.sleep(T)
    rt.expect(same_seq(rec.got, [("N", i) for i in range(p["n"])]) and rec.times == [t0 + p["d"] + i * per for i in range(p["n"])], f"{p}: {rec.got} at {rec.times}")
    await d.dispose_async()
    n = len(rec.got)
    await asyncio.sleep(50)
    rt.expect(len(rec.got) == n, f"{p}: values after dispose")


# ---------------------------------------------------------------- C16
def g_16(r):
    n = r.randint(0, 7)
    ev, t = [], 0
    for i in range(n):
        t += r.choice([0, 0, 0.25, 0.5, 1, 2.5])
        ev.append((t, "N", r.choice(VALS)))
    if r.random() < 0.7:
        t += r.choice([0, 0.25, 1])
        ev.append((t, r.choice("CE"), 1))
    return {"s": r.choice([0, 0.25, 1, 2]), "ev": ev, "mode": r.choice([("fast",), ("fast",), ("slow", 0.5), ("slow", 3)]), "dispose": r.choice([None, None, 0.3, 1.1, 2.3]), "two": r.random() < 0.4}


@fam("C16", "delay", g_16, weight=4)
async def c16(p, rt):
    src = Src(rt)
    o = pipe(src, rx.delay(p["s"]))
    rec, rec2 = Rec(rt, p["mode"]), Rec(rt, ("fast",), "o2")
    d = await o.subscribe_async(rec)
    if p["two"]:
        await o.subscribe_async(rec2)
    t0 = rt.now
    td = None
    plan = sorted([(t, 0, i) for i, (t, _, _) in enumerate(p["ev"])] + ([(p["dispose"], 1, -1)] if p["dispose"] is not None else []))
    for t, w, i in plan:
        if t > rt.now - t0:
            await asyncio.sleep(t0 + t - rt.now)
        if w:
            await d.dispose_async()
            td = rt.now
            rt.expect(bool(src.subs[0].disposed), f"{p}: dispose did not release the source")
            rt.expect(not p["two"] or not src.subs[1].disposed, f"{p}: dispose of one subscription released the other")
        else:
            _, k, v = p["ev"][i]
            for s in src.subs:
                if not s.disposed:
                    await src.emit(k, payload(rt, k, v), s)
    await asyncio.sleep(1000)

    def expect(mode, upto):
        out, end = [], -1
        for t, k, v in p["ev"]:
            at = max(t0 + t + p["s"], end)
            if upto is not None and (t0 + t > upto or at >= upto):
                break
            out.append((at, (k, payload(rt, k, v)) if k != "C" else ("C",)))
            end = at + (mode[1] if mode[0] == "slow" else 0)
        return out

    e = expect(p["mode"], td)
    rt.expect(same_seq(rec.got, [x for _, x in e]), f"{p}: got {rec.got} at {rec.times}, expected {e}")
    rt.expect(len(rec.times) != len(e) or all(abs(a - b) < 1e-4 and a >= b - 1e-9 for a, (b, _) in zip(rec.times, e)), f"{p}: times {rec.times}, expected {e}")
    if p["two"]:
        e = expect(("fast",), None)
        rt.expect(same_seq(rec2.got, [x for _, x in e]) and all(abs(a - b) < 1e-4 and a >= b - 1e-9 for a, (b, _) in zip(rec2.times, e)), f"{p}: second subscription got {rec2.got} at {rec2.times}, expected {e}")


# ---------------------------------------------------------------- C17
def g_17(r):
    n = r.randint(0, 8)
    ev, t = [], 0
    for i in range(n):
        t += r.choice([0, 0.25, 0.75, 1.25, 1.5, 3])
        ev.append((t, "N", r.choice(VALS)))
    if r.random() < 0.6:
        t += r.choice([0, 0.25, 0.5, 2])
        ev.append((t, r.choice("CE"), 1))
    return {"s": 1.0, "ev": ev, "dispose": r.choice([None, None, None, 0.3, 1.1, 2.3, 4.1]), "mode": r.choice([("fast",), ("fast",), ("yield",)])}


@fam("C17", "debounce", g_17, weight=4)
async def c17(p, rt):
    src = Src(rt)
    o = pipe(src, pub(ops._ts, "debounce")(p["s"]))
    rec = Rec(rt, p["mode"])
    d = await o.subscribe_async(rec)
    t0 = rt.now
    td = None
    plan = sorted([(t, 0, i) for i, (t, _, _) in enumerate(p["ev"])] + ([(p["dispose"], 1, -1)] if p["dispose"] is not None else []))
    sent = []
    for t, w, i in plan:
        if t > rt.now - t0:
            await asyncio.sleep(t0 + t - rt.now)
        if w:
            await d.dispose_async()
            td = rt.now
            await rt.settle()
            rt.expect(bool(src.subs[0].disposed) or src.subs[0].term, f"{p}: dispose did not release the source")
            break
        _, k, v = p["ev"][i]
        sent.append((t0 + t, k, payload(rt, k, v)))
        await src.emit(k, payload(rt, k, v))
    await asyncio.sleep(1000)
    exp = []
    for i, (t, k, v) in enumerate(sent):
        if k == "N":
            nxt = sent[i + 1][0] if i + 1 < len(sent) else None
            if (nxt is None or nxt > t + p["s"]) and (td is None or td > t + p["s"]):
                exp.append((t + p["s"], ("N", v)))
        else:
            exp.append((t, ("C",) if k == "C" else ("E", v)))
    rt.expect(same_seq(rec.got, [x for _, x in exp]), f"{p}: got {rec.got} at {rec.times}, expected {exp}")
    rt.expect(len(rec.got) != len(exp) or all(abs(a - b) < 1e-6 for a, (b, _) in zip(rec.times, exp)), f"{p}: times {rec.times}, expected {exp}")


# ---------------------------------------------------------------- C03
def g_03(r):
    acts = []
    nobs = 0
    for _ in range(r.randint(2, 12)):
        x = r.random()
        g = r.choice(["-", "q", 0.3])
        if x < 0.3 or nobs == 0:
            # per observer: behaviour on its j-th notification
            nest = r.choice([None, None, None, ("unsub", r.randint(0, 3)), ("sub",), ("unsub_self",), ("send", 99)])
            acts.append(("sub", r.choice([("fast",), ("slow", 0.5), ("yield",)]), nest, r.randint(0, 2), g))
            nobs += 1
        elif x < 0.42:
            acts.append(("unsub", r.randrange(nobs), g))
        elif x < 0.85:
            acts.append(("send", r.choice(VALS), g))
        elif x < 0.9:
            acts.append(("throw", 1, g))
        elif x < 0.95:
            acts.append(("close", g))
        else:
            acts.append(("dispose", g))
    return {"acts": acts}


@fam("C03", "subject", g_03, weight=4)
async def c03(p, rt):
    sub = rx.AsyncSubject()
    recs, handles = [], []
    cur = []  # observers subscribed now, by index (oracle)
    state = {"stopped": False, "disposed": False}
    sends = []  # dict(id, snapshot, kind, value, done)
    deliveries = []  # (obs, kind, value, t)
    depth = [0]

    class O(AsyncObserver):
        def __init__(self, idx, mode, nest, at):
            self.idx, self.mode, self.nest, self.at, self.n = idx, mode, nest, at, 0
            self.calls = []

        async def _on(self, k, v):
            c = {"k": k, "v": v, "begin": len(rt.log), "end": None}
            rt.log.append(("b", self.idx, k, v))
            self.calls.append(c)
            self.n += 1
            if self.nest and self.n - 1 == self.at and depth[0] < 3:
                depth[0] += 1
                nst = self.nest
                if nst[0] == "unsub" and nst[1] < len(handles):
                    await unsub(nst[1])
                elif nst[0] == "unsub_self":
                    await unsub(self.idx)
                elif nst[0] == "sub" and not state["disposed"]:
                    await addsub(("fast",), None, 0)
                elif nst[0] == "send":
                    await issue("N", nst[1])
            if self.mode[0] == "slow":
                await asyncio.sleep(self.mode[1])
            elif self.mode[0] == "yield":
                await asyncio.sleep(0)
            c["end"] = len(rt.log)
            rt.log.append(("e", self.idx, k, v))

        async def asend(self, v):
            await self._on("N", v)

        async def athrow(self, e):
            await self._on("E", e)

        async def aclose(self):
            await self._on("C", None)

    async def unsub(i):
        if i in cur:
            cur.remove(i)
        await handles[i].dispose_async()

    async def addsub(mode, nest, at):
        idx = len(recs)
        o = O(idx, mode, nest, at)
        recs.append(o)
        handles.append(None)
        try:
            h = await sub.subscribe_async(o)
        except ObjectDisposedException:
            rt.expect(state["disposed"], f"{p}: subscribe raised before dispose")
            recs.pop()
            handles.pop()
            return
        rt.expect(not state["disposed"], f"{p}: subscribe after dispose did not raise")
        handles[idx] = h
        cur.append(idx)

    async def issue(k, v):
        rec = {"k": k, "v": v, "snap": list(cur), "begin": len(rt.log), "end": None}
        dropped = state["stopped"]
        wasdisp = state["disposed"]
        if dropped or wasdisp:
            rec["snap"] = []
        elif k != "N":
            state["stopped"] = True
        sends.append(rec)
        rt.log.append(("issue", k, v))
        try:
            if k == "N":
                await sub.asend(v)
            elif k == "E":
                await sub.athrow(v)
            else:
                await sub.aclose()
            rt.expect(not wasdisp, f"{p}: {k} after dispose did not raise")
        except ObjectDisposedException:
            rt.expect(wasdisp, f"{p}: {k} raised ObjectDisposedException before dispose")
        rec["end"] = len(rt.log)

    tok = [0]
    for a in p["acts"]:
        g = a[-1]
        if a[0] == "sub":
            await addsub(a[1], a[2], a[3])
        elif a[0] == "unsub":
            if a[1] < len(handles) and handles[a[1]]:
                await unsub(a[1])
        elif a[0] == "send":
            tok[0] += 1
            v = (tok[0], a[1])
            t = rt.spawn(issue("N", v))
            await asyncio.sleep(0)
        elif a[0] == "throw":
            t = rt.spawn(issue("E", rt.err(a[1])))
            await asyncio.sleep(0)
        elif a[0] == "close":
            t = rt.spawn(issue("C", None))
            await asyncio.sleep(0)
        else:
            await sub.dispose_async()
            state["disposed"] = True
        await rt.gap(g)
    await asyncio.sleep(1000)
    for t in rt.bg:
        rt.expect(t.done(), f"{p}: a call never returned")
        if t.done() and t.exception():
            rt.fail(f"{p}: unexpected {t.exception()!r}")
    # per send: the deliveries with that value/kind, in order, exactly the snapshot
    exp_per_obs = {i: [] for i in range(len(recs))}
    for s in sends:
        if s["k"] == "N":
            ds = [(o.idx, c) for o in recs for c in o.calls if c["k"] == "N" and same(c["v"], s["v"])]
            if s["v"] == 99:
                continue
        else:
            ds = [(o.idx, c) for o in recs for c in o.calls if c["k"] == s["k"] and (s["k"] == "C" or c["v"] is s["v"])]
            if not s["snap"] and ds:
                continue  # a dropped duplicate of the terminal
        ds.sort(key=lambda x: x[1]["begin"])
        rt.expect([i for i, _ in ds] == s["snap"], f"{p}: {s['k']} {s['v']} delivered to {[i for i, _ in ds]}, subscribed when sent: {s['snap']}; log {rt.log}")
        for (_, c1), (_, c2) in zip(ds, ds[1:]):
            rt.expect(c1["end"] is not None and c1["end"] <= c2["begin"], f"{p}: next observer served before the previous returned")
        if ds and s["end"] is not None:
            rt.expect(ds[-1][1]["end"] is not None and ds[-1][1]["end"] < s["end"], f"{p}: send returned before the last delivery")
    for o in recs:
        ts = [c for c in o.calls if c["k"] in "EC"]
        rt.expect(len(ts) <= 1, f"{p}: observer {o.idx} got {len(ts)} terminals")


# ---------------------------------------------------------------- C04
def g_04(r):
    acts = []
    for _ in range(r.randint(2, 9)):
        x = r.random()
        g = r.choice(["-", "-", "q", 0.3, "0"])
        if x < 0.55:
            acts.append(("send", g))
        elif x < 0.7:
            acts.append(("close", g))
        elif x < 0.78:
            acts.append(("throw", g))
        elif x < 0.92:
            acts.append(("sub", g))
        else:
            acts.append(("dispose", g))
    if r.random() < 0.7 and not any(a[0] == "sub" for a in acts):
        acts.insert(r.randint(0, len(acts)), ("sub", r.choice(["-", "q"])))
    return {"acts": acts, "mode": r.choice([("fast",), ("fast",), ("slow", 0.5), ("yield",)]), "direct": r.random() < 0.3, "via": r.random() < 0.5}


@fam("C04", "single_subject", g_04, weight=5)
async def c04(p, rt):
    s = rx.AsyncSingleSubject()
    rec = Rec(rt, p["mode"])
    calls = []
    st = {"sub": False, "disp": False}
    handle = [None]
    n = [0]

    async def call(c):
        c["started"] = True
        c["disp_at_start"] = st["disp"]
        calls.append(c)
        try:
            if c["k"] == "N":
                await s.asend(c["v"])
            elif c["k"] == "E":
                await s.athrow(c["v"])
            else:
                await s.aclose()
            c["res"] = "ok"
        except ObjectDisposedException:
            c["res"] = "disposed"

    for a in p["acts"]:
        g = a[-1]
        if a[0] in ("send", "throw", "close"):
            n[0] += 1
            c = {"k": {"send": "N", "throw": "E", "close": "C"}[a[0]], "v": rt.err(n[0]) if a[0] == "throw" else n[0], "res": None, "started": False}
            if p["direct"] and st["sub"]:
                await call(c)
            else:
                rt.spawn(call(c))
                if g == "-":
                    await asyncio.sleep(0)
        elif a[0] == "sub":
            if st["sub"] or st["disp"]:
                continue
            handle[0] = await s.subscribe_async(rec)
            st["sub"] = True
        else:
            if p["via"] and handle[0]:
                await handle[0].dispose_async()
            else:
                await s.dispose_async()
            st["disp"] = True
            st["calls_before"] = len(calls)
            st["got_before"] = len(rec.got)
        await rt.gap(g)
    await asyncio.sleep(1000)
    if st["disp"]:
        for c in calls:
            rt.expect(c["res"] is not None, f"{p}: call {c} never returned after dispose")
            if c["disp_at_start"]:
                rt.expect(c["res"] == "disposed", f"{p}: call {c} after dispose did not raise")
            elif not st["sub"]:
                rt.expect(c["res"] == "disposed", f"{p}: producer {c} waiting at dispose returned {c['res']}")
    else:
        for c in calls:
            if st["sub"]:
                rt.expect(c["res"] == "ok", f"{p}: call {c} did not return normally")
            else:
                rt.expect(c["res"] is None, f"{p}: call {c} returned without an observer")
    exp = upto_terminal([(c["k"], c["v"]) if c["k"] != "C" else ("C",) for c in calls])
    if not st["sub"]:
        rt.expect(not rec.got, f"{p}: delivered {rec.got} without observer")
    elif not st["disp"]:
        rt.expect(same_seq(rec.got, exp), f"{p}: delivered {rec.got}, calls in order {exp}")
    else:
        rt.expect(same_seq(rec.got, exp[: len(rec.got)]), f"{p}: delivered {rec.got}, calls in order {exp}")
        rt.expect(len(rec.got) == st["got_before"], f"{p}: delivered after dispose {rec.got}")
        try:
            await s.subscribe_async(Rec(rt))
            rt.fail(f"{p}: subscribe after dispose did not raise")
        except ObjectDisposedException:
            pass
        for f in (lambda: s.asend(1), lambda: s.athrow(rt.err(5)), lambda: s.aclose()):
            try:
                await asyncio.wait_for(f(), 5)
                rt.fail(f"{p}: call after dispose did not raise")
            except ObjectDisposedException:
                pass
            except asyncio.TimeoutError:
                rt.fail(f"{p}: call after dispose hangs")


# ---------------------------------------------------------------- C18
def g_18(r):
    nprod = r.randint(1, 4)
    prods = []
    for i in range(nprod):
        prods.append((r.choice([0, 0, 0.5, 1.5]), [("N", (i, j)) for j in range(r.randint(0, 3))], r.choice([0, 0, 0.5])))
    return {"prods": prods, "term": r.choice(["C", "E"]), "think": r.choice([0, 0, 0.5, 2]), "form": r.choice(["obs", "iter", "rx"]), "termat": r.choice([0, 1, 10])}


@fam("C18", "iterate", g_18, weight=3)
async def c18(p, rt):
    src = Src(rt)
    it = rx.AsyncIteratorObserver(src) if p["form"] == "obs" else (rx.to_async_iterable(src) if p["form"] == "iter" else rx.AsyncRx(src).to_async_iterable())
    taken, order, returned = [], [], []

    async def consumer():
        try:
            async for v in it:
                taken.append(("N", v))
                rt.log.append(("take", v))
                if p["think"]:
                    await asyncio.sleep(p["think"])
            taken.append(("C",))
        except Err as e:
            taken.append(("E", e))
        rt.log.append(("end",))

    async def prod(delay, evs, gap):
        await asyncio.sleep(delay)
        for k, v in evs:
            order.append((k, v))
            await src.emit("N", v)
            returned.append(v)
            rt.expect(("N", v) in taken, f"{p}: producer of {v} returned before the consumer took it; taken {taken}")
            if gap:
                await asyncio.sleep(gap)

    ct = rt.spawn(consumer())
    await rt.settle()
    ts = [rt.spawn(prod(*x)) for x in p["prods"]]
    await asyncio.sleep(200)
    for t in ts:
        rt.expect(t.done(), f"{p}: a producer is stuck although the consumer is ready; taken {taken}, offered {order}")
        if t.done() and t.exception():
            rt.fail(f"{p}: producer failed {t.exception()!r}")
    tt = rt.spawn(src.emit(p["term"], rt.err(1) if p["term"] == "E" else None))
    await asyncio.sleep(200)
    rt.expect(tt.done(), f"{p}: terminal producer stuck")
    rt.expect(ct.done(), f"{p}: consumer did not end")
    exp = [e for e in taken if e[0] == "N"]
    allv = [e for _, evs, _ in p["prods"] for e in evs]
    rt.expect(len(exp) == len(allv) and sorted(map(repr, exp)) == sorted(map(repr, allv)), f"{p}: taken {taken}, sent {allv}")
    for i, (_, evs, _) in enumerate(p["prods"]):
        rt.expect([e for e in exp if e[1][0] == i] == list(evs), f"{p}: order of producer {i} not kept: {taken}")
    rt.expect(taken and taken[-1][0] == p["term"] and (p["term"] == "C" or taken[-1][1] is rt.err(1)), f"{p}: ended with {taken[-1:]}")


@fam("C18", "burst", lambda r: {"n": r.randint(1, 7), "think": r.choice([0, 0.5]), "cancel": r.choice([None, None, 0.25])})
async def c18b(p, rt):
    """all producers call before the consumer takes anything: order of admission = order of calls"""
    src = Src(rt)
    it = rx.AsyncIteratorObserver(src)
    got = []

    async def first():
        return await it.__anext__()

    async def consumer():
        async for v in it:
            got.append(v)
            if p["think"]:
                await asyncio.sleep(p["think"])

    if p["cancel"]:
        # a consumer that gives up must not lose anything
        t = rt.spawn(first())
        await asyncio.sleep(p["cancel"])
        t.cancel()
        await rt.settle()
    ct = rt.spawn(consumer())
    await rt.settle()
    ts = [rt.spawn(src.emit("N", i)) for i in range(p["n"])]
    te = rt.spawn(src.emit("C"))
    await asyncio.sleep(100)
    rt.expect(got == list(range(p["n"])), f"{p}: iterated {got}")
    rt.expect(ct.done() and all(t.done() for t in ts) and te.done(), f"{p}: stuck: consumer {ct.done()} producers {[t.done() for t in ts]} terminal {te.done()}")


# ---------------------------------------------------------------- C19
def g_19(r):
    ev = [("N", r.choice(VALS)) for _ in range(r.randint(0, 3))]
    for _ in range(r.randint(0, 3)):
        ev.append(r.choice([("N", r.choice(VALS)), ("C", None), ("E", r.randint(1, 2)), ("D", None)]))
    return {"ev": ev, "kind": r.choice(["awaitable", "test"])}


@fam("C19", "awaitable", g_19, weight=2)
async def c19(p, rt):
    cb = []

    async def a(v):
        cb.append(("N", v))

    async def b(e):
        cb.append(("E", e))

    async def c():
        cb.append(("C",))

    from aioreactive.testing import AsyncTestObserver
    o = rx.AsyncAwaitableObserver(a, b, c) if p["kind"] == "awaitable" else AsyncTestObserver(a, b, c)
    exp_cb, stop, last, has, res = [], False, None, False, None
    for k, v in p["ev"]:
        pv = payload(rt, k, v)
        if k == "D":
            o.dispose()
            stop = True
            continue
        if p["kind"] == "test" and stop:
            break
        if k == "N":
            await o.asend(pv)
            if not stop:
                last, has = pv, True
                exp_cb.append(("N", pv))
        elif k == "E":
            await o.athrow(pv)
            if not stop:
                res = ("E", pv)
                stop = True
                exp_cb.append(("E", pv))
        else:
            await o.aclose()
            if not stop:
                res = ("V", last) if has else ("X",)
                stop = True
                exp_cb.append(("C",))
    if p["kind"] == "test" and exp_cb and not same_seq(cb, exp_cb) and same_seq(cb, [x for x in exp_cb for _ in (0, 1)]):
        rt.known("testobserver-double", f"{p}: callbacks {cb} expected {exp_cb}")
    else:
        rt.expect(same_seq(cb, exp_cb), f"{p}: callbacks {cb} expected {exp_cb}")
    if res is None:
        rt.expect(not o.done(), f"{p}: resolved without terminal")
        o.cancel()
    elif res[0] == "X":
        rt.expect(o.cancelled(), f"{p}: not cancelled on empty completion")
    elif res[0] == "E":
        rt.expect(o.done() and not o.cancelled() and o.exception() is res[1], f"{p}: {o}")
    else:
        rt.expect(o.done() and not o.cancelled() and o.exception() is None and same(o.result(), res[1]), f"{p}: {o} expected {res}")


@fam("C19", "run", lambda r: {"ev": [(r.choice([0, 0.25, 0.5, 1]), r.choice(VALS)) for _ in range(r.randint(0, 4))], "term": r.choice(["C", "E", "-"]), "timeout": r.choice([None, 0.6, 5]), "obs": r.random() < 0.4}, weight=2)
async def c19b(p, rt):
    src = Src(rt)
    kw = {} if p["timeout"] is None else {"timeout": p["timeout"]}
    timeout = 2 if p["timeout"] is None else p["timeout"]

    async def feed():
        while not src.subs:
            await asyncio.sleep(0)
        for d, v in p["ev"]:
            if d:
                await asyncio.sleep(d)
            await src.emit("N", v)
        if p["term"] != "-":
            await asyncio.sleep(0.125)
            await src.emit(p["term"], rt.err(1) if p["term"] == "E" else None)

    if p["obs"]:
        kw["observer"] = rx.AsyncAwaitableObserver()
    f = rt.spawn(feed())
    t0 = rt.now
    try:
        r = ("V", await rx.run(src, **kw))
    except asyncio.CancelledError:
        r = ("X",)
    except Err as e:
        r = ("E", e)
    except (asyncio.TimeoutError, TimeoutError):
        r = ("T",)
    dt = rt.now - t0
    total = sum(d for d, _ in p["ev"]) + 0.125
    if p["term"] == "-" or total > timeout:
        exp = ("T",)
        rt.expect(abs(dt - timeout) < 1e-6, f"{p}: timed out after {dt}")
    elif p["term"] == "E":
        exp = ("E", rt.err(1))
    else:
        exp = ("V", p["ev"][-1][1]) if p["ev"] else ("X",)
    rt.expect(r[0] == exp[0] and (len(r) == 1 or same(r[1], exp[1])), f"{p}: run gave {r}, expected {exp}")
    await rt.settle()
    rt.expect(bool(src.subs and src.subs[0].disposed), f"{p}: run did not dispose its subscription")
    await asyncio.sleep(100)


# ---------------------------------------------------------------- C20 (own loop)
def g_20(r):
    n = r.choice([3, 6, 12, 40, 130, 260])
    ts = []
    for i in range(n):
        ts.append((r.choice([0, 0.5, 1, 1, 2, 3.25, 7, 0.001 * r.randint(0, 5000)]),
                   r.choice([None] * 4 + [("cancel", r.randrange(n))] * 2 + [("later", r.choice([0, 0.5, 2]))] + [("soon",)] + [("at_past", 1)])))
    return {"ts": ts, "pre": [r.randrange(n) for _ in range(r.choice([0, 0, n // 3, n * 2 // 3]))]}


def c20_sync(p, rt):
    import aioreactive.testing as T
    loop = T.VirtualTimeEventLoop()
    rt.expect(loop.time() == 0, "time does not start at 0")
    ran, handles, cancelled, sched = [], {}, {}, {}
    last = [0.0]
    seq = [0]
    order = []
    pending = {}  # id -> due

    def tick():
        t = loop.time()
        if t < last[0]:
            rt.fail(f"{p}: time went back from {last[0]} to {t}")
        last[0] = t
        return t

    soon_wait = [0]

    def mk(i, spec):
        def cb():
            t = tick()
            if i in cancelled:
                rt.fail(f"{p}: cancelled timer {i} ran")
            if i in ran:
                rt.fail(f"{p}: timer {i} ran twice")
            ran.append(i)
            due, at = sched[i]
            if t < due - 1e-12:
                rt.fail(f"{p}: timer {i} due {due} ran at {t}")
            if abs(t - max(due, at)) > 1e-9:
                rt.fail(f"{p}: timer {i} due {due} (scheduled at {at}) ran at {t}")
            if soon_wait[0] and t > soon_time[0]:
                rt.fail(f"{p}: time advanced while a callback was ready")
            pending.pop(i, None)
            late = [j for j, d in pending.items() if d < due - 1e-12 and sched[j][1] <= at]
            if late:
                rt.fail(f"{p}: timer {i} due {due} ran before {late}")
            if spec is None:
                return
            if spec[0] == "cancel":
                j = spec[1]
                if j in handles and j not in ran and j not in cancelled:
                    handles[j].cancel()
                    cancelled[j] = True
                    pending.pop(j, None)
            elif spec[0] == "later":
                add(1000 + i, t + spec[1], None)
            elif spec[0] == "at_past":
                add(2000 + i, t - spec[1], None)
            elif spec[0] == "soon":
                t0 = loop.time()
                soon_wait[0] += 1
                soon_time[0] = t0

                def soon():
                    soon_wait[0] -= 1
                    if loop.time() != t0:
                        rt.fail(f"{p}: ready callback ran at {loop.time()} instead of {t0}")

                loop.call_soon(soon)

        return cb

    soon_time = [0.0]

    def add(i, due, spec):
        sched[i] = (due, loop.time())
        pending[i] = due
        handles[i] = loop.call_at(due, mk(i, spec))

    for i, (d, spec) in enumerate(p["ts"]):
        add(i, d, spec)
    for i in p["pre"]:
        if i not in cancelled:
            handles[i].cancel()
            cancelled[i] = True
            pending.pop(i, None)
    loop.call_at(1e6, loop.stop)
    import signal

    def alarm(*a):
        raise TimeoutError("stuck")

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 15)
    try:
        loop.run_forever()
    except TimeoutError:
        rt.fail(f"{p}: the loop hangs")
    except Exception as ex:
        rt.fail(f"{p}: the loop failed with {ex!r}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    miss = [i for i in sched if i not in ran and i not in cancelled]
    rt.expect(not miss, f"{p}: timers {miss} never ran")


c20_sync.sync = True
fam("C20", "timers", g_20, weight=3)(c20_sync)


def c20_tasks(p, rt):
    """asyncio programs on the virtual loop: sleeps end exactly on time, in order"""
    import aioreactive.testing as T
    loop = T.VirtualTimeEventLoop()
    seen = []

    async def worker(i, ds):
        exp = loop.time()
        for d in ds:
            await asyncio.sleep(d)
            exp += d
            seen.append((loop.time(), i))
            if abs(loop.time() - exp) > 1e-9:
                rt.fail(f"{p}: worker {i} woke at {loop.time()} instead of {exp}")
        return i

    async def main():
        ts = [loop.create_task(worker(i, ds)) for i, ds in enumerate(p["ds"])]
        for i in p["cancel"]:
            if i < len(ts):
                ts[i].cancel()
        r = await asyncio.gather(*ts, return_exceptions=True)
        for i, x in enumerate(r):
            if i not in p["cancel"] and x != i:
                rt.fail(f"{p}: worker {i} returned {x!r}")

    import signal

    def alarm(*a):
        raise TimeoutError("stuck")

    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 15)
    asyncio.set_event_loop(loop)
    try:
        loop.run_until_complete(main())
    except TimeoutError:
        rt.fail(f"{p}: the loop hangs")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        asyncio.set_event_loop(None)
    rt.expect(seen == sorted(seen, key=lambda x: x[0]), f"{p}: order {seen}")


c20_tasks.sync = True
fam("C20", "tasks", lambda r: {"ds": [[r.choice([0, 0.1, 0.5, 1, 2.5]) for _ in range(r.randint(1, 4))] for _ in range(r.randint(1, 6))], "cancel": [r.randint(0, 6)] if r.random() < 0.3 else []})(c20_tasks)


# ---------------------------------------------------------------- C21
def method_table(rt, log):
    f = lambda *a: ("m",) + a
    pr = lambda *a: a[0] not in (None, 0, "", ())
    other = lambda: Src(rt, "other", prelude=[("N", "o1"), ("N", "o2"), ("C", None)])

    async def af(*a):
        return f(*a)

    async def apr(*a):
        return pr(*a)

    from expression import Nothing, Some
    ch = lambda x: Some((x,)) if pr(x) else Nothing

    async def ach(x):
        return ch(x)

    acc = lambda a, x: (a, x)

    async def aacc(a, x):
        return (a, x)

    inner = lambda x: rx.from_iterable([x, x])

    async def ainner(x):
        return inner(x)

    F, Tm, Cb, Ts, Cr = ops._flt, ops._trf, ops._cmb, ops._ts, ops._crt
    return [
        ("choose", lambda s, o: s.choose(ch), lambda s, o: pipe(s, F.choose(ch)), rx.choose and (lambda s, o: pipe(s, rx.choose(ch)))),
        ("choose_async", lambda s, o: s.choose_async(ach), lambda s, o: pipe(s, F.choose_async(ach)), lambda s, o: pipe(s, rx.choose_async(ach))),
        ("combine_latest", lambda s, o: s.combine_latest(o), lambda s, o: pipe(s, Cb.combine_latest(o)), lambda s, o: pipe(s, rx.combine_latest(o))),
        ("with_latest_from", lambda s, o: s.with_latest_from(o), lambda s, o: pipe(s, Cb.with_latest_from(o)), lambda s, o: pipe(s, rx.with_latest_from(o))),
        ("concat", lambda s, o: s.concat(o), lambda s, o: Cb.concat_seq([s, o]), lambda s, o: pipe(s, rx.concat(o))),
        ("concat_seq", lambda s, o: s.concat(o), lambda s, o: rx.concat_seq([s, o]), None),
        ("merge", lambda s, o: s.merge(o), lambda s, o: pipe(Cr.of_seq([s, o]), Cb.merge_inner(0)), lambda s, o: pipe(s, rx.merge(o))),
        ("merge_seq", lambda s, o: s.merge(o), lambda s, o: rx.merge_seq([s, o]), None),
        ("debounce", lambda s, o: s.debounce(0.5), lambda s, o: pipe(s, Ts.debounce(0.5)), lambda s, o: pipe(s, rx.debounce(0.5))),
        ("delay", lambda s, o: s.delay(0.5), lambda s, o: pipe(s, Ts.delay(0.5)), lambda s, o: pipe(s, rx.delay(0.5))),
        ("distinct", lambda s, o: s.distinct_until_changed(), lambda s, o: F.distinct_until_changed(s), lambda s, o: rx.distinct_until_changed(s)),
        ("filter", lambda s, o: s.filter(pr), lambda s, o: pipe(s, F.filter(pr)), lambda s, o: pipe(s, rx.filter(pr))),
        ("filteri", lambda s, o: s.filteri(lambda x, i: i % 2), lambda s, o: pipe(s, F.filteri(lambda x, i: i % 2)), lambda s, o: pipe(s, rx.filteri(lambda x, i: i % 2))),
        ("filter_async", lambda s, o: s.filter_async(apr), lambda s, o: pipe(s, F.filter_async(apr)), lambda s, o: pipe(s, rx.filter_async(apr))),
        ("flat_map", lambda s, o: s.flat_map(inner), lambda s, o: pipe(s, Tm.flat_map(inner)), lambda s, o: pipe(s, rx.flat_map(inner))),
        ("flat_map_async", lambda s, o: s.flat_map_async(ainner), lambda s, o: pipe(s, Tm.flat_map_async(ainner)), lambda s, o: pipe(s, rx.flat_map_async(ainner))),
        ("flat_map_latest_async", lambda s, o: s.flat_map_latest_async(ainner), lambda s, o: pipe(s, Tm.flat_map_latest_async(ainner)), lambda s, o: pipe(s, rx.flat_map_latest_async(ainner))),
        ("flat_mapi", None, lambda s, o: pipe(s, Tm.flat_mapi(lambda x, i: rx.from_iterable([x, i]))), lambda s, o: pipe(s, rx.flat_mapi(lambda x, i: rx.from_iterable([x, i])))),
        ("map", lambda s, o: s.map(f), lambda s, o: pipe(s, Tm.map(f)), lambda s, o: pipe(s, rx.map(f))),
        ("map_async", None, lambda s, o: pipe(s, Tm.map_async(af)), lambda s, o: pipe(s, rx.map_async(af))),
        ("mapi", None, lambda s, o: pipe(s, Tm.mapi(f)), lambda s, o: pipe(s, rx.mapi(f))),
        ("mapi_async", None, lambda s, o: pipe(s, Tm.mapi_async(af)), lambda s, o: pipe(s, rx.mapi_async(af))),
        ("reduce", lambda s, o: s.reduce(acc, "i"), lambda s, o: pipe(s, Tm.reduce(acc, "i")), lambda s, o: pipe(s, rx.reduce(acc, "i"))),
        ("reduce_async", lambda s, o: s.reduce_async(aacc, "i"), lambda s, o: pipe(s, Tm.reduce_async(aacc, "i")), lambda s, o: pipe(s, rx.reduce_async(aacc, "i"))),
        ("scan", None, lambda s, o: pipe(s, Tm.scan(acc, "i")), lambda s, o: pipe(s, rx.scan(acc, "i"))),
        ("scan_async", None, lambda s, o: pipe(s, Tm.scan_async(aacc, "i")), lambda s, o: pipe(s, rx.scan_async(aacc, "i"))),
        ("skip", lambda s, o: s.skip(2), lambda s, o: pipe(s, F.skip(2)), lambda s, o: pipe(s, rx.skip(2))),
        ("skip_last", lambda s, o: s.skip_last(2), lambda s, o: pipe(s, F.skip_last(2)), lambda s, o: pipe(s, rx.skip_last(2))),
        ("take", lambda s, o: s.take(2), lambda s, o: pipe(s, F.take(2)), lambda s, o: pipe(s, rx.take(2))),
        ("take_last", lambda s, o: s.take_last(2), lambda s, o: pipe(s, F.take_last(2)), lambda s, o: pipe(s, rx.take_last(2))),
        ("take_until", lambda s, o: s.take_until(o), lambda s, o: pipe(s, F.take_until(o)), lambda s, o: pipe(s, rx.take_until(o))),
        ("slice", lambda s, o: s[1:3], lambda s, o: pipe(s, F.slice(1, 3, 1)), None),
        ("slice2", lambda s, o: s[-3:-1:2], lambda s, o: pipe(s, F.slice(-3, -1, 2)), None),
        ("catch", None, lambda s, o: pipe(s, Tm.catch(lambda e: rx.single(e))), lambda s, o: pipe(s, rx.catch(lambda e: rx.single(e)))),
        ("retry", None, lambda s, o: pipe(s, Tm.retry(2)), lambda s, o: pipe(s, rx.retry(2))),
        ("as_chained", lambda s, o: s, lambda s, o: s, lambda s, o: rx.as_chained(s)),
        ("as_obs", lambda s, o: s.as_async_observable(), lambda s, o: s, lambda s, o: rx.as_async_observable(s)),
        ("create", lambda s, o: rx.AsyncRx.create(s), lambda s, o: s, None),
        ("starmap", lambda s, o: s.map(lambda x: (x, 1)).starmap(f), lambda s, o: pipe(s, Tm.map(lambda x: (x, 1)), Tm.starmap(f)), lambda s, o: pipe(s, rx.map(lambda x: (x, 1)), rx.starmap(f))),
        ("starfilter", lambda s, o: s.map(lambda x: (x, 1)).starfilter(pr), lambda s, o: pipe(s, Tm.map(lambda x: (x, 1)), F.starfilter(pr)), lambda s, o: pipe(s, rx.map(lambda x: (x, 1)), rx.starfilter(pr))),
        ("switch", None, lambda s, o: Tm.switch_latest(pipe(s, Tm.map(inner))), lambda s, o: pipe(s, rx.map(inner), rx.switch_latest())),
        ("from_iterable", lambda s, o: rx.AsyncRx.from_iterable([1, None]), lambda s, o: Cr.of_seq([1, None]), lambda s, o: rx.from_iterable([1, None])),
        ("single", lambda s, o: rx.AsyncRx.single(7), lambda s, o: Cr.single(7), lambda s, o: rx.single(7)),
        ("empty", lambda s, o: rx.AsyncRx.empty(), lambda s, o: Cr.empty(), lambda s, o: rx.empty()),
        ("never", None, lambda s, o: Cr.never(), lambda s, o: rx.never()),
        ("interval", None, lambda s, o: pipe(Cr.interval(1, 0.5), F.take(3)), lambda s, o: pipe(rx.interval(1, 0.5), F.take(3))),
        ("timer", None, lambda s, o: Cr.timer(1.5), lambda s, o: rx.timer(1.5)),
    ]


@fam("C21", "forms", lambda r: {"script": rscript(r, 2, maxn=7, gaps=("q", 0.3, 1)), "i": r.randrange(46)}, weight=5)
async def c21(p, rt):
    tab = method_table(rt, None)
    name, meth, base, func = tab[p["i"] % len(tab)]
    res = []
    for form in (base, meth, func):
        if form is None:
            continue
        srcs = [Src(rt, "s0"), Src(rt, "s1")]
        try:
            o = form(rx.AsyncRx(srcs[0]), srcs[1])
        except AttributeError as ex:
            rt.fail(f"{name}: {ex}")
            continue
        rec = Rec(rt)
        t0 = rt.now
        d = await o.subscribe_async(rec)
        await rt.settle()
        for s, k, v, g in p["script"]:
            try:
                await srcs[s].emit(k, payload(rt, k, v))
            except TypeError:
                pass
            await rt.gap(g)
        await asyncio.sleep(100)
        nsub = [len(s.subs) for s in srcs]
        res.append((rec.got, [round(t - t0, 6) for t in rec.times], nsub))
        await d.dispose_async()
        await rt.settle()
    for x in res[1:]:
        rt.expect(same_seq(x[0], res[0][0]) and x[1] == res[0][1] and x[2] == res[0][2], f"{name} {p['script']}: method/function form gives {x}, operator gives {res[0]}")


def small_21():
    for i in range(46):
        yield {"i": i, "script": [(0, "N", 1, "q"), (1, "N", "b", "q"), (0, "N", None, 0.3), (0, "N", 0, 1), (0, "N", 2, "q"), (1, "N", "c", "q"), (0, "N", 2, 1), (0, "N", 3, "q"), (1, "C", None, "q"), (0, "C", None, "q")]}
        yield {"i": i, "script": [(0, "N", 1, "q"), (0, "N", 2, "q"), (0, "E", 1, "q")]}
        yield {"i": i, "script": [(0, "N", 1, "q"), (0, "N", 2, "q"), (0, "N", 3, 1), (0, "C", None, "q"), (1, "N", 1, "q"), (1, "C", None, "q")]}


FAM["C21"][0] = FAM["C21"][0][:3] + (small_21, 5)


@fam("C21", "adapters", lambda r: {"ev": rscript(r, 1, maxn=6), "have": [r.random() < 0.7 for _ in range(3)], "via": r.choice(["anon", "notif", "three", "kw", "rx", "iterobs", "subjects"])}, weight=3)
async def c21b(p, rt):
    from aioreactive.notification import OnCompleted, OnError, OnNext
    got, src = [], Src(rt)

    async def a(v):
        got.append(("N", v))

    async def b(e):
        got.append(("E", e))

    async def c():
        got.append(("C",))

    h = p["have"]
    fs = [f if x else None for f, x in zip((a, b, c), h)]
    evs = [(k, payload(rt, k, v)) for _, k, v, _ in p["ev"]]
    exp = [(k, v) if k != "C" else ("C",) for k, v in evs if h["NEC".index(k)]]
    if p["via"] == "notif":
        async def n(x):
            if isinstance(x, OnNext):
                got.append(("N", x.value))
            elif isinstance(x, OnError):
                got.append(("E", x.exception))
            else:
                rt.expect(isinstance(x, OnCompleted), f"unknown notification {x}")
                got.append(("C",))
        o = rx.AsyncNotificationObserver(n)
        exp = [(k, v) if k != "C" else ("C",) for k, v in evs]
    elif p["via"] == "anon":
        o = rx.AsyncAnonymousObserver(*fs)
    else:
        o = None
        if p["via"] == "three":
            ob = rx.as_async_observable(src)
        elif p["via"] == "rx":
            ob = rx.AsyncRx(src)
        elif p["via"] == "iterobs":
            ob = rx.AsyncIterableObservable(src)
        elif p["via"] == "subjects":
            ob = rx.AsyncSubject()
        else:
            ob = rx.AsyncAnonymousObservable(src.subscribe_async)
        if p["via"] == "kw":
            await ob.subscribe_async(send=fs[0], throw=fs[1], close=fs[2])
        else:
            await ob.subscribe_async(*fs)
    if o is None and p["via"] == "subjects":
        o = ob
    for k, v in evs:
        if o is None:
            await src.emit(k, v)
        elif k == "N":
            await o.asend(v)
        elif k == "E":
            await o.athrow(v)
        else:
            await o.aclose()
    rt.expect(same_seq(got, exp), f"{p}: callbacks {got}, expected {exp}")
    if o is None:
        rt.expect(len(src.subs) == 1, f"{p}: subscribed {len(src.subs)} times")


@fam("C21", "notifications", lambda r: {"a": (r.choice("NEC"), r.choice(VALS + [1, 2])), "b": (r.choice("NEC"), r.choice(VALS + [1, 2]))}, weight=2)
async def c21c(p, rt):
    from aioreactive.notification import OnCompleted, OnError, OnNext

    def mk(x):
        return OnNext(x[1]) if x[0] == "N" else OnError(rt.err(repr(x[1]))) if x[0] == "E" else OnCompleted()

    x, y = mk(p["a"]), mk(p["b"])
    exp = p["a"][0] == p["b"][0] and (p["a"][0] == "C" or (p["a"][1] == p["b"][1] if p["a"][0] == "N" else repr(p["a"][1]) == repr(p["b"][1])))
    rt.expect((x == y) == exp, f"{p}: {x!r} == {y!r} is {x == y}")
    rt.expect((x != y) == (not exp), f"{p}: {x!r} != {y!r} is {x != y}")
    got = []

    async def a(v):
        got.append(("N", v))

    async def b(e):
        got.append(("E", e))

    async def c():
        got.append(("C",))

    e = ("N", p["a"][1]) if p["a"][0] == "N" else ("E", rt.err(repr(p["a"][1]))) if p["a"][0] == "E" else ("C",)
    await x.accept(a, b, c)
    rt.expect(same_seq(got, [e]), f"{p}: accept called {got}")
    rec = Rec(rt)
    await x.accept_observer(rec)
    rt.expect(same_seq(rec.got, [e]), f"{p}: accept_observer called {rec.got}")


@fam("C21", "to_observable", lambda r: {"ev": rscript(r, 1, maxn=6), "dispose": r.choice([None, None, 1, 2])})
async def c21d(p, rt):
    from aioreactive.leave import to_observable
    got, src = [], Src(rt)
    d = to_observable(src).subscribe(on_next=lambda v: got.append(("N", v)), on_error=lambda e: got.append(("E", e)), on_completed=lambda: got.append(("C",)))
    await rt.settle()
    exp = []
    for i, (_, k, v, _) in enumerate(p["ev"]):
        if p["dispose"] == i:
            d.dispose()
            await rt.settle()
            rt.expect(bool(src.subs and (src.subs[0].disposed or src.subs[0].term)), f"{p}: dispose did not release the source")
            break
        pv = payload(rt, k, v)
        exp.append((k, pv) if k != "C" else ("C",))
        await src.emit(k, pv)
    await rt.settle()
    rt.expect(same_seq(got, exp), f"{p}: got {got} expected {exp}")


# ---------------------------------------------------------------- C22
IND = ["take", "skip", "skip_last", "take_last", "take_until", "distinct_until_changed", "combine_latest", "with_latest_from", "zip_seq", "map", "mapi", "filteri",
       "filter", "scan", "scan_async", "reduce", "mapi_async", "choose", "slice"]


def g_22(r):
    op = r.choice(IND)
    nsrc = 2 if op in ("take_until", "combine_latest", "with_latest_from") else 1
    p = {"op": op, "n": r.randint(0, 3), "init": r.choice(VALS), "mask": [0, 1, 2][: r.randint(1, 3)], "off": 1, "seq": rvals(r, r.randint(0, 5)),
         "a": r.choice([None, 1, -2]), "b": r.choice([None, 3, -1]), "s": r.choice([1, 2])}
    p["sc"] = [rscript(r, nsrc, maxn=6) for _ in range(2)]
    p["inter"] = [r.random() < 0.5 for _ in range(20)]
    p["late"] = r.choice([0, 0, 1, 3])
    p["dispose0"] = r.choice([None, None, 1, 2, 3])
    return p


def strip_calls(op):
    return op


@fam("C22", "two", g_22, weight=4)
async def c22(p, rt):
    op = p["op"]
    nsrc = 2 if op in ("take_until", "combine_latest", "with_latest_from") else 1
    srcs = [Src(rt, f"s{i}") for i in range(nsrc)]
    hasf = op in ops.EL or op in ops.SC
    # functions must be history-independent here
    pp = dict(p)
    if hasf:
        f = lambda *a: ("f",) + a
        pr = lambda *a: repr(a).__len__() % 2 == 0
        from expression import Nothing, Some
        table = {
            "map": lambda: pub(ops._trf, "map")(f), "mapi": lambda: pub(ops._trf, "mapi")(f), "mapi_async": lambda: pub(ops._trf, "mapi_async")(ops.asy(f)),
            "filter": lambda: pub(ops._flt, "filter")(pr), "filteri": lambda: pub(ops._flt, "filteri")(pr), "choose": lambda: pub(ops._flt, "choose")(lambda x: Some(x) if pr(x) else Nothing),
            "scan": lambda: pub(ops._trf, "scan")(lambda a, x: (a, x), p["init"]), "scan_async": lambda: pub(ops._trf, "scan_async")(ops.asy(lambda a, x: (a, x)), p["init"]),
            "reduce": lambda: pub(ops._trf, "reduce")(lambda a, x: (a, x), p["init"]),
        }
        obs = pipe(srcs[0], table[op]())
    elif op == "slice":
        obs = pipe(srcs[0], ops._flt.slice(p["a"], p["b"], p["s"]))
    else:
        obs = ops.OPS[op][0](p, rt, srcs + [{"calls": Calls()}])

    def spec(evs):
        e0 = ops.only0(evs)
        xs, t = ops.vals(e0), ops.term(e0)
        if hasf:
            if op in ("map",):
                out = [f(x) for x in xs]
            elif op in ("mapi", "mapi_async"):
                out = [f(x, i) for i, x in enumerate(xs)]
            elif op in ("filter", "choose"):
                out = [x for x in xs if pr(x)]
            elif op == "filteri":
                out = [x for i, x in enumerate(xs) if pr(x, i)]
            else:
                out, cur = [], p["init"]
                for x in xs:
                    cur = (cur, x)
                    out.append(cur)
                if op == "reduce":
                    if t is None:
                        return []
                    return [t] if t[0] == "E" else ops.with_term(out[-1:], t)
            return ops.with_term(out, t)
        if op == "slice":
            if t is None or t[0] == "E":
                return None
            return ops.with_term(xs[p["a"]:p["b"]:p["s"]], t)
        return ops.OPS[op][1](p, evs)

    recs = [Rec(rt, ("fast",), "A"), Rec(rt, ("fast",), "B")]
    ds = [await obs.subscribe_async(recs[0]), None]
    await rt.settle()
    idx = [0, 0]
    evs = [[], []]
    subs = [[s.subs[0] for s in srcs], None]
    disposed = False
    steps = 0
    order = [0] * p["late"]
    a, b = len(p["sc"][0]) - p["late"], len(p["sc"][1])
    it = iter(p["inter"] * 5)
    while a > 0 or b > 0:
        w = 0 if (b <= 0 or (a > 0 and next(it))) else 1
        order.append(w)
        if w:
            b -= 1
        else:
            a -= 1
    for w in order:
        if w == 1 and subs[1] is None:
            ds[1] = await obs.subscribe_async(recs[1])
            await rt.settle()
            subs[1] = [s.subs[-1] for s in srcs]
            if any(len(s.subs) != 2 for s in srcs):
                rt.fail(f"{p}: second subscription did not subscribe its sources once: {[len(s.subs) for s in srcs]}")
                return
        if idx[w] >= len(p["sc"][w]):
            continue
        s, k, v, g = p["sc"][w][idx[w]]
        idx[w] += 1
        if w == 0:
            if disposed:
                continue
            if p["dispose0"] is not None and idx[0] > p["dispose0"]:
                await ds[0].dispose_async()
                await rt.settle()
                disposed = True
                if subs[1]:
                    rt.expect(not any(x.disposed and not any(e[0] in "EC" for e in recs[1].got) for x in subs[1]), f"{p}: disposing one subscription released the other's source")
                continue
        evs[w].append((s, k, payload(rt, k, v)))
        await srcs[s].emit(k, payload(rt, k, v), subs[w][s])
        await rt.settle()
    await rt.settle()
    for w in (0, 1):
        if w == 1 and subs[1] is None:
            continue
        e = spec(evs[w])
        if e is None:
            continue
        if w == 0 and disposed:
            rt.expect(same_seq(recs[0].got, e[: len(recs[0].got)]), f"{p}: subscription {w} got {recs[w].got}, alone {e}")
        else:
            rt.expect(same_seq(recs[w].got, e), f"{p}: subscription {w} got {recs[w].got}, alone {e}")


@fam("C22", "cold", lambda r: {"k": r.randrange(14), "n": r.randint(2, 4), "gap": r.choice([0, 0.25, 1.1, 30]), "mode": r.choice([("fast",), ("yield",), ("slow", 0.1)])}, weight=4)
async def c22b(p, rt):
    """cold observables: each subscription receives what a lone one receives, at the same relative times"""
    def mk():
        base = rx.from_iterable([3, None, 1, 1, 2])
        flaky = Multi(rt, [[("N", 1), ("E", rt.err(1))]], True)
        tab = [
            lambda: base, lambda: pipe(base, rx.take(2)), lambda: pipe(flaky, rx.retry(2)), lambda: pipe(flaky, rx.catch(lambda e: base)),
            lambda: rx.concat_seq([base, base]), lambda: rx.merge_seq([base, rx.single(7)]), lambda: pipe(base, rx.delay(0.5)),
            lambda: pipe(base, rx.flat_map(lambda x: rx.from_iterable([x, x]))), lambda: pipe(base, rx.map(rx.single), rx.switch_latest()),
            lambda: pipe(pub(ops._crt, "interval")(0.5, 0.5), rx.take(4)), lambda: pub(ops._crt, "timer")(0.5),
            lambda: pipe(pipe(pub(ops._crt, "interval")(0.5, 2.0), rx.take(3)), pub(ops._ts, "debounce")(0.25)), lambda: pub(ops._crt, "defer")(lambda: base),
            lambda: pipe(base, pub(ops._flt, "filteri")(lambda x, i: i % 2 == 0)),
        ]
        return tab[p["k"] % len(tab)]()

    obs = mk()
    solo = Rec(rt, p["mode"])
    t0 = rt.now
    await mk().subscribe_async(solo)
    await asyncio.sleep(100)
    exp = [(round(t - t0, 4)) for t in solo.times]
    recs = []
    for i in range(p["n"]):
        r = Rec(rt, p["mode"], f"o{i}")
        recs.append((r, rt.now))
        await obs.subscribe_async(r)
        if p["gap"]:
            await asyncio.sleep(p["gap"])
    await asyncio.sleep(100)
    for r, t in recs:
        rt.expect(same_seq(r.got, solo.got), f"{p}: subscription got {r.got}, alone {solo.got}")
        rt.expect([round(x - t, 4) for x in r.times] == exp, f"{p}: subscription at {t} served at {r.times}, alone at {exp}")
