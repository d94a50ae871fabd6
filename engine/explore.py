"""Inductive verification of a unit.

A unit's execution is cut at quiescent points (all tasks suspended in external
calls, mailboxes, timers).  Quiescent states are grouped into modes by shape; each
mode carries an inductive invariant over its leaves, found as the strongest
conjunction of candidate predicates (Houdini) that every segment arriving in the
mode establishes.  Each segment (one environment event, then run to quiescence) is
executed by CPython from the havocked mode state for every feasible path, and every
obligation recorded on the way is discharged by z3 under path condition + invariant.
"""
import asyncio
import gc
import sys
import time
import traceback

import z3

from . import sym, world as W
from .state import SORT, Snapshot, fork_nones, havoc
from .sym import *


def events_of(unit, world):
    if world.cut is not None:
        def go(w):
            p, w.cut = w.cut, None
            p.fut.set_result(None)
        return [("loop", go)]
    return unit.events(world)


class Step:
    def __init__(self, plan, decs):
        self.plan, self.decs = plan, decs


class Plan:
    def __init__(self, terms, eks):
        self.terms, self.eks, self.cache = terms, eks, None


class Mode:
    def __init__(self, idx, snap, recipe):
        self.idx, self.shape, self.recipe = idx, snap.shape, recipe
        self.leaves = [(p, k) for p, k, t in snap.leaves]
        self.eks = dict(snap.eks)
        self.cands = None
        self.dirty = True
        self.reqs = []
        self.covers = set()
        self.nev = 0
        self.runs = 0

    def consts(self):
        """fresh constants (or fixed constants) for the leaves"""
        out = []
        cst = {}
        for c in self.cands:
            if c.tag and c.tag[0] == "const":
                cst[c.tag[1]] = c.tag[2]
        for i, (p, k) in enumerate(self.leaves):
            n = f"m{self.idx}.{i}:{p}"
            if i in cst:
                out.append(cst[i])
            elif k.startswith("ext:"):
                out.append(Val.VExt(z3.IntVal(KINDS.index(k[4:])), z3.Int(n)))
            else:
                out.append(z3.Const(n, SORT[k]))
        return out


class Cand:
    __slots__ = ("f", "label", "tag", "q")

    def __init__(self, f, label, tag=None, q=None):
        self.f, self.label, self.tag, self.q = f, label, tag, q


QOPS = {"==": lambda a, b: a == b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "+1": lambda a, b: a == b + 1,
        "-1": lambda a, b: b == a + 1, "<": lambda a, b: a < b, ">": lambda a, b: a > b}
QSAME = {"==": True, "<=": True, ">=": True, "+1": False, "-1": False, "<": False, ">": False}


def quick(q, ids, nums):
    """truth of a comparison between leaves where it is evident"""
    op, i, j = q
    if ids[i] == ids[j]:
        return QSAME[op]
    a, b = nums[i], nums[j]
    if a is not None and b is not None:
        return QOPS[op](a, b)
    return None


def is_const(t):
    t = z3.simplify(t)
    return t.eq(VNone) or z3.is_int_value(t) or z3.is_rational_value(t) or t.sort() == SeqV and z3.is_true(z3.simplify(z3.Length(t) == 0))


NOISE = ("_callbacks", "roots", "timers", ".disps", "pend", ".sub", "._index", ".late", "._num", "g.exp")


def gen_cands(entries, sums=True):
    """entries: list of (index, name, kind, term at first arrival, isleaf)"""
    cs = []
    by = {}
    for e in entries:
        if e[4] and is_const(e[3]) and (e[2] == "val" or e[1].endswith(NOISE)):
            ts = z3.simplify(e[3])
            cs.append(Cand(lambda T, i=e[0], ts=ts: T[i] == ts, f"{e[1]} == {ts}", ("const", e[0], ts)))
            continue
        by.setdefault(e[2], []).append(e)

    def add(f, label, tag=None, q=None):
        cs.append(Cand(f, label, tag, q))

    for kind, es in by.items():
        for (i, n, k, t, isl) in es:
            if isl and is_const(t):
                ts = z3.simplify(t)
                add(lambda T, i=i, ts=ts: T[i] == ts, f"{n} == {ts}", ("const", i, ts))
            if kind == "int":
                add(lambda T, i=i: T[i] >= 0, f"{n} >= 0")
                add(lambda T, i=i: T[i] >= 1, f"{n} >= 1")
            if kind == "prop":
                add(lambda T, i=i: T[i], n)
                add(lambda T, i=i: z3.Not(T[i]), f"not {n}")
                continue
            if kind == "real":
                add(lambda T, i=i: T[i] >= 0, f"{n} >= 0")
            if kind == "val" and isl and not (z3.is_app(t) and t.decl().name() == "VExt"):
                add(lambda T, i=i: z3.Not(Val.is_VNone(T[i])), f"{n} is not None", ("class", i))
        for a in range(len(es) if kind != "prop" else 0):
            for b in range(a + 1, len(es)):
                i, n, _, ti, li = es[a]
                j, m, _, tj, lj = es[b]
                if not (li or lj):
                    continue
                add(lambda T, i=i, j=j: T[i] == T[j], f"{n} == {m}", q=("==", i, j))
                if kind == "int" and li and lj and n.rsplit(".", 1)[-1] == m.rsplit(".", 1)[-1] \
                        or kind == "val" and n.endswith(".disp") and m.endswith(".disp"):
                    add(lambda T, i=i, j=j: T[i] != T[j], f"{n} != {m}")
                if kind in ("int", "real"):
                    add(lambda T, i=i, j=j: T[i] <= T[j], f"{n} <= {m}", q=("<=", i, j))
                    add(lambda T, i=i, j=j: T[i] >= T[j], f"{n} >= {m}", q=(">=", i, j))
                if kind == "int":
                    add(lambda T, i=i, j=j: T[i] == T[j] + 1, f"{n} == {m}+1", q=("+1", i, j))
                    add(lambda T, i=i, j=j: T[j] == T[i] + 1, f"{m} == {n}+1", q=("-1", i, j))
                    add(lambda T, i=i, j=j: T[i] < T[j], f"{n} < {m}", q=("<", i, j))
                    add(lambda T, i=i, j=j: T[i] > T[j], f"{n} > {m}", q=(">", i, j))
    ints, seqs, vals = by.get("int", []), by.get("seq", []), by.get("val", [])
    for a in seqs:
        if a[1] == "g.todo":
            for b in seqs:
                if b is not a:
                    add(lambda T, i=a[0], j=b[0]: z3.And(z3.Length(T[j]) > 0, T[i] == z3.Extract(T[j], 1, z3.Length(T[j]) - 1)),
                        f"{a[1]} == {b[1]}[1:]")
    for a in seqs:
        for b in seqs:
            if a[0] != b[0] and b[1].startswith("g."):
                for x in ints:
                    if x[1].startswith("g."):
                        add(lambda T, i=a[0], j=b[0], k=x[0]: z3.And(T[k] >= 0, T[k] <= z3.Length(T[j]), T[i] == z3.Extract(T[j], T[k], z3.Length(T[j]) - T[k])),
                            f"{a[1]} == {b[1]}[{x[1]}:]")
    for s in seqs:
        for x in ints:
            add(lambda T, i=s[0], j=x[0]: z3.Length(T[i]) == T[j], f"len({s[1]}) == {x[1]}")
            add(lambda T, i=s[0], j=x[0]: z3.Length(T[i]) <= T[j], f"len({s[1]}) <= {x[1]}")
            add(lambda T, i=s[0], j=x[0]: z3.Length(T[i]) > T[j], f"len({s[1]}) > {x[1]}")
            add(lambda T, i=s[0], j=x[0]: z3.Length(T[i]) >= T[j], f"len({s[1]}) >= {x[1]}")
        add(lambda T, i=s[0]: z3.Length(T[i]) > 0, f"len({s[1]}) > 0")
        if s[4] and not is_const(s[3]):
            add(lambda T, i=s[0]: T[i] == z3.Empty(SeqV), f"{s[1]} == []")
        add(lambda T, i=s[0]: T[i] == z3.Unit(VNone), f"{s[1]} == [None]", ("none1", s[0]))
        for v in vals:
            add(lambda T, i=s[0], j=v[0]: T[i] == z3.Unit(T[j]), f"{s[1]} == [{v[1]}]")
        for v in vals:
            if z3.is_app(v[3]) and v[3].decl().name() == "VExt":
                add(lambda T, i=s[0], j=v[0]: seqin(T[i], T[j]), f"{v[1]} in {s[1]}")
        for x in ints:
            if x[1].endswith(".idx"):
                for v in vals:
                    add(lambda T, i=s[0], j=x[0], v=v[0]: T[v] == T[i][T[j] - 1], f"{v[1]} == {s[1]}[{x[1]}-1]")
                add(lambda T, i=s[0], j=x[0]: Val.is_VNone(T[i][T[j] - 1]), f"{s[1]}[{x[1]}-1] is None",
                    ("noneidx", s[0], x[0]))
    if sums and len(ints) <= 9:
        for a in range(len(ints)):
            for b in range(a + 1, len(ints)):
                for c in range(len(ints)):
                    if c in (a, b):
                        continue
                    i, j, k = ints[a][0], ints[b][0], ints[c][0]
                    add(lambda T, i=i, j=j, k=k: T[i] + T[j] == T[k], f"{ints[a][1]} + {ints[b][1]} == {ints[c][1]}")
    reals = by.get("real", [])
    if len(reals) <= 14:
        for a in range(len(reals)):
            for b in range(len(reals)):
                for c in range(len(reals)):
                    if a == b or c in (a, b) or not reals[c][1].startswith("$"):
                        continue
                    i, j, k = reals[a][0], reals[b][0], reals[c][0]
                    add(lambda T, i=i, j=j, k=k: T[i] == T[j] + T[k], f"{reals[a][1]} == {reals[b][1]} + {reals[c][1]}")
                    add(lambda T, i=i, j=j, k=k: T[i] <= T[j] + T[k], f"{reals[a][1]} <= {reals[b][1]} + {reals[c][1]}")
    return cs


def filter_cands(cands, pc, terms, timeout=3000):
    """those candidates implied by pc on the given leaf terms"""
    items = []
    ids = [t.get_id() for t in terms]
    nums = [t.as_long() if z3.is_int_value(t) else t.as_fraction() if z3.is_rational_value(t) else None for t in terms]
    for c in cands:
        if c.q is not None:
            x = quick(c.q, ids, nums)
            if x is True:
                items.append((c, None))
                continue
            if x is False:
                continue
        if c.tag and c.tag[0] == "const" and terms[c.tag[1]].eq(c.tag[2]):
            items.append((c, None))
            continue
        t = z3.simplify(c.f(terms))
        if z3.is_true(t):
            items.append((c, None))
        elif z3.is_false(t):
            continue
        else:
            items.append((c, t))
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*pc)
    live = [x for x in items if x[1] is not None]
    while live:
        s.push()
        s.add(z3.Or([z3.Not(t) for c, t in live]))
        r = sym._timed(s)
        if r == z3.unsat:
            s.pop()
            break
        if r == z3.sat:
            m = s.model()
            keep = [(c, t) for c, t in live if not z3.is_false(m.eval(t, model_completion=True))]
            s.pop()
            if len(keep) == len(live):
                # model evaluation inconclusive: decide one by one
                keep = []
                for c, t in live:
                    s.push()
                    s.add(z3.Not(t))
                    if sym._timed(s) == z3.unsat:
                        keep.append((c, t))
                    s.pop()
                live = keep
                break
            live = keep
            continue
        s.pop()
        keep = []
        s.set("timeout", 700)
        for c, t in live:
            s.push()
            s.add(z3.Not(t))
            if sym._timed(s) == z3.unsat:
                keep.append((c, t))
            s.pop()
        live = keep
        break
    ok = {id(c) for c, t in live} | {id(c) for c, t in items if t is None}
    return [c for c in cands if id(c) in ok]


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = None          # proved | refuted | unproved | unsupported
        self.why = ""
        self.modes = 0
        self.paths = 0
        self.obligations = 0
        self.failed = []
        self.invariants = []
        self.covers = set()
        self.funcs = set()
        self.wall = 0.0
        self.checks = 0
        self.solver_s = 0.0
        self.maxsteps = 0
        self.bounded = None
        self.labels = {}
        self.missing = []


class Explorer:
    MAXMODES = 2500
    MAXPATHS = 400

    def __init__(self, unit, deadline=None, verbose=False):
        self.unit = unit
        self.modes = {}
        self.order = []
        self.paths = 0
        self.funcs = set()
        self.deadline = deadline
        self.verbose = verbose
        self.init_reqs = []
        self.covers = set()

    # -- one path
    def execute(self, recipe, plan, seg, blind_only=False):
        """replay the recipe, generalise per plan, then run one segment with decisions `seg`"""
        self.paths += 1
        if self.paths % 40 == 0:
            gc.collect()
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time limit of the unit")
        path = Path()
        world = W.World(self.unit, path)
        self.unit.init(world)
        base = list(self.unit.assumptions())
        for t in base:
            path.assume(t)
        hooks = sys.unraisablehook
        try:
            for n, st in enumerate(recipe):
                self.one(world, path, st.plan, st.decs, n == 0, True)
            final = self.one(world, path, plan, seg, not recipe, False)
            return world, path, final
        finally:
            self.cleanup(world)

    def cleanup(self, world):
        asyncio._set_running_loop(None)
        try:
            for t in list(world.calls.values()):
                t._log_destroy_pending = False
        except Exception:
            pass

    def one(self, world, path, plan, decs, first, replay):
        world.replaying = path.replay = replay
        world.proving = True
        path.spins = 0
        path.taken = []
        path.prefix = list(decs)
        path.alts = []
        if plan is not None:
            world.trace.clear()
            world.reqs.clear()
            if replay:
                path.reset_pc([])
                havoc(world, plan.terms, plan.eks, True)
            else:
                havoc(world, plan.terms, plan.eks)
                if plan.cache is None:
                    self.check_havoc(world, plan)
                    inv = plan.inv(self.all_terms(world, plan.terms))
                    inv = [t for t in list(self.unit.assumptions()) + inv if not z3.is_true(t)]
                    plan.cache = [z3.And(inv)] if inv else []
                path.reset_pc(plan.cache)
                fork_nones(world)
        if first:
            world.note("-- setup")
            self.unit.setup(world)
        else:
            evs = events_of(self.unit, world)
            if not evs:
                return None
            k = path.choose(len(evs), "event")
            world.evk = k
            world.note("-- event", evs[k][0])
            self.unit.before_event(world, evs[k][0])
            world.eager = True
            evs[k][1](world)
            world.eager = False
        world.drain()
        self.unit.quiet(world)
        if path.abort is not None:
            raise path.abort
        if path.suspect is not None and not replay and not isinstance(path.suspect, self.unit.expects):
            raise Unsupported(f"{type(path.suspect).__name__}: {path.suspect}"[:200])
        return None if replay else Snapshot(world)

    def check_havoc(self, world, plan):
        """the generalised state is exactly the mode: same shape, every leaf the mode's constant"""
        s = Snapshot(world)
        if s.shape != plan.shape:
            raise Unsupported("generalisation changed the shape")
        for (p, k, t), u in zip(s.leaves, plan.terms):
            if not t.eq(z3.simplify(u)):
                raise Unsupported(f"generalisation of {p}: {t} instead of {u}"[:300])

    def shorten(self, m, recipe, evk):
        """a replay of the last step without generalisation, if one reaches the same shape (cheaper)"""
        todo = [[evk]]
        for _ in range(10):
            if not todo:
                break
            seg = todo.pop(0)
            p0 = self.unit.cur_world
            try:
                wld, pth, snap = self.execute(recipe[:-1], None, seg)
            except PathEnd:
                todo.extend(Cur.path.alts)
                continue
            except Unsupported:
                break
            todo.extend(pth.alts)
            if snap is not None and snap.shape == m.shape:
                m.recipe = recipe[:-1] + [Step(None, list(pth.taken))]
                break

    def all_terms(self, world, leafterms):
        return list(leafterms) + [t for _, _, t in self.unit.params()] + [t for _, _, t in self.unit.terms(world)]

    def entries(self, snap, world):
        es = []
        for i, (p, k, t) in enumerate(snap.leaves):
            es.append((i, p, "val" if k.startswith("ext:") else k, t, True))
        n = len(es)
        for p, k, t in self.unit.params():
            es.append((n, "$" + p, k, t, False))
            n += 1
        for p, k, t in self.unit.terms(world):
            es.append((n, "#" + p, k, t, False))
            n += 1
        return es

    # -- exploring one mode
    def explore(self, mode):
        recipe = mode.recipe if mode else []
        plan = None
        if mode:
            cs = mode.consts()
            plan = Plan(cs, dict(mode.eks))
            plan.shape = mode.shape
            cands = list(mode.cands)
            errs = [(i, p.endswith("!w")) for i, (p, k) in enumerate(mode.leaves) if k == "ext:error"]
            plan.inv = lambda T: [z3.simplify(c.f(T)) for c in cands] + \
                [sym.WideE(z3.simplify(Val.ve(T[i]))) == w for i, w in errs]
        todo = [[]]
        reqs = []
        n = 0
        covers = set()
        while todo:
            seg = todo.pop()
            n += 1
            if n > (self.MAXPATHS if not self.unit.fine else 20000):
                raise Unsupported(f"too many paths in mode {mode.idx if mode else 'init'}")
            wld = pth = None
            try:
                wld, pth, snap = self.execute(recipe, plan, seg)
            except PathEnd:
                p = Cur.path
                todo.extend(p.alts)
                reqs.extend(self.curworld_reqs())
                continue
            todo.extend(pth.alts)
            reqs.extend(wld.reqs)
            covers |= wld.covers
            if snap is None:
                continue
            if not pth.sat():
                continue
            self.funcs |= snap.funcs
            rec = list(recipe) + [Step(plan, list(pth.taken))]
            new = self.arrive(snap, wld, pth, rec)
            if new is not None and mode is not None:
                self.shorten(new, rec, wld.evk)
            if self.verbose > 1:
                print("   ", pth.taken, wld.trace[-8:])
        if mode:
            mode.reqs = reqs
            mode.covers = covers
            mode.runs += 1
        else:
            self.init_reqs = reqs
            self.covers |= covers

    def curworld_reqs(self):
        w = self.unit.cur_world
        return list(w.reqs) if w is not None else []

    def arrive(self, snap, wld, pth, recipe):
        terms = [t for _, _, t in snap.leaves]
        T = self.all_terms(wld, terms)
        m = self.modes.get(snap.shape)
        if m is None:
            if len(self.modes) >= self.MAXMODES:
                raise Unsupported("too many modes")
            m = Mode(len(self.modes), snap, recipe)
            self.modes[snap.shape] = m
            self.order.append(m)
            m.cands = filter_cands(gen_cands(self.entries(snap, wld), self.unit.sums), pth.pc, T)
            m.dirty = True
            if self.verbose:
                print(f"  mode {m.idx} via {wld.trace[:6]} leaves {[(p, k) for p, k in m.leaves]}"[:1500])
            return m
        for i, k in snap.eks.items():
            if join(m.eks[i], k) != m.eks[i]:
                m.eks[i] = join(m.eks[i], k)
                m.dirty = True
        nc = filter_cands(m.cands, pth.pc, T)
        ok = {id(c) for c in nc}
        D = [c.tag[1] for c in m.cands if id(c) not in ok and c.tag and c.tag[0] == "const" and c.tag[2].eq(VNone)]
        if D:
            new = []
            nm = [p for p, k in m.leaves]
            for x, i in enumerate(D):
                for j in D[x + 1:]:
                    new.append(Cand(lambda T, i=i, j=j: T[i] == T[j], f"{nm[i]} == {nm[j]}"))
                for c in m.cands:
                    if c.tag and c.tag[0] == "none1":
                        new.append(Cand(lambda T, i=c.tag[1], j=i: T[i] == z3.Unit(T[j]), f"{nm[c.tag[1]]} == [{nm[i]}]"))
                    if c.tag and c.tag[0] == "noneidx":
                        new.append(Cand(lambda T, i=c.tag[1], k=c.tag[2], j=i: T[j] == T[i][T[k] - 1],
                                        f"{nm[i]} == {nm[c.tag[1]]}[{c.label}]"))
            nc = nc + filter_cands(new, pth.pc, T)
            m.dirty = True
        if D or len(nc) != len(m.cands):
            if self.verbose > 1:
                ok = {id(c) for c in nc}
                print(f"  mode {m.idx} drops", [c.label for c in m.cands if id(c) not in ok][:12], "after", wld.trace[:5])
            m.cands = nc
            m.dirty = True

    def run(self):
        r = Result(self.unit)
        gc.collect()
        gc.freeze()
        gc.disable()
        t0, c0, s0 = time.time(), sym.Stats.checks, sym.Stats.time
        try:
            self.explore(None)
            while True:
                d = [m for m in self.order if m.dirty]
                if not d:
                    break
                m = d[0]
                m.dirty = False
                self.explore(m)
            self.decide(r)
        except Unsupported as e:
            r.status, r.why = "unsupported", str(e)
            if self.verbose:
                traceback.print_exc()
        except RecursionError as e:
            r.status, r.why = "unsupported", "recursion"
        except z3.Z3Exception as e:
            r.status, r.why = "unsupported", f"z3: {e}"
            if self.verbose:
                traceback.print_exc()
        r.modes, r.paths = len(self.modes), self.paths
        r.funcs = self.funcs
        r.wall = time.time() - t0
        r.checks, r.solver_s = sym.Stats.checks - c0, sym.Stats.time - s0
        return r

    def decide(self, r):
        reqs = list(self.init_reqs)
        cov = set(self.covers)
        for m in self.order:
            reqs.extend(m.reqs)
            cov |= m.covers
        r.covers = cov
        r.labels = {}
        for q in reqs:
            r.obligations += 1
            r.labels[q.label] = r.labels.get(q.label, 0) + 1
            t = z3.simplify(q.cond)
            if z3.is_true(t):
                continue
            s = z3.Solver()
            s.set("timeout", 8000)
            s.add(*q.pc)
            s.add(z3.Not(t))
            x = sym._timed(s)
            if x != z3.unsat:
                r.failed.append((q.label, "counterexample" if x == z3.sat else "unknown", q.trace,
                                 str(s.model())[:800] if x == z3.sat else ""))
        r.missing = missing = [c for c in self.unit.must_cover if c not in cov]
        r.invariants = [(m.idx, [c.label for c in m.cands if not c.tag or c.tag[0] != "class"][:60]) for m in self.order]
        if r.failed:
            r.status = "unproved"
            r.why = "; ".join(sorted({f"{l} ({k})" for l, k, _, _ in r.failed}))
        elif missing:
            r.status, r.why = "unproved", f"vacuous: not reached {missing}"
        elif r.obligations == 0:
            r.status, r.why = "unproved", "no obligations"
        else:
            r.status = "proved"


# ---------------------------------------------------------------- bounded search from the initial state
def search_all(unit, deadline):
    """Symbolic execution from the initial state with a growing number of environment events, no generalisation.
    Every reported failure is a feasible path of the real code with a model of its symbolic values."""
    fails, paths, d, complete = {}, 0, 0, True
    for depth in (2, 3, 4, 5, 6, 7, 8, 10, 12):
        f, n, complete, more = search(unit, depth, deadline)
        paths += n
        for x in f:
            fails.setdefault(x["label"], x)
        if complete:
            d = depth
        if not complete or not more or fails and depth >= 5:
            break
    return {"failures": list(fails.values())[:8], "paths": paths, "depth": d, "complete": complete}


def play(unit, world, path, depth):
    """setup, then up to `depth` environment events; tells whether more events were possible"""
    unit.init(world)
    for t in unit.assumptions():
        path.assume(t)
    world.note("-- setup")
    path.spins = 0
    unit.setup(world)
    world.drain()
    unit.quiet(world)
    for i in range(depth):
        evs = events_of(unit, world)
        if not evs:
            return False
        k = path.choose(len(evs), "event")
        world.note("-- event", evs[k][0])
        path.spins = 0
        unit.before_event(world, evs[k][0])
        world.eager = True
        evs[k][1](world)
        world.eager = False
        world.drain()
        unit.quiet(world)
    return True


def confirm(unit, depth, choices, model, label):
    """the same history on the concrete values of the model: does the obligation fail there too?"""
    if not unit.replayable:
        return unit.replay(model, choices)
    path = Path(choices)
    sym.Replay.model = model
    try:
        world = W.World(unit, path)
        try:
            play(unit, world, path, depth)
        except (PathEnd, Unsupported, sym.Diverged):
            pass
        except Exception:
            return None
        finally:
            asyncio._set_running_loop(None)
        for q in world.reqs:
            if q.label == label and not z3.is_true(sym.ev(q.cond)):
                return q.trace
    finally:
        sym.Replay.model = None
    return None


def search(unit, depth, deadline, maxpaths=20000):
    todo = [[]]
    n = 0
    fails = {}
    tries = {}
    more = False
    gc.enable()
    while todo:
        if time.time() > deadline or n > maxpaths:
            return list(fails.values()), n, False, more
        seg = todo.pop()
        n += 1
        path = Path(seg)
        world = W.World(unit, path)
        try:
            more = play(unit, world, path, depth) or more
        except PathEnd:
            pass
        except Unsupported:
            more = True
        finally:
            asyncio._set_running_loop(None)
        todo.extend(path.alts)
        for q in world.reqs:
            if q.label in fails or tries.get(q.label, 0) > 12:
                continue
            t = z3.simplify(q.cond)
            if z3.is_true(t):
                continue
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(*q.pc)
            s.add(z3.Not(t))
            if sym._timed(s) == z3.sat:
                tries[q.label] = tries.get(q.label, 0) + 1
                m = s.model()
                text = str(m)[:1500]
                tr = confirm(unit, depth, path.choices, m, q.label)
                if tr is not None:
                    fails[q.label] = {"label": q.label, "trace": tr, "model": text}
    return list(fails.values()), n, True, more
