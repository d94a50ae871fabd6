"""Symbolic values and path conditions.

The code under verification is executed by CPython itself; the values it handles
are the proxies defined here.  A proxy records a z3 term; a branch on a proxy
consults the current `Path`, which forks the exploration (by re-execution with a
recorded decision prefix) whenever both outcomes are possible.
"""
import asyncio
import collections.abc
import operator
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 7)
z3.set_param("sat.random_seed", 7)

_d = z3.Datatype("Val")
_d.declare("VNone")
_d.declare("VBool", ("vb", z3.BoolSort()))
_d.declare("VInt", ("vi", z3.IntSort()))
_d.declare("VOpq", ("vo", z3.IntSort()))       # any other Python value
_d.declare("VExt", ("vk", z3.IntSort()), ("ve", z3.IntSort()))   # environment object (kind, identity)
_d.declare("VPair", ("va", _d), ("vc", _d))
_d.declare("VNote", ("nk", z3.IntSort()), ("nv", _d))            # notification (kind, content)
_d.declare("VTime", ("vt", z3.RealSort()))                       # point in time
Val = _d.create()
SeqV = z3.SeqSort(Val)
VNone = Val.VNone
EqV = z3.Function("EqV", Val, Val, z3.BoolSort())     # the == of user values
TruthV = z3.Function("TruthV", Val, z3.BoolSort())    # truthiness of user values

InU = z3.Function("InU", SeqV, Val, z3.BoolSort())    # membership (by identity) in a sequence
RemU = z3.Function("RemU", SeqV, Val, SeqV)           # the sequence without its first occurrence of an element


def seqin(s, v):
    """membership, unfolded over the structure of the sequence term"""
    s = z3.simplify(s)
    if z3.is_app(s):
        k = s.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY:
            return z3.BoolVal(False)
        if k == z3.Z3_OP_SEQ_UNIT:
            return s.arg(0) == v
        if k == z3.Z3_OP_SEQ_CONCAT:
            return z3.Or([seqin(s.arg(i), v) for i in range(s.num_args())])
        if s.decl().name() == "RemU":
            return z3.If(s.arg(1) == v, InU(s, v), seqin(s.arg(0), v))
    return z3.And(z3.Length(s) > 0, InU(s, v))



def units_of(s):
    """the elements of a sequence term of evident length, or None"""
    k = s.decl().kind() if z3.is_app(s) else None
    if k == z3.Z3_OP_SEQ_EMPTY:
        return []
    if k == z3.Z3_OP_SEQ_UNIT:
        return [s.arg(0)]
    if k == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for i in range(s.num_args()):
            x = units_of(s.arg(i))
            if x is None:
                return None
            out += x
        return out
    return None


KINDS = ["observer", "observable", "disposable", "error", "fn", "future", "obj"]


class Unsupported(BaseException):
    """Outside the verifier's reach: never a verdict."""


class PathEnd(BaseException):
    """This path is infeasible or deliberately cut."""


class Cur:
    path = None


class Stats:
    checks = 0
    time = 0.0
    unknown = 0


def _timed(s, *a):
    import time
    t = time.time()
    r = s.check(*a)
    Stats.time += time.time() - t
    Stats.checks += 1
    if r == z3.unknown:
        Stats.unknown += 1
    return r


class Replay:
    """While a model is set, every symbolic value is created as the concrete Python value the model
    gives it: the code under verification then runs on ordinary ints, lists and deques."""
    model = None


def ev(t):
    return z3.simplify(Replay.model.eval(t, model_completion=True))


class Diverged(BaseException):
    """the concrete replay left the recorded history"""


class Path:
    """One execution; `prefix` forces its first decisions."""

    TIMEOUT = 4000

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []          # decision prefixes still to explore
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.TIMEOUT)
        self.n = 0
        self.abort = None
        self.suspect = None
        self.blind = len(self.prefix)    # decisions below this index are replayed without solver
        self.notes = []
        self.replay = False
        self.choices = []
        self.spins = 0          # iterations of loops within the current segment

    # -- constraints
    def assume(self, t):
        if self.replay:
            return
        if Replay.model is not None and not isinstance(t, bool):
            t = z3.is_true(ev(t))
        if isinstance(t, bool):
            if not t:
                raise self.stop(PathEnd("assume false"))
            return
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise self.stop(PathEnd("assume false"))
        self.pc.append(t)
        self.solver.add(t)

    def reset_pc(self, terms):
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.TIMEOUT)
        for t in terms:
            self.pc.append(t)
            self.solver.add(t)

    def stop(self, exc):
        self.abort = exc
        return exc

    def sat(self, *extra):
        if Replay.model is not None:
            return all(z3.is_true(ev(t)) for t in extra)
        return _timed(self.solver, *extra) != z3.unsat

    # -- decisions
    def choose(self, n, label=""):
        i = len(self.taken)
        if Replay.model is not None:
            if i >= len(self.prefix) or self.prefix[i][1:] != (n, label):
                raise self.stop(Diverged(label))
            d = self.prefix[i][0]
            self.taken.append(d)
            return d
        if i < len(self.prefix):
            d = self.prefix[i]
            if not (isinstance(d, int) and not isinstance(d, bool)) or d >= n:
                raise self.stop(Unsupported(f"replay diverged at {label}"))
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.taken + [k])
        self.taken.append(d)
        self.choices.append((d, n, label))
        return d

    def branch(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if Replay.model is not None:
            return z3.is_true(ev(t))
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            if not isinstance(d, bool):
                raise self.stop(Unsupported("replay diverged at a branch"))
        else:
            ft = self.sat(t)
            ff = self.sat(z3.Not(t)) if ft else True
            if ft and ff:
                self.alts.append(self.taken + [False])
                d = True
            else:
                d = ft
        self.taken.append(d)
        if self.replay:
            return d
        c = t if d else z3.Not(t)
        self.pc.append(c)
        self.solver.add(c)
        return d

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const(f"{name}!{self.n}", sort)

    def spin(self, symbolic):
        """called per loop iteration: a loop that does not end on its own is outside the verifier's reach"""
        self.spins += 10 if symbolic else 1
        if self.spins > 600:
            raise self.stop(Unsupported("a loop over data of symbolic length without a cut point"))


def P():
    return Cur.path


# ---------------------------------------------------------------- scalars
class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{self.t}>"

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __hash__(self):
        raise Cur.path.stop(Unsupported("hash of a symbolic value"))

    def __reduce__(self):
        return (type(self), (self.t,))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkint(t):
    t = z3.simplify(t)
    if Replay.model is not None:
        t = ev(t)
    return t.as_long() if z3.is_int_value(t) else SymInt(t)


def mkbool(t):
    t = z3.simplify(t)
    if Replay.model is not None:
        return z3.is_true(ev(t))
    return True if z3.is_true(t) else False if z3.is_false(t) else SymBool(t)


def mkreal(t):
    return SymReal(z3.simplify(t))


def isnum(v):
    return isinstance(v, (int, float, Fraction, SymInt, SymReal, SymBool))


def numterm(v):
    if isinstance(v, (SymInt, SymReal)):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Cur.path.stop(Unsupported("non-finite float"))
        return z3.RealVal(repr(v))
    if isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    return None


def pairterm(a, b):
    x, y = numterm(a), numterm(b)
    if x is None or y is None:
        return None, None
    if x.sort() != y.sort():
        x, y = [z3.ToReal(q) if q.sort() == z3.IntSort() else q for q in (x, y)]
    return x, y


def mknum(t):
    return mkint(t) if t.sort() == z3.IntSort() else mkreal(t)


class SymNum(Sym):
    __slots__ = ()

    def _cmp(self, o, f):
        x, y = pairterm(self, o)
        if x is None:
            return NotImplemented
        return mkbool(f(x, y))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        if isinstance(o, Opq):
            return eqv(box(self), o.t)
        x, y = pairterm(self, o)
        if x is None:
            return False
        return mkbool(x == y)

    def __ne__(self, o):
        return vnot(self.__eq__(o))

    __hash__ = Sym.__hash__

    def _ar(self, o, f, rev=False):
        x, y = pairterm(self, o)
        if x is None:
            return NotImplemented
        if rev:
            x, y = y, x
        return mknum(f(x, y))

    def __add__(self, o):
        return self._ar(o, operator.add)

    def __radd__(self, o):
        return self._ar(o, operator.add, True)

    def __sub__(self, o):
        return self._ar(o, operator.sub)

    def __rsub__(self, o):
        return self._ar(o, operator.sub, True)

    def __mul__(self, o):
        return self._ar(o, operator.mul)

    def __rmul__(self, o):
        return self._ar(o, operator.mul, True)

    def __neg__(self):
        return mknum(-numterm(self))

    def __pos__(self):
        return self

    def __abs__(self):
        t = numterm(self)
        return self if Cur.path.branch(t >= 0) else mknum(-t)

    def _div(self, a, b, op):
        x, y = pairterm(a, b)
        if x is None:
            return NotImplemented
        if Cur.path.branch(y == 0):
            raise ZeroDivisionError
        if op == "/":
            return mkreal((z3.ToReal(x) if x.sort() == z3.IntSort() else x) /
                          (z3.ToReal(y) if y.sort() == z3.IntSort() else y))
        if x.sort() != z3.IntSort():
            raise Cur.path.stop(Unsupported("real division with remainder"))
        if Cur.path.branch(y > 0):
            q, r = x / y, x % y
        else:
            q, r = (-x) / (-y), -((-x) % (-y))
        return mkint(q if op == "//" else r)

    def __truediv__(self, o):
        return self._div(self, o, "/")

    def __rtruediv__(self, o):
        return self._div(o, self, "/")

    def __floordiv__(self, o):
        return self._div(self, o, "//")

    def __rfloordiv__(self, o):
        return self._div(o, self, "//")

    def __mod__(self, o):
        return self._div(self, o, "%")

    def __rmod__(self, o):
        return self._div(o, self, "%")

    def __divmod__(self, o):
        return (self // o, self % o)

    def __bool__(self):
        return Cur.path.branch(numterm(self) != 0)


class SymInt(SymNum):
    __slots__ = ()

    def __new__(cls, t):
        if Replay.model is not None:
            return ev(t).as_long()
        return object.__new__(cls)

    def __index__(self):
        return concretise(self)

    def __int__(self):
        return concretise(self)

    def __float__(self):
        raise Cur.path.stop(Unsupported("float() of a symbolic number"))

    def __round__(self, n=None):
        if n is not None and n < 0:
            raise Cur.path.stop(Unsupported("round() to tens"))
        return self

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__


class SymReal(SymNum):
    __slots__ = ()

    def __floor__(self):
        return mkint(z3.ToInt(self.t))

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.t))

    def __trunc__(self):
        return self.__floor__() if Cur.path.branch(self.t >= 0) else self.__ceil__()

    __int__ = __trunc__

    def __round__(self, n=None):
        """to the nearest; a tie goes to the even neighbour"""
        k = 10 ** (n or 0) if (n or 0) >= 0 else None
        if k is None:
            raise Cur.path.stop(Unsupported("round() to tens"))
        x = self.t * k
        f = z3.ToInt(x)
        d = x - z3.ToReal(f)
        r = z3.If(2 * d < 1, f, z3.If(2 * d > 1, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return mkint(r) if n is None else mkreal(z3.ToReal(r) / k)

    def __new__(cls, t):
        if Replay.model is not None:
            return ev(t).as_fraction()
        return object.__new__(cls)

    def __float__(self):
        raise Cur.path.stop(Unsupported("float() of a symbolic number"))


class SymBool(SymNum):
    __slots__ = ()

    def __bool__(self):
        return Cur.path.branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, boolterm(o)))

    def __or__(self, o):
        return mkbool(z3.Or(self.t, boolterm(o)))

    __rand__ = __and__
    __ror__ = __or__

    def __index__(self):
        return int(Cur.path.branch(self.t))

    __int__ = __index__


CONCRETE = {"max": None}      # when set, an integer may be concretised up to this bound (bounded exploration)


def concretise(v):
    t = z3.simplify(v.t)
    if z3.is_int_value(t):
        return t.as_long()
    p = Cur.path
    s = p.solver
    # determined by the path condition?
    if _timed(s) == z3.sat:
        c = s.model().eval(t, model_completion=True)
        if z3.is_int_value(c) and _timed(s, t != c) == z3.unsat:
            return c.as_long()
    if CONCRETE["max"] is None:
        raise p.stop(Unsupported("a symbolic integer is needed as a concrete one"))
    k = CONCRETE["max"]
    p.notes.append("concretised")
    for c in range(0, k + 1):
        if p.branch(t == c):
            return c
    for c in range(-1, -k - 1, -1):
        if p.branch(t == c):
            return c
    raise p.stop(PathEnd("beyond the concretisation bound"))


def boolterm(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, (SymInt, SymReal)):
        return v.t != 0
    if isinstance(v, z3.BoolRef):
        return v
    return z3.BoolVal(bool(v))


def vnot(v):
    if isinstance(v, SymBool):
        return mkbool(z3.Not(v.t))
    return not v


# ---------------------------------------------------------------- opaque user values
def eqv(a, b):
    """user-level equality of two Val terms: reflexive and symmetric, otherwise unconstrained"""
    a, b = z3.simplify(a), z3.simplify(b)
    if a.eq(b):
        return True
    if a.get_id() > b.get_id():
        a, b = b, a
    conc = lambda t: z3.is_app(t) and t.decl().name() in ("VNone", "VBool", "VInt") and (
        t.num_args() == 0 or z3.is_int_value(t.arg(0)) or z3.is_true(t.arg(0)) or z3.is_false(t.arg(0)))
    if conc(a) and conc(b):
        def val(t):
            n = t.decl().name()
            if n == "VNone":
                return None
            if n == "VInt":
                return t.arg(0).as_long()
            return z3.is_true(t.arg(0))
        return val(a) == val(b)
    p = Cur.path
    e = EqV(a, b)
    if Replay.model is not None:
        return z3.is_true(ev(e))
    p.assume(EqV(a, b) == EqV(b, a))
    p.assume(z3.Implies(a == b, e))
    for x, y in ((a, b), (b, a)):
        if conc(y) and y.decl().name() == "VInt":
            p.assume(z3.Implies(z3.Or(Val.is_VInt(x)), e == (x == y)))
    return mkbool(e)


class Opq(Sym):
    """an arbitrary user value other than None (its z3 term may still be any Val but VNone)"""
    __slots__ = ()

    def __init__(self, t):
        self.t = ev(t) if Replay.model is not None else t

    def __eq__(self, o):
        if o is self:
            return True
        try:
            b = box(o)
        except Unsupported:
            Cur.path.abort = None
            return False
        return eqv(self.t, b)

    def __ne__(self, o):
        return vnot(self.__eq__(o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        return Cur.path.branch(TruthV(self.t))

    def __iter__(self):
        # a user value used as a pair (starmap and friends)
        if Cur.path.branch(Val.is_VPair(self.t)):
            return iter((unbox(Val.va(self.t)), unbox(Val.vc(self.t))))
        raise Cur.path.stop(Unsupported("iterating an opaque value"))

    def __getitem__(self, k):
        if k in (0, 1) and Cur.path.branch(Val.is_VPair(self.t)):
            return unbox((Val.va, Val.vc)[k](self.t))
        raise Cur.path.stop(Unsupported("indexing an opaque value"))


class ExtError(Exception):
    """an exception supplied by the environment, identified by a number"""

    def __init__(self, ident=None):
        super().__init__("ext")
        self.ident = ident

    def __repr__(self):
        return f"<error {self.ident}>"


class WideError(ExtError, TimeoutError, ConnectionError, ValueError, KeyError, IndexError, ZeroDivisionError,
                AssertionError, NotImplementedError, asyncio.InvalidStateError):
    """an environment exception that is an instance of many classes: whatever class a clause of the code
    names, it is tried with exceptions that are and exceptions that are not of that class"""

    def __init__(self, ident=None):
        TimeoutError.__init__(self, "ext")
        self.ident = ident

    __str__ = __repr__ = ExtError.__repr__


WideE = z3.Function("WideE", z3.IntSort(), z3.BoolSort())      # identities of the wide errors


class Boxable:
    """mixin of environment objects: box() gives VExt(kind, ident)"""
    vkind = "obj"


BOXERS = []       # (predicate, boxer)
UNBOXERS = {}     # kind -> fn(ident term) -> object


def box(v):
    if v is None:
        return VNone
    if isinstance(v, Opq):
        return v.t
    if isinstance(v, SymInt):
        return Val.VInt(v.t)
    if isinstance(v, SymBool):
        return Val.VBool(v.t)
    if isinstance(v, bool):
        return Val.VBool(z3.BoolVal(v))
    if isinstance(v, int):
        return Val.VInt(z3.IntVal(v))
    if isinstance(v, ExtError):
        return Val.VExt(z3.IntVal(KINDS.index("error")), numterm(v.ident))
    if isinstance(v, Boxable) and getattr(v, "ident", None) is not None:
        return Val.VExt(z3.IntVal(KINDS.index(v.vkind)), numterm(v.ident))
    if type(v) is tuple and len(v) == 2:
        return Val.VPair(box(v[0]), box(v[1]))
    if isinstance(v, SymReal):
        return Val.VTime(v.t)
    if type(v) in (float, Fraction):
        return Val.VTime(numterm(v))
    for f in BOXERS:
        r = f(v)
        if r is not None:
            return r
    raise Cur.path.stop(Unsupported(f"no encoding for {type(v).__name__}"))


def boxable(v):
    try:
        box(v)
        return True
    except Unsupported:
        Cur.path.abort = None
        return False


def unbox(t, kind=None):
    """the Python object for a Val term (forks when the term may be None)"""
    t = z3.simplify(t)
    if z3.is_app(t):
        n = t.decl().name()
        if n == "VNone":
            return None
        if n == "VInt":
            return mkint(t.arg(0))
        if n == "VBool":
            return mkbool(t.arg(0))
        if n == "VPair":
            k = kind if type(kind) is tuple else (None, None, None)
            return (unbox(t.arg(0), k[1]), unbox(t.arg(1), k[2]))
        if n == "VTime":
            return mkreal(t.arg(0)) if kind != "time" else UNBOXERS["time"](mkreal(t.arg(0)))
        if n == "VExt" and z3.is_int_value(t.arg(0)):
            return unext(KINDS[t.arg(0).as_long()], t.arg(1))
        if n == "VNote" and "note" in UNBOXERS:
            return UNBOXERS["note"](t)
    p = Cur.path
    if kind == "next":
        p.assume(Val.nk(t) == 0)
    if kind in ("note", "next"):
        return UNBOXERS["note"](t)
    if kind in ("mixed", "empty"):
        raise p.stop(Unsupported("element of a heterogeneous sequence"))
    if kind == "int":
        p.assume(Val.is_VInt(t))
        return mkint(Val.vi(t))
    if kind in ("real", "time"):
        p.assume(Val.is_VTime(t))
        return mkreal(Val.vt(t)) if kind == "real" else UNBOXERS["time"](mkreal(Val.vt(t)))
    if type(kind) is tuple:
        p.assume(Val.is_VPair(t))
        return (unbox(Val.va(t), kind[1]), unbox(Val.vc(t), kind[2]))
    if kind is not None:
        p.assume(t == Val.VExt(z3.IntVal(KINDS.index(kind)), Val.ve(t)))
        return unext(kind, z3.simplify(Val.ve(t)))
    if p.branch(t == VNone):
        return None
    return Opq(t)


def unext(kind, ident):
    if kind == "error":
        return (WideError if Cur.path.branch(WideE(ident if isinstance(ident, z3.ExprRef) else numterm(ident))) else ExtError)(mkint(ident))
    f = UNBOXERS.get(kind)
    if f is None:
        raise Cur.path.stop(Unsupported(f"no environment object of kind {kind}"))
    return f(mkint(ident))


# ---------------------------------------------------------------- sequences
class SymList:
    """a list / deque / tuple of symbolic length"""

    def __init__(self, seq, ek="empty", kind="list", maxlen=None):
        self.seq = seq
        self.ek = ek             # kind of the elements, see kind_of
        self.kind = kind
        self.maxlen = maxlen

    def _len(self):
        return mkint(z3.Length(self.seq))

    def __len__(self):
        return concretise_len(self)

    def __bool__(self):
        return Cur.path.branch(z3.Length(self.seq) > 0)

    def _box(self, v):
        b = box(v)
        self.ek = join(self.ek, kind_of(v))
        return b

    def _trim(self, left):
        if self.maxlen is not None:
            n = z3.Length(self.seq)
            m = numterm(self.maxlen)
            if Cur.path.branch(n > m):
                self.seq = z3.simplify(z3.Extract(self.seq, n - m, m) if left else z3.Extract(self.seq, 0, m))

    def append(self, v):
        self.seq = z3.simplify(z3.Concat(self.seq, z3.Unit(self._box(v))))
        self._trim(True)

    def appendleft(self, v):
        self.seq = z3.simplify(z3.Concat(z3.Unit(self._box(v)), self.seq))
        self._trim(False)

    def extend(self, xs):
        if isinstance(xs, SymList):
            self.seq = z3.simplify(z3.Concat(self.seq, xs.seq))
            self.ek = join(self.ek, xs.ek)
            self._trim(True)
        else:
            for x in xs:
                self.append(x)

    def _idx(self, k):
        n = z3.Length(self.seq)
        t = numterm(k)
        if t is None:
            raise TypeError("list indices must be integers")
        if Cur.path.branch(t < 0):
            t = z3.simplify(t + n)
        if not Cur.path.branch(z3.And(t >= 0, t < n)):
            raise IndexError("list index out of range")
        return t

    def _at(self, t):
        return unbox(z3.simplify(self.seq[t]), self.ek)

    def pop(self, k=-1):
        if not Cur.path.branch(z3.Length(self.seq) > 0):
            raise IndexError("pop from empty list")
        t = self._idx(k)
        v = self._at(t)
        n = z3.Length(self.seq)
        if not z3.is_int_value(z3.simplify(n)):
            Cur.path.popflag = True
        if k == 0:
            s = z3.Extract(self.seq, 1, n - 1)
        elif k == -1:
            s = z3.Extract(self.seq, 0, n - 1)
        else:
            s = z3.Concat(z3.Extract(self.seq, 0, t), z3.Extract(self.seq, t + 1, n - t - 1))
        self.seq = z3.simplify(s)
        return v

    def popleft(self):
        return self.pop(0)

    def insert(self, k, v):
        if k == 0:
            self.appendleft(v)
            return
        raise Cur.path.stop(Unsupported("insert"))

    def clear(self):
        self.seq = z3.Empty(SeqV)

    def copy(self):
        return SymList(self.seq, self.ek, self.kind, self.maxlen)

    __copy__ = copy

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymList(self._slice(k), self.ek, self.kind)
        return self._at(self._idx(k))

    def _slice(self, k):
        if k.step not in (None, 1):
            raise Cur.path.stop(Unsupported("stepped slice"))
        n = z3.Length(self.seq)

        def bound(v, d):
            if v is None:
                return d
            t = numterm(v)
            if Cur.path.branch(t < 0):
                t = t + n
                return t if Cur.path.branch(t >= 0) else z3.IntVal(0)
            return t if Cur.path.branch(t <= n) else n
        a, b = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
        if not Cur.path.branch(a < b):
            return z3.Empty(SeqV)
        return z3.simplify(z3.Extract(self.seq, a, b - a))

    def __setitem__(self, k, v):
        if isinstance(k, slice) and k.step is None and k.start is None and k.stop is None:
            if isinstance(v, SymList):
                self.seq, self.ek = v.seq, v.ek
            else:
                v = list(v)
                self.clear()
                for x in v:
                    self.append(x)
            return
        if isinstance(k, slice):
            raise Cur.path.stop(Unsupported("slice assignment"))
        t = self._idx(k)
        n = z3.Length(self.seq)
        self.seq = z3.simplify(z3.Concat(z3.Extract(self.seq, 0, t), z3.Unit(self._box(v)),
                                         z3.Extract(self.seq, t + 1, n - t - 1)))

    def __delitem__(self, k):
        if isinstance(k, slice):
            s = self._slice(k)
            if k.start is None:
                n, m = z3.Length(self.seq), z3.Length(s)
                self.seq = z3.simplify(z3.Extract(self.seq, m, n - m))
                return
            if k.stop is None:
                n, m = z3.Length(self.seq), z3.Length(s)
                self.seq = z3.simplify(z3.Extract(self.seq, 0, n - m))
                return
            raise Cur.path.stop(Unsupported("slice deletion"))
        self.pop(k)

    def _find(self, v):
        """term of the first index of v (identity), assumes contained"""
        return z3.IndexOf(self.seq, z3.Unit(box(v)), 0)

    def __contains__(self, v):
        if self.ek not in ("observer", "observable", "disposable", "future", "error", "empty"):
            raise Cur.path.stop(Unsupported("membership of user values"))
        return Cur.path.branch(seqin(self.seq, box(v)))

    def index(self, v):
        if v not in self:
            raise ValueError("not in list")
        return mkint(self._find(v))

    def remove(self, v):
        if v not in self:
            raise ValueError("list.remove(x): x not in list")
        b = box(v)
        n = z3.simplify(self.seq)
        parts = units_of(n)
        if parts is not None:
            for i, x in enumerate(parts):
                if Cur.path.branch(x == b):
                    rest = [z3.Unit(y) for y in parts[:i] + parts[i + 1:]]
                    self.seq = z3.simplify(z3.Concat(rest)) if len(rest) > 1 else rest[0] if rest else z3.Empty(SeqV)
                    return
            raise Cur.path.stop(PathEnd("contained, hence found"))
        self.seq = RemU(n, b)
        Cur.path.assume(z3.Length(self.seq) == z3.Length(n) - 1)

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __radd__(self, o):
        r = SymList(z3.Empty(SeqV), self.ek, self.kind)
        for x in o:
            r.append(x)
        r.extend(self)
        return r

    def __eq__(self, o):
        if isinstance(o, SymList):
            return mkbool(self.seq == o.seq)
        raise Cur.path.stop(Unsupported("sequence comparison"))

    __hash__ = None

    def __iter__(self):
        return VIter(self)

    def __reversed__(self):
        raise Cur.path.stop(Unsupported("reversed"))


collections.abc.Sequence.register(SymList)      # so that sequence patterns do not silently fail to match


def kind_of(v):
    """what an element denotes: None stands for any user value"""
    if isinstance(v, ExtError):
        return "error"
    if isinstance(v, Boxable):
        return v.vkind
    if NOTE_CLS and isinstance(v, NOTE_CLS[0]):
        return "next" if type(v).__name__ == "OnNext" else "note"
    if isinstance(v, (int, SymInt)) and not isinstance(v, bool):
        return "int"
    if isinstance(v, (float, SymReal)):
        return "real"
    if type(v).__name__ == "VDateTime":
        return "time"
    if type(v) is tuple and len(v) == 2:
        return ("pair", kind_of(v[0]), kind_of(v[1]))
    return None


def join(a, b):
    """kind of the elements of a sequence with elements of both kinds"""
    if a == b or b == "empty":
        return a
    if a == "empty":
        return b
    if type(a) is tuple and type(b) is tuple:
        return ("pair", join(a[1], b[1]), join(a[2], b[2]))
    if user_kind(a) and user_kind(b):
        return None
    if {a, b} == {"next", "note"}:
        return "note"
    return "mixed"


def user_kind(k):
    return k in (None, "int") or type(k) is tuple and user_kind(k[1]) and user_kind(k[2])


NOTE_CLS = []


def concretise_len(l):
    n = z3.simplify(z3.Length(l.seq))
    if z3.is_int_value(n):
        return n.as_long()
    return concretise(SymInt(n))


class VIter:
    """iterator over a list (concrete or symbolic) with an explicit position"""

    def __init__(self, lst, idx=0):
        self.lst = lst
        self.idx = idx

    def __iter__(self):
        return self

    def __next__(self):
        l = self.lst
        if isinstance(l, SymList):
            Cur.path.spin(True)
            if not Cur.path.branch(numterm(self.idx) < z3.Length(l.seq)):
                self.idx = l._len()
                raise StopIteration
            if not z3.is_int_value(z3.simplify(z3.Length(l.seq))):
                Cur.path.cutflag = True
            v = l._at(z3.simplify(numterm(self.idx)))
        else:
            if isinstance(self.idx, Sym):
                self.idx = concretise(self.idx)
            if self.idx >= len(l):
                raise StopIteration
            v = l[self.idx]
        self.idx = self.idx + 1
        return v


class VCount:
    """itertools.count"""

    def __init__(self, start=0, step=1):
        self.cur = start
        self.step = step

    def __iter__(self):
        return self

    def __next__(self):
        v = self.cur
        self.cur = v + self.step
        return v


def vlen(x):
    if isinstance(x, SymList):
        return x._len()
    v = getattr(x, "__dict__", None)
    if v is not None and isinstance(v.get("_value"), SymList):      # expression's Block
        return v["_value"]._len()
    f = getattr(type(x), "__vlen__", None)
    if f is not None:
        return f(x)
    return len(x)


class VRange:
    def __init__(self, *a):
        if len(a) == 1:
            self.cur, self.stop, self.step = 0, a[0], 1
        else:
            self.cur, self.stop = a[0], a[1]
            self.step = a[2] if len(a) > 2 else 1

    def __iter__(self):
        return self

    def __next__(self):
        if not (self.cur < self.stop):
            raise StopIteration
        v = self.cur
        self.cur = v + self.step
        return v


def vrange(*a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 3 and not isinstance(a[2], int):
            raise Cur.path.stop(Unsupported("range step"))
        return VRange(*a)
    return range(*a)


def vlist(x=()):
    if isinstance(x, SymList):
        return SymList(x.seq, x.ek, "list")
    if isinstance(x, VIter) and isinstance(x.lst, SymList):
        r = x.lst[x.idx:]
        x.idx = x.lst._len()
        return r
    return list(x)


def vtuple(x=()):
    if isinstance(x, (SymList, VIter)):
        x = vlist(x)
    return SymList(x.seq, x.ek, "tuple") if isinstance(x, SymList) else tuple(x)


class VEnum:
    """enumerate"""

    def __init__(self, x, start=0):
        self.it, self.n = viter2(x), start

    def __iter__(self):
        return self

    def __next__(self):
        v = next(self.it)
        n = self.n
        self.n = n + 1
        return (n, v)


def viter2(x, *a):
    """iter()"""
    if not a and isinstance(x, (list, tuple, SymList)):
        return VIter(x)
    return iter(x, *a)


class VDequeL(list):
    """collections.deque of a concrete content"""

    def appendleft(self, v):
        self.insert(0, v)

    def popleft(self):
        return self.pop(0)

    def rotate(self, n=1):
        if self:
            n = n % len(self)
            self[:] = self[-n:] + self[:-n] if n else self[:]

    maxlen = None
    kind = "deque"


def vdeque(iterable=(), maxlen=None):
    if Replay.model is not None:
        import collections
        return collections.deque(iterable, maxlen)
    if isinstance(iterable, SymList) or isinstance(maxlen, Sym):
        r = SymList(z3.Empty(SeqV), "empty", "deque", maxlen)
        r.extend(iterable)
        return r
    r = VDequeL()
    if maxlen is not None:
        r = SymList(z3.Empty(SeqV), "empty", "deque", maxlen)
    r.extend(iterable)
    return r


def viter(x):
    """what `for` iterates: lists get an inspectable iterator"""
    if isinstance(x, (list, tuple, SymList)):
        return VIter(x)
    return x


def vunpack(x, before, after):
    """what `a, *rest, z = x` assigns"""
    if isinstance(x, SymList):
        n = x._len()
        if n < before + after:
            raise ValueError("not enough values to unpack")
        out = [x[i] for i in range(before)]
        out.append(vlist(x[before:n - after] if after else x[before:]))
        return out + [x[n - after + i] for i in range(after)]
    v = list(x)
    if len(v) < before + after:
        raise ValueError("not enough values to unpack")
    return v[:before] + [v[before:len(v) - after]] + v[len(v) - after:]


def vis(a, b):
    if a is b:
        return True
    if isinstance(a, (Opq, ExtError, Boxable)) or isinstance(b, (Opq, ExtError, Boxable)):
        if a is None or b is None:
            return False          # Opq never denotes None
        if not (isinstance(a, (Opq, ExtError, Boxable)) and isinstance(b, (Opq, ExtError, Boxable))):
            return False
        if getattr(a, "ident", 0) is None or getattr(b, "ident", 0) is None:
            return False
        return mkbool(box(a) == box(b))
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a if b else vnot(a)
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b if a else vnot(b)
    return False
