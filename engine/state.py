"""The state of a suspended execution: canonical shape + symbolic leaves.

`walk` traverses everything reachable from the world (environment handles, monitor,
suspended coroutines with their locals, cells and evaluation stacks).  Two states
with the same shape differ only in their leaves; `leaf(path, kind, value)` may
replace each leaf, which is how a state is generalised ("havocked") in place.
"""
import asyncio
import collections
import contextvars
import ctypes
import enum
import functools
import gc
import logging
import types

import z3

from .sym import *
from . import live, sym

_setfast = ctypes.pythonapi.PyFrame_LocalsToFast
_CO = (types.CoroutineType, types.GeneratorType, types.AsyncGeneratorType)
SKIP = {"_loop", "loop", "_name", "_context", "_source_traceback", "_log_traceback", "_Future__log_traceback",
        "_cancelled_exc", "_cancel_message", "lock", "_lock", "__traceback__", "_log_destroy_pending",
        "__orig_class__", "_num_cancels_requested", "nid", "_asyncio_future_blocking"}
OPAQUE = (asyncio.AbstractEventLoop, contextvars.Context, logging.Logger, types.FrameType, types.TracebackType,
          types.ModuleType, type, types.CodeType, enum.Enum, contextvars.ContextVar)
_list_it, _tuple_it = type(iter([])), type(iter(()))


class Walker:
    def __init__(self, leaf):
        self.leaf = leaf
        self.shape = []
        self.memo = {}
        self.keep = []
        self.ek = []
        self.funcs = set()
        self.depth = 0

    def tok(self, *a):
        self.shape.append(a)

    def walk(self, v, path):
        self.depth += 1
        if self.depth > 400:
            raise Cur.path.stop(Unsupported("state too deep"))
        try:
            return self._walk(v, path)
        finally:
            self.depth -= 1

    def seen(self, v, path=""):
        """memo for objects with identity; returns (known, value)"""
        m = self.memo.get(id(v))
        if m is not None:
            self.tok("ref", m[0])
            return True, m[1]
        self.memo[id(v)] = [len(self.memo), v]
        self.keep.append(v)
        return False, v

    def replaced(self, v, new):
        self.memo[id(v)][1] = new
        self.keep.append(new)
        if new is not v:
            self.memo[id(new)] = self.memo[id(v)]
        return new

    # ------------------------------------------------------------------
    def _walk(self, v, path):
        t = type(v)
        if v is None:
            self.tok("val")
            return self.leaf(path, "val", v)
        if t is bool or t is str or t is bytes or v is Ellipsis or v is NotImplemented:
            self.tok("c", repr(v))
            return v
        if t is int:
            self.tok("int")
            return self.leaf(path, "int", v)
        if t is SymInt:
            self.tok("int")
            return self.leaf(path, "int", v)
        if t is SymBool:
            b = bool(v)
            self.tok("c", repr(b))
            return b
        if t is float:
            if v != v or v in (float("inf"), float("-inf")):
                self.tok("c", repr(v))
                return v
            self.tok("real")
            return self.leaf(path, "real", v)
        if t is SymReal:
            self.tok("real")
            return self.leaf(path, "real", v)
        if t is Opq:
            self.tok("val")
            return self.leaf(path, "val", v)
        if isinstance(v, ExtError):
            k, w = self.seen(v)
            if k:
                return w
            self.tok("err", t.__name__)
            i = self.leaf(path + ("!w" if isinstance(v, WideError) else ""), "ext:error", v)
            if i is not v:
                v.ident = i
            return v
        if isinstance(v, Boxable):
            if getattr(v, "static", True):
                k, w = self.seen(v)
                if k:
                    return w
                self.tok("ext", v.vkind, getattr(v, "name", ""), str(v.ident))
                return v
            self.tok("dyn", v.vkind)
            i = self.leaf(path, "ext:" + v.vkind, v)
            return v if i is v else unext(v.vkind, numterm(i))
        if isinstance(v, OPAQUE):
            if isinstance(v, type):
                self.tok("type", v.__qualname__)
            elif isinstance(v, enum.Enum):
                self.tok("enum", str(v))
            else:
                self.tok("opq", t.__name__)
            return v
        if t is SymList:
            k, w = self.seen(v)
            if k:
                return w
            self.tok("seq", v.kind, v.maxlen is None)
            mx = None
            if v.maxlen is not None:
                mx = self.leaf(path + ".maxlen", "int", v.maxlen)
            n = self.leaf(path, "seq", v)
            if n is not v and isinstance(n, SymList):
                n.kind = v.kind
                n.maxlen = mx
            return self.replaced(v, n)
        if t in (list, collections.deque, VDequeL):
            k, w = self.seen(v)
            if k:
                return w
            if self.valuelist(v):
                kind = "list" if t is list else "deque"
                mx = getattr(v, "maxlen", None)
                self.tok("seq", kind, mx is None)
                if mx is not None:
                    mx = self.leaf(path + ".maxlen", "int", mx)
                n = self.leaf(path, "seq", v)
                if isinstance(n, SymList):
                    n.kind = kind
                    n.maxlen = mx
                return self.replaced(v, n)
            self.tok("list", len(v))
            for i in range(len(v)):
                x = v[i]
                y = self.walk(x, f"{path}[{i}]")
                if y is not x:
                    v[i] = y
            return v
        if t is tuple or isinstance(v, tuple):
            if t is tuple and v and self.symtuple(v):
                pass
            self.tok("tuple", len(v), t.__name__)
            out = [self.walk(x, f"{path}[{i}]") for i, x in enumerate(v)]
            if all(a is b for a, b in zip(out, v)):
                return v
            return tuple(out) if t is tuple else t._make(out)
        if isinstance(v, dict):
            k, w = self.seen(v)
            if k:
                return w
            keys = list(v)
            if not all(isinstance(x, (str, type, enum.Enum, type(None))) for x in keys):
                if not all(type(x) is int for x in keys):
                    raise Cur.path.stop(Unsupported(f"dict with dynamic keys at {path}"))
            self.tok("dict", repr(keys))
            for x in keys:
                y = self.walk(v[x], f"{path}.{x}")
                if y is not v[x]:
                    v[x] = y
            return v
        if isinstance(v, (set, frozenset)):
            k, w = self.seen(v)
            if k:
                return w
            self.tok("set", len(v))
            if len(v) > 1:
                raise Cur.path.stop(Unsupported(f"set at {path}"))
            for x in v:
                y = self.walk(x, f"{path}.el")
                if y is not x:
                    raise Cur.path.stop(Unsupported("set element"))
            return v
        if t is types.CellType:
            return self.cell(v, path)
        if t is types.FunctionType:
            return self.function(v, path)
        if t is types.MethodType:
            self.tok("meth", v.__name__)
            s = self.walk(v.__self__, path + ".self")
            f = self.walk(v.__func__, path + ".f")
            return v if s is v.__self__ and f is v.__func__ else types.MethodType(f, s)
        if t in (types.BuiltinMethodType, types.BuiltinFunctionType, types.MethodWrapperType):
            s = getattr(v, "__self__", None)
            self.tok("builtin", v.__name__)
            if s is not None and not isinstance(s, types.ModuleType) and not isinstance(s, type):
                n = self.walk(s, path + ".self")
                if n is not s:
                    return getattr(n, v.__name__)
            return v
        if isinstance(v, _CO):
            return self.coro(v, path)
        if t is functools.partial:
            self.tok("partial")
            f = self.walk(v.func, path + ".f")
            a = self.walk(v.args, path + ".a")
            kw = {k: self.walk(x, f"{path}.{k}") for k, x in sorted(v.keywords.items())}
            if f is v.func and a is v.args and all(kw[k] is v.keywords[k] for k in kw):
                return v
            return functools.partial(f, *a, **kw)
        if t in (map, zip, enumerate):
            k, w = self.seen(v)
            if k:
                return w
            self.tok("citer", t.__name__)
            red = v.__reduce__()
            a = self.walk(red[1], path + ".it")
            return v if a is red[1] else self.replaced(v, t(*a))
        if t in (_list_it, _tuple_it):
            k, w = self.seen(v)
            if k:
                return w
            red = v.__reduce__()
            if len(red) == 2 and not red[1][0]:
                self.tok("citer", "exhausted")
                return v
            n = VIter(red[1][0], red[2] if len(red) > 2 else 0)
            self.tok("obj", "VIter")
            self.attrs(n, path)
            return self.replaced(v, n)
        if t is range:
            self.tok("c", repr(v))
            return v
        if hasattr(v, "__vopaque__"):
            self.tok("opq", t.__name__)
            return v
        if isinstance(v, z3.ExprRef):
            raise Cur.path.stop(Unsupported(f"raw term at {path}"))
        if t is object:
            k, w = self.seen(v)
            if not k:
                self.tok("sentinel")
            return v
        if t.__name__ == "Block" and "_value" in getattr(v, "__dict__", ()):        # immutable
            x = v.__dict__["_value"]
            if isinstance(x, SymList) or self.valuelist(x):
                self.tok("seq", "Block")
                y = self.leaf(path, "seq", x)
                if y is x:
                    return v
                if isinstance(y, SymList):
                    y.kind = "tuple"
                n = t()
                n._value = y if isinstance(y, SymList) else tuple(y)
                self.keep.append(n)
                return n
        if hasattr(v, "__dict__") or hasattr(t, "__slots__"):
            k, w = self.seen(v)
            if k:
                return w
            self.tok("obj", t.__name__)
            return self.attrs(v, path)
        raise Cur.path.stop(Unsupported(f"state of type {t.__name__} at {path}"))

    def symtuple(self, v):
        return False

    def valuelist(self, v):
        return all(valuelike(x) for x in v)

    def attrs(self, v, path):
        d = getattr(v, "__dict__", None)
        skip = getattr(type(v), "__vskip__", ())
        if isinstance(v, asyncio.Future):
            for k in ("_state", "_result", "_exception", "_callbacks"):
                if k not in d:
                    d[k] = [] if k == "_callbacks" else getattr(v, k, None)
            if v._callbacks is None:
                v._callbacks = []
        if isinstance(v, BaseException):
            a = self.walk(v.args, path + ".args")
            if a is not v.args:
                v.args = a
        if d:
            for k in sorted(d):
                if k in SKIP or k in skip or k.startswith("__") and k.endswith("__"):
                    if k == "_num_cancels_requested" and d[k]:
                        self.tok("cancels", d[k])
                    continue
                x = d[k]
                self.tok("a", k)
                y = self.walk(x, f"{path}.{k}" if path else k)
                if y is not x:
                    d[k] = y
        for c in type(v).__mro__:
            sl = c.__dict__.get("__slots__", ())
            for k in ((sl,) if isinstance(sl, str) else sl):
                if k.startswith("__") and k.endswith("__") or k in SKIP or k in skip:
                    continue
                kk = k if not k.startswith("__") or k.endswith("__") else f"_{c.__name__}{k}"
                try:
                    x = getattr(v, kk)
                except AttributeError:
                    continue
                self.tok("a", k)
                y = self.walk(x, f"{path}.{k}")
                if y is not x:
                    object.__setattr__(v, kk, y)
        return v

    def cell(self, v, path):
        k, w = self.seen(v)
        if k:
            return w
        try:
            x = v.cell_contents
        except ValueError:
            self.tok("cell0")
            return v
        self.tok("cell")
        y = self.walk(x, path)
        if y is not x:
            v.cell_contents = y
        return v

    def function(self, v, path):
        k, w = self.seen(v)
        if k:
            return w
        c = v.__code__
        self.tok("fn", c.co_qualname, c.co_firstlineno)
        self.funcs.add((c.co_filename, c.co_firstlineno, c.co_qualname))
        if v.__closure__:
            for n, ce in zip(c.co_freevars, v.__closure__):
                self.cell(ce, n)
        if v.__defaults__ and any(isinstance(x, (list, dict, set)) for x in v.__defaults__):
            self.walk(v.__defaults__, path + ".defaults")
        d = {k: x for k, x in v.__dict__.items() if not k.startswith("__") and k not in ("_is_coroutine_marker",)}
        if d:
            self.tok("fd", repr(sorted(d)))
            for k in sorted(d):
                y = self.walk(d[k], f"{path}.{k}")
                if y is not d[k]:
                    v.__dict__[k] = y
        return v

    def coro(self, v, path):
        k, w = self.seen(v)
        if k:
            return w
        for a in ("cr", "gi", "ag"):
            if hasattr(v, a + "_frame"):
                fr, code = getattr(v, a + "_frame"), getattr(v, a + "_code")
        if fr is None:
            self.tok("co", code.co_qualname, "done")
            return v
        self.tok("co", code.co_qualname, code.co_firstlineno, fr.f_lasti)
        self.funcs.add((code.co_filename, code.co_firstlineno, code.co_qualname))
        loc = fr.f_locals
        refs = gc.get_referents(v)
        try:
            i = next(j for j, r in enumerate(refs) if r is code) + 1
        except StopIteration:
            raise Cur.path.stop(Unsupported("frame layout"))
        items = refs[i:]
        pos = 0
        dirty = False
        alive = live.live_after(code, fr.f_lasti)
        order = list(code.co_varnames) + [n for n in code.co_cellvars if n not in code.co_varnames] + list(code.co_freevars)
        for n in order:
            if n in code.co_cellvars or n in code.co_freevars:
                if pos >= len(items) or not isinstance(items[pos], types.CellType):
                    if fr.f_lasti < 0 or n in code.co_cellvars and n not in loc:
                        continue
                    if n in code.co_varnames:      # a cell argument before MAKE_CELL
                        pass
                    raise Cur.path.stop(Unsupported("frame layout (cells)"))
                self.tok("l", n)
                self.cell(items[pos], n)
                if n in loc:
                    try:
                        loc[n] = items[pos].cell_contents       # LocalsToFast below writes cells back, too
                    except ValueError:
                        pass
                pos += 1
            elif n in loc:
                if pos >= len(items) or items[pos] is not loc[n]:
                    raise Cur.path.stop(Unsupported("frame layout (locals)"))
                pos += 1
                if alive is not None and n not in alive:
                    continue                      # never read again
                self.tok("l", n)
                x = loc[n]
                y = self.walk(x, f"{code.co_name}.{n}")
                if y is not x:
                    loc[n] = y
                    dirty = True
        if dirty:
            _setfast(ctypes.py_object(fr), ctypes.c_int(0))
        for j, x in enumerate(y for y in items[pos:] if y is not None):
            self.tok("s", j)
            if x is v or isinstance(x, (types.TracebackType,)):
                continue
            y = self.walk(x, f"{code.co_name}.stk{j}")
            if y is not x:
                if isinstance(x, (Opq, SymInt, SymReal)) and isnumor(y):
                    x.t = y.t if isinstance(y, Sym) else numterm(y)
                    continue
                if type(x) is int and type(y) is int and x == y:
                    continue
                raise Cur.path.stop(Unsupported(f"temporary on the stack of {code.co_qualname}"))
        return v


def isnumor(y):
    return isinstance(y, (Opq, SymInt, SymReal, int))


def valuelike(x):
    if x is None or type(x) in (bool, int, Opq, SymInt, SymReal) or isinstance(x, ExtError) or type(x).__name__ == "VDateTime":
        return True
    if isinstance(x, Boxable) and getattr(x, "ident", None) is not None:
        return not getattr(x, "static", True)
    if type(x) is tuple and len(x) == 2:
        return all(valuelike(y) for y in x)
    if NOTE_CLS and isinstance(x, NOTE_CLS[0]):
        return all(valuelike(y) for k, y in x.__dict__.items() if k != "kind")
    return False


def seqterm(v):
    if isinstance(v, SymList):
        return v.seq
    us = [z3.Unit(box(x)) for x in v]
    if not us:
        return z3.Empty(SeqV)
    return us[0] if len(us) == 1 else z3.Concat(*us)


def seqkind(v):
    if isinstance(v, SymList):
        return v.ek
    k = "empty"
    for x in v:
        k = join(k, kind_of(x))
    return k


def leafterm(kind, v):
    if kind == "int":
        return numterm(v)
    if kind == "real":
        t = numterm(v)
        return z3.ToReal(t) if t.sort() == z3.IntSort() else t
    if kind == "val":
        return VNone if v is None else v.t
    if kind.startswith("ext:"):
        return box(v)
    return seqterm(v)


SORT = {"int": z3.IntSort(), "real": z3.RealSort(), "val": Val, "seq": SeqV}


class Snapshot:
    def __init__(self, world):
        self.leaves = []          # (path, kind, term)
        self.eks = {}

        def leaf(path, kind, v):
            if kind == "seq":
                self.eks[len(self.leaves)] = seqkind(v)
            t = leafterm(kind, v)
            self.leaves.append((path, kind, t if v is None or type(v) is int else z3.simplify(t)))
            return v
        w = Walker(leaf)
        w.walk(world, "")
        self.shape = tuple(w.shape)
        self.key = hash(self.shape)
        self.funcs = w.funcs


def havoc(world, terms, eks, fork=False):
    """overwrite the leaves, in walk order, with the given terms (None: keep)"""
    it = [0]
    branch = Cur.path.branch

    def leaf(path, kind, v):
        i = it[0]
        it[0] += 1
        t = terms[i]
        if t is None:
            return v
        if kind == "int":
            return mkint(t)
        if kind == "real":
            return SymReal(t)
        if kind.startswith("ext:"):
            return mkint(Val.ve(t))
        if kind == "val":
            return None if t.eq(VNone) or fork and branch(t == VNone) else Opq(t)
        if z3.is_true(z3.simplify(z3.Length(t) == 0)):
            if not isinstance(v, SymList) and not len(v):
                return v
            if getattr(v, "maxlen", None) is None and getattr(v, "kind", "list") == "list":
                return []
        return SymList(t, eks.get(i, "empty"))
    w = Walker(leaf)
    w.walk(world, "")
    if it[0] != len(terms):
        raise Cur.path.stop(Unsupported("state layout changed during generalisation"))


def fork_nones(world):
    """decide for every leaf that may denote None whether it does"""
    def leaf(path, kind, v):
        if kind == "val" and v is not None and Cur.path.branch(v.t == VNone):
            return None
        return v
    Walker(leaf).walk(world, "")
