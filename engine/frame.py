"""Frame condition of C22: what is reachable from a built observable, and the package's own global
state, is the same at every quiescent point as when the observable was built.  Everything a
subscription changes is then its own, so subscriptions of one observable cannot influence each other."""
import collections
import logging
import sys
import types
import typing

from .state import Walker, leafterm
from .sym import *

IMM = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, logging.Logger, str, int, float, bool,
       type(None), typing.TypeVar, bytes)


def global_roots():
    """mutable objects held by the package's modules, classes and function defaults"""
    out, names = [], []
    for n in sorted(m for m in sys.modules if m == "aioreactive" or m.startswith("aioreactive.")):
        d = sys.modules[n].__dict__
        for k, v in sorted(d.items()):
            if k.startswith("__"):
                continue
            if isinstance(v, (list, dict, set, collections.deque)) or \
                    type(v).__module__.startswith("aioreactive") and not isinstance(v, type) or isinstance(v, collections.abc.Iterator):
                out.append(v)
            elif isinstance(v, type) and v.__module__ == n:
                for a, x in sorted(v.__dict__.items()):
                    if a.startswith("__") or a.startswith("_abc") or a in ("_is_protocol", "__orig_bases__"):
                        continue
                    if isinstance(x, (list, dict, set, collections.deque, collections.abc.Iterator)):
                        out.append(x)
                    if isinstance(x, types.FunctionType):
                        out.extend(fn_state(x))
            elif isinstance(v, types.FunctionType) and v.__module__ == n:
                out.extend(fn_state(v))
    return out


def fn_state(f):
    xs = [x for x in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values())
          if isinstance(x, (list, dict, set, collections.deque, collections.abc.Iterator))]
    if f.__closure__:
        for c in f.__closure__:
            try:
                x = c.cell_contents
            except ValueError:
                continue
            if isinstance(x, (list, dict, set, collections.deque, collections.abc.Iterator)):
                xs.append(x)
    d = {k: v for k, v in f.__dict__.items() if not k.startswith("__")}
    if d:
        xs.append(d)
    return xs


def bindings():
    out = {}
    for n in sorted(m for m in sys.modules if m == "aioreactive" or m.startswith("aioreactive.")):
        d = sys.modules[n].__dict__
        for k, v in d.items():
            out[n, k] = v
        for k, v in list(d.items()):
            if isinstance(v, type) and v.__module__ == n:
                for a, x in v.__dict__.items():
                    if not a.startswith("_abc"):
                        out[n, k, a] = x
    return out


def view(obs):
    """(shape, leaf values) of the observable and the global state"""
    leaves = []

    def leaf(path, kind, v):
        leaves.append((path, kind, v))
        return v
    w = Walker(leaf)
    w.walk(obs, "obs")
    for i, r in enumerate(global_roots()):
        w.walk(r, f"global{i}")
    return tuple(w.shape), leaves


class Frame:
    __vskip__ = ("shape", "names", "binds", "obs")


def take(w, obs):
    f = Frame()
    s, ls = view(obs)
    f.shape = repr(s)
    f.obs = obs
    f.binds = bindings()
    f.names = [(p, k) for p, k, _ in ls]
    f.was = tuple(v.copy() if isinstance(v, SymList) else list(v) if k == "seq" else v for p, k, v in ls)
    w.frame = f


def check(w):
    f = getattr(w, "frame", None)
    if f is None:
        return
    s, ls = view(w.fobs)
    w.require(repr(s) == f.shape, "C22 the built observable is not changed by its subscriptions")
    for (p, k, v), old in zip(ls, f.was):
        t, u = leafterm(k, v), leafterm(k, old)
        w.require(t == u, f"C22 {p} of the built observable is not changed by its subscriptions")
    b = bindings()
    same = len(b) == len(f.binds) and all(k in b and b[k] is v for k, v in f.binds.items())
    w.require(same, "C22 the package's global state is not changed by subscriptions")
