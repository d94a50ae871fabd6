"""Loads the code under verification: every module of aioreactive is compiled from
its current source text with a mechanical AST rewriting.  The rewriting changes
no behaviour on ordinary values; it only makes four built-in operations open to
symbolic operands:

  a is b            ->  __vis__(a, b)          (identity of symbolic values)
  for x in e        ->  for x in __viter__(e)  (an iterator with inspectable position)
  loop bodies in async functions start with `await __vcut__()` (loop cut point: a no-op
                        unless the loop runs over a sequence of symbolic length)
  a, *r = e         ->  a, r = __vunpack__(e, 1, 0)
  len, list, tuple, range, enumerate, iter, isinstance and collections.deque are bound to versions
                        accepting symbolic operands

Nothing is dropped: every statement of every function is executed by CPython.
asyncio's pure-Python Future/Task implementations replace the C ones (inspectable
state), itertools.count and queue.SimpleQueue their Python counterparts.
"""
import ast
import asyncio
import asyncio.futures
import asyncio.tasks
import datetime as _dt
import importlib.abc
import importlib.machinery
import itertools
import logging
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"

from . import sym


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.stack = []

    def visit_FunctionDef(self, n):
        self.stack.append(False)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_AsyncFunctionDef(self, n):
        self.stack.append(True)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Lambda(self, n):
        self.stack.append(False)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def cut(self, n, name, *args):
        e = ast.Expr(ast.Await(ast.Call(ast.Name(name, ast.Load()), list(args), [])))
        return ast.copy_location(e, n.body[0])

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.copy_location(ast.Call(ast.Name("__viter__", ast.Load()), [n.iter], []), n.iter)
        if self.stack and self.stack[-1]:
            n.body.insert(0, self.cut(n, "__vcut__"))
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if self.stack and self.stack[-1] and not (isinstance(n.test, ast.Constant)):
            n.body.insert(0, self.cut(n, "__vcutw__"))
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)):
            el = n.targets[0].elts
            st = [i for i, e in enumerate(el) if isinstance(e, ast.Starred)]
            if len(st) == 1:
                i = st[0]
                n.value = ast.copy_location(ast.Call(ast.Name("__vunpack__", ast.Load()), [n.value, ast.Constant(i),
                                            ast.Constant(len(el) - 1 - i)], []), n.value)
                el[i] = el[i].value
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = ast.Call(ast.Name("__vis__" if isinstance(n.ops[0], ast.Is) else "__visnot__", ast.Load()),
                         [n.left, n.comparators[0]], [])
            return ast.copy_location(c, n)
        return n


def visinstance(x, c):
    if isinstance(x, sym.Sym):
        cs = c if isinstance(c, tuple) else (c,)
        for k in cs:
            if isinstance(x, sym.SymInt) and k is int or isinstance(x, sym.SymBool) and k in (bool, int) \
                    or isinstance(x, sym.SymReal) and k is float:
                return True
    return isinstance(x, c)


class Hooks:
    cut = None


async def vcut():
    if Hooks.cut is not None:
        sym.Cur.path.spin(False)
        await Hooks.cut(False)


async def vcutw():
    if Hooks.cut is not None:
        sym.Cur.path.spin(False)
        await Hooks.cut(True)


INJECT = {"__vis__": sym.vis, "__visnot__": lambda a, b: sym.vnot(sym.vis(a, b)), "__viter__": sym.viter,
          "__vcut__": vcut, "__vcutw__": vcutw, "len": sym.vlen, "list": sym.vlist, "range": sym.vrange,
          "isinstance": visinstance, "__vunpack__": sym.vunpack}


class TypeLike(type):
    pass


class _VListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list) or isinstance(x, sym.SymList)

    def __call__(cls, x=()):
        return sym.vlist(x)

    def __getitem__(cls, k):
        return list[k]


class VListT(metaclass=_VListMeta):
    pass


INJECT["list"] = VListT


class _VTupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tuple)

    def __call__(cls, x=()):
        return sym.vtuple(x)

    def __getitem__(cls, k):
        return tuple[k]


class VTupleT(metaclass=_VTupleMeta):
    pass


class _VDequeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (REAL_DEQUE, sym.VDequeL)) or isinstance(x, sym.SymList) and x.kind == "deque"

    def __call__(cls, *a, **k):
        return sym.vdeque(*a, **k)

    def __getitem__(cls, k):
        return REAL_DEQUE[k]


class VDequeT(metaclass=_VDequeMeta):
    pass


import collections  # noqa: E402
REAL_DEQUE = collections.deque


class CollectionsShim:
    """the module `collections` as the code under verification sees it"""

    def __getattr__(self, k):
        return VDequeT if k == "deque" else getattr(collections, k)


INJECT["tuple"] = VTupleT
INJECT["enumerate"] = sym.VEnum
INJECT["iter"] = sym.viter2

FUNCS = {}        # qualified name -> (file, line): functions under verification, filled at load


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                FUNCS[(path, n.lineno)] = n.name
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        for k, v in INJECT.items():
            module.__dict__[k] = v
        super().exec_module(module)
        for k, v in list(module.__dict__.items()):
            if v is REAL_DEQUE:
                module.__dict__[k] = VDequeT
            elif v is collections:
                module.__dict__[k] = CollectionsShim()


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "aioreactive" and not name.startswith("aioreactive."):
            return None
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            if not os.path.exists(f):
                return importlib.machinery.ModuleSpec(name, None, is_package=True)
            return importlib.machinery.ModuleSpec(name, Loader(name, f), origin=f, is_package=True) if False else \
                importlib.util.spec_from_file_location(name, f, loader=Loader(name, f),
                                                       submodule_search_locations=[p])
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


import importlib.util

_loaded = False


class VQueue:
    """queue.SimpleQueue, with inspectable contents"""

    def __init__(self):
        self.items = []

    def put(self, v):
        self.items.append(v)

    def get(self):
        return self.items.pop(0)

    def empty(self):
        return sym.vlen(self.items) == 0


class VLock:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def acquire(self, *a):
        return True

    def release(self):
        pass


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    logging.disable(logging.CRITICAL)
    try:
        import reactivex  # noqa: F401
    except ImportError:
        pass
    F, T = asyncio.futures._PyFuture, asyncio.tasks._PyTask
    for m in (asyncio, asyncio.futures):
        m.Future = F
    for m in (asyncio, asyncio.tasks):
        m.Task = T
    asyncio.tasks.futures.Future = F
    asyncio.tasks.current_task = asyncio.tasks._py_current_task
    asyncio.current_task = asyncio.tasks._py_current_task
    asyncio.tasks._enter_task = asyncio.tasks._py_enter_task
    asyncio.tasks._leave_task = asyncio.tasks._py_leave_task
    asyncio.tasks._register_task = lambda t: None
    asyncio.tasks._unregister_task = lambda t: None
    itertools.count = sym.VCount
    import threading
    rl = threading.RLock
    threading.RLock = VLock
    import queue
    sq = queue.SimpleQueue
    queue.SimpleQueue = VQueue
    from . import vtime
    real_dt, real_td = _dt.datetime, _dt.timedelta
    import expression  # noqa: F401
    import expression.collections  # noqa: F401
    import expression.core.mailbox as mb
    import expression.collections.block as eb
    import expression.collections.map as em
    mb.SimpleQueue = VQueue
    mb.RLock = VLock
    import expression.system.disposable as d
    import expression.system.cancellation as c
    for m in (d, c):
        if hasattr(m, "RLock"):
            m.RLock = VLock
    eb.len = sym.vlen
    block_init, block_tail = eb.Block.__init__, eb.Block.tail

    def binit(self, value=()):
        """Block(value): also of a sequence of symbolic length"""
        if isinstance(value, sym.SymList):
            self._value = value.copy()
        else:
            block_init(self, value)

    def btail(self):
        if isinstance(self._value, sym.SymList):
            if not self._value:
                raise ValueError("not enough values to unpack")
            return eb.Block(self._value[1:])
        return block_tail(self)
    eb.Block.__init__, eb.Block.tail = binit, btail
    sys.meta_path.insert(0, Finder())
    _dt.datetime, _dt.timedelta = vtime.VDateTime, vtime.VTimeDelta
    try:
        import aioreactive  # noqa: F401
        for f in sorted(os.listdir(os.path.join(REPO, "aioreactive"))):
            if f.endswith(".py") and not f.startswith("_"):
                importlib.import_module("aioreactive." + f[:-3])
    finally:
        _dt.datetime, _dt.timedelta = real_dt, real_td
        threading.RLock = rl
        queue.SimpleQueue = sq


