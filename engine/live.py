"""Live locals of a suspended frame, by data flow over its bytecode (with exception edges)."""
import dis
import functools

_JREL = set(dis.hasjrel) | set(dis.hasjabs)
_USE = {"LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "DELETE_FAST", "LOAD_CLOSURE"}
_NOFALL = {"RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"}


@functools.lru_cache(maxsize=None)
def table(code):
    ins = list(dis.get_instructions(code))
    at = {x.offset: n for n, x in enumerate(ins)}
    succ = [[] for _ in ins]
    for n, x in enumerate(ins):
        if x.opname not in _NOFALL and n + 1 < len(ins):
            succ[n].append(n + 1)
        if x.opcode in _JREL or x.opname in ("SEND", "FOR_ITER", "END_ASYNC_FOR"):
            if isinstance(x.argval, int) and x.argval in at:
                succ[n].append(at[x.argval])
    for e in dis._parse_exception_table(code):
        for n, x in enumerate(ins):
            if e.start <= x.offset < e.end:
                succ[n].append(at[e.target])
    live = [frozenset()] * len(ins)
    changed = True
    while changed:
        changed = False
        for n in range(len(ins) - 1, -1, -1):
            x = ins[n]
            out = frozenset().union(*(live[s] for s in succ[n])) if succ[n] else frozenset()
            if x.opname == "STORE_FAST":
                # a store that raises or is reached by an exception keeps the old value: stores themselves do not raise
                new = out - {x.argval}
            elif x.opname in _USE:
                new = out | {x.argval}
            else:
                new = out
            if new != live[n]:
                live[n] = new
                changed = True
    return at, live, succ, [x.opname for x in ins]


def live_after(code, lasti):
    """locals that may be read after resuming a frame suspended at lasti (None: all)"""
    if lasti < 0:
        return None
    at, live, succ, names = table(code)
    n = at.get(lasti)
    if n is None:
        return None
    if any(x.startswith("LOAD_FAST_") and x not in _USE or x in ("STORE_FAST_MAYBE_NULL", "LOAD_LOCALS", "LOAD_NAME")
           for x in names):
        return None
    return frozenset().union(live[n], *(live[s] for s in succ[n]))
