"""Interruption points inside the code under test.

CPython delivers signals and switches threads only when a function is entered (RESUME), on a
backward jump, and after a call; an operator or a call may also raise by itself, or release the
GIL. ``trace(fn, at)`` runs fn() calling ``at(k)`` at each such point executed by this thread in
the package's own code, in order (sys.monitoring instruction events). Points are a property of the
execution, not of line numbers.
"""
from __future__ import annotations

import contextlib
import dis
import sys
import threading
import types

from mc import core

# The instruction about to be executed can raise, release the GIL, or be preceded by a delivery.
BEFORE = {"CALL", "CALL_FUNCTION_EX", "CALL_KW", "BINARY_OP", "BINARY_SUBSCR", "BINARY_SLICE", "STORE_SUBSCR",
          "STORE_SLICE", "COMPARE_OP", "JUMP_BACKWARD", "UNARY_NEGATIVE", "BUILD_MAP", "BUILD_LIST", "FOR_ITER"}
AFTER = {"CALL", "CALL_FUNCTION_EX", "CALL_KW", "BINARY_OP"}
TOOL = 4
_OPS = {}
_HANDLER = {}      # thread -> [count, {frame: previous op}, at]
_depth = [0]


def _ops(code):
    t = _OPS.get(code)
    if t is None:
        t = {i.offset: i.opname for i in dis.get_instructions(code)}
        _OPS[code] = t
    return t


def _codes():
    """Every code object of the package, nested ones included."""
    prefix = str(core.REPO) + "/"
    seen, todo = set(), []
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, "__file__", None)
        if f and f.startswith(prefix):
            todo += list(vars(mod).values())
    done = set()
    while todo:
        o = todo.pop()
        if id(o) in done:
            continue
        done.add(id(o))
        if isinstance(o, types.FunctionType):
            if o.__code__.co_filename.startswith(prefix):
                todo.append(o.__code__)
            todo.append(getattr(o, "__wrapped__", None))
        elif isinstance(o, type) and (getattr(sys.modules.get(o.__module__), "__file__", None) or "").startswith(prefix):
            todo += list(vars(o).values())
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif isinstance(o, property):
            todo += [o.fget, o.fset, o.fdel]
        elif isinstance(o, types.CodeType) and o not in seen:
            seen.add(o)
            todo += [c for c in o.co_consts if isinstance(c, types.CodeType)]
    return seen


def _callback(code, offset):
    h = _HANDLER.get(threading.get_ident())
    if h is None:
        return
    frame = id(sys._getframe(1))
    op = _ops(code).get(offset)
    prev = h[1].get(frame)
    h[1][frame] = op
    if op in BEFORE or op == "RESUME" or prev in AFTER:
        h[0] += 1
        h[2](h[0])


@contextlib.contextmanager
def enabled():
    """Switch the instrumentation on (needed around threads, so that they never toggle it)."""
    mon = sys.monitoring
    if _depth[0] == 0:
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "points")
            mon.register_callback(TOOL, mon.events.INSTRUCTION, _callback)
        for c in _codes():
            mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)
    _depth[0] += 1
    try:
        yield
    finally:
        _depth[0] -= 1
        if _depth[0] == 0:
            for c in _codes():
                mon.set_local_events(TOOL, c, 0)


@contextlib.contextmanager
def suspended():
    """Within a point: run code of this thread unobserved."""
    me = threading.get_ident()
    h = _HANDLER.pop(me, None)
    try:
        yield
    finally:
        if h is not None:
            _HANDLER[me] = h


def trace(fn, at):
    """Run fn() calling at(k) at interruption point k = 1, 2, ...; return (result, points)."""
    me = threading.get_ident()
    with enabled():
        h = _HANDLER[me] = [0, {}, at]
        try:
            res = fn()
        finally:
            _HANDLER.pop(me, None)
    return res, h[0]
