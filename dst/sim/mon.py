"""sys.monitoring seam: step counting, exception injection and preemption points inside
the code under test.  Events are armed only on code objects of the product (and, when
asked, of pyparsing/jinja2), so nothing else of the process is slowed or perturbed."""
import ast
import gc
import sys
import types

mon = sys.monitoring
TOOL_STEP = 3
TOOL_LINE = 4
E = mon.events


class StepBudgetExceeded(BaseException):
    pass


_codes = {}


def collect(prefix):
    """All code objects whose file lies under prefix."""
    if prefix in _codes:
        return _codes[prefix]
    out, todo, seen = [], [], set()
    gc.collect()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            todo.append(o.__code__)
    # functions hidden in C containers (partial, lru_cache, property) are gc-tracked too
    while todo:
        c = todo.pop()
        if id(c) in seen:
            continue
        seen.add(id(c))
        if c.co_filename.startswith(prefix):
            out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                todo.append(k)
    out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    _codes[prefix] = out
    return out


class Steps:
    """Deterministic work counter: function starts, generator resumptions and jumps."""
    n = 0
    limit = None


def _step(*_a):
    S = Steps
    S.n += 1
    if S.limit is not None and S.n > S.limit:
        S.limit = None
        raise StepBudgetExceeded(f"more than the allowed number of steps ({S.n})")


def install_steps(prefix):
    mon.use_tool_id(TOOL_STEP, "dst-steps")
    ev = E.PY_START | E.PY_RESUME | E.JUMP
    for e in (E.PY_START, E.PY_RESUME, E.JUMP):
        mon.register_callback(TOOL_STEP, e, _step)
    for c in collect(prefix):
        mon.set_local_events(TOOL_STEP, c, ev)


_quiet = {}


def quiet_lines(filename):
    """(with-headers and lock releases, first lines of finally blocks) of a source file: places
    where the interpreter does not deliver an asynchronous exception by itself (it looks for one
    after calls, at function starts and at backward jumps, not on entry to `__exit__`)."""
    if filename not in _quiet:
        never, fin = set(), set()
        try:
            with open(filename, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                never.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try) and n.finalbody:
                fin.add(n.finalbody[0].lineno)
                if any(isinstance(k, ast.Attribute) and k.attr == "release" for b in n.finalbody for k in ast.walk(b)):
                    never.add(n.lineno)  # between acquire() and the try it belongs to
            elif isinstance(n, ast.Attribute) and n.attr == "release":
                never.add(n.lineno)
        _quiet[filename] = never, fin
    return _quiet[filename]


_cb = None


def _line(code, line):
    if _cb is not None:
        _cb(code, line)


def arm_lines(prefixes, cb, opcodes=False):
    """Call cb(code, position) at every line (or instruction) of the given code."""
    global _cb
    if mon.get_tool(TOOL_LINE) is None:
        mon.use_tool_id(TOOL_LINE, "dst-lines")
    mon.register_callback(TOOL_LINE, E.LINE, _line)
    mon.register_callback(TOOL_LINE, E.INSTRUCTION, _line)
    _cb = cb
    for p in prefixes:
        for c in collect(p):
            mon.set_local_events(TOOL_LINE, c, E.INSTRUCTION if opcodes else E.LINE)


def disarm_lines(prefixes):
    global _cb
    _cb = None
    for p in prefixes:
        for c in collect(p):
            mon.set_local_events(TOOL_LINE, c, 0)
