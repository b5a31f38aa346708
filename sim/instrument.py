"""Schedule and fault points inside the package under test, by sys.monitoring.

A fault point is the entry of a function of the package, or of an import it starts.  Points
inside cleanup code (`finally` blocks, handlers that reraise whatever it is, `__exit__`, finalisers) and resumptions of generators
are not fault points: no Python code can promise anything for exceptions raised there.
"""
import ast
import os
import sys

import simsched as sched

TOOL = 3
mon = sys.monitoring
EV = mon.events

package_dir = None
_codes = {}
_finally = {}
mode = 'line'
counts = {'faults': 0}


def setup(directory):
    global package_dir
    package_dir = directory.rstrip('/') + '/'
    mon.use_tool_id(TOOL, 'pdsim')
    mon.register_callback(TOOL, EV.PY_START, on_start)
    mon.register_callback(TOOL, EV.LINE, on_line)
    mon.register_callback(TOOL, EV.INSTRUCTION, on_instruction)


def enable(new_mode):
    """new_mode: None, 'call', 'line' or 'opcode'."""
    global mode
    mode = new_mode
    events = {None: 0, 'call': EV.PY_START, 'line': EV.PY_START | EV.LINE,
              'opcode': EV.PY_START | EV.INSTRUCTION}[new_mode]
    mon.set_events(TOOL, events)


def _stable_id(text):
    import zlib
    return zlib.crc32(text.encode())


def classify(code):
    """0 for foreign code, else a number that identifies the code object; negative: import."""
    try:
        return _codes[code]
    except KeyError:
        pass
    name = code.co_filename
    if name.startswith(package_dir) and '/_mypy_' not in name:
        result = _stable_id(name[len(package_dir):] + ':' + code.co_qualname) | 1
    elif name == '<frozen importlib._bootstrap>' and code.co_name == '_gcd_import':
        result = -1
    else:
        result = 0
    _codes[code] = result
    return result


def on_line(code, line):
    c = classify(code)
    if c <= 0:
        return mon.DISABLE
    s = sched.CURRENT
    if s is not None and s.cur is not None and s.cur.ident == sched.real_get_ident():
        s.point('line', c + line)


def on_instruction(code, offset):
    c = classify(code)
    if c <= 0:
        return mon.DISABLE
    s = sched.CURRENT
    if s is not None and s.cur is not None and s.cur.ident == sched.real_get_ident():
        s.point('opcode', c + offset)


def on_start(code, offset):
    c = classify(code)
    if not c:
        return mon.DISABLE
    s = sched.CURRENT
    if s is None:
        probe = PROBE
        if probe is not None:
            probe[0 if c > 0 else 1] += 1
        return
    if s.cur is None or s.cur.ident != sched.real_get_ident():
        return
    op = s.cur.op
    if op is None:
        return
    s.point('ext' if c < 0 else 'call', c)
    fault = op.fault
    if fault is not None and not op.fired and (c < 0) == (fault['at'] == 'ext'):
        op.seen += 1
        if op.seen >= fault['k'] and ('exc' not in fault or not in_cleanup()):
            op.fired = True
            op.fault_where = f'{os.path.basename(code.co_filename)}:{code.co_qualname}'
            if 'host' in fault:
                ACT(fault['host'])
                return
            if 'query' in fault:
                ASK(fault['query'])
                return
            raise EXCEPTIONS[fault['exc']]('injected')


PROBE = None
ASK = None  # makes a query in the middle of another one
ACT = None  # changes something in the host process


class Interrupt(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


class TooDeep(RecursionError):
    pass


class BadDisk(OSError):
    pass


class Boom(Exception):
    pass


EXCEPTIONS = {c.__name__: c for c in (Interrupt, NoMemory, TooDeep, BadDisk, Boom)}


def in_cleanup():
    frame = sys._getframe(2)
    while frame is not None:
        code = frame.f_code
        if code.co_name in ('__exit__', '__del__', '__aexit__', 'close', 'release'):
            return True
        if classify(code) > 0 and frame.f_lineno in finally_lines(code.co_filename):
            return True
        frame = frame.f_back
    return False


def finally_lines(path):
    try:
        return _finally[path]
    except KeyError:
        pass
    lines = set()
    try:
        with open(path, encoding='utf-8') as file:
            tree = ast.parse(file.read())
        for node in ast.walk(tree):
            if isinstance(node, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
                undoing = [h for h in node.handlers
                           if (h.type is None or isinstance(h.type, ast.Name)
                               and h.type.id == 'BaseException')
                           and isinstance(h.body[-1], ast.Raise) and h.body[-1].exc is None]
                for part in [*node.finalbody, *(p for h in undoing for p in h.body)]:
                    lines.update(range(part.lineno, part.end_lineno + 1))
    except (OSError, SyntaxError):
        pass
    _finally[path] = lines
    return lines
