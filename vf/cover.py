"""Which lines of the code under test the workload executed."""
import os
import sys
import warnings

seen = set()
_sent = set()
_root = None


def start(root):
    global _root
    _root = os.path.join(os.path.realpath(root), 'ghedt') + os.sep
    mon = getattr(sys, 'monitoring', None)
    if mon is None or mon.get_tool(mon.COVERAGE_ID) is not None:
        return

    def line(code, number):
        name = code.co_filename
        if name.startswith(_root):
            seen.add((name[len(_root):], number))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, 'vf')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def new():
    """What was not reported by this process so far."""
    x = seen - _sent
    _sent.update(x)
    return x


def lines(path):
    """Numbers of the lines that hold code inside of functions."""
    with open(path) as f:
        text = f.read()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        code = compile(text, path, 'exec')
    out, todo = set(), [c for c in code.co_consts if hasattr(c, 'co_lines')]
    while todo:
        c = todo.pop()
        if c.co_flags & 1:  # a function, not the body of a class
            first = c.co_firstlineno
            out |= {n for _, _, n in c.co_lines() if n and n != first}
        todo += [k for k in c.co_consts if hasattr(k, 'co_lines')]
    return out


def summary(hit):
    files = {}
    for folder, dirs, names in os.walk(_root):
        dirs[:] = [d for d in dirs if d not in ('examples', 'tests')]
        for n in names:
            path = os.path.join(folder, n)
            rel = path[len(_root):]
            if n.endswith('.py'):
                have = lines(path)
                if have:
                    files[rel] = (have & {k for f, k in hit if f == rel}, have)
    return files
