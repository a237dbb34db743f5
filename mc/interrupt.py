"""Interrupts library code: an exception of choice is raised before the n-th line of the library executed by a call.

Lines where no code can protect itself are left out: the heads of with and try statements (they are passed again on leaving), and
the clean-up itself (except and finally blocks)."""
import ast
import os
import sys

LIB = os.path.realpath(os.environ.get("MC_REPO", "/repo")) + "/micropolarray"
MON = sys.monitoring
TOOL = 4
_at = None      # line event at which the exception is raised, None when off
_count = 0
_exc = None
_where = None
_installed = False
_pid = 0        # forked children run undisturbed


_left_out = {}


def left_out(path):
    if path not in _left_out:
        r = set()
        with open(path) as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.With):
                r.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                r.update(range(n.lineno, n.body[0].lineno))
                for b in n.handlers:
                    r.update(range(b.lineno, b.end_lineno + 1))
                if n.finalbody:
                    r.update(range(n.finalbody[0].lineno - 1, n.end_lineno + 1))
        _left_out[path] = r
    return _left_out[path]


class Interrupt(KeyboardInterrupt):
    pass


class OutOfMemory(MemoryError):
    pass


def _line(code, n):
    global _count, _where
    if not code.co_filename.startswith(LIB):
        return MON.DISABLE
    if _at is None or os.getpid() != _pid:
        return None
    _count += 1
    if _count == _at and n not in left_out(code.co_filename):
        _where = f"{os.path.basename(code.co_filename)}:{n}"
        raise _exc(_where)


def install():
    global _installed
    if not _installed:
        MON.use_tool_id(TOOL, "interrupt")
        MON.register_callback(TOOL, MON.events.LINE, _line)
        MON.set_events(TOOL, MON.events.LINE)
        _installed = True


def uninstall():
    global _installed
    if _installed:
        MON.set_events(TOOL, 0)
        MON.free_tool_id(TOOL)
        _installed = False


def run(fn, at=1 << 60, exc=Interrupt):
    """Returns (ended, value or exception, lines executed, place); ended: 'returned', 'interrupted' (the exception came out) or 'raised' (another one)."""
    global _at, _count, _exc, _where, _pid
    install()
    _pid = os.getpid()
    _at, _count, _exc, _where = at, 0, exc, None
    try:
        v = fn()
        _at = None
        return "returned", v, _count, _where
    except exc as e:
        _at = None
        e.__traceback__ = None
        return "interrupted", e, _count, _where
    except Exception as e:  # noqa
        _at = None
        e.__traceback__ = None
        return "raised", e, _count, _where
    finally:
        _at = None
