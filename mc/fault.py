"""Executions of real code under the file-system fault injector: one forked process per execution."""
import ctypes
import errno
import json
import os

COUNT, KILL_BEFORE, KILL_AFTER, TEAR_KILL, FAIL, FAIL_ON, SHORT, SHORT_FAIL_ON = range(8)
KINDS = ["", "open", "open for writing", "write", "read", "close", "fwrite", "fread", "fclose", "fflush", "unlink", "rename", "truncate", "mkdir",
         "sync", "link"]
OPENW, WRITE, READ, FWRITE = 2, 3, 4, 6
NAMES = {KILL_BEFORE: "killed before", KILL_AFTER: "killed after", TEAR_KILL: "killed within", FAIL: "failure of", FAIL_ON: "persistent failure from",
         SHORT: "short", SHORT_FAIL_ON: "short, then persistently failing"}
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.inj_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int]
        _lib.inj_count.restype = ctypes.c_long
        _lib.inj_size.restype = ctypes.c_long
        _lib.inj_kind.argtypes = _lib.inj_size.argtypes = [ctypes.c_long]
    return _lib


class Outcome:
    """end: 'returned', 'raised' or 'killed'; ops: [(kind, size)] performed below the folder; hit: the fault took place."""

    def __init__(self, end, error=None, ops=(), hit=False, value=None):
        self.end, self.error, self.ops, self.hit, self.value = end, error, ops, hit, value


def execute(fn, folder, mode=COUNT, n=-1, arg=0, err=errno.ENOSPC):
    """Runs fn() in a child process whose n-th file-system call below folder meets the given fault."""
    L = lib()
    folder = os.path.realpath(str(folder))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            L.inj_arm(folder.encode(), mode, n, arg, err)
            value = None
            try:
                value = fn()
                res = ("returned", None)
            except BaseException as e:  # noqa
                res = ("raised", f"{type(e).__name__}: {e}")
                e.__traceback__ = None
            L.inj_disarm()
            ops = [(L.inj_kind(i), L.inj_size(i)) for i in range(L.inj_count())]
            with os.fdopen(w, "w") as f:
                json.dump([res[0], res[1], ops, bool(L.inj_hit()) and mode != COUNT, value], f, default=str)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        txt = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
        return Outcome("killed", hit=True)
    if not txt:
        return Outcome("died", error=f"status {st}")
    end, error, ops, hit, value = json.loads(txt)
    return Outcome(end, error, [tuple(o) for o in ops], hit, value)


def tears(size):
    """Lengths at which a write of this size is cut."""
    return sorted({0, 1, size // 2, max(size - 1, 0), min(2880, size), max(size - 2880, 0)} - {size})


def crashes(ops):
    """Every point at which the process can end: before and after each call, and within each write."""
    for n, (kind, size) in enumerate(ops):
        yield KILL_BEFORE, n, 0, 0
        yield KILL_AFTER, n, 0, 0
        if kind in (WRITE, FWRITE):
            for t in tears(size):
                yield TEAR_KILL, n, t, 0


def failures(ops):
    """Every call failing, once or from then on; every write short."""
    for n, (kind, size) in enumerate(ops):
        yield FAIL, n, 0, errno.EIO
        if kind != READ:
            yield FAIL, n, 0, errno.ENOSPC
            yield FAIL_ON, n, 0, errno.ENOSPC
        if kind in (WRITE, FWRITE, READ):
            for t in tears(size):
                if t or kind != READ:
                    if kind != WRITE or t:  # a write of 0 bytes does not occur
                        yield SHORT, n, t, errno.ENOSPC
                    if kind != READ:
                        yield SHORT_FAIL_ON, n, t, errno.ENOSPC


def describe(ops, f):
    mode, n, arg, err = f
    kind, size = ops[n]
    s = f"{NAMES[mode]} file-system call {n} ({KINDS[kind]}{f' of {size} bytes' if size else ''})"
    if mode in (TEAR_KILL, SHORT, SHORT_FAIL_ON):
        s += f" after {arg} bytes"
    if err and mode in (FAIL, FAIL_ON):
        s += f" with {errno.errorcode[err]}"
    return s
