"""Controlled scheduler for threads running library code: a thread can be preempted before every line (or byte code instruction) of the library, and nowhere else."""
import os
import sys
import threading

LIB = os.path.realpath(os.environ.get("MC_REPO", "/repo")) + "/micropolarray"
MON = sys.monitoring
TOOL = 3
INF = 1 << 60
STALL = 5.0  # seconds without any progress: the running thread waits for something the other one holds


class Stalled(Exception):
    pass


class _Sched:
    def __init__(self, tasks, schedule):
        self.tasks = tasks
        self.schedule = list(schedule)  # (thread, steps) segments; afterwards the threads run to their ends in order
        self.locks = [threading.Lock() for _ in tasks]
        for l in self.locks:
            l.acquire()
        self.done = [False] * len(tasks)
        self.steps = [0] * len(tasks)
        self.results = [None] * len(tasks)
        self.end = threading.Event()
        self.current = None
        self.budget = INF
        self.free = False
        self.ids = {}
        self.preemptions = 0
        self.where = []

    def next(self):
        """Chooses who runs now."""
        while self.schedule:
            t, n = self.schedule.pop(0)
            if not self.done[t] and n > 0:
                self.current, self.budget = t, n
                return t
        for t, d in enumerate(self.done):
            if not d:
                self.current, self.budget = t, INF
                return t
        self.current = None
        return None

    def point(self, t, code, line):
        self.steps[t] += 1
        if self.free:
            return
        if self.budget <= 0:
            self.preemptions += 1
            self.where.append(f"{os.path.basename(code.co_filename)}:{line}")
            n = self.next()
            if n != t:
                self.locks[n].release()
                self.locks[t].acquire()
        self.budget -= 1

    def body(self, t):
        self.locks[t].acquire()
        self.ids[threading.get_ident()] = t
        try:
            self.results[t] = ("ok", self.tasks[t]())
        except BaseException as e:  # noqa
            self.results[t] = ("raised", f"{type(e).__name__}: {e}")
        finally:
            del self.ids[threading.get_ident()]
            self.done[t] = True
            if not self.free:
                n = self.next()
                if n is None:
                    self.end.set()
                else:
                    self.locks[n].release()
            elif all(self.done):
                self.end.set()


_active = None
_installed = set()


def _event(code, at):
    if not code.co_filename.startswith(LIB):
        return MON.DISABLE
    s = _active
    if s is None:
        return None
    t = s.ids.get(threading.get_ident())
    if t is not None:
        s.point(t, code, at)
    return None


def _install(fine):
    ev = MON.events.INSTRUCTION if fine else MON.events.LINE
    if ev not in _installed:
        if not _installed:
            MON.use_tool_id(TOOL, "schedule")
        MON.register_callback(TOOL, MON.events.LINE, _event)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _event)
        MON.set_events(TOOL, ev)
        _installed.clear()
        _installed.add(ev)


def uninstall():
    if _installed:
        MON.set_events(TOOL, 0)
        MON.free_tool_id(TOOL)
        _installed.clear()


def run(tasks, schedule, fine=False):
    """Runs the tasks in threads under the schedule; returns the scheduler (results, steps, preemptions)."""
    global _active
    _install(fine)
    s = _Sched(tasks, schedule)
    th = [threading.Thread(target=s.body, args=(t,), daemon=True) for t in range(len(tasks))]
    for t in th:
        t.start()
    _active = s
    try:
        s.locks[s.next()].release()
        last = None
        idle = 0
        while not s.end.wait(STALL):
            now = tuple(s.steps)
            if now == last:
                idle += 1
                if idle > 12:
                    raise Stalled(f"the threads wait for each other, last preempted at {s.where}")
                if s.free:
                    continue
                # the running thread is blocked by a preempted one: let all of them go on
                s.free = True
                for t, l in enumerate(s.locks):
                    if l.locked():
                        try:
                            l.release()
                        except RuntimeError:
                            pass
            else:
                idle = 0
            last = now
        for t in th:
            t.join(30)
    finally:
        _active = None
    return s
