"""Deterministic measure of work: control-flow events of the library's Python code, plus the lengths of containers it hands to linear-time built-ins."""
import heapq
import sys

from core import LIB_ROOT

MON = sys.monitoring
EV = MON.events
TOOL = 4
SCANS = {sorted, min, max, sum, any, all, list, tuple, set, frozenset, dict, heapq.heapify}
SCAN_METHODS = {"index", "remove", "count", "copy", "sort", "insert"}
SIZED = (list, tuple, set, frozenset, dict)


class Budget(BaseException):
    pass


class Work:
    """`with Work() as w: ...` then w.n; raises Budget inside when more than `limit`."""

    def __init__(self, limit=None):
        self.n, self.limit = 0, limit

    def __enter__(self):
        MON.use_tool_id(TOOL, "vp-work")
        limit = self.limit or 10**12

        def event(code, *a):
            if not code.co_filename.startswith(LIB_ROOT):
                return MON.DISABLE
            self.n += 1
            if self.n > limit:
                MON.set_events(TOOL, 0)
                raise Budget()

        def call(code, off, fn, arg0):
            if not code.co_filename.startswith(LIB_ROOT):
                return MON.DISABLE
            if isinstance(arg0, SIZED):
                try:
                    scan = fn in SCANS
                except TypeError:
                    scan = False
                if scan or getattr(fn, "__name__", None) in SCAN_METHODS:
                    self.n += len(arg0)

        for e in (EV.PY_START, EV.PY_RESUME, EV.JUMP, EV.BRANCH):
            MON.register_callback(TOOL, e, event)
        MON.register_callback(TOOL, EV.CALL, call)
        MON.restart_events()
        MON.set_events(TOOL, EV.PY_START | EV.PY_RESUME | EV.JUMP | EV.BRANCH | EV.CALL)
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        for e in (EV.PY_START, EV.PY_RESUME, EV.JUMP, EV.BRANCH, EV.CALL):
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
        return False
