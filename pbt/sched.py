"""A schedule controller: one thread is paused after k executed lines of the library while another runs."""
import os
import sys
import threading

ROOT = os.path.join(os.environ.get("OE_REPO", "/repo"), "opt_einsum")


class Paused(threading.Thread):
    """runs fn, pausing after `pause` executed lines of the library until released."""

    def __init__(self, fn, pause, only=""):
        super().__init__(daemon=True)
        self.fn, self.left, self.only = fn, pause, os.path.join(ROOT, only)
        self.at_pause, self.go = threading.Event(), threading.Event()
        self.res = self.err = None
        self.paused = False

    def _tr(self, frame, event, arg):
        return self._ln if frame.f_code.co_filename.startswith(self.only) else None

    def _ln(self, frame, event, arg):
        self.left -= 1
        if self.left == 0:
            sys.settrace(None)
            self.paused = True
            self.at_pause.set()
            self.go.wait(60)
            return None
        return self._ln

    def run(self):
        if self.left > 0:
            sys.settrace(self._tr)
        try:
            self.res = self.fn()
        except BaseException as e:
            self.err = e
        finally:
            sys.settrace(None)
            self.at_pause.set()


def overlap(fa, fb, pause, only=""):
    """run fa up to `pause` lines, then fb completely (if it can), then the rest of fa.

    -> (thread a, thread b); thread.err / thread.res hold the outcome, None if the two never finish.
    """
    ta = Paused(fa, pause, only)
    ta.start()
    ta.at_pause.wait(60)
    tb = Paused(fb, 0)
    tb.start()
    tb.join(5)  # fb may legitimately wait for a lock that fa holds
    ta.go.set()
    ta.join(60)
    tb.join(60)
    if ta.is_alive() or tb.is_alive():
        return None
    return ta, tb


class Stepped(threading.Thread):
    """runs fn; executes a given number of lines of the library each time it is given the turn."""

    def __init__(self, fn, only=""):
        super().__init__(daemon=True)
        self.fn, self.only = fn, os.path.join(ROOT, only)
        self.quota = 0
        self.go, self.parked = threading.Event(), threading.Event()
        self.res = self.err = None
        self.switches = 0
        self.finished = False

    def _tr(self, frame, event, arg):
        return self._ln if frame.f_code.co_filename.startswith(self.only) else None

    def _ln(self, frame, event, arg):
        if self.quota == 0:
            self._park()
        if self.quota > 0:
            self.quota -= 1
        return self._ln

    def _park(self):
        self.switches += 1
        self.go.clear()
        self.parked.set()
        self.go.wait(60)

    def run(self):
        self._park()
        sys.settrace(self._tr)
        try:
            self.res = self.fn()
        except BaseException as e:
            self.err = e
        finally:
            sys.settrace(None)
            self.finished = True
            self.parked.set()


def interleave(fns, schedule, only="", patience=3):
    """run the functions on one thread each; schedule: [thread, lines] turns, afterwards all run freely one after the other.

    -> the threads, or None if they never finish."""
    ts = [Stepped(f, only) for f in fns]
    for t in ts:
        t.start()
        t.parked.wait(60)
    for k, lines in schedule:
        t = ts[k % len(ts)]
        if t.finished or not t.parked.is_set():
            continue  # done, or still waiting for a lock another thread holds
        t.quota = lines
        t.parked.clear()
        t.go.set()
        t.parked.wait(patience)
    for t in ts:
        t.quota = -1
        t.go.set()
        t.join(patience)
    for t in ts:
        t.join(60)
    return None if any(t.is_alive() for t in ts) else ts
