"""Search engine shared by all property modules.

A property module (props/cNN.py) exports SUBS, a list of `Sub`s.  A Sub is a
generator of JSON-able cases (a hypothesis strategy, or a finite enumeration)
and an explicit oracle `check(case, ctx)`.

  * the oracle reports a broken property only by raising `Violation`;
  * calls into the code under test on *valid* input are wrapped in `target(..)`,
    which turns an unexpected exception into a Violation;
  * an exception that escapes from the library anywhere else is a Violation too (every generated case is valid);
  * any other exception is an error of the harness (exit 2, never a VIOLATION).
"""
import gc
import hashlib
import json
import os
import signal
import sys
import time
import traceback

HYP_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup_path():
    # appended LAST: numpy, torch, ... keep coming from the project's venv
    if HYP_PATH not in sys.path:
        sys.path.append(HYP_PATH)


setup_path()
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402
from hypothesis import seed as hseed  # noqa: E402


class Violation(Exception):
    """The property does not hold on this case."""


class Inconclusive(Exception):
    """This case decides nothing (out of domain / resources)."""


class CaseTimeout(BaseException):
    pass


class StopSearch(BaseException):
    pass


class target:
    """`with target("what"):` - code under test on valid input: must not raise."""

    def __init__(self, what, allow=()):
        self.what = what
        self.allow = tuple(allow)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, (Violation, Inconclusive, CaseTimeout, StopSearch)):
            return False
        if not issubclass(et, Exception):
            return False
        if issubclass(et, MemoryError):
            raise Inconclusive("out of memory") from ev
        if issubclass(et, hypothesis.errors.HypothesisException):
            return False
        if self.allow and issubclass(et, self.allow):
            return False
        raise Violation(f"{self.what}: raised {et.__name__}: {str(ev)[:300]}") from ev


def expect_error(what, fn, errors=(ValueError, TypeError)):
    """fn() must raise one of `errors`."""
    try:
        r = fn()
    except errors:
        return
    except (Violation, Inconclusive):
        raise
    except MemoryError as e:
        raise Inconclusive("oom") from e
    except Exception as e:
        raise Violation(f"{what}: expected {[x.__name__ for x in errors]}, got {type(e).__name__}: {str(e)[:200]}") from e
    raise Violation(f"{what}: expected {[x.__name__ for x in errors]}, but it returned {repr(r)[:200]}")


class Ctx:
    """What the oracle records about one case."""

    def __init__(self):
        self.is_nt = False
        self.labels = []

    def nt(self, cond=True):
        if cond:
            self.is_nt = True

    def label(self, *names):
        self.labels.extend(names)


class Sub:
    def __init__(self, name, check, strategy=None, cases=None, quick=1000, thorough=None, rule="", case_timeout=60):
        self.name = name
        self.check = check
        self.strategy = strategy  # hypothesis strategy, or a callable returning it
        self.cases = cases  # callable -> iterable of cases (finite enumeration)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.case_timeout = case_timeout


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_jdef)


def _jdef(o):
    if hasattr(o, "item"):
        return o.item()
    raise TypeError(type(o))


def derive_seed(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Fuel:
    """Deterministic work bound: counts executed lines of the code under test."""

    def __init__(self, limit, root):
        self.limit = limit
        self.root = root
        self.n = 0

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self._line

    def _line(self, frame, event, arg):
        self.n += 1
        if self.n > self.limit:
            sys.settrace(None)
            raise CaseTimeout()
        return self._line


FUEL_LIMIT = 60_000_000
LIB_ROOT = os.path.realpath(os.path.join(os.environ.get("OE_REPO", "/repo"), "opt_einsum")) + os.sep


def from_library(e):
    """was this exception raised inside the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(LIB_ROOT):
            return True
        tb = tb.tb_next
    return False


def guarded_check(sub, case, ctx):
    """an exception that escapes from the library on an (always valid) generated case breaks the property too."""
    try:
        sub.check(case, ctx)
    except (Violation, Inconclusive, MemoryError, hypothesis.errors.HypothesisException):
        raise
    except Exception as e:
        if from_library(e):
            raise Violation(f"unexpected {type(e).__name__} from the library: {str(e)[:300]}") from e
        raise


def run_one(sub, case, ctx=None, fuel=False):
    """Run the oracle on one JSON-normalised case."""
    ctx = ctx or Ctx()
    case = json.loads(dumps(case))
    if fuel:
        root = os.path.join(os.environ.get("OE_REPO", "/repo"), "opt_einsum")
        with Fuel(FUEL_LIMIT, root):
            guarded_check(sub, case, ctx)
    else:
        guarded_check(sub, case, ctx)
    return ctx


class Worker:
    def __init__(self, pid, mod, seed, tier, widx, nworkers, scale, cap_s, out):
        self.pid, self.mod, self.seed, self.tier = pid, mod, seed, tier
        self.widx, self.nworkers, self.scale, self.cap_s, self.out = widx, nworkers, scale, cap_s, out
        self.trail = []
        self.res = {
            "evaluations": 0,
            "nontrivial_hashes": [],
            "labels": {},
            "samples": {},
            "per_sub": {},
            "skipped_after_cap": 0,
            "inconclusive": 0,
            "violation": None,
            "timeout": None,
            "error": None,
        }

    def run(self):
        subs = self.mod.SUBS
        total_w = sum(max(1, self._budget(s)) ** 0.5 for s in subs)
        t_end_prev = time.time()
        # the imported libraries' objects need not be scanned by the checks' gc.collect() calls
        gc.collect()
        gc.freeze()
        try:
            for sub in subs:
                share = self.cap_s * (max(1, self._budget(sub)) ** 0.5) / total_w
                t_end_prev = max(t_end_prev, time.time()) + share
                self._run_sub(sub, t_end_prev)
                if self.res["violation"] or self.res["timeout"] or self.res["error"]:
                    break
        except Exception:
            self.res["error"] = traceback.format_exc()
        self._write()

    def _write(self):
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(self.res, f, default=_jdef)
        os.replace(tmp, self.out)

    def _budget(self, sub):
        n = sub.quick if self.tier == "quick" else sub.thorough
        return int(n * self.scale)

    def _run_sub(self, sub, t_end):
        st = {"evaluations": 0, "nontrivial": 0, "wall_s": 0.0}
        self.res["per_sub"][sub.name] = st
        seen = set()
        trail = self.trail  # every case so far: a failure may depend on what ran before
        failing = {"best": None, "first_t": None, "msg": None}
        t0 = time.time()

        def on_alarm(signum, frame):
            raise CaseTimeout()

        signal.signal(signal.SIGALRM, on_alarm)

        def body(case):
            if failing["best"] is None and time.time() > t_end:
                self.res["skipped_after_cap"] += 1
                return
            if failing["first_t"] is not None and time.time() - failing["first_t"] > 45:
                raise StopSearch()
            js = dumps(case)
            case = json.loads(js)
            ctx = Ctx()
            counting = failing["best"] is None
            if counting:
                trail.append((sub.name, js))
            if counting:
                self.res["evaluations"] += 1
                st["evaluations"] += 1
            gc.freeze()  # keeps the checks' own gc.collect() calls cheap
            signal.setitimer(signal.ITIMER_REAL, sub.case_timeout)
            try:
                guarded_check(sub, case, ctx)
            except Inconclusive:
                self.res["inconclusive"] += 1
                return
            except CaseTimeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
                if failing["best"] is None:
                    self.res["timeout"] = {"sub": sub.name, "case": case}
                raise StopSearch()
            except Violation as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                if failing["best"] is None or len(js) <= len(failing["best"]):
                    failing["best"], failing["msg"] = js, str(e)
                if failing["first_t"] is None:
                    failing["first_t"] = time.time()
                    failing["first"] = js
                raise
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if counting:
                for lb in ctx.labels:
                    k = f"{sub.name}:{lb}"
                    self.res["labels"][k] = self.res["labels"].get(k, 0) + 1
                if ctx.is_nt:
                    h = hashlib.blake2b((sub.name + js).encode(), digest_size=8).hexdigest()
                    if h not in seen:
                        seen.add(h)
                        st["nontrivial"] += 1
                        sm = self.res["samples"].setdefault(sub.name, [])
                        if len(sm) < 40 and len(js) < 1500 and st["nontrivial"] % 17 == 3:
                            sm.append(case)
                        elif not sm:
                            sm.append(case)

        try:
            if sub.cases is not None:
                for k, case in enumerate(sub.cases(self.tier)):
                    if k % self.nworkers == self.widx:
                        body(case)
            else:
                n = self._budget(sub)
                n = max(1, (n + self.nworkers - 1) // self.nworkers)
                strat = sub.strategy() if callable(sub.strategy) and not hasattr(sub.strategy, "map") else sub.strategy
                sd = derive_seed(self.seed, self.pid, sub.name, self.widx)

                @hseed(sd)
                @settings(
                    max_examples=n,
                    database=None,
                    deadline=None,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck),
                    report_multiple_bugs=False,
                    print_blob=False,
                    verbosity=Verbosity.quiet,
                )
                @given(strat)
                def prop(case):
                    body(case)

                prop()
        except (Violation, StopSearch):
            pass
        except hypothesis.errors.Unsatisfiable:
            self.res["error"] = f"strategy of {sub.name} produced nothing"
        except hypothesis.errors.HypothesisException:
            if failing["best"] is None:
                self.res["error"] = traceback.format_exc()
        except BaseExceptionGroup:  # noqa: F821
            if failing["best"] is None:
                self.res["error"] = traceback.format_exc()
        except Exception:
            if failing["best"] is None:
                self.res["error"] = f"sub {sub.name}\n" + traceback.format_exc()
        if failing["best"] is not None:
            self.res["violation"] = {"sub": sub.name, "case": json.loads(failing["best"]), "msg": failing["msg"],
                                     "first": json.loads(failing["first"]), "trail": [[n, json.loads(x)] for n, x in trail[:-1]]}
        st["wall_s"] = round(time.time() - t0, 2)
        self.res["nontrivial_hashes"].extend(sorted(seen))
