"""C14: stochastic optimizers keep honest books: the path returned is the best trial, however trials are run."""
import random
import time
from concurrent.futures import Executor, Future

import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import paths
from opt_einsum.path_random import RandomOptimizer, random_greedy, random_greedy_128

import ref
from core import Sub, Violation, expect_error, target
from gen import graphs, nets

RULE = (
    "RandomGreedy on random networks and user-defined RandomOptimizer subclasses with arbitrary (cost, size) trial results are called one or more times, "
    "serially, through recording executors (eager, lazy, out of order) with small pre_dispatch, with settings and executor changed between calls, and on process pools; the recorded trials, best entry "
    "and returned path must match a recomputation from the definitions; non-trivial = at least 2 trials with different outcomes"
)
ASSUMPTIONS = ["a trial is a deterministic function of its number (the library seeds each trial)"]


class Fut(Future):
    def __init__(self, fn, args, kw, lazy):
        super().__init__()
        self.job = (fn, args, kw)
        self.taken = self.cancelled_ = False
        if not lazy:
            self.run()

    def run(self):
        if not super().done():
            fn, args, kw = self.job
            self.set_result(fn(*args, **kw))

    def result(self, timeout=None):
        self.taken = True
        self.run()
        return super().result(timeout)

    def cancel(self):
        self.cancelled_ = True
        return super().cancel()


class Exec(Executor):
    """a pool executor that runs everything in the calling thread and records what it was asked to do."""

    def __init__(self, lazy):
        self.lazy = lazy
        self.made = []
        self.bound = None

    def submit(self, fn, /, *args, **kw):
        f = Fut(fn, args, kw, self.lazy)
        self.made.append(f)
        if self.bound is not None and sum(not x.taken for x in self.made[-self.bound - 1:]) > self.bound:
            raise Violation(f"{self.bound + 1} trials submitted and not yet collected with pre_dispatch={self.bound}")
        return f

    def shutdown(self, *a, **k):
        raise Violation("an executor supplied by the user was shut down by the optimizer")


def lex(minimize, c, s):
    return (c, s) if minimize == "flops" else (s, c)


# ---------------------------------------------------------- user defined
class Scripted(RandomOptimizer):
    def __init__(self, script, **kw):
        super().__init__(**kw)
        self.script = script
        self.asked = []

    def setup(self, inputs, output, size_dict):
        return self.trial, (tuple(inputs), output, size_dict)

    def trial(self, r, inputs, output, size_dict):
        self.asked.append(r)
        c, s = self.script[r % len(self.script)]
        rng = random.Random(r)
        n = len(inputs)
        live = list(range(n))
        ssa = []
        while len(live) > 1:
            a = live.pop(rng.randrange(len(live)))
            b = live.pop(rng.randrange(len(live)))
            ssa.append((a, b))
            live.append(n + len(ssa) - 1)
        self.last = getattr(self, "last", {})
        self.last[r] = tuple(ssa)
        return tuple(ssa), c, s


@st.composite
def scripted(draw):
    pairs = st.tuples(st.integers(1, 5), st.integers(1, 5))
    return {"script": [list(p) for p in draw(st.lists(pairs, min_size=1, max_size=14))], "n": draw(st.integers(3, 6)),
            "reps": draw(st.lists(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), st.integers(9, 150)), min_size=1, max_size=3)), "minimize": draw(st.sampled_from(["flops", "size"])),
            "exec": draw(st.sampled_from(["serial", "eager", "lazy"])), "pre": draw(st.one_of(st.integers(1, 6), st.integers(1, 200))), "via": draw(st.sampled_from(["direct", "contract_path"])),
            "max_time": draw(st.sampled_from([None, None, 1e6]))}


def ssa_lin(ssa, n):
    ids = list(range(n))
    out = []
    for k, st_ in enumerate(ssa):
        pos = tuple(sorted(ids.index(x) for x in st_))
        out.append(pos)
        for p in reversed(pos):
            ids.pop(p)
        ids.append(n + k)
    return out


def check_scripted(case, ctx):
    ex = None if case["exec"] == "serial" else Exec(case["exec"] == "lazy")
    with target("building a RandomOptimizer"):
        o = Scripted(case["script"], max_repeats=case["reps"][0], minimize=case["minimize"], parallel=ex if ex is not None else False, pre_dispatch=case["pre"], max_time=case["max_time"])
    n = case["n"]
    syms = "abcdefgh"
    ins = [frozenset((syms[k], syms[k + 1])) for k in range(n)]
    sizes = {c: 2 for c in syms[: n + 1]}
    out = frozenset((syms[0], syms[n]))
    tot = 0
    what = f"RandomOptimizer(minimize={case['minimize']}, repeats={case['reps']}, executor={case['exec']}, pre_dispatch={case['pre']}, max_time={case['max_time']}) with trial results {case['script']}"
    if ex is not None:
        ex.bound = case["pre"]
    for reps in case["reps"]:
        o.max_repeats = reps
        with target(what):
            if case["via"] == "direct":
                path = o(ins, out, sizes)
            else:
                path, _ = oe.contract_path(",".join(syms[k:k + 2] for k in range(n)) + "->" + syms[0] + syms[n], *[(2, 2)] * n, shapes=True, optimize=o)
        tot += reps
        exp = [tuple(case["script"][r % len(case["script"])]) for r in range(tot)]
        if list(o.costs) != [c for c, _ in exp] or list(o.sizes) != [s for _, s in exp]:
            raise Violation(f"{what}: recorded costs {list(o.costs)} sizes {list(o.sizes)}, trials gave {exp}")
        best = min(range(tot), key=lambda r: lex(case["minimize"], *exp[r]) + (r,))
        got = (o.best["flops"], o.best["size"])
        if got != exp[best]:
            raise Violation(f"{what}: best is {got}, the best trial {best} is {exp[best]}")
        good = [ssa_lin(o.last[r], n) for r in range(tot) if exp[r] == exp[best]]
        lin = [tuple(sorted(p)) for p in path]
        if lin not in good:
            raise Violation(f"{what}: returned path {lin} is not the path of a best trial {good}")
        if [tuple(sorted(p)) for p in o.path] != lin:
            raise Violation(f"{what}: .path is {o.path}, the call returned {path}")
        if sorted(o.asked) != list(range(tot)):
            raise Violation(f"{what}: trials run: {o.asked}")
    ctx.label(case["exec"], case["minimize"], f"calls={len(case['reps'])}")
    ctx.nt(len(set(map(tuple, exp))) > 1)


# ---------------------------------------------------------- RandomGreedy
KW = st.fixed_dictionaries({
    "minimize": st.sampled_from(["flops", "size"]), "temperature": st.sampled_from([1.0, 0.0, 0.3, 5.0]), "rel_temperature": st.booleans(),
    "nbranch": st.sampled_from([8, 1, 2, 3]), "cost_fn": st.sampled_from(["memory-removed-jitter", "memory-removed"])})


@st.composite
def greedy(draw, n_max=14):
    net = draw(st.one_of(graphs(n_min=3, n_max=n_max, size_pool=(2, 3, 1, 4, 7)), graphs(n_min=3, n_max=min(n_max, 8), size_pool=(2, 10**17 + 1, 10**17, 10**120, 3)), nets(n_min=3, n_max=6, pool=5, repeats=False, cap=10**9, syms="plain")))
    return {"net": net, "kw": draw(KW), "reps": draw(st.lists(st.integers(1, 6), min_size=1, max_size=3)),
            "exec": draw(st.sampled_from(["serial", "eager", "lazy"])), "pre": draw(st.integers(1, 5)), "noise": draw(st.integers(0, 5)),
            "max_time": draw(st.sampled_from([None, None, 1e6]))}


def sets_of(net):
    lab = lambda i: chr(97 + i) if i < 26 else chr(192 + i)  # noqa: E731
    return ([frozenset(lab(i) for i in t) for t in net["inputs"]], frozenset(lab(i) for i in net["output"]),
            {lab(i): net["sizes"][i] for t in net["inputs"] for i in t})


def price(net, path):
    ins, out, sz = sets_of(net)
    steps = ref.simulate(ins, out, path, sz)
    return sum(ref.flops_pair(s) for s in steps), max(s["size"] for s in steps)


def check_books(o, net, path, minimize, tot, what):
    if len(o.costs) != tot or len(o.sizes) != tot:
        raise Violation(f"{what}: {len(o.costs)} costs and {len(o.sizes)} sizes recorded for {tot} trials")
    ref.check_path(path, len(net["inputs"]), what, pairwise=True)
    c, s = price(net, path)
    b = min(zip(o.costs, o.sizes), key=lambda x: lex(minimize, *x))
    if (o.best["flops"], o.best["size"]) != b:
        raise Violation(f"{what}: best {(o.best['flops'], o.best['size'])} but the best recorded trial is {b}")
    if (c, s) != b:
        raise Violation(f"{what}: returned path costs {c} flops / largest {s}, the books say {b}")
    if [tuple(x) for x in o.path] != [tuple(x) for x in path]:
        raise Violation(f"{what}: .path differs from the returned path")


def check_greedy(case, ctx):
    net = case["net"]
    ins, out, sz = sets_of(net)
    what = f"RandomGreedy({case['kw']}, repeats {case['reps']}, {case['exec']}, pre_dispatch={case['pre']}, max_time={case['max_time']}) on {ref.eq_of(dict(net, syms=[chr(97 + i) if i < 26 else chr(192 + i) for i in range(len(net['sizes']))]))} {net['sizes']}"
    ex = None if case["exec"] == "serial" else Exec(case["exec"] == "lazy")
    with target(what):
        o = oe.RandomGreedy(max_repeats=case["reps"][0], parallel=ex if ex is not None else False, pre_dispatch=case["pre"], max_time=case["max_time"], **case["kw"])
    tot, prev = 0, None
    for reps in case["reps"]:
        o.max_repeats = reps
        random.seed(case["noise"])  # the caller's RNG state is irrelevant
        with target(what):
            path = o(list(ins), out, dict(sz))
        tot += reps
        check_books(o, net, path, case["kw"]["minimize"], tot, what)
        cur = lex(case["kw"]["minimize"], o.best["flops"], o.best["size"])
        if prev is not None and cur > prev:
            raise Violation(f"{what}: more repeats made the best result worse: {prev} -> {cur}")
        prev = cur
    # one serial optimizer running the same number of trials sees the same trials
    with target(what):
        o2 = oe.RandomGreedy(max_repeats=tot, **case["kw"])
        p2 = o2(list(ins), out, dict(sz))
    if list(o2.costs) != list(o.costs) or list(o2.sizes) != list(o.sizes):
        raise Violation(f"{what}: trials {list(zip(o.costs, o.sizes))}, one serial call gives {list(zip(o2.costs, o2.sizes))}")
    if price(net, p2) != price(net, path):
        raise Violation(f"{what}: serial call returns a path of cost {price(net, p2)}, this one {price(net, path)}")
    if case["kw"]["cost_fn"] == "memory-removed":
        with target("greedy"):
            g = paths.greedy(list(ins), out, dict(sz))
        if price(net, g) != (o.costs[0], o.sizes[0]):
            raise Violation(f"{what}: the first trial costs {(o.costs[0], o.sizes[0])}, the greedy path {price(net, g)}")
        if cur > lex(case["kw"]["minimize"], *price(net, g)):
            raise Violation(f"{what}: result is worse than greedy")
        ctx.label("vs-greedy")
    # another contraction with the same optimizer object is refused
    if case["noise"] == 0 and sz:
        k = sorted(sz)[0]
        other = dict(sz)
        other[k] += 1
        expect_error(f"{what}: reuse for other sizes", lambda: o(list(ins), out, other), (ValueError,))
        expect_error(f"{what}: reuse for other inputs", lambda: o(list(ins)[::-1] + [frozenset()], out, dict(sz)), (ValueError,))
        ctx.label("reuse-refused")
    ctx.label(case["exec"])
    ctx.nt(len(set(zip(o.costs, o.sizes))) > 1)


# ---------------------------------------------------------- settings changed between calls
@st.composite
def settings(draw):
    c = draw(greedy(n_max=9))
    step = st.fixed_dictionaries({"temperature": st.sampled_from([1.0, 0.0, 0.3, 5.0]), "nbranch": st.sampled_from([8, 1, 2, 3]), "rel_temperature": st.booleans(),
                                  "cost_fn": st.sampled_from(["memory-removed-jitter", "memory-removed"])})
    return {"net": c["net"], "minimize": c["kw"]["minimize"], "steps": draw(st.lists(
        st.fixed_dictionaries({"kw": step, "ex": st.sampled_from([None, 0, 1]), "reps": st.integers(1, 5), "pre": st.integers(1, 4)}), min_size=2, max_size=4))}


def check_settings(case, ctx):
    net, steps = case["net"], case["steps"]
    ins, out, sz = sets_of(net)
    execs = [Exec(False), Exec(True)]
    what = f"RandomGreedy(minimize={case['minimize']}) with settings changed between calls {steps} on {ins}->{out} {sz}"
    first = steps[0]
    with target(what):
        o = oe.RandomGreedy(minimize=case["minimize"], max_repeats=first["reps"], **first["kw"])
    tot = 0
    for s in steps:
        ex = None if s["ex"] is None else execs[s["ex"]]
        with target(what):
            o.parallel = False if ex is None else ex
            if (o.parallel is not False) != (ex is not None):
                raise Violation(f"{what}: .parallel reads {o.parallel}")
            for k, v in s["kw"].items():
                setattr(o, k, v)
            o.max_repeats, o.pre_dispatch = s["reps"], s["pre"]
            before = [len(e.made) for e in execs]
            path = o(list(ins), out, dict(sz))
            fresh = oe.RandomGreedy(minimize=case["minimize"], max_repeats=tot + s["reps"], **s["kw"])
            fresh(list(ins), out, dict(sz))
        for k, e in enumerate(execs):
            want = s["reps"] if s["ex"] == k else 0
            if len(e.made) - before[k] != want:
                raise Violation(f"{what}: {len(e.made) - before[k]} trials were submitted to executor {k} in {s}, expected {want}")
        if list(o.costs[tot:]) != list(fresh.costs[tot:]) or list(o.sizes[tot:]) != list(fresh.sizes[tot:]):
            raise Violation(f"{what}: trials {tot}.. gave {o.costs[tot:]}, these settings give {fresh.costs[tot:]}")
        tot += s["reps"]
        check_books(o, net, path, case["minimize"], tot, what)
    ctx.label(f"steps={len(steps)}")
    ctx.nt(len(set(zip(o.costs, o.sizes))) > 1)


# ---------------------------------------------------------- real pools, time limits
@st.composite
def pools(draw):
    c = draw(greedy(n_max=10))
    c["pool"] = draw(st.sampled_from([2, "pool", "time0", "time-inf"]))
    return c


def check_pool(case, ctx):
    from concurrent.futures import ProcessPoolExecutor

    net, reps = case["net"], case["reps"][0] + 2
    ins, out, sz = sets_of(net)
    what = f"RandomGreedy({case['kw']}, max_repeats={reps}, {case['pool']}, pre_dispatch={case['pre']})"
    kw = dict(case["kw"])
    if case["pool"] == "time0" or case["pool"] == "time-inf":
        with target(what):
            o = oe.RandomGreedy(max_repeats=reps, max_time=0 if case["pool"] == "time0" else 1e6, **kw)
            path = o(list(ins), out, dict(sz))
        if not 1 <= len(o.costs) <= reps or (case["pool"] == "time-inf" and len(o.costs) != reps):
            raise Violation(f"{what}: {len(o.costs)} trials")
        check_books(o, net, path, kw["minimize"], len(o.costs), what)
        ctx.nt(len(o.costs) >= 1)
        return
    if case["pool"] == "pool":
        with ProcessPoolExecutor(2) as ex:
            with target(what):
                o = oe.RandomGreedy(max_repeats=reps, parallel=ex, pre_dispatch=case["pre"], **kw)
                path = o(list(ins), out, dict(sz))
    else:
        with target(what):
            o = oe.RandomGreedy(max_repeats=reps, parallel=2, pre_dispatch=case["pre"], **kw)
            path = o(list(ins), out, dict(sz))
            o.parallel = False
    check_books(o, net, path, kw["minimize"], reps, what)
    # (the trials of a worker process are not compared with serial ones: an unpickled set may iterate in
    # another order, which pairs the random numbers with other candidates)
    ctx.label(str(case["pool"]))
    ctx.nt(len(set(o.costs)) > 1)


# ---------------------------------------------------------- number of trials and time
@st.composite
def counts(draw):
    return {"what": draw(st.sampled_from(["default", "named", "named-128", "time", "time", "time-exec"])), "n": draw(st.integers(3, 6)),
            "ms": draw(st.integers(2, 8)), "limit": draw(st.integers(0, 30)), "reps": draw(st.integers(50, 90)),
            "pre": draw(st.integers(1, 3)), "again": draw(st.booleans())}


class Slow(Scripted):
    def trial(self, r, inputs, output, size_dict):
        time.sleep(self.pause)
        return super().trial(r, inputs, output, size_dict)


def check_counts(case, ctx):
    n = case["n"]
    syms = "abcdefgh"
    ins = [frozenset((syms[k], syms[k + 1])) for k in range(n)]
    sizes = {c: 2 for c in syms[: n + 1]}
    out = frozenset((syms[0], syms[n]))
    kind = case["what"]
    ctx.label(kind)
    ctx.nt()
    if kind == "default":
        with target("RandomGreedy()"):
            o = oe.RandomGreedy()
            o(ins, out, sizes)
        if len(o.costs) != 32:
            raise Violation(f"RandomGreedy() ran {len(o.costs)} trials, 32 is documented as the default")
        return
    if kind in ("named", "named-128"):
        # the named strategies are RandomGreedy with 32 / 128 trials: the same path, as every trial is seeded by its number
        reps = 32 if kind == "named" else 128
        ins = [frozenset(syms[(k * j + j) % (n + 1)] for j in range(1, 4)) for k in range(n)]
        sizes = {c: 2 + (k * case["ms"]) % 5 for k, c in enumerate(syms[: n + 1])}
        out = frozenset(sorted(set().union(*ins))[:1])
        with target("random_greedy"):
            o = oe.RandomGreedy(max_repeats=reps)
            want = o(ins, out, sizes)
            got = (random_greedy if kind == "named" else random_greedy_128)(ins, out, sizes)
        if [tuple(p) for p in got] != [tuple(p) for p in want]:
            raise Violation(f"{kind}: {got}, RandomGreedy(max_repeats={reps}) gives {want} on {ins} {out} {sizes}")
        return
    pause, limit = case["ms"] / 1000, case["limit"] / 1000
    ex = Exec(case["pre"] % 2 == 0) if kind == "time-exec" else False
    with target("RandomOptimizer with max_time"):
        o = Slow([(3, 2), (2, 5), (4, 1)], max_repeats=case["reps"], max_time=limit, parallel=ex, pre_dispatch=case["pre"])
        o.pause = pause
        path = o(ins, out, sizes)
    ref.check_path(path, n, "RandomOptimizer with max_time", pairwise=True)
    # each trial lasts at least `pause`: however loaded the machine, at most this many can begin before the limit
    top = case["limit"] // case["ms"] + 1 + (case["pre"] + 1 if ex else 0)
    if not 1 <= len(o.costs) <= top:
        raise Violation(f"max_time={limit}s with trials of at least {pause}s each: {len(o.costs)} trials of {case['reps']} were recorded, at most {top} can begin in time")
    took = len([f for f in ex.made if f.taken]) if ex else len(o.asked)
    if took != len(o.costs) or list(o.costs) != [o.script[r % 3][0] for r in range(took)] or list(o.sizes) != [o.script[r % 3][1] for r in range(took)]:
        raise Violation(f"max_time={limit}s: {took} trials finished, records {o.costs} {o.sizes}")
    if case["again"] and not ex:
        # carry on without a limit: the next trials, none twice
        o.max_time, o.max_repeats, o.pause = None, 3, 0
        with target("a second call after one stopped by max_time"):
            o(ins, out, sizes)
        if o.asked != list(range(took + 3)) or len(o.costs) != took + 3:
            raise Violation(f"after a call stopped by max_time with {took} trials, three more: trials {o.asked}, {len(o.costs)} records")
        b = min(o.costs), min(s for c, s in zip(o.costs, o.sizes) if c == min(o.costs))
        if (o.best["flops"], o.best["size"]) != b:
            raise Violation(f"best {o.best['flops'], o.best['size']}, the best of all trials is {b}")
    if ex:
        left = [f for f in ex.made if not f.taken and not f.cancelled_]
        if left:
            raise Violation(f"max_time={limit}s: {len(left)} of {len(ex.made)} submitted trials were neither used nor cancelled")


SUBS = [
    Sub("scripted", check_scripted, scripted, quick=40000, thorough=400000),
    Sub("random-greedy", check_greedy, greedy, quick=40000, thorough=300000),
    Sub("settings", check_settings, settings, quick=6000, thorough=80000, rule="non-trivial = trials with different outcomes"),
    Sub("counts", check_counts, counts, quick=1200, thorough=8000, rule="default number of trials, named strategies, time limits"),
    Sub("pools", check_pool, pools, quick=600, thorough=4000, case_timeout=120),
]
