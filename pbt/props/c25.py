"""C25: a failing operation, search or trial reaches the caller and leaves nothing behind (fault injection)."""
import gc
import weakref

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import paths
from opt_einsum.path_random import RandomOptimizer

import fakes
import ref
from common import make_opt, names
from core import Sub, Violation, expect_error, target  # noqa: F401
from gen import any_path, graphs, nets, with_syms
from props import c23

RULE = (
    "the k-th operation of the array library (einsum, tensordot, transpose, transfer to a device), call of a user path finder, cost function, random trial, its set-up or its submission to an executor raises one of "
    "fourteen exceptions, in contract, expressions with constants, sharing contexts and searches; the exception must reach the caller, the operands and constants stay as they were, no array stays alive, and every later use of the same "
    "expression, optimizer, cache or thread gives the correct value; non-trivial = the fault really fired, after at least one successful operation or trial"
)
ASSUMPTIONS = ["a call may also succeed with the correct value if it survives the fault", "the contents of out= after a failed call are unspecified"]


class Custom(Exception):
    pass


class CustomValue(ValueError):
    def __init__(self, a, b):
        super().__init__(a, b)


class Stop(BaseException):
    pass


EXC = {
    "ValueError": lambda: ValueError("injected"),
    "ValueError-empty": lambda: ValueError(),
    "CustomValue": lambda: CustomValue(1, 2),
    "KeyError": lambda: KeyError("injected"),
    "AttributeError": lambda: AttributeError("injected"),
    "ImportError": lambda: ImportError("injected"),
    "RuntimeError": lambda: RuntimeError("injected"),
    "TypeError": lambda: TypeError("injected"),
    "IndexError": lambda: IndexError("injected"),
    "StopIteration": lambda: StopIteration(3),
    "MemoryError": lambda: MemoryError(),
    "Custom": lambda: Custom("injected"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt(),
    "Stop": lambda: Stop(),
}
OPTS = ["auto", "greedy", "optimal", "dp", "branch-2", "branch-1", "branch-all", "auto-hq"]


class Fault:
    """raises at the `at`-th call of tick() after arm()."""

    def __init__(self):
        self.at, self.n, self.exc, self.fired = None, 0, None, False

    def arm(self, at, kind):
        self.at, self.n, self.kind, self.fired = at, 0, kind, False
        self.exc = EXC[kind]()

    def disarm(self):
        self.at = None

    def tick(self):
        if self.at is None:
            return
        self.n += 1
        if self.n == self.at:
            self.at = None
            self.fired = True
            raise self.exc


FAULT = Fault()


class Faulty(fakes.Minimal):
    """array library whose operations tick FAULT before and after computing."""

    def __init__(self, name, einsum):
        super().__init__(name, einsum=einsum)
        self.late = False
        self.ops = 0
        self.made = []

    def _do(self, fn):
        if not self.late:
            FAULT.tick()
        self.ops += 1
        x = fn()
        self.made.append(weakref.ref(x))
        if self.late:
            FAULT.tick()
        return x

    def tensordot(self, x, y, axes=2):
        return self._do(lambda: super(Faulty, self).tensordot(x, y, axes))

    def transpose(self, x, axes):
        return self._do(lambda: super(Faulty, self).transpose(x, axes))

    def einsum(self, eq, *ops):
        return self._do(lambda: super(Faulty, self).einsum(eq, *ops))


LIB = Faulty("vp_faulty", True)
LIBMIN = Faulty("vp_faulty_min", False)
DEV = []


def device():
    if not DEV:
        d = fakes.FakeCupy()
        asarray, get = d.module.asarray, d.Arr.get
        td, es, tr = d.module.tensordot, d.module.einsum, d.module.transpose

        def wrap(f):
            def g(*a, **k):
                FAULT.tick()
                return f(*a, **k)

            return g

        d.module.asarray, d.Arr.get = wrap(asarray), wrap(get)
        d.module.tensordot, d.module.einsum, d.module.transpose = wrap(td), wrap(es), wrap(tr)
        DEV.append(d)
    return DEV[0]


def chain(e):
    out = []
    while e is not None and e not in out:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


def attempt(what, fn, ok):
    """run fn with the armed fault; returns True if the fault reached the caller, else the value is checked by ok()."""
    inj = FAULT.exc
    try:
        r = fn()
    except BaseException as e:
        FAULT.disarm()
        if e is inj or (isinstance(e, type(inj)) and any(x is inj for x in chain(e))):
            # the caller drops the exception, and with it the frames it refers to
            inj.__traceback__ = e.__traceback__ = None
            del e
            return True
        if isinstance(inj, StopIteration) and isinstance(e, RuntimeError) and any(x is inj for x in chain(e)):
            inj.__traceback__ = e.__traceback__ = None
            return True  # python's rule for generators
        if not FAULT.fired or not isinstance(e, Exception):
            raise
        raise Violation(f"{what}: a {type(inj).__name__} was raised inside, the caller got {type(e).__name__}: {str(e)[:200]}") from e
    FAULT.disarm()
    ok(r)
    return False


# ------------------------------------------------------------ contract and expressions
@st.composite
def exec_cases(draw):
    pairs = draw(st.integers(0, 3)) == 0
    if pairs:
        net = draw(nets(n_min=2, n_max=5, pool=7, max_rank=4, cap=1500, repeats=False, dup=False, max_count=2))
        cnt = {i: sum(i in t for t in net["inputs"]) for t in net["inputs"] for i in t}
        net["output"] = [i for i in sorted(cnt) if cnt[i] == 1]
    else:
        net = draw(nets(n_min=1, n_max=5, pool=6, max_rank=4, cap=1500))
    n = len(net["inputs"])
    opt = [list(p) for p in draw(any_path(n, max_arity=3))] if n > 1 and not pairs and draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(OPTS))
    return {"net": net, "lib": draw(st.sampled_from(["min"] if pairs else ["full", "full", "cupy"])), "opt": opt, "blas": draw(st.booleans()),
            "seed": draw(st.integers(0, 999)), "late": draw(st.booleans()),
            "const": sorted(draw(st.one_of(st.just(set()), st.sets(st.integers(0, n - 1), min_size=min(2, n - 1), max_size=n - 1)))),
            "mode": draw(st.sampled_from(["expr", "contract", "shared", "shared-expr"])),
            "faults": draw(st.lists(st.tuples(st.integers(1, 8), st.sampled_from(sorted(EXC))), min_size=1, max_size=3))}


def check_exec(c, ctx):
    net, n = c["net"], len(c["net"]["inputs"])
    cupy = c["lib"] == "cupy"
    lib = LIBMIN if c["lib"] == "min" else LIB
    if cupy:
        device()
    lib.late = c["late"]
    lib.made = []
    eq = ref.eq_of(net)
    opt = c["opt"] if isinstance(c["opt"], str) else [tuple(p) for p in c["opt"]]
    base = ref.make_arrays(net, "float64", c["seed"])
    exp = ref.einsum(net, base)
    kw = {"optimize": opt}
    if lib is LIB:
        kw["use_blas"] = c["blas"]
    wrap = (lambda x: np.array(x)) if cupy else (lambda x: lib.Arr(np.array(x)))
    raw = (lambda x: x) if cupy else (lambda x: x._x)
    what = f"{c['mode']} {eq} shapes={ref.shapes(net)} optimize={opt} constants={c['const']} on {c['lib']}"
    expr = c["mode"] in ("expr", "shared-expr") or cupy
    const = c["const"] if expr else []
    consts = {k: wrap(base[k]) for k in const}
    FAULT.disarm()

    def fresh():
        return [wrap(base[k]) for k in range(n) if k not in consts]

    def ok(r):
        if not cupy and type(r) is not lib.Arr:
            raise Violation(f"{what}: returned a {type(r)}")
        ref.same(raw(r), exp, what)

    if expr:
        args = [consts[k] if k in consts else ref.shapes(net)[k] for k in range(n)]
        with target(what):
            ex = oe.contract_expression(eq, *args, constants=const or None, **kw)
        del args
        call = (lambda ops: ex(*ops, backend="cupy")) if cupy else (lambda ops: ex(*ops))
    else:
        call = lambda ops: oe.contract(eq, *ops, **kw)  # noqa: E731

    def intact(ops, when):
        for k, o in zip([k for k in range(n) if k not in consts], ops):
            if not np.array_equal(raw(o), base[k]):
                raise Violation(f"{what}: operand {k} changed {when}")
        for k, o in consts.items():
            if not np.array_equal(raw(o), base[k]):
                raise Violation(f"{what}: constant {k} changed {when}")

    fired_late = False
    if c["mode"].startswith("shared"):
        ops = fresh()
        with oe.shared_intermediates() as cache:
            for at, kind in c["faults"]:
                FAULT.arm(at, kind)
                if attempt(what, lambda: call(ops), ok):
                    fired_late |= at > 1
                intact(ops, "by a failed call")
                if not oe.sharing.currently_sharing() or oe.sharing.get_sharing_cache() is not cache:
                    raise Violation(f"{what}: the sharing context is gone after a failed call")
            with target(what + " again after a failure"):
                ok(call(ops))
            # everything is memoised now
            before = lib.ops
            with target(what + " again"):
                ok(call(ops))
            if not cupy and lib.ops != before:
                raise Violation(f"{what}: {lib.ops - before} operations repeated in the sharing context after a failed call")
        if oe.sharing.currently_sharing():
            raise Violation(f"{what}: still sharing after the context")
        cache.clear()
    if c["seed"] % 3 == 0:
        # arrays of another rank: whatever happens, later calls are correct
        ops = fresh()
        k = c["seed"] % len(ops)
        ops[k] = wrap(np.ones((2,) * (np.ndim(raw(ops[k])) + 1)))
        try:
            call(ops)
        except Exception:
            ctx.label("wrong-rank")
        del ops
    for at, kind in c["faults"]:
        ops = fresh()
        wr = [weakref.ref(o) for o in ops]
        FAULT.arm(at, kind)
        hit = attempt(what, lambda: call(ops), ok)
        intact(ops, "by a failed call")
        fired_late |= hit and at > 1
        if hit:
            FAULT.exc = None
            ctx.label(kind)
            del ops
            gc.collect()
            if any(w() is not None for w in wr):
                raise Violation(f"{what}: operands stay alive after the exception of a failed call was dropped")
        ops = fresh()
        with target(what + " after a failed call"):
            r = call(ops)
        ok(r)
        intact(ops, "by a call after a failed one")
        del r, ops
    if not cupy:
        if expr:
            del ex, call
        consts.clear()
        gc.collect()
        left = sum(w() is not None for w in lib.made)
        if left and not c["mode"].startswith("shared"):
            raise Violation(f"{what}: {left} intermediates of failed calls stay alive")
    ctx.label(c["mode"], c["lib"])
    ctx.nt(fired_late)


# ------------------------------------------------------------ path finders
@st.composite
def search_cases(draw):
    net = draw(graphs(n_min=3, n_max=9, size_pool=(2, 3, 4, 1)))
    return {"net": net, "who": draw(st.sampled_from(["random", "branch-cost", "greedy-cost", "function", "object", "pool", "random-cost", "submit", "setup"])),
            "reps": draw(st.integers(1, 6)), "calls": draw(st.lists(st.one_of(st.none(), st.tuples(st.integers(1, 12), st.sampled_from(sorted(EXC)))), min_size=1, max_size=4)),
            "minimize": draw(st.sampled_from(["flops", "size"])), "pre": draw(st.integers(1, 8)), "nbranch": draw(st.sampled_from([None, 1, 2])),
            "factor": draw(st.sampled_from([None, 4, 1, 2]))}


class Now:
    """executor that runs a trial when its result is asked for."""

    class F:
        def __init__(self, fn, a):
            self.fn, self.a, self.cancelled_ = fn, a, False

        def result(self):
            if self.cancelled_:
                raise RuntimeError("result of a cancelled trial")
            return self.fn(*self.a)

        def cancel(self):
            self.cancelled_ = True

    def __init__(self, submit_faults=False):
        self.submit_faults = submit_faults

    def submit(self, fn, *a):
        if self.submit_faults:
            FAULT.tick()
        return self.F(fn, a)


def mem_removed(size12, size1, size2, k12, k1, k2):
    FAULT.tick()
    return size12 - size1 - size2


class Trials(RandomOptimizer):
    """a user's random optimizer; trial number r is a deterministic random order."""

    seen = None

    outside = None  # where the fault sits if not in a trial

    def setup(self, inputs, output, size_dict):
        if self.outside == "setup":
            FAULT.tick()
        return self.trial, (inputs, output, size_dict)

    def trial(self, r, inputs, output, size_dict):
        rng = np.random.RandomState(r)
        if not self.outside:
            FAULT.tick()
        live = list(range(len(inputs)))
        path = []
        nxt = len(inputs)
        while len(live) > 1:
            i, j = sorted(rng.choice(len(live), 2, replace=False))
            path.append((live[i], live[j]))
            live = [x for k, x in enumerate(live) if k not in (i, j)] + [nxt]
            nxt += 1
        cost, size = int(rng.randint(1, 50)), int(rng.randint(1, 50))
        self.seen.append((r, cost, size, path))
        return path, cost, size


REGISTERED = []


def finder(i, o, s, memory_limit=None):
    FAULT.tick()
    return [(0, 1)] * (len(i) - 1)


def rank(minimize, cost, size):
    return (cost, size) if minimize == "flops" else (size, cost)


def check_search(c, ctx):
    net = c["net"]
    if c["who"] == "branch-cost":  # exhaustive oracle
        ins = net["inputs"][:6]
        net = dict(net, inputs=ins, output=[i for i in net["output"] if any(i in t for t in ins)])
    net = with_syms(net)
    terms, out = names(net)
    n = len(terms)
    inputs, output = [frozenset(t) for t in terms], frozenset(out)
    sizes = {net["syms"][i]: d for i, d in enumerate(net["sizes"]) if any(i in t for t in net["inputs"])}
    eq = ",".join(terms) + "->" + out
    shapes = [tuple(sizes[ch] for ch in t) for t in terms]
    who = c["who"]
    what = f"{who} on {eq} {shapes} {({k: c[k] for k in ('reps', 'minimize', 'pre', 'nbranch', 'factor')})}"
    FAULT.disarm()
    late = 0

    def valid(path):
        ref.check_path(path, n, what)

    if who in ("random", "pool", "submit", "setup"):
        opt = Trials(max_repeats=c["reps"], minimize=c["minimize"], parallel=Now(who == "submit") if who in ("pool", "submit") else False, pre_dispatch=c["pre"])
        opt.seen = []
        opt.outside = who if who in ("submit", "setup") else None
        for fault in c["calls"]:
            if fault:
                FAULT.arm(*(fault if who != "setup" else (1, fault[1])))
            got = []
            before = len(opt.seen)
            hit = attempt(what, lambda: oe.contract_path(eq, *shapes, shapes=True, optimize=opt)[0], got.append) if fault else False
            if not fault:
                with target(what):
                    got.append(oe.contract_path(eq, *shapes, shapes=True, optimize=opt)[0])
            done = [s for s in opt.seen]
            if list(opt.costs) != [s[1] for s in done] or list(opt.sizes) != [s[2] for s in done]:
                raise Violation(f"{what}: {len(done)} trials finished with costs {[s[1:3] for s in done]}, recorded {list(zip(opt.costs, opt.sizes))}, failed={hit}")
            if done:
                k = min(rank(c["minimize"], s[1], s[2]) for s in done)
                if rank(c["minimize"], opt.best["flops"], opt.best["size"]) != k:
                    raise Violation(f"{what}: best recorded as {opt.best}, the finished trials are {[s[1:3] for s in done]}")
                good = [paths.ssa_to_linear(s[3]) for s in done if rank(c["minimize"], s[1], s[2]) == k]
                if [tuple(p) for p in opt.path] not in [[tuple(p) for p in g] for g in good]:
                    raise Violation(f"{what}: .path is not the path of the best finished trial")
            if hit:
                late += len(done) > 0
                if got:
                    raise Violation("harness")
            else:
                if len(done) - before != c["reps"]:
                    raise Violation(f"{what}: {len(done) - before} trials in a call after {c['calls']}, {c['reps']} configured")
                valid(got[0])
                if [tuple(p) for p in got[0]] != [tuple(p) for p in opt.path]:
                    raise Violation(f"{what}: returned {got[0]}, best {opt.path}")
            rs = [s[0] for s in done]
            if len(set(rs)) != len(rs):
                raise Violation(f"{what}: trial numbers repeated: {rs}")
    elif who in ("function", "object"):
        class Obj(paths.PathOptimizer):
            def __call__(self, i, o, s, memory_limit=None):
                return finder(i, o, s, memory_limit)

        if who == "function" and not REGISTERED:
            paths.register_path_fn("vp-faulty", finder)
            REGISTERED.append(1)
        opt = "vp-faulty" if who == "function" else Obj()
        for fault in c["calls"]:
            if fault:
                FAULT.arm(1, fault[1])
                late += attempt(what, lambda: oe.contract_path(eq, *shapes, shapes=True, optimize=opt)[0], valid)
            else:
                with target(what):
                    path = oe.contract_path(eq, *shapes, shapes=True, optimize=opt)[0]
                if [tuple(sorted(p)) for p in path] != [(0, 1)] * (n - 1):
                    raise Violation(f"{what}: path {path}")
    else:
        if who == "greedy-cost":
            def run():
                return paths.ssa_to_linear(paths.ssa_greedy_optimize(inputs, output, sizes, cost_fn=mem_removed))

            def expected():
                return paths.greedy(inputs, output, sizes)
        elif who == "branch-cost":
            factor = c["factor"]
            opt = oe.BranchBound(nbranch=c["nbranch"], cutoff_flops_factor=factor, minimize=c["minimize"], cost_fn=mem_removed)

            def run():
                return opt(inputs, output, sizes)
        else:
            opt = oe.RandomGreedy(max_repeats=c["reps"], minimize=c["minimize"], cost_fn=mem_removed)

            def run():
                return opt(inputs, output, sizes)
        hits = 0
        for fault in c["calls"] + [None]:
            if fault:
                FAULT.arm(*fault)
                if attempt(what, run, valid):
                    hits += 1
                    late += fault[0] > 1
            else:
                with target(what + (" after a failed search" if hits else "")):
                    path = run()
                ref.check_path(path, n, what)
                if who == "greedy-cost" and [tuple(p) for p in path] != [tuple(p) for p in expected()]:
                    raise Violation(f"{what}: path {path} after a failed search, otherwise {expected()}")
                if who == "branch-cost" and factor is None and c["nbranch"] is None:
                    got, best = c23.key(c["minimize"], *c23.true_cost(net, path)), c23.inner_first_min(inputs, output, sizes, c["minimize"])
                    if got > best:
                        raise Violation(f"{what}: path {path} after a failed search has cost {got}, an order by inner products {best}")
                if who == "random-cost" and len(opt.costs) != len(opt.sizes):
                    raise Violation(f"{what}: {len(opt.costs)} costs, {len(opt.sizes)} sizes")
    ctx.label(who)
    ctx.nt(late > 0)


# ------------------------------------------------------------ faults that leave sharing contexts
@st.composite
def context_cases(draw):
    net = draw(nets(n_min=2, n_max=4, pool=5, max_rank=3, cap=600))
    # contexts entered before the fault; each is fresh (-1) or resumes an earlier cache
    depth = draw(st.integers(1, 4))
    return {"net": net, "enter": [draw(st.integers(-1, k - 1)) for k in range(depth)], "stop": draw(st.integers(0, depth - 1)), "seed": draw(st.integers(0, 999)),
            "fault": [draw(st.integers(1, 4)), draw(st.sampled_from(sorted(EXC) + ["close"]))], "opt": draw(st.sampled_from(OPTS)),
            "rounds": draw(st.integers(1, 3))}


def check_contexts(c, ctx):
    net = c["net"]
    eq, base = ref.eq_of(net), ref.make_arrays(net, "float64", c["seed"])
    exp = ref.einsum(net, base)
    ops = [LIB.Arr(np.array(x)) for x in base]
    LIB.late = False
    at, kind = c["fault"]
    what = f"contract({eq}, {ref.shapes(net)}, optimize={c['opt']}) below sharing contexts {c['enter']}, {kind} at operation {at} caught outside the contexts from number {c['stop']} on"
    FAULT.disarm()
    fired = 0

    def run():
        ref.same(oe.contract(eq, *ops, optimize=c["opt"])._x, exp, what)

    def expect(cache, where):
        with target(what):
            cur = oe.sharing.get_sharing_cache() if oe.sharing.currently_sharing() else None
        if cur is not cache:
            raise Violation(f"{what}: {where}, the thread {'still shares' if cache is None else 'does not share'} {'' if cur is None else 'another cache' if cache is not None else 'intermediates'}")

    def down(k, caches):
        """enter the contexts from number k on; the fault happens inside the innermost."""
        if k == len(c["enter"]):
            if kind == "close":
                yield 1
            FAULT.arm(at, kind if kind != "close" else "Custom")
            run()
            FAULT.disarm()
            return
        j = c["enter"][k]
        with oe.shared_intermediates() if j < 0 else oe.shared_intermediates(caches[j]) as cache:
            expect(cache, "inside a context")
            yield from down(k + 1, caches + [cache])

    def consume(g):
        if kind == "close":
            next(g)
            g.close()  # the generator is abandoned inside its with statements
            return True
        for _ in g:
            pass
        return False

    def outer(k, caches):
        nonlocal fired
        if k == c["stop"]:
            cur = caches[-1] if caches else None
            for _ in range(c["rounds"]):
                FAULT.arm(10**9, "Custom" if kind == "close" else kind)
                FAULT.disarm()
                try:
                    fired += consume(down(k, caches))
                except BaseException as e:
                    if isinstance(e, Violation) or not FAULT.fired:
                        raise
                    inj = FAULT.exc
                    if not any(x is inj for x in chain(e)):
                        raise Violation(f"{what}: the caller got {type(e).__name__}: {str(e)[:200]}") from e
                    fired += 1
                    inj.__traceback__ = None
                FAULT.disarm()
                expect(cur, "after the fault left the inner contexts")
                with target(what + ", then again"):
                    before = LIB.ops
                    run()
                    if cur is None and LIB.ops == before:
                        raise Violation(f"{what}: outside all contexts, a later call computed nothing")
            return
        j = c["enter"][k]
        with oe.shared_intermediates() if j < 0 else oe.shared_intermediates(caches[j]) as cache:
            outer(k + 1, caches + [cache])
            expect(cache, "before an outer context ends")

    with target(what):
        outer(0, [])
    expect(None, "after all contexts")
    FAULT.exc = None
    LIB.made = []
    ctx.label(kind, f"depth {len(c['enter']) - c['stop']}")
    ctx.nt(fired > 0)


SUBS = [
    Sub("execution", check_exec, exec_cases, quick=16000, thorough=150000),
    Sub("contexts", check_contexts, context_cases, quick=6000, thorough=60000, rule="faults that leave one to four nested sharing contexts, or abandon a generator inside them"),
    Sub("search", check_search, search_cases, quick=9000, thorough=60000),
]
