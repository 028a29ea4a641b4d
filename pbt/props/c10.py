"""C10: a sharing context memoises, and only there: nesting, resuming, threads, exceptions, release of memory."""
import gc
import queue
import threading
import weakref

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import sharing

import ref
from core import Sub, Violation, target
from fakes import Counting
from gen import any_path

RULE = (
    "random histories over up to 3 threads of: enter a sharing context (fresh or an earlier cache), leave it normally or through an exception, "
    "run a contraction (new, or an earlier one unchanged / with renamed indices / as one step with permuted operands), "
    "query the state; a stack model predicts whether sharing is on, which cache is current, which cache may grow, and that a repeated "
    "contraction makes no call into the (counting) backend; at the end everything must be garbage-collectable; "
    "non-trivial = a contraction is repeated in the history and at least one context was opened"
)
ASSUMPTIONS = ["the backend is a call-counting wrapper around numpy", "threads take turns at operation granularity"]
B = Counting("vp_counting_c10")
SY = "abcdefghijkl"


class UserError(Exception):
    pass


RAISES = {"error": UserError, "interrupt": KeyboardInterrupt, "generator-exit": GeneratorExit, "system-exit": SystemExit, "stop": StopIteration}


@st.composite
def run_spec(draw, ranks, alpha=5):
    k = draw(st.integers(1, min(4, len(ranks))))  # an array may be used twice
    slots = draw(st.lists(st.integers(0, len(ranks) - 1), min_size=k, max_size=k, unique=draw(st.integers(0, 2)) > 0))
    terms = [draw(st.lists(st.integers(0, alpha - 1), min_size=ranks[s], max_size=ranks[s])) for s in slots]
    used = sorted({i for t in terms for i in t})
    out = draw(st.lists(st.sampled_from(used), unique=True, max_size=3)) if used else []
    return {"slots": slots, "terms": terms, "out": out, "path": draw(any_path(k, singles=False)), "blas": draw(st.booleans()),
            "form": draw(st.sampled_from(["str", "inter", "expr"])), "ren": list(range(7))}


@st.composite
def histories(draw):
    ranks = draw(st.lists(st.integers(0, 3), min_size=2, max_size=4))
    nthreads = draw(st.sampled_from([1, 1, 1, 2, 3]))
    depth = [0] * nthreads
    caches = 0
    runs, ops = [], []
    for _ in range(draw(st.integers(2, 16))):
        th = draw(st.integers(0, nthreads - 1))
        kind = draw(st.sampled_from(["run", "repeat", "repeat", "repeat", "renamed", "permuted", "enter", "enter", "exit", "raise", "query"]))
        if kind == "enter" and depth[th] < 3:
            k = draw(st.integers(-1, caches - 1))
            if draw(st.booleans()):
                k = -1
            ops.append([th, "enter", k])
            caches += k < 0
            depth[th] += 1
        elif kind in ("exit", "raise") and depth[th]:
            ops.append([th, kind] + ([draw(st.sampled_from(sorted(RAISES)))] if kind == "raise" else []))
            depth[th] -= 1
        elif kind == "query":
            ops.append([th, "query"])
        elif kind == "run" or (kind in ("repeat", "renamed", "permuted") and not runs):
            runs.append(draw(run_spec(ranks)))
            ops.append([th, "run", len(runs) - 1])
        elif kind == "repeat":
            ops.append([th, "run", draw(st.integers(0, len(runs) - 1))])
        elif kind == "renamed":
            base = dict(runs[draw(st.integers(0, len(runs) - 1))])
            base["ren"] = draw(st.permutations(list(range(7))))
            runs.append(base)
            ops.append([th, "run", len(runs) - 1])
        elif kind == "permuted":
            base = dict(runs[draw(st.integers(0, len(runs) - 1))])
            n = len(base["slots"])
            base["path"], base["blas"] = [list(range(n))], False
            runs.append(base)
            ops.append([th, "run", len(runs) - 1])
            p = draw(st.permutations(list(range(n))))
            b2 = dict(base, slots=[base["slots"][k] for k in p], terms=[base["terms"][k] for k in p])
            runs.append(b2)
            ops.append([th, "run", len(runs) - 1])
    return {"ranks": ranks, "runs": runs, "ops": ops, "threads": nthreads}


def key_of(sp):
    """contractions with equal keys must be answered from the cache."""
    terms = [list(t) for t in sp["terms"]]
    order = list(range(len(terms)))
    if sp["path"] == [list(range(len(terms)))] and not sp["blas"]:
        order.sort(key=lambda k: sp["slots"][k])  # one einsum step: operand order is irrelevant
    m = {}
    for k in order:
        for i in terms[k]:
            m.setdefault(i, len(m))
    return repr(([sp["slots"][k] for k in order], [[m[i] for i in terms[k]] for k in order], [m[i] for i in sp["out"]], sp["path"], sp["blas"]))


class Lane(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.q, self.r = queue.Queue(), queue.Queue()

    def run(self):
        while True:
            fn = self.q.get()
            if fn is None:
                return
            try:
                self.r.put((fn(), None))
            except BaseException as e:
                self.r.put((None, e))
            del fn

    def do(self, fn):
        self.q.put(fn)
        v, e = self.r.get(timeout=50)
        if e is not None:
            raise e
        return v


def check(case, ctx):
    B.reset()
    lanes = [None] + [Lane() for _ in range(case["threads"] - 1)]
    for ln in lanes[1:]:
        ln.start()
    try:
        wr = body(case, ctx, lanes)
    finally:
        for ln in lanes[1:]:
            ln.q.put(None)
        for ln in lanes[1:]:
            ln.join(20)
    made = B.made
    B.made = []
    gc.collect()
    for w in wr + made:
        if w() is not None:
            raise Violation("an operand or intermediate is still alive after all sharing contexts ended and every cache was dropped")


def body(case, ctx, lanes):
    arrays = [np.random.RandomState(k + 7).randint(-2, 3, size=(2,) * r).astype(float).reshape((2,) * r) for k, r in enumerate(case["ranks"])]
    wr = [weakref.ref(a) for a in arrays]
    stacks = [[] for _ in lanes]  # model: per thread list of (cm, cache id)
    caches, seen, grown = [], [], []
    repeats = opened = 0
    ever = set()

    def on(th, fn):
        return fn() if lanes[th] is None else lanes[th].do(fn)

    try:
        for op in case["ops"]:
            th = op[0]
            if op[1] == "enter":
                k = op[2]
                cm = oe.shared_intermediates() if k < 0 else oe.shared_intermediates(caches[k])
                with target("entering a sharing context"):
                    c = on(th, cm.__enter__)
                if k < 0:
                    if len(c):
                        raise Violation(f"a fresh sharing context starts with {len(c)} cached items")
                    caches.append(c)
                    seen.append(set())
                    grown.append({"einsum": 0, "tensordot": 0, "transpose": 0})
                    k = len(caches) - 1
                elif c is not caches[k]:
                    raise Violation("resuming a sharing cache yields another cache")
                stacks[th].append((cm, k))
                opened += 1
                del cm, c
            elif op[1] == "exit":
                cm, _ = stacks[th].pop()
                with target("leaving a sharing context"):
                    on(th, lambda: cm.__exit__(None, None, None))
                del cm
            elif op[1] == "raise":
                cm, _ = stacks[th].pop()

                exc = RAISES[op[2] if len(op) > 2 else "error"]

                def fail():
                    try:
                        raise exc("x")
                    except exc as e:
                        try:
                            return cm.__exit__(exc, e, e.__traceback__)
                        except exc:
                            return False

                if on(th, fail):
                    raise Violation(f"a sharing context swallows a {exc.__name__}")
                ctx.label("left by " + exc.__name__)
                del cm, fail
            elif op[1] == "run":
                sp = case["runs"][op[2]]
                cid = stacks[th][-1][1] if stacks[th] else None
                before = dict(B.calls)
                lens = [len(c) for c in caches]
                n0 = B.total()
                got, exp, what = on(th, lambda: do_run(sp, arrays))
                used = B.total() - n0
                ref.same(got, exp, what, check_dtype=False)
                key = key_of(sp)
                if cid is None:
                    if used == 0:
                        raise Violation(f"{what}: outside any sharing context no computation took place (stale result)")
                else:
                    if key in seen[cid]:
                        if used:
                            raise Violation(f"{what}: already computed in this sharing cache, but {used} backend calls were made "
                                            f"({ {k: B.calls[k] - before[k] for k in before} })")
                    elif not seen[cid] and used == 0:
                        raise Violation(f"{what}: first contraction in a fresh sharing cache made no backend call")
                    seen[cid].add(key)
                    for k in before:
                        grown[cid][k] += B.calls[k] - before[k]
                for j, c in enumerate(caches):
                    if j != cid and len(c) != lens[j]:
                        raise Violation(f"{what}: run under cache {cid} changed cache {j}")
                repeats += key in ever
                ever.add(key)
            # state after every operation, on every thread
            for t in range(len(lanes)):
                with target("querying the sharing state"):
                    cur = on(t, sharing.currently_sharing)
                if bool(cur) != bool(stacks[t]):
                    raise Violation(f"currently_sharing() is {cur} on thread {t}, which is inside {len(stacks[t])} contexts")
                if stacks[t]:
                    with target("get_sharing_cache"):
                        same = on(t, lambda: sharing.get_sharing_cache() is caches[stacks[t][-1][1]])
                    if not same:
                        raise Violation(f"the current sharing cache of thread {t} is not its innermost one")
        for cid, c in enumerate(caches):
            cnt = sharing.count_cached_ops(c)
            for k, v in grown[cid].items():
                if cnt.get(k, 0) != v:
                    raise Violation(f"count_cached_ops reports {cnt.get(k, 0)} {k} operations, {v} were computed under this cache")
    finally:
        for t in range(len(lanes)):
            while stacks[t]:
                cm, _ = stacks[t].pop()
                on(t, lambda: cm.__exit__(None, None, None))
                del cm
    for t in range(len(lanes)):
        if on(t, sharing.currently_sharing):
            raise Violation("still sharing after the last context ended")
    ctx.label(f"threads={case['threads']}", f"caches={min(len(caches), 4)}", "repeats" if repeats else "no-repeat")
    ctx.nt(repeats > 0 and opened > 0)
    return wr


def do_run(sp, arrays):
    ops = [arrays[s] for s in sp["slots"]]
    terms, out = sp["terms"], sp["out"]
    nm = [SY[sp["ren"][i]] for i in range(7)]
    eq = ",".join("".join(nm[i] for i in t) for t in terms) + "->" + "".join(nm[i] for i in out)
    exp = ref.einsum_full(terms, out, ops, {i: 2 for t in terms for i in t})
    path = [tuple(p) for p in sp["path"]]
    what = f"{sp['form']}:{eq} path={path} use_blas={sp['blas']}"
    with target(what):
        if sp["form"] == "inter":
            args = []
            for o, t in zip(ops, terms):
                args += [o, [sp["ren"][i] for i in t]]
            got = oe.contract(*args, [sp["ren"][i] for i in out], optimize=path, use_blas=sp["blas"], backend=B.name)
        elif sp["form"] == "expr":
            got = oe.contract_expression(eq, *[o.shape for o in ops], optimize=path, use_blas=sp["blas"])(*ops, backend=B.name)
        else:
            got = oe.contract(eq, *ops, optimize=path, use_blas=sp["blas"], backend=B.name)
    return got, exp, what


# ------------------------------------------------------------ many axes, many contractions
@st.composite
def wide(draw):
    kinds = draw(st.lists(st.sampled_from(draw(st.sampled_from(["lrs", "llrrs", "lrsb"]))), min_size=draw(st.sampled_from([3, 3, 12])), max_size=15))  # on the left / right / both and summed / both and kept
    left = draw(st.permutations([i for i, k in enumerate(kinds) if k in "lsb"]))
    right = draw(st.permutations([i for i, k in enumerate(kinds) if k in "rsb"]))
    out = draw(st.permutations([i for i, k in enumerate(kinds) if k in "lrb"]))
    chain = draw(st.integers(0, 30))  # further matrices on a chain of their own
    return {"terms": [list(left), list(right)], "out": list(out), "chain": chain, "blas": draw(st.booleans()), "opt": draw(st.sampled_from(["auto", "greedy", False])),
            "ren": draw(st.integers(0, 20)), "form": draw(st.sampled_from(["contract", "expr"]))}


def check_wide(case, ctx):
    rng = np.random.default_rng(7)
    sym = [oe.get_symbol(i) for i in range(100)]
    terms, out = [list(t) for t in case["terms"]], list(case["out"])
    for k in range(case["chain"] if case["opt"] is not False else 0):
        terms.append([40 + k, 41 + k])
    out += [40, 40 + case["chain"]] if len(terms) > 2 else []
    arrays = [rng.integers(-1, 2, (2,) * len(t)) for t in terms]
    eq1, eq2 = (",".join("".join(s[i] for i in t) for t in terms) + "->" + "".join(s[i] for i in out) for s in (sym, sym[case["ren"]:] + sym[: case["ren"]]))
    kw = {"use_blas": case["blas"], "optimize": case["opt"]}

    def run(eq):
        with target(f"contract({eq}, {kw}) in a sharing context"):
            if case["form"] == "expr" and case["opt"] is not False:
                return oe.contract_expression(eq, *[a.shape for a in arrays], **kw)(*arrays, backend=B.name)
            return oe.contract(eq, *arrays, backend=B.name, **kw)

    B.reset()
    with oe.shared_intermediates() as cache:
        a = run(eq1)
        n0, size = B.total(), len(cache)
        for eq in (eq1, eq2):
            b = run(eq)
            if B.total() != n0 or len(cache) != size:
                raise Violation(f"contract({eq}, {kw}) of arrays of rank {[len(t) for t in terms]} was already computed in this cache, but {B.total() - n0} backend calls were made")
            ref.same(b, a, f"contract({eq}) again in a sharing context")
        with target("count_cached_ops"):
            got = oe.sharing.count_cached_ops(cache)
        if sum(got.values()) != len(cache):
            raise Violation(f"count_cached_ops counts {dict(got)} in a cache of {len(cache)} items")
    B.made = []
    ctx.label(f"rank={max(map(len, terms)) // 5 * 5}+", f"terms={len(terms) // 10 * 10}+")
    ctx.nt(n0 > 0 and max(map(len, terms)) > 2)


@st.composite
def bulk(draw):
    n = draw(st.integers(20, 400))
    return {"n": n, "eqs": draw(st.lists(st.sampled_from(["ab,bc->ac", "ab,bc->ca", "ab,ab->", "ab,ab->ab", "ab->ba", "ab,bc,cd->ad", "ab,cb->abc"]), min_size=1, max_size=3)),
            "keep": draw(st.booleans()), "seed": draw(st.integers(0, 99)), "back": draw(st.lists(st.integers(0, 10**6), min_size=5, max_size=40))}


def check_bulk(case, ctx):
    """a cache does not forget, however much it holds; and however many arrays have come and gone, it never confuses them."""
    rng = np.random.default_rng(case["seed"])
    B.reset()
    held = []

    def run(eq, arrays):
        with target(f"contract({eq}) in a sharing context"):
            return oe.contract(eq, *arrays, backend=B.name)

    with oe.shared_intermediates() as cache:
        for k in range(case["n"]):
            eq = case["eqs"][k % len(case["eqs"])]
            arrays = [rng.integers(-3, 4, (2, 2)).astype(float) for _ in range(eq.count(",") + 1)]
            got = run(eq, arrays)
            ref.same(got, np.einsum(eq, *arrays), f"contraction {k} of {case['n']} in one sharing cache: {eq}", check_dtype=False)
            if case["keep"]:
                held.append((eq, arrays))
            del arrays, got
        n0, size = B.total(), len(cache)
        for k in case["back"] if held else ():
            eq, arrays = held[k % len(held)]
            got = run(eq, arrays)
            ref.same(got, np.einsum(eq, *arrays), f"repeated {eq}", check_dtype=False)
            if B.total() != n0 or len(cache) != size:
                raise Violation(f"contraction {k % len(held)} ({eq}) of {case['n']} computed in a sharing cache was computed again")
        with target("count_cached_ops"):
            cnt = oe.sharing.count_cached_ops(cache)
        if sum(cnt.values()) != len(cache) or (held and cnt["einsum"] + cnt["tensordot"] + cnt["transpose"] < len(held)):
            raise Violation(f"count_cached_ops counts {dict(cnt)} in a cache of {len(cache)} items")
    B.made = []
    ctx.label("kept" if case["keep"] else "dropped")
    ctx.nt(case["n"] > 50)


SUBS = [
    Sub("wide", check_wide, wide, quick=2500, thorough=40000, rule="arrays of up to 15 axes and chains of up to 30 matrices, contracted twice and with renamed indices"),
    Sub("bulk", check_bulk, bulk, quick=300, thorough=4000, case_timeout=60, rule="up to 400 contractions in one cache, of arrays kept or dropped, then some of them again"),
    Sub("histories", check, histories, quick=45000, thorough=500000, case_timeout=80),
]
