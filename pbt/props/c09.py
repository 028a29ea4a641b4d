"""C09: sharing intermediates never changes a result (random histories)."""
import gc

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import ref
from core import Sub, Violation, target
from props.c10 import bulk, check_bulk

RULE = (
    "histories of up to 14 operations (open a sharing context, fresh or with an earlier cache; close; create, drop and collect arrays; run "
    "contractions through contract / expressions / interleaved / ellipsis input, variants of earlier contractions with permuted operands, "
    "renamed indices, permuted output or another backend, results fed back as operands); every value is compared exactly with the dense "
    "reference; non-trivial = at least two contractions inside one cache that have an operand in common"
)
ASSUMPTIONS = ["operands are not modified in place while shared", "numpy, torch, dask and object backends"]
OPTS = ["auto", "greedy", "optimal", "dp", "branch-2", "random-greedy"]


def pair_st(draw, ranks):
    """two operands summed over k common indices, everything else kept (a tensordot)."""
    a, b = draw(st.integers(0, len(ranks) - 1)), draw(st.integers(0, len(ranks) - 1))
    k = draw(st.integers(0, min(ranks[a], ranks[b])))
    ta = list(range(ranks[a]))
    tb = list(range(k)) + list(range(ranks[a], ranks[a] + ranks[b] - k))
    ta, tb = draw(st.permutations(ta)), draw(st.permutations(tb))
    out = draw(st.permutations([i for i in ta + tb if not (i in ta and i in tb)]))
    return {"slots": [a, b], "terms": [list(ta), list(tb)], "out": list(out)}


def spec_st(draw, ranks, maxterms=4, alpha=5):
    if draw(st.booleans()):
        return pair_st(draw, ranks)
    slots = draw(st.lists(st.integers(0, len(ranks) - 1), min_size=1, max_size=maxterms))
    terms = [draw(st.lists(st.integers(0, alpha - 1), min_size=ranks[s], max_size=ranks[s])) for s in slots]
    used = sorted({i for t in terms for i in t})
    out = draw(st.lists(st.sampled_from(used), unique=True, max_size=3)) if used else []
    return {"slots": slots, "terms": terms, "out": out}


@st.composite
def histories(draw, backend="numpy", max_ops=14):
    d = draw(st.sampled_from([2, 3]))
    ranks = [draw(st.integers(0, 3)) for _ in range(draw(st.integers(1, 3)))]
    arrays = [[r, draw(st.integers(0, 99))] for r in ranks]
    alive = list(range(len(ranks)))
    ops = []
    depth = 0
    caches = 0
    runs = []
    if draw(st.integers(0, 5)):
        ops.append(["enter", -1])
        caches = depth = 1
    for _ in range(draw(st.integers(2, max_ops))):
        kind = draw(st.sampled_from(["run", "run", "variant", "variant", "variant", "enter", "exit", "new", "drop", "churn"]))
        if kind == "enter" and depth < 3:
            k = draw(st.integers(-1, caches - 1))
            ops.append(["enter", k])
            if k < 0:
                caches += 1
            depth += 1
        elif kind == "exit" and depth > 0:
            ops.append(["exit"])
            depth -= 1
        elif kind == "new":
            r = draw(st.integers(0, 3))
            ranks.append(r)
            alive.append(len(ranks) - 1)
            ops.append(["new", r, draw(st.integers(0, 99))])
        elif kind == "drop" and len(alive) > 1:
            v = draw(st.sampled_from(alive))
            # replace the array in a slot by a fresh one of the same rank (its id may be recycled)
            ops.append(["drop", v, draw(st.integers(100, 199))])
        elif kind == "churn":
            # rounds of contractions of short-lived arrays, alone or with a living one
            v = draw(st.sampled_from([-1] + alive))
            r = draw(st.integers(1, 3))
            k = draw(st.integers(0, min(r, ranks[v]))) if v >= 0 else r
            ops.append(["churn", r, draw(st.integers(0, 3)), draw(st.integers(0, 99)), v, k, draw(st.booleans()), draw(st.integers(1, 6))])
        elif kind in ("run", "variant"):
            if kind == "variant" and runs:
                base = runs[draw(st.integers(0, len(runs) - 1))]
                perm = draw(st.permutations(list(range(len(base["slots"])))))
                ren = draw(st.permutations(list(range(8)))) if draw(st.booleans()) else list(range(8))
                out = draw(st.permutations(base["out"])) if draw(st.booleans()) else base["out"]
                sp = {"slots": [base["slots"][p] for p in perm], "terms": [[ren[i] for i in base["terms"][p]] for p in perm],
                      "out": [ren[i] for i in out]}
                if draw(st.booleans()):
                    # other axes of the same array
                    k = draw(st.integers(0, len(sp["slots"]) - 1))
                    sp["terms"][k] = draw(st.permutations(sp["terms"][k]))
                if draw(st.integers(0, 3)) == 3 and sp["slots"]:
                    # same equation on a different array of the same rank
                    k = draw(st.integers(0, len(sp["slots"]) - 1))
                    same = [s for s in alive if ranks[s] == ranks[sp["slots"][k]]]
                    sp["slots"][k] = draw(st.sampled_from(same))
            else:
                sp = spec_st(draw, ranks)
            sp = dict(sp, opt=draw(st.sampled_from(OPTS)), form=draw(st.sampled_from(["str", "str", "expr", "inter", "implicit"])),
                      blas=draw(st.booleans()), keep=draw(st.booleans()), const=draw(st.integers(-1, 2)),
                      be=draw(st.sampled_from(["auto"] * 6 + ["numpy", "dask", "object"])) if backend == "numpy" else "auto")
            runs.append(sp)
            ops.append(["run", sp])
            sp["keep"] = sp["keep"] and len(sp["out"]) <= 3
            if sp["keep"]:
                ranks.append(len(sp["out"]))
                alive.append(len(ranks) - 1)
    return {"d": d, "arrays": arrays, "ops": ops, "backend": backend}


def arr(rank, seed, d):
    return np.random.RandomState(seed).randint(-2, 3, size=(d,) * rank).astype("float64").reshape((d,) * rank)


SY = "abcdefghij"


def run_history(case, ctx):
    d = case["d"]
    backend = case["backend"]
    vals = [arr(r, s, d) for r, s in case["arrays"]]  # plain numpy truth, never handed to the library
    given = [np.array(v) for v in vals]
    if backend == "torch":
        import torch

        conv = lambda x: torch.tensor(np.asarray(x))  # noqa: E731
        given = [conv(v) for v in vals]
    else:
        conv = np.array
    stack, caches = [], []
    shared_runs = {}
    try:
        for op in case["ops"]:
            if op[0] == "enter":
                cm = oe.shared_intermediates() if op[1] < 0 else oe.shared_intermediates(caches[op[1]])
                with target("entering a sharing context"):
                    c = cm.__enter__()
                stack.append((cm, op[1] if op[1] >= 0 else len(caches)))
                if op[1] < 0:
                    caches.append(c)
            elif op[0] == "exit":
                cm, _ = stack.pop()
                cm.__exit__(None, None, None)
            elif op[0] == "new":
                vals.append(arr(op[1], op[2], d))
                given.append(conv(vals[-1]))
            elif op[0] == "drop":
                r = vals[op[1]].ndim
                given[op[1]] = None
                vals[op[1]] = arr(r, op[2], d)
                gc.collect()
                given[op[1]] = conv(vals[op[1]])
            elif op[0] == "churn":
                churn(op, given, vals, d, conv)
            else:
                sp = op[1]
                got, exp, what = do_run(sp, given, vals, d)
                ref.same(got, exp, what + f" at sharing depth {len(stack)}", check_dtype=False)
                if stack:
                    shared_runs.setdefault(stack[-1][1], []).append(set(sp["slots"]))
                if sp["keep"]:
                    vals.append(np.clip(exp, -5, 5))
                    given.append(conv(vals[-1]))
    finally:
        while stack:
            stack.pop()[0].__exit__(None, None, None)
    nt = any(a & b for rs in shared_runs.values() for k, a in enumerate(rs) for b in rs[:k])
    ctx.label(f"depth-caches={len(caches)}")
    ctx.nt(nt)


def churn(op, given, vals, d, conv):
    """contract short-lived arrays whose ids are recycled in the next round."""
    _, r, rounds, seed, v, k, first, m = op
    t1 = list(range(r))
    t2 = None if v < 0 else list(range(k)) + list(range(r, r + vals[v].ndim - k))
    out = [] if t2 is None else t1[k:] + t2[k:]
    terms = [t1] if t2 is None else ([t1, t2] if first else [t2, t1])
    eq = ",".join("".join(SY[i] for i in t) for t in terms) + "->" + "".join(SY[i] for i in out)
    sizes = {i: d for t in terms for i in t}
    for q in range(rounds):
        tmps = [arr(r, seed + 7 * q + x, d) for x in range(m)]
        truth = [t.copy() for t in tmps]
        if conv is not np.array:
            tmps = [conv(t) for t in tmps]
        got = []
        for t in tmps:
            ops = [t] if t2 is None else ([t, given[v]] if first else [given[v], t])
            with target(f"contract({eq}) on a temporary inside sharing"):
                got.append(np.array(oe.contract(eq, *ops)))
        t = ops = None
        tmps.clear()
        for g, x in zip(got, truth):
            a = [x] if t2 is None else ([x, vals[v]] if first else [vals[v], x])
            ref.same(g, ref.einsum_full(terms, out, a, sizes), f"contract({eq}) of a temporary array, round {q}", check_dtype=False)


def do_run(sp, given, vals, d):
    terms, out = sp["terms"], sp["out"]
    ops = [given[s] for s in sp["slots"]]
    truth = [vals[s] for s in sp["slots"]]
    sizes = {i: d for t in terms for i in t}
    lhs = ",".join("".join(SY[i] for i in t) for t in terms)
    eq = lhs + "->" + "".join(SY[i] for i in out)
    form = sp["form"]
    if form == "implicit":
        flat = [i for t in terms for i in t]
        out = sorted(i for i in set(flat) if flat.count(i) == 1)
        if len(out) > 6 or sp["keep"]:
            form, out = "str", sp["out"]
    exp = ref.einsum_full(terms, out, truth, sizes)
    be = sp.get("be", "auto")
    kw = {} if be == "auto" else {"backend": be}
    what = f"{form}:{eq} optimize={sp['opt']} use_blas={sp['blas']} backend={be}"
    with target(what):
        if form == "inter":
            args = []
            for o, t in zip(ops, terms):
                args += [o, list(t)]
            got = oe.contract(*args, list(out), optimize=sp["opt"], use_blas=sp["blas"], **kw)
        elif form == "implicit":
            got = oe.contract(lhs, *ops, optimize=sp["opt"], use_blas=sp["blas"], **kw)
        elif form == "expr":
            n = len(ops)
            const = [sp["const"]] if 0 <= sp["const"] < n and n > 1 else []
            expr = oe.contract_expression(eq, *[o if k in const else tuple(o.shape) for k, o in enumerate(ops)], constants=const,
                                          optimize=sp["opt"], use_blas=sp["blas"])
            got = expr(*[o for k, o in enumerate(ops) if k not in const], **kw)
        else:
            got = oe.contract(eq, *ops, optimize=sp["opt"], use_blas=sp["blas"], **kw)
    if be != "auto":
        root = type(got).__module__.split(".")[0]
        if (root == "dask") != (be == "dask"):
            raise Violation(f"{what}: the result is a {type(got)}")
        if be == "dask":
            got = got.compute(scheduler="synchronous")
        if be == "object":
            got = np.asarray(got).astype("float64")
    return got, exp, what


def np_hist():
    return histories("numpy")


def torch_hist():
    return histories("torch", 10)


SUBS = [
    Sub("bulk", check_bulk, bulk, quick=250, thorough=3000, case_timeout=60, rule="up to 400 contractions in one cache, of arrays kept or dropped"),
    Sub("numpy", run_history, np_hist, quick=30000, thorough=400000),
    Sub("torch", run_history, torch_hist, quick=8000, thorough=80000),
]
