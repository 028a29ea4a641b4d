"""C26: the work of searches and calls grows as documented with the number of tensors."""
import random

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import paths

import ref
from core import Sub, Violation, target
from work import Budget, Work

RULE = (
    "families of networks of bounded degree (chains, rings, trees, ladders, local random graphs, hyperedges, disconnected parts, scalars; also with an index on all tensors, or on most and the output, or on half of them) at two numbers of tensors; the work is the number of "
    "control-flow events executed in the library plus the lengths of containers passed to linear-time built-ins (deterministic); its growth must stay below the bound between the documented and the next worse power; "
    "non-trivial = the larger network has at least 200 tensors (or 8 parts)"
)
ASSUMPTIONS = ["every index is on a bounded number of tensors (or on all, or in the output) and every tensor has a bounded number of indices", "work hidden inside C functions other than the listed built-ins is not counted"]
KINDS = ["chain", "ring", "tree", "local", "ladder", "hyper", "parts", "scalars", "comb", "batch", "sumbatch", "outhyper", "hub"]


def make(kind, n, seed, window, legs):
    """index lists per tensor, output and sizes; `legs`: share of tensors with an open leg."""
    rnd = random.Random(seed)
    T = [[] for _ in range(n)]
    k = 0

    def e(*ts):
        nonlocal k
        for t in ts:
            T[t].append(k)
        k += 1

    if kind in ("chain", "ring"):
        for i in range(n - 1):
            e(i, i + 1)
        if kind == "ring":
            e(0, n - 1)
    elif kind == "tree":
        for i in range(1, n):
            e((i - 1) // 2, i)
    elif kind == "ladder":
        for i in range(n - 2):
            e(i, i + 2)
        for i in range(0, n - 1, 2):
            e(i, i + 1)
    elif kind == "comb":
        for i in range(0, n - 2, 2):
            e(i, i + 2)
        for i in range(0, n - 1, 2):
            e(i, i + 1)
    elif kind == "local":
        for i in range(1, n):
            e(rnd.randrange(max(0, i - window), i), i)
    elif kind == "hyper":
        for i in range(0, n - 3, 2):
            e(i, i + 1, i + 2)
    elif kind == "parts":
        for i in range(0, n - 2, 3):
            e(i, i + 1)
            e(i + 1, i + 2)
    if kind in ("batch", "sumbatch", "outhyper", "hub"):
        for i in range(n - 1):
            e(i, i + 1)
    out = []
    if legs:
        for t in range(0, n, max(2, int(1 / legs))):
            T[t].append(k)
            if len(out) < 6:
                out.append(k)
            k += 1
    if kind in ("batch", "sumbatch"):
        e(*range(n))
    elif kind == "outhyper":
        e(*range(1, n))
    elif kind == "hub":
        e(*range(0, n, 2))
    if kind in ("batch", "outhyper"):
        out.append(k - 1)
    sizes = [rnd.choice([2, 3, 4]) for _ in range(k)]
    rnd.shuffle(T) if seed % 2 else None
    return T, out, sizes


def as_sets(T, out, sizes):
    return [frozenset(map(oe.get_symbol, t)) for t in T], frozenset(map(oe.get_symbol, out)), {oe.get_symbol(i): d for i, d in enumerate(sizes)}


def measure(fn, what, limit=None):
    w = Work(limit)
    try:
        with w, target(what):
            fn()
    except Budget:
        pass
    return w.n


@st.composite
def growth(draw):
    return {"who": draw(st.sampled_from(["greedy", "ssa_greedy", "random", "contract_path", "expression", "auto", "greedy-cost", "ssa_to_linear"])),
            "kind": draw(st.sampled_from(KINDS)), "seed": draw(st.integers(0, 999)), "window": draw(st.integers(1, 5)),
            "legs": draw(st.sampled_from([0, 0, 0.2, 0.5])), "reps": draw(st.integers(1, 2))}


# who -> (small n, large n, allowed growth of the work)
RANGE = {
    "greedy": (150, 1200, 13), "ssa_greedy": (150, 1200, 13), "random": (100, 800, 13), "greedy-cost": (150, 1200, 13), "auto": (150, 1200, 13),
    "ssa_to_linear": (150, 1200, 13), "contract_path": (60, 240, 26), "expression": (60, 240, 7),
}


def cost_size(size12, size1, size2, k12, k1, k2):
    return size12 - size1 - size2


def run_once(c, n, limit=None):
    who = c["who"]
    T, out, sizes = make(c["kind"], n, c["seed"], c["window"], c["legs"])
    what = f"{who} on {c['kind']} of {n} tensors"
    if who in ("contract_path", "expression"):
        eq = ",".join("".join(map(oe.get_symbol, t)) for t in T) + "->" + "".join(map(oe.get_symbol, out))
        shapes = [tuple(sizes[i] for i in t) for t in T]
        if who == "contract_path":
            return measure(lambda: oe.contract_path(eq, *shapes, shapes=True, optimize="greedy"), what, limit)
        # all sizes 1: the arrays stay small whatever the path
        shapes = [tuple(1 for _ in t) for t in T]
        with target(what):
            ex = oe.contract_expression(eq, *shapes, optimize="greedy")
        arrs = [np.ones(s) for s in shapes]
        return measure(lambda: ex(*arrs), what, limit)
    ins, o, sz = as_sets(T, out, sizes)
    if who == "greedy":
        return measure(lambda: paths.greedy(ins, o, sz), what, limit)
    if who == "auto":
        return measure(lambda: paths.auto(ins, o, sz), what, limit)
    if who == "ssa_greedy":
        return measure(lambda: paths.ssa_greedy_optimize(ins, o, sz), what, limit)
    if who == "greedy-cost":
        return measure(lambda: paths.ssa_greedy_optimize(ins, o, sz, cost_fn=cost_size), what, limit)
    if who == "ssa_to_linear":
        ssa = paths.ssa_greedy_optimize(ins, o, sz)
        return measure(lambda: paths.ssa_to_linear(ssa), what, limit)
    return measure(lambda: oe.RandomGreedy(max_repeats=c["reps"])(ins, o, sz), what, limit)


def check_growth(c, ctx):
    lo, hi, bound = RANGE[c["who"]]
    if c["kind"] == "hub" and c["who"] not in ("ssa_to_linear", "expression"):
        lo, hi, bound = 50, 200, 26  # quadratic in the number of tensors that share one index
    if c["who"] == "expression" and (c["kind"] in ("hyper", "batch", "sumbatch", "outhyper", "hub") or c["legs"]):
        c = dict(c, kind="chain", legs=0)  # few indices per intermediate
    w1 = run_once(c, lo)
    w2 = run_once(c, hi, limit=int(w1 * bound * 1.5) + 1000)
    if w2 > bound * w1 + 500:
        raise Violation(f"{c}: work grows from {w1} at {lo} tensors to {'more than ' if w2 > w1 * bound * 1.5 else ''}{w2} at {hi} tensors, more than {bound} times")
    ctx.label(c["who"], c["kind"], f"{c["who"]}-{c["kind"]}-ratio-{w2 / max(w1, 1) / (hi / lo):.1f}")
    ctx.nt(hi >= 200)


# ------------------------------------------------------------ dynamic programming over disconnected parts, trials
@st.composite
def parts(draw):
    return {"n": draw(st.integers(2, 6)), "kind": draw(st.sampled_from(["chain", "ring", "tree", "local", "ladder", "hyper"])), "seed": draw(st.integers(0, 999)),
            "window": draw(st.integers(1, 3)), "minimize": draw(st.sampled_from(["flops", "size", "write", "combo", "limit"])), "cap": draw(st.sampled_from([True, False])), "p": draw(st.integers(2, 4))}


def check_parts(c, ctx):
    T, _, sizes = make(c["kind"], c["n"], c["seed"], c["window"], 0)

    def run(copies, limit=None):
        m = len(sizes)
        TT = [[i + m * r for i in t] for r in range(copies) for t in T]
        ins, o, sz = as_sets(TT, [], sizes * copies)
        return measure(lambda: oe.DynamicProgramming(minimize=c["minimize"], cost_cap=c["cap"])(ins, o, sz), f"dp on {copies} copies of {T}", limit)

    lo = c["p"]
    w1 = run(lo)
    w2 = run(4 * lo, limit=int(60 * w1))
    if w2 > 26 * w1 + 500:
        raise Violation(f"{c}: dynamic programming does {w1} steps for {lo} disconnected parts and {w2} for {4 * lo}")
    ctx.label(f"ratio-{w2 / w1:.0f}", c["kind"])
    ctx.nt(4 * lo >= 8)


SUBS = [
    Sub("growth", check_growth, growth, quick=500, thorough=6000, case_timeout=200),
    Sub("parts", check_parts, parts, quick=800, thorough=10000, case_timeout=200),
]
