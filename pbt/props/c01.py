"""C01: contract() returns the mathematical einsum whatever the strategy, BLAS flag or memory limit."""
from math import prod

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import ref
from common import dp_like, limited, make_opt, mem_specs, opt_specs
from core import Sub, Violation, target
from gen import families, graphs, high_rank_nets, in_sequence, nets, with_syms

RULE = (
    "random contractions (0-6 terms per pool, repeated indices, hyperedges, outer products, scalars, size-0/1 axes, "
    "size-1 broadcasting, mixed dtypes and memory layouts) are evaluated with several drawn (optimize, use_blas, memory_limit) "
    "settings and compared exactly with a dense reference; non-trivial = at least 3 terms, or a BLAS-able pair, "
    "with at least one summed index and a non-constant reference value"
)
ASSUMPTIONS = ["integer-valued operands, so float64/complex128 results are exact", "numpy backend"]


@st.composite
def small(draw, n_max=6, bcast=True):
    net = draw(nets(n_min=1, n_max=n_max, zero=True, bcast=bcast, syms="wide"))
    cfgs = draw(st.lists(st.fixed_dictionaries({
        "opt": opt_specs(false=True), "blas": st.booleans(), "mem": mem_specs()}), min_size=1, max_size=4))
    return {
        "net": net, "cfgs": cfgs, "seed": draw(st.integers(0, 10**6)),
        "dtypes": draw(st.lists(st.sampled_from(["int64", "float64", "complex128"]), min_size=1, max_size=2)),
        "lay": draw(st.lists(st.sampled_from(["C", "F", "neg", "strided", "ro"]), min_size=1, max_size=3)),
    }


@st.composite
def large(draw):
    net = with_syms(draw(graphs(n_min=5, n_max=18, size_pool=(1, 2, 2, 3), cap=200000)))
    n = len(net["inputs"])
    names = ["auto", "greedy", "branch-1", "random-greedy"] + (["auto-hq", "dp"] if n <= 10 else []) + (["branch-2"] if n <= 9 else [])
    cfgs = draw(st.lists(st.fixed_dictionaries({
        "opt": st.sampled_from(names), "blas": st.booleans(),
        "mem": st.one_of(st.none(), st.just("max_input"), st.integers(1, 200))}), min_size=1, max_size=2))
    return {"net": net, "cfgs": cfgs, "seed": draw(st.integers(0, 10**6)), "dtypes": [draw(st.sampled_from(["int64", "float64"]))],
            "lay": ["C"], "lo": -1, "hi": 2}


@st.composite
def wide(draw):
    net = with_syms(draw(graphs(n_min=19, n_max=64, kinds=("chain", "ring", "tree", "hyper", "disc", "grid"), size_pool=(1, 2, 2), n_out_max=2)))
    n = len(net["inputs"])
    cfgs = draw(st.lists(st.fixed_dictionaries({
        "opt": st.sampled_from(["auto", "greedy", "random-greedy", "auto-hq"] + (["branch-1"] if n <= 30 else [])), "blas": st.booleans(),
        "mem": st.sampled_from([None, None, None, "max_input"]) if n <= 30 else st.none()}), min_size=1, max_size=2))
    return {"net": net, "cfgs": cfgs, "seed": draw(st.integers(0, 10**6)), "dtypes": ["int64"], "lay": ["C"], "lo": 1, "hi": 3}  # (integers wrap: exact)


@st.composite
def high_rank(draw):
    net = draw(high_rank_nets(twice=draw(st.booleans())))
    cfgs = draw(st.lists(st.fixed_dictionaries({
        "opt": st.sampled_from(["auto", "greedy", "optimal", "dp", "branch-all", False]), "blas": st.booleans(), "mem": st.none()}), min_size=1, max_size=2))
    return {"net": net, "cfgs": cfgs, "seed": draw(st.integers(0, 10**6)), "dtypes": [draw(st.sampled_from(["int64", "float64"]))], "lay": [draw(st.sampled_from(["C", "F"]))]}


def check_wide(case, ctx):
    check(case, ctx, ref.einsum_large)


def feasible(ins, out, path, sz):
    """are the steps of this path small enough to be performed?"""
    terms = list(ins)
    for step in path:
        ops = [terms.pop(k) for k in sorted(step, reverse=True)]
        if len(step) > 2 and len(frozenset().union(*ops)) > 50:
            return False
        u = frozenset().union(*ops)
        if prod(sz[i] for i in u) > 300000 or len(u) > 32:
            return False
        terms.append(u & out.union(*terms))
    return True


def check(case, ctx, reference=ref.einsum):
    net = case["net"]
    n = len(net["inputs"])
    arrays = ref.make_arrays(net, case["dtypes"][0], case["seed"], case.get("lo", -3), case.get("hi", 3), case["lay"])
    if len(case["dtypes"]) > 1:
        arrays = [a if k % 2 == 0 else a.astype(case["dtypes"][1]) for k, a in enumerate(arrays)]
    exp = reference(net, arrays)
    if np.asarray(exp).dtype.kind in "fc" and np.max(np.abs(exp), initial=0) > 2**50:
        return
    eq = ref.eq_of(net)
    for c in case["cfgs"]:
        spec = c["opt"]
        what = f"contract({eq!r}, shapes={[a.shape for a in arrays]}, optimize={spec}, use_blas={c['blas']}, memory_limit={c['mem']})"
        if spec is False and len({i for t in net["inputs"] for i in t}) > 50:
            continue
        if n > 18:
            names = net["syms"]
            ins, sz = [frozenset(names[i] for i in x) for x in net["inputs"]], {names[i]: net["sizes"][i] for x in net["inputs"] for i in x}
            with target("path of " + what):
                path, _ = oe.contract_path(eq, *arrays, optimize=make_opt(spec), memory_limit=c["mem"])
            if not feasible(ins, frozenset(names[i] for i in net["output"]), ref.check_path(path, n, what), sz):
                continue
            ctx.label("many tensors")
        allow = (RuntimeError,) if limited(c["mem"]) and dp_like(spec, n) else ()
        try:
            with target(what, allow=allow):
                got = oe.contract(eq, *arrays, optimize=make_opt(spec), use_blas=c["blas"], memory_limit=c["mem"])
        except RuntimeError:
            ctx.label("dp-memory-rejection")
            continue
        ref.same(got, exp, what)
        ctx.label("opt:" + (spec["cls"] if isinstance(spec, dict) else str(spec)))
    flat = [i for t in net["inputs"] for i in t]
    ctx.label(f"n={n}")
    if net["ones"]:
        ctx.label("broadcast")
    if 0 in [net["sizes"][i] for i in flat]:
        ctx.label("size-0")
    if any(len(set(t)) != len(t) for t in net["inputs"]):
        ctx.label("repeated-in-term")
    if any(sum(i in t for t in net["inputs"]) > 2 for i in set(flat)):
        ctx.label("hyperedge")
    if any(x not in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" for x in eq.replace(",", "").replace("->", "")):
        ctx.label("unicode")
    ctx.nt(n >= 2 and any(i not in net["output"] for i in flat) and exp.size > 0 and bool(np.any(exp != 0)))


SUBS = [
    Sub("small", check, small, quick=16000, thorough=200000, rule="dense index space <= 20000"),
    Sub("sequences", in_sequence(check), lambda: families(small()), quick=4000, thorough=60000,
        rule="2-4 related contractions one after another in one process, each against the reference"),
    Sub("large", check, large, quick=2500, thorough=40000, rule="5-18 tensors, network topologies, sequential reference"),
    Sub("high-rank", check, high_rank, quick=2500, thorough=40000, rule="2-3 operands of up to 20 axes"),
    Sub("wide", check_wide, wide, quick=800, thorough=12000, rule="19-64 tensors (beyond 52 symbols), own elimination as reference", case_timeout=60),
]
