"""C03: every path finder terminates with a complete, well-formed contraction path."""
import contextlib
import random
import sys

import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import path_random, paths

import ref
from common import NAMES, cls_specs, dp_like, limited, make_opt
from core import Sub, Violation, target
from gen import families, graphs, in_sequence, nets, sym, with_syms

RULE = (
    "index structures from 2 to 500 tensors (chains, rings, stars, trees, grids, hyperedges, duplicates, disconnected parts, "
    "scalars, batch and dangling indices, sizes 0/1/huge) are given to every named strategy, path function and optimizer class "
    "with drawn options and memory limits; the returned path must be a finite sequence of steps of distinct in-range integer positions "
    "that leaves exactly one tensor; deterministic strategies are asked twice, and asked about the same network under other index names; non-trivial = 3+ tensors"
)
ASSUMPTIONS = [
    "exponential strategies are only driven on small inputs (optimal/branch-all <= 7, dp <= 10 tensors)",
    "termination is judged against a bound of 60M executed source lines of the library, not wall time",
]

FUNCS = {
    "optimal": paths.optimal, "greedy": paths.greedy, "branch": paths.branch, "auto": paths.auto, "auto_hq": paths.auto_hq,
    "dynamic_programming": paths.dynamic_programming, "random_greedy": path_random.random_greedy,
    "random_greedy_128": path_random.random_greedy_128,
}
EXP = {"optimal": 7, "branch-all": 7, "dp": 10, "dynamic-programming": 10, "branch-2": 9, "random-greedy-128": 16,
       "dynamic_programming": 10, "branch": 7, "random_greedy_128": 16, "auto_hq": 11, "auto-hq": 11}
SIZES = st.one_of(st.sampled_from([2, 1, 3, 0, 4]), st.integers(1, 12), st.sampled_from([10**3, 10**6, 2**40, 10**150]))


def tame(net, spec):
    """the cost cap of dynamic programming is raised by factors: a huge dimension means thousands of rounds"""
    name = spec if isinstance(spec, str) else spec["cls"]
    if name in ("DP", "dp", "dynamic-programming", "dynamic_programming", "auto_hq", "auto-hq") and len(net["inputs"]) > 5:
        net["sizes"] = [min(d, 2**40) for d in net["sizes"]]
    return net


def lim(spec):
    if isinstance(spec, dict):
        if spec["cls"] == "DP":
            return 9
        if spec["cls"] == "BranchBound":
            return {None: 7, 1: 30, 2: 9, 3: 7}[spec["kw"]["nbranch"]]
        return 40
    return EXP.get(spec, 40)


@st.composite
def by_name(draw):
    spec = draw(st.one_of(st.sampled_from(NAMES), cls_specs()))
    big = draw(st.booleans())
    top = lim(spec)
    net = draw(st.one_of(
        graphs(n_min=2, n_max=top if big else min(top, 7), size_draw=SIZES),
        nets(n_min=1, n_max=min(top, 6), pool=5, zero=True, repeats=True, bcast=True, cap=10**30, syms="plain"),
    ))
    mem = draw(st.one_of(st.none(), st.none(), st.just("max_input"), st.just(-1), st.integers(1, 200), st.integers(1, 10**7)))
    return {"net": tame(net, spec), "opt": spec, "mem": mem}


@st.composite
def by_fn(draw):
    fn = draw(st.sampled_from(sorted(FUNCS)))
    top = EXP.get(fn, 40)
    net = draw(st.one_of(
        graphs(n_min=2, n_max=top, size_draw=SIZES),
        nets(n_min=2, n_max=min(6, top), pool=5, zero=True, repeats=False, cap=10**30, syms="plain"),
    ))
    kw = {}
    if fn == "greedy":
        kw = draw(st.fixed_dictionaries({"cost_fn": st.sampled_from(["memory-removed", "memory-removed-jitter", "CUSTOM"])}))
    elif fn == "branch":
        kw = draw(st.fixed_dictionaries({
            "nbranch": st.sampled_from([None, 1, 2]), "cutoff_flops_factor": st.sampled_from([4, 1, 1000, None]),
            "minimize": st.sampled_from(["flops", "size"]), "cost_fn": st.sampled_from(["memory-removed", "CUSTOM"])}))
    elif fn == "dynamic_programming":
        kw = draw(st.fixed_dictionaries({
            "minimize": st.sampled_from(["flops", "size", "write", "combo", "limit", "combo-1", "limit-1000"]),
            "cost_cap": st.sampled_from([True, False, 1, 0, 50]), "search_outer": st.booleans()}))
    elif fn == "random_greedy":
        kw = draw(st.fixed_dictionaries({"max_repeats": st.integers(1, 5), "cost_fn": st.sampled_from(["memory-removed", "CUSTOM"]),
                                         "temperature": st.sampled_from([0.0, 1.0, 1e-9, 1e6]), "nbranch": st.integers(1, 9)}))
    return {
        "net": tame(net, fn), "fn": fn, "kw": kw, "frozen": draw(st.booleans()),
        "labels": draw(st.sampled_from(["sym", "int", "word"])),
        "mem": draw(st.one_of(st.none(), st.none(), st.integers(1, 10**4))),
    }


def custom_cost(size12, size1, size2, k12, k1, k2):
    return size12 - 2 * size1 + len(k12)


def deterministic(spec):
    if isinstance(spec, str):
        return True
    return spec["cls"] == "DP" or spec["cls"] == "RandomGreedy" or spec["kw"]["cost_fn"] == "memory-removed"


def check_name(case, ctx):
    net = case["net"]
    n = len(net["inputs"])
    if "syms" not in net:
        net = with_syms(net)
    eq, shp = ref.eq_of(net), ref.shapes(net)
    spec, mem = case["opt"], case["mem"]
    what = f"contract_path({eq}, {shp}, optimize={spec}, memory_limit={mem})"
    random.seed(0)
    try:
        with target(what, allow=(RuntimeError,) if limited(mem) and dp_like(spec, n) else ()):
            path, info = oe.contract_path(eq, *shp, shapes=True, optimize=make_opt(spec), memory_limit=mem)
    except RuntimeError:
        ctx.label("dp-memory-rejection")
        return
    ref.check_path(path, n, what)
    if deterministic(spec):
        random.seed(12345)
        with target(what):
            again, _ = oe.contract_path(eq, *shp, shapes=True, optimize=make_opt(spec), memory_limit=mem)
        if [tuple(p) for p in again] != [tuple(p) for p in path]:
            raise Violation(f"{what}: first {path}, then {again}")
        ctx.label("asked-twice")
    ctx.label(("cls:" + spec["cls"]) if isinstance(spec, dict) else spec, "n>=10" if n >= 10 else "n<10")
    ctx.nt(n >= 3)


def check_fn(case, ctx):
    net = case["net"]
    n = len(net["inputs"])
    lab = {"sym": sym, "int": lambda i: i, "word": lambda i: f"ix{i}"}[case["labels"]]
    mk = frozenset if case["frozen"] else set
    ins = [mk(lab(i) for i in t) for t in net["inputs"]]
    out = mk(lab(i) for i in net["output"])
    sizes = {lab(i): net["sizes"][i] for t in net["inputs"] for i in t}
    kw = dict(case["kw"])
    for k in list(kw):
        if kw[k] == "CUSTOM":
            kw[k] = custom_cost
    mem = case["mem"]
    before = ([set(x) for x in ins], set(out), dict(sizes))
    what = f"{case['fn']}({ins}, {out}, {sizes}, memory_limit={mem}, **{case['kw']})"
    random.seed(0)
    try:
        with target(what, allow=(RuntimeError,) if mem is not None and case["fn"] in ("dynamic_programming", "auto_hq") else ()):
            path = FUNCS[case["fn"]](ins, out, sizes, mem, **kw)
    except RuntimeError:
        ctx.label("dp-memory-rejection")
        return
    ref.check_path(path, n, what)
    if before != ([set(x) for x in ins], set(out), dict(sizes)):
        raise Violation(f"{what}: modified its arguments")
    ctx.label(case["fn"], "labels:" + case["labels"])
    ctx.nt(n >= 3)


# ------------------------------------------------------------------ index names do not matter
UNAMED = {
    "optimal": (6, paths.optimal), "branch-all": (6, paths.branch_all), "branch-2": (8, paths.branch_2), "branch-1": (20, paths.branch_1),
    "greedy": (30, paths.greedy), "dp": (9, paths.dynamic_programming), "auto": (20, paths.auto),
    "dp-outer": (7, lambda *a: paths.dynamic_programming(*a, search_outer=True)),
    "dp-size": (8, lambda *a: paths.dynamic_programming(*a, minimize="size")),
    "dp-nocap": (8, lambda *a: paths.dynamic_programming(*a, cost_cap=False)),
}


@st.composite
def renamed(draw):
    name = draw(st.sampled_from(sorted(UNAMED)))
    top = UNAMED[name][0]
    net = draw(st.one_of(
        graphs(n_min=3, n_max=top, size_pool=(2, 2, 3, 4, 1)),
        nets(n_min=3, n_max=min(7, top), pool=9, repeats=False, cap=10**30, syms="plain"),
    ))
    return {"net": net, "fn": name, "seed": draw(st.integers(0, 10**6)), "kinds": draw(st.sampled_from([["sym", "word"], ["int", "word"], ["sym", "int"], ["word", "word"]]))}


def labels_for(kind, p, rng):
    if kind == "sym":
        return [sym(k) for k in rng.sample(range(p + 60), p)]
    if kind == "int":
        return rng.sample(range(10 * p + 10), p)
    return [f"ix{k}" for k in rng.sample(range(p + 500), p)]


def check_names(case, ctx):
    net = case["net"]
    rng = random.Random(case["seed"])
    p = len(net["sizes"])
    got = []
    for kind in case["kinds"]:
        lab = labels_for(kind, p, rng)
        order = list(range(p))
        rng.shuffle(order)
        ins = [frozenset(lab[i] for i in sorted(t, key=order.index)) for t in net["inputs"]]
        used = {i for t in net["inputs"] for i in t}
        sizes = {lab[i]: net["sizes"][i] for i in order if i in used}
        out = frozenset(lab[i] for i in net["output"])
        with target(f"{case['fn']}({ins}, {out}, {sizes})"):
            got.append(([tuple(s) for s in UNAMED[case["fn"]][1](ins, out, sizes)], (ins, out, sizes)))
    if got[0][0] != got[1][0]:
        raise Violation(f"{case['fn']}: {got[0][1]} gives {got[0][0]}, the same network with other index names {got[1][1]} gives {got[1][0]}")
    ctx.label(case["fn"])
    ctx.nt(len(net["inputs"]) >= 4)


# ------------------------------------------------------------------ many tensors, more than the interpreter may nest calls
STACK = 150
LARGE = ["greedy", "auto", "random", "greedy-limit", "auto-limit", "branch-1", "BranchBound", "parts"]


@contextlib.contextmanager
def shallow_stack(extra=STACK):
    depth, f = 0, sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + extra)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


@st.composite
def large(draw):
    how = draw(st.sampled_from(LARGE))
    branching = how in ("greedy-limit", "auto-limit", "branch-1", "BranchBound")
    return {
        "how": how, "n": draw(st.integers(STACK + 10, 200 if branching else 500)), "seed": draw(st.integers(0, 10**6)),
        "degree": draw(st.integers(2, 3 if branching else 7)), "size": draw(st.sampled_from([2, 3, 9, 1, 1000])),
        "out": draw(st.integers(0, 4)), "hyper": draw(st.sampled_from([0, 0, 3, 8])),
        "kw": draw(st.fixed_dictionaries({"temperature": st.sampled_from([1.0, 0.01, 0.0, 1e9]), "rel_temperature": st.booleans(),
                                          "nbranch": st.sampled_from([8, 2, 1]), "cost_fn": st.sampled_from(["memory-removed", "memory-removed-jitter"])})),
    }


def large_net(case):
    rng = random.Random(case["seed"])
    n = case["n"]
    terms = [[] for _ in range(n)]
    ix = 0
    for _ in range(n * case["degree"] // 2):
        a = rng.randrange(n)
        b = (a + 1 + rng.randrange(3)) % n if case["how"] == "parts" or rng.random() < 0.7 else rng.randrange(n)
        if case["how"] == "parts" and a // 4 != b // 4:
            continue
        for k in {a, b}:
            terms[k].append(ix)
        ix += 1
    for _ in range(case["hyper"]):
        for k in rng.sample(range(n), 5) if case["how"] != "parts" else rng.sample(range(4), 3):
            terms[k].append(ix)
        ix += 1
    used = sorted({i for t in terms for i in t})
    out = rng.sample(used, min(case["out"], len(used)))
    sizes = {i: rng.choice([case["size"], 2]) for i in used}
    return [frozenset(t) for t in terms], frozenset(out), sizes


def check_large(case, ctx):
    ins, out, sizes = large_net(case)
    n, how = len(ins), case["how"]
    biggest = max((ref_size(t, sizes) for t in ins), default=1)
    random.seed(0)
    with target(f"{how} on {n} tensors (case {case})"), shallow_stack():
        if how == "greedy":
            path = paths.greedy(ins, out, sizes)
        elif how == "auto":
            path = paths.auto(ins, out, sizes)
        elif how == "random":
            path = path_random.RandomGreedy(max_repeats=2, **case["kw"])(ins, out, sizes)
        elif how == "greedy-limit":
            path = paths.greedy(ins, out, sizes, biggest * 10)
        elif how == "auto-limit":
            path = paths.auto(ins, out, sizes, biggest * 10)
        elif how == "branch-1":
            path = paths.get_path_fn("branch-1")(ins, out, sizes)
        elif how == "BranchBound":
            path = paths.BranchBound(nbranch=1, minimize="size")(ins, out, sizes)
        else:
            path = paths.dynamic_programming(ins, out, sizes)
    ref.check_path(path, n, f"{how} on {n} tensors (case {case})")
    with target("linear_to_ssa, ssa_to_linear"), shallow_stack():
        back = paths.ssa_to_linear(paths.linear_to_ssa(path))
    if [sorted(s) for s in back] != [sorted(s) for s in path]:
        raise Violation(f"{how} on {n} tensors (case {case}): the path changes when converted to ssa form and back")
    ctx.label("large:" + how)
    ctx.nt()


def ref_size(t, sizes):
    r = 1
    for i in t:
        r *= sizes[i]
    return r


SUBS = [
    Sub("named", check_name, by_name, quick=14000, thorough=250000, case_timeout=90, rule="through contract_path"),
    Sub("sequences", in_sequence(check_name), lambda: families(by_name(), keep=("opt",)), quick=2500, thorough=40000, case_timeout=90,
        rule="2-4 related searches one after another"),
    Sub("functions", check_fn, by_fn, quick=8000, thorough=120000, case_timeout=90, rule="path functions called directly with label sets"),
    Sub("names", check_names, renamed, quick=5000, thorough=80000, case_timeout=90, rule="the same network under two namings of its indices"),
    Sub("large", check_large, large, quick=160, thorough=4000, case_timeout=120,
        rule="160 to 500 tensors, more than the interpreter is allowed to nest calls, with intermediates beyond the range of floats"),
]
