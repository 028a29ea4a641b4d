"""C02: any valid explicit path gives the same result, and returned paths can be replayed."""
import copy
import random
from math import prod

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import ref
from common import CHEAP, make_opt
from core import Inconclusive, Sub, Violation, target
from gen import any_path, graphs, nets, with_syms

RULE = (
    "random contractions with random valid explicit paths (pairwise, many-term and single-term steps, any order of positions inside a step), "
    "as list/tuple of list/tuple, through contract, contract_expression and replay of contract_path's own path; compared exactly with the dense "
    "reference; non-trivial = 3+ terms with a summed index and a nonzero result"
)
ASSUMPTIONS = ["integer-valued operands: comparisons are exact"]


@st.composite
def cases(draw):
    net = draw(nets(n_min=1, n_max=7, pool=7, zero=True, bcast=True, syms="wide", cap=8000))
    n = len(net["inputs"])
    return {
        "net": net, "path": draw(any_path(n, max_arity=5)), "seed": draw(st.integers(0, 10**6)),
        "dtype": draw(st.sampled_from(["int64", "float64", "complex128"])),
        "form": draw(st.sampled_from(["list-tuple", "tuple-tuple", "list-list", "npint"])),
        "blas": draw(st.booleans()),
        "via": draw(st.sampled_from(["contract", "expr", "replay", "shapes-replay"])),
        "opt": draw(st.sampled_from(CHEAP + (["optimal", "dp", "random-greedy"] if n <= 6 else ["dp", "auto-hq"]))),
    }


def shape_path(path, form):
    if form == "tuple-tuple":
        return tuple(tuple(p) for p in path)
    if form == "list-list":
        return [list(p) for p in path]
    if form == "npint":
        return [tuple(np.int64(x) for x in p) for p in path]
    return [tuple(p) for p in path]


def check(case, ctx):
    net = case["net"]
    n = len(net["inputs"])
    arrays = ref.make_arrays(net, case["dtype"], case["seed"])
    exp = ref.einsum(net, arrays)
    eq = ref.eq_of(net)
    path = shape_path(case["path"], case["form"])
    via = case["via"]
    what = f"{via}({eq}, {[a.shape for a in arrays]}, path={path}, use_blas={case['blas']}, opt={case['opt']})"
    before = copy.deepcopy(path)
    with target(what):
        if via == "contract":
            got = oe.contract(eq, *arrays, optimize=path, use_blas=case["blas"])
        elif via == "expr":
            got = oe.contract_expression(eq, *[a.shape for a in arrays], optimize=path, use_blas=case["blas"])(*arrays)
        else:
            if via == "replay":
                found, _ = oe.contract_path(eq, *arrays, optimize=case["opt"], use_blas=case["blas"])
            else:
                found, _ = oe.contract_path(eq, *[a.shape for a in arrays], shapes=True, optimize=case["opt"])
    if via in ("contract", "expr"):
        with target(what):
            again, _ = oe.contract_path(eq, *arrays, optimize=path, use_blas=case["blas"])
        if [sorted(p) for p in again] != [sorted(p) for p in case["path"]]:
            raise Violation(f"{what}: contract_path returned {again} for it")
        if path != before or type(path) is not type(before) or any(type(p) is not type(q) or list(p) != list(q) for p, q in zip(path, before)):
            raise Violation(f"{what}: the path given was {before} and has been changed to {path}")
    if via in ("replay", "shapes-replay"):
        found = ref.check_path(found, n, what)
        with target(what + f" found={found}"):
            got = oe.contract(eq, *arrays, optimize=found, use_blas=case["blas"])
            again, _ = oe.contract_path(eq, *arrays, optimize=found)
        if [sorted(p) for p in again] != [sorted(p) for p in found]:
            raise Violation(f"{what}: feeding back path {found} returned {again}")
    ref.same(got, exp, what)
    flat = [i for t in net["inputs"] for i in t]
    ctx.label(via, f"n={n}")
    if any(len(p) > 2 for p in case["path"]):
        ctx.label("many-term step")
    if n > 1 and any(len(p) == 1 for p in case["path"]):
        ctx.label("single-term step")
    ctx.nt(n >= 3 and any(i not in net["output"] for i in flat) and bool(np.any(exp != 0)))


# ------------------------------------------------------------------ many tensors
@st.composite
def long_cases(draw):
    net = with_syms(draw(graphs(n_min=8, n_max=45, kinds=("chain", "ring", "tree", "hyper", "disc", "grid"), size_pool=(1, 2, 2), n_out_max=2)))
    return {"net": net, "pseed": draw(st.integers(0, 10**6)), "seed": draw(st.integers(0, 10**6)), "blas": draw(st.booleans()),
            "via": draw(st.sampled_from(["contract", "expr"])), "form": draw(st.sampled_from(["list-tuple", "tuple-tuple", "list-list"])), "arity": draw(st.sampled_from([2, 2, 3, 5]))}


def small_path(net, seed, arity):
    """a random path whose steps stay small: mostly neighbours, now and then any terms."""
    rnd = random.Random(seed)
    sz, out = net["sizes"], frozenset(net["output"])
    terms = [frozenset(t) for t in net["inputs"]]
    path = []
    while len(terms) > 1:
        best = None
        for _ in range(4):
            step = [rnd.randrange(len(terms))]
            while len(step) < min(rnd.randint(2, arity), len(terms)):
                seen = frozenset().union(*[terms[k] for k in step])
                near = [k for k in range(len(terms)) if k not in step and terms[k] & seen] if rnd.random() < 0.9 else []
                step.append(rnd.choice(near or [k for k in range(len(terms)) if k not in step]))
            u = frozenset().union(*[terms[k] for k in step])
            size = prod(sz[i] for i in u)
            if best is None or (len(u), size) < best[0]:
                best = (len(u), size), step, u
        (width, size), step, u = best
        if size > 100000 or width > 30:
            return None
        path.append(step)
        for k in sorted(step, reverse=True):
            terms.pop(k)
        terms.append(u & out.union(*terms))
    return path


def check_long(case, ctx):
    net = case["net"]
    n = len(net["inputs"])
    path = small_path(net, case["pseed"], case["arity"])
    if path is None:
        raise Inconclusive("intermediates too large")
    arrays = ref.make_arrays(net, "int64", case["seed"], 1, 3)
    exp = ref.einsum_large(net, arrays)
    eq = ref.eq_of(net)
    given = shape_path(path, case["form"])
    what = f"{case['via']}({eq}, {ref.shapes(net)}, path={given}, use_blas={case['blas']})"
    with target(what):
        if case["via"] == "contract":
            got = oe.contract(eq, *arrays, optimize=given, use_blas=case["blas"])
        else:
            got = oe.contract_expression(eq, *ref.shapes(net), optimize=given, use_blas=case["blas"])(*arrays)
    ref.same(got, exp, what)
    ctx.label(case["via"], "many-term step" if any(len(p) > 2 for p in path) else "pairwise")
    ctx.nt(bool(np.any(exp != 0)))


SUBS = [
    Sub("paths", check, cases, quick=20000, thorough=300000),
    Sub("long", check_long, long_cases, quick=1600, thorough=25000, rule="8-45 tensors, random paths along the network", case_timeout=60),
]
