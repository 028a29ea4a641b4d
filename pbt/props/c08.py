"""C08: a ContractExpression is a pure, reusable function of its arguments (histories)."""
import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import ref
from core import Inconclusive, Sub, Violation, expect_error, target
from gen import any_path, graphs, nets, with_syms

RULE = (
    "histories over 1-3 expressions (with and without constants, any strategy): calls with fresh values, with other sizes of the same rank, "
    "with numpy arrays, torch tensors, numpy converted to torch, object arrays, with out=, with a wrong number of arguments, "
    "explicit constant evaluation and printing, interleaved; each value is compared exactly with the dense reference and "
    "every earlier result and constant is re-checked at the end; "
    "non-trivial = an expression that is called at least twice, with a constant or a changed size"
)
ASSUMPTIONS = ["constants are not modified in place by the caller", "at least one argument is not a constant"]
OPTS = ["auto", "greedy", "optimal", "dp", "branch-2", "branch-1", "random-greedy"]
KINDS = ["np", "np", "np", "torch", "np->torch", "object", "np-explicit"]


@st.composite
def expr_spec(draw, n_min=1):
    net = draw(nets(n_min=n_min, n_max=draw(st.sampled_from([4, 4, 4, 7])), pool=5, max_rank=3, cap=1500, bcast=True, syms="wide"))
    n = len(net["inputs"])
    opt = draw(st.sampled_from(OPTS)) if draw(st.integers(0, 4)) else draw(any_path(n, max_arity=4))
    const = sorted(draw(st.sets(st.integers(0, n - 1), max_size=n - 1))) if n > 1 else []
    return {"net": net, "const": const, "cseed": draw(st.integers(0, 999)), "opt": opt, "cdtype": draw(st.sampled_from(["float64"] * 4 + ["int64", "complex128"])),
            "blas": draw(st.booleans()), "inter": draw(st.booleans()),
            "mem": draw(st.one_of(st.none(), st.none(), st.integers(1, 50)))}


@st.composite
def histories(draw):
    exprs = draw(st.lists(expr_spec(), min_size=1, max_size=3))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        e = draw(st.integers(0, len(exprs) - 1))
        k = draw(st.sampled_from(["call"] * 6 + ["bad", "print", "evalconst"]))
        if k == "call":
            sizes = None
            if not exprs[e]["net"]["ones"] and draw(st.booleans()):
                sizes = draw(st.lists(st.sampled_from([1, 2, 3, 4]), min_size=len(exprs[e]["net"]["sizes"]), max_size=len(exprs[e]["net"]["sizes"])))
            kind, dtype = draw(st.sampled_from(KINDS)), "float64"
            if kind in ("np", "np-explicit"):
                dtype = draw(st.sampled_from(["float64", "float64", "int64", "complex128"]))
            elif exprs[e]["cdtype"] != "float64" and exprs[e]["const"]:
                dtype = exprs[e]["cdtype"]  # (other libraries do not mix dtypes)
            ops.append(["call", e, draw(st.integers(0, 999)), kind, sizes, draw(st.sampled_from([0, 0, 1])), dtype])
        elif k == "bad":
            ops.append(["bad", e, draw(st.sampled_from([-1, 1, 2]))])
        elif k == "evalconst":
            ops.append(["evalconst", e, draw(st.sampled_from(["numpy", "torch"]))])
        else:
            ops.append([k, e])
    return {"exprs": exprs, "ops": ops}


def build(sp):
    net = sp["net"]
    arrs = ref.make_arrays(net, sp["cdtype"], sp["cseed"])
    consts = {k: np.array(arrs[k]) for k in sp["const"]}
    shp = ref.shapes(net)
    args = [consts[k] if k in consts else shp[k] for k in range(len(shp))]
    eq = ref.eq_of(net)
    what = f"contract_expression({eq}, {shp}, constants={sp['const']}, optimize={sp['opt']}, use_blas={sp['blas']}, memory_limit={sp['mem']})"
    try:
        with target(what, allow=(RuntimeError,) if sp["mem"] is not None and sp["opt"] == "dp" else ()):
            if sp["inter"]:
                il = []
                for a, t in zip(args, net["inputs"]):
                    il += [a, list(t)]
                ex = oe.contract_expression(*il, list(net["output"]), constants=sp["const"] or None, optimize=sp["opt"],
                                            use_blas=sp["blas"], memory_limit=sp["mem"])
            else:
                ex = oe.contract_expression(eq, *args, constants=sp["const"] or None, optimize=sp["opt"], use_blas=sp["blas"],
                                            memory_limit=sp["mem"])
    except RuntimeError:
        return None
    return ex, consts, what


def variant(sp, sizes):
    """net with other sizes; indices of constants keep theirs."""
    net = sp["net"]
    if sizes is None:
        return net
    fixed = {i for k in sp["const"] for i in net["inputs"][k]}
    return dict(net, sizes=[net["sizes"][i] if i in fixed else sizes[i] for i in range(len(sizes))])


def conv(x, kind):
    if kind == "torch":
        import torch

        return torch.tensor(np.array(x, order="C"))
    if kind == "object":
        y = np.empty(x.shape, dtype=object)
        for c in np.ndindex(*x.shape):
            y[c] = x[c].item()
        return y
    return x


def check(case, ctx):
    built = [build(sp) for sp in case["exprs"]]
    kept = []
    calls = {}
    for op in case["ops"]:
        sp = case["exprs"][op[1]]
        if built[op[1]] is None:
            ctx.label("dp-memory-rejection")
            continue
        ex, consts, what = built[op[1]]
        nvar = len(sp["net"]["inputs"]) - len(consts)
        if op[0] == "call":
            _, e, seed, kind, sizes, use_out, dtype = op
            net = variant(sp, sizes)
            arrs = ref.make_arrays(net, dtype, seed)
            truth = [consts.get(k, arrs[k]) for k in range(len(arrs))]
            exp = ref.einsum(net, truth)
            given = [conv(np.array(arrs[k]), kind) for k in range(len(arrs)) if k not in consts]
            copies = [np.array(g) for g in given]
            kw = {}
            if kind == "np->torch":
                kw["backend"] = "torch"
            elif kind == "object":
                kw["backend"] = "object"
            elif kind == "np-explicit":
                kw["backend"] = "numpy"
            out = None
            if use_out and kind in ("np", "np->torch", "np-explicit"):
                out = kw["out"] = np.full(exp.shape, 99, dtype=exp.dtype)
            w = f"{what} called with {kind} arrays of shapes {[g.shape for g in given]} {'out=' if out is not None else ''}"
            with target(w):
                got = ex(*given, **kw)
            if out is not None and got is not out:
                raise Violation(f"{w}: did not return the out array")
            if kind == "torch":
                import torch

                if not isinstance(got, torch.Tensor):
                    raise Violation(f"{w}: returned {type(got)}, not a torch tensor")
            elif not isinstance(got, (np.ndarray, np.generic)) and kind != "object":
                raise Violation(f"{w}: returned {type(got)}, not a numpy array")
            ref.same(np.asarray(got), exp, w, check_dtype=kind not in ("object",))
            for g, c in zip(given, copies):
                if not np.array_equal(np.asarray(g), c):
                    raise Violation(f"{w}: modified an argument")
            kept.append((got, exp, w))
            calls.setdefault(op[1], []).append(sizes is not None or bool(consts))
            ctx.label("kind:" + kind, "const" if consts else "noconst", "resized" if sizes is not None else "same-size")
        elif op[0] == "bad":
            k = nvar + op[2]
            if k < 0:
                continue
            a = np.ones(())
            expect_error(f"{what} called with {k} instead of {nvar} arrays", lambda: ex(*([a] * k), backend="numpy"), (ValueError,))
        elif op[0] == "print":
            with target(f"printing {what}"):
                if not isinstance(str(ex), str) or not isinstance(repr(ex), str):
                    raise Violation("not printable")
        elif op[0] == "evalconst" and consts:
            with target(f"{what}.evaluate_constants({op[2]})"):
                ex.evaluate_constants(backend=op[2])
            ctx.label("evalconst")
    for got, exp, w in kept:
        ref.same(np.asarray(got), exp, "earlier result, after later calls: " + w, check_dtype=False)
    for sp, b in zip(case["exprs"], built):
        if b is not None:
            arrs = ref.make_arrays(sp["net"], sp["cdtype"], sp["cseed"])
            for k, c in b[1].items():
                if not np.array_equal(c, arrs[k]):
                    raise Violation(f"{b[2]}: constant {k} was modified")
    ctx.nt(any(len(v) >= 2 and any(v) for v in calls.values()))


# ------------------------------------------------------------------ many tensors
@st.composite
def long_cases(draw):
    net = with_syms(draw(graphs(n_min=12, n_max=40, kinds=("chain", "ring", "tree", "hyper", "disc"), size_pool=(1, 2, 2), n_out_max=2)))
    n = len(net["inputs"])
    k = draw(st.sampled_from(["few", "most", "half"]))
    const = draw(st.sets(st.integers(0, n - 1), max_size=n - 1 if k != "few" else 3))
    if k == "most":
        const = set(range(n)) - (const if len(const) in range(1, n) else {0})
    return {"net": net, "const": sorted(const), "opt": draw(st.sampled_from(["auto", "greedy", "random-greedy"])), "blas": draw(st.booleans()),
            "calls": draw(st.lists(st.tuples(st.integers(0, 999), st.sampled_from(["np", "np", "np->torch", "object"])), min_size=2, max_size=3))}


def check_long(case, ctx):
    net, const = case["net"], case["const"]
    n = len(net["inputs"])
    eq, shp = ref.eq_of(net), ref.shapes(net)
    base = ref.make_arrays(net, "int64", 7, 1, 3)
    what = f"contract_expression({eq}, {shp}, constants={const}, optimize={case['opt']}, use_blas={case['blas']})"
    with target(what):
        path, info = oe.contract_path(eq, *shp, shapes=True, optimize=case["opt"])
    steps = ref.simulate([frozenset(t) for t in net["inputs"]], frozenset(net["output"]), path, dict(enumerate(net["sizes"])))
    if max(ref.flops_info(s) for s in steps) > 200000:
        raise Inconclusive("intermediates too large")
    with target(what):
        ex = oe.contract_expression(eq, *[base[k] if k in const else shp[k] for k in range(n)], constants=const or None, optimize=path, use_blas=case["blas"])
    for seed, kind in case["calls"]:
        arrs = ref.make_arrays(net, "int64", seed, 1, 3)
        exp = ref.einsum_large(net, [base[k] if k in const else arrs[k] for k in range(n)])
        kw = {"np->torch": {"backend": "torch"}, "object": {"backend": "object"}}.get(kind, {})
        if kind == "object":
            if max(ref.flops_info(s) for s in steps) > 300 or np.max(np.abs(exp.astype(float)), initial=0) > 2**60:
                kind, kw = "np", {}
        with target(f"{what} called with {kind}"):
            got = ex(*[conv(arrs[k], kind) for k in range(n) if k not in const], **kw)
        if kind == "object" and any(abs(int(x)) >= 2**62 for x in np.ravel(got)):
            continue  # (Python's integers do not wrap)
        ref.same(np.asarray(got), exp, f"{what} called with {kind}", check_dtype=kind != "object")
        ctx.label(kind)
    ctx.label("const" if const else "noconst", "n>20" if n > 20 else "n<=20")
    ctx.nt(bool(const))


SUBS = [
    Sub("histories", check, histories, quick=30000, thorough=400000),
    Sub("long", check_long, long_cases, quick=1200, thorough=20000, rule="12-40 tensors, any subset constant, 2-3 calls", case_timeout=60),
]
