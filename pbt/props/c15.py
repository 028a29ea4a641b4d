"""C15: out= receives exactly the result and nothing else in memory changes; einsum keyword arguments are honoured."""
import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import ref
from common import make_opt, opt_specs
from core import Inconclusive, Sub, Violation, target
from gen import nets

RULE = (
    "random contractions are run with out= arrays of any layout (C, Fortran, strided or reversed views into a larger guarded buffer, 0-d, wider dtype), with "
    "dtype=/casting=/order= arguments, on numpy and torch, with every strategy, through contract and expressions, and in histories inside sharing contexts where the same "
    "contraction runs with and without out and the caller overwrites out in between; the returned object must be out, its value the dense reference, "
    "operands and guard memory bit-identical; non-trivial = 2+ operands or a non-C layout"
)
ASSUMPTIONS = ["out does not overlap the operands", "integer values"]


@st.composite
def cases(draw):
    net = draw(nets(n_min=1, n_max=5, pool=5, max_rank=3, cap=2000, bcast=True, zero=True, syms="wide"))
    return {
        "net": net, "opt": draw(opt_specs(false=True)), "blas": draw(st.booleans()), "seed": draw(st.integers(0, 999)),
        "lay": draw(st.lists(st.sampled_from(["C", "F", "neg", "strided", "ro"]), min_size=1, max_size=3)),
        "olay": draw(st.sampled_from(["C", "F", "strided", "neg", "perm"])), "wide": draw(st.booleans()),
        "dtype": draw(st.sampled_from(["float64", "int64", "float32", "complex128"])),
        "api": draw(st.sampled_from(["contract", "contract", "expr", "share", "via-torch", "via-tensorflow"])),
        "const": draw(st.lists(st.integers(0, 4), max_size=2)),
        "use_out": draw(st.integers(0, 3)) > 0,
        "kw": draw(st.sampled_from([{}, {}, {}, {"dtype": "complex128"}, {"dtype": "float64", "casting": "unsafe"}, {"order": "F"}, {"order": "C"}, {"casting": "same_kind"}, {"dtype": "float32", "casting": "same_kind"}])),
    }


def make_out(shape, dtype, lay):
    """-> (out, buffer, mask of buffer positions that belong to out)"""
    if lay == "perm" and len(shape) > 1:
        buf = np.full(shape[::-1], 7, dtype=dtype)
        return buf.transpose(tuple(range(len(shape)))[::-1]), buf, np.ones(buf.shape, bool)
    if lay in ("strided", "neg") and len(shape):
        buf = np.full(tuple(2 * d + 1 for d in shape), 7, dtype=dtype)
        sl = tuple(slice(0, 2 * d, 2) for d in shape)
        mask = np.zeros(buf.shape, bool)
        mask[sl] = True
        v = buf[sl]
        if lay == "neg":
            v = v[tuple(slice(None, None, -1) for _ in shape)]
        return v, buf, mask
    buf = np.full(shape, 7, dtype=dtype, order="F" if lay == "F" else "C")
    return buf, buf, np.ones(shape, bool)


def check(case, ctx):
    net = case["net"]
    lay = case["lay"]
    if case["api"] == "via-torch":
        lay = ["F" if x == "neg" else x for x in lay]  # torch itself has no negative strides
    arrays = ref.make_arrays(net, case["dtype"], case["seed"], -2, 2, lay)
    kw = dict(case["kw"])
    via = case["api"][4:] if case["api"].startswith("via-") else None
    if via:
        # numpy arrays in, computed by another library, numpy result: no einsum keywords there
        kw = {}
        if case["dtype"] == "int64" or (via == "tensorflow" and net["ones"]):
            raise Inconclusive("not supported by the library")
        if case["opt"] is False or 0 in ref.eff_sizes(net).values():
            raise Inconclusive("-")
    if case["dtype"] == "complex128" and kw.get("dtype", "complex128") != "complex128":
        kw = {}
    if case["dtype"] in ("float64", "int64") and kw.get("dtype") == "float32":
        if case["dtype"] == "int64":
            kw = {}
    exp = ref.einsum(net, arrays)
    if np.max(np.abs(exp), initial=0) > 2**22:
        raise Inconclusive("not exact")
    if "dtype" in kw:
        exp = exp.astype(kw["dtype"])
    eq = ref.eq_of(net)
    odt = exp.dtype
    if case["wide"] and "dtype" not in kw:
        odt = np.dtype("complex128")
    copies = [np.array(a) for a in arrays]
    what = (f"{case['api']} {eq} {[a.shape for a in arrays]} {case['dtype']} optimize={case['opt']} use_blas={case['blas']} "
            f"out={(case['olay'], str(odt)) if case['use_out'] else None} {kw}")
    ckw = dict(kw)
    out = None
    if case["use_out"]:
        out, buf, mask = make_out(exp.shape, odt, case["olay"])
        guard = buf[~mask].copy()
    opt = make_opt(case["opt"])
    api = case["api"]
    if api == "expr" and opt in (False, None):
        opt = "auto"
    with target(what):
        if via:
            cs = sorted({k for k in case["const"] if k < len(arrays)})
            cs = cs if len(cs) < len(arrays) else []
            ex = oe.contract_expression(eq, *[a if k in cs else a.shape for k, a in enumerate(arrays)], constants=cs or None,
                                        optimize="auto" if opt in (False, None) else opt, use_blas=case["blas"])
            given = [a for k, a in enumerate(arrays) if k not in cs]
            got = ex(*given, backend=via, **({"out": out} if out is not None else {}))
            if not isinstance(got, (np.ndarray, np.generic)):
                raise Violation(f"{what}: numpy in, {type(got)} out")
        elif api == "expr":
            ex = oe.contract_expression(eq, *[a.shape for a in arrays], optimize=opt, use_blas=case["blas"], **ckw)
            got = ex(*arrays, out=out) if out is not None else ex(*arrays)
        elif api == "share":
            with oe.shared_intermediates():
                got = oe.contract(eq, *arrays, optimize=opt, use_blas=case["blas"], **({"out": out} if out is not None else {}), **ckw)
        else:
            got = oe.contract(eq, *arrays, optimize=opt, use_blas=case["blas"], **({"out": out} if out is not None else {}), **ckw)
    if out is not None:
        if got is not out:
            raise Violation(f"{what}: did not return the out array itself")
        if out.dtype != odt:
            raise Violation(f"{what}: dtype of out changed")
        ref.same(out, exp.astype(odt), what)
        if not np.array_equal(buf[~mask], guard):
            raise Violation(f"{what}: wrote outside of out")
    else:
        # numpy itself ignores dtype when a single operand is only viewed
        ref.same(got, exp, what, check_dtype=not ("dtype" in kw and len(arrays) == 1))
        if kw.get("order") in ("C", "F") and len(arrays) >= 2 and not got.flags[kw["order"] + "_CONTIGUOUS"]:
            raise Violation(f"{what}: the result is not {kw['order']}-contiguous")
    for k, (a, c) in enumerate(zip(arrays, copies)):
        if a.shape != c.shape or a.dtype != c.dtype or not np.array_equal(a, c):
            raise Violation(f"{what}: operand {k} was modified")
    ctx.label(api, "out:" + case["olay"] if out is not None else "no-out", "kw:" + ",".join(sorted(kw)) if kw else "no-kw")
    ctx.nt(len(arrays) >= 2 or case["olay"] != "C")


# ----------------------------------------------------- sharing + out histories
@st.composite
def hist(draw):
    d = 2
    ranks = draw(st.lists(st.integers(0, 2), min_size=1, max_size=3))
    runs = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.integers(1, 3))
        slots = draw(st.lists(st.integers(0, len(ranks) - 1), min_size=k, max_size=k))
        terms = [draw(st.lists(st.integers(0, 3), min_size=ranks[s], max_size=ranks[s])) for s in slots]
        used = sorted({i for t in terms for i in t})
        out = draw(st.lists(st.sampled_from(used), unique=True, max_size=3)) if used else []
        runs.append({"slots": slots, "terms": terms, "out": out, "blas": draw(st.booleans()), "opt": draw(st.sampled_from(["auto", "greedy", False]))})
    ops = draw(st.lists(st.tuples(st.integers(0, len(runs) - 1), st.sampled_from(["plain", "out", "out-clobber", "dtype", "result-clobber"])), min_size=2, max_size=7))
    return {"ranks": ranks, "runs": runs, "ops": [list(o) for o in ops], "be": draw(st.sampled_from(["numpy", "numpy", "torch"])), "share": draw(st.integers(0, 3)) > 0, "d": d}


def check_hist(case, ctx):
    rng = np.random.RandomState(4)
    truth = [rng.randint(-2, 3, size=(2,) * r).astype(float).reshape((2,) * r) for r in case["ranks"]]
    if case["be"] == "torch":
        import torch

        ops = [torch.tensor(np.array(x)) for x in truth]
    else:
        ops = [np.array(x) for x in truth]
    import contextlib

    with oe.shared_intermediates() if case["share"] else contextlib.nullcontext():
        for k, mode in case["ops"]:
            r = case["runs"][k]
            eq = ",".join("".join("abcd"[i] for i in t) for t in r["terms"]) + "->" + "".join("abcd"[i] for i in r["out"])
            exp = ref.einsum_full(r["terms"], r["out"], [truth[s] for s in r["slots"]], {i: 2 for t in r["terms"] for i in t})
            args = [ops[s] for s in r["slots"]]
            kw = {}
            if mode.startswith("out"):
                kw["out"] = np.full(exp.shape, 55.0)
                if case["be"] == "torch":
                    kw["out"] = torch.tensor(kw["out"])
            elif mode == "dtype" and case["be"] == "numpy":
                kw["dtype"] = "complex128"
                exp = exp.astype("complex128")
            what = f"{mode} {eq} optimize={r['opt']} use_blas={r['blas']} on {case['be']}, sharing={case['share']}, history {case['ops']}"
            with target(what):
                got = oe.contract(eq, *args, optimize=r["opt"], use_blas=r["blas"], **kw)
            if "out" in kw:
                if got is not kw["out"]:
                    raise Violation(f"{what}: did not return out")
                if case["be"] == "torch" and not isinstance(got, torch.Tensor):
                    raise Violation(f"{what}: not a tensor")
            ref.same(np.asarray(got), exp, what, check_dtype=not ("dtype" in kw and len(args) == 1))
            if mode == "out-clobber":
                kw["out"][...] = -1.0  # the array belongs to the caller
            for o, tr in zip(ops, truth):
                if not np.array_equal(np.asarray(o), tr):
                    raise Violation(f"{what}: an operand was modified")
            ctx.label(mode)
    ctx.label(case["be"], "sharing" if case["share"] else "plain")
    ctx.nt(len(case["ops"]) >= 2)


# ----------------------------------------------------------- casting rules
DTYPES = ["int32", "int64", "float32", "float64", "complex64", "complex128"]


@st.composite
def castings(draw):
    net = draw(nets(n_min=2, n_max=5, pool=5, max_rank=3, cap=400, syms="plain"))
    n = len(net["inputs"])
    base = draw(st.sampled_from(DTYPES))
    return {
        "net": net, "opt": draw(opt_specs(false=True)), "blas": draw(st.booleans()), "seed": draw(st.integers(0, 99)),
        "dtypes": draw(st.one_of(st.just([base] * n), st.lists(st.sampled_from(DTYPES), min_size=n, max_size=n))),
        "dtype": draw(st.sampled_from([None, None, base, *DTYPES])),
        "casting": draw(st.sampled_from(["no", "equiv", "safe", "same_kind", "unsafe", None])),
        "api": draw(st.sampled_from(["contract", "expr"])),
    }


def check_casting(case, ctx):
    import warnings

    net = case["net"]
    arrays = [a.astype(d) for a, d in zip(ref.make_arrays(net, "int64", case["seed"], -2, 2), case["dtypes"])]
    eq = ref.eq_of(net)
    kw = {k: case[k] for k in ("dtype", "casting") if case[k] is not None}
    # the rule of numpy: every operand is cast to the common (or the requested) dtype, if the casting rule allows it
    to = np.dtype(case["dtype"] or np.result_type(*arrays))
    allowed = all(np.can_cast(a.dtype, to, case["casting"] or "safe") for a in arrays)
    exp = ref.einsum(net, [a.astype("int64") for a in map(np.real, arrays)]).astype(to)
    what = f"{case['api']} {eq} {[str(a.dtype) for a in arrays]} optimize={case['opt']} use_blas={case['blas']} {kw}"
    opt = make_opt(case["opt"])
    if case["api"] == "expr" and opt in (False, None):
        opt = "auto"
    try:
        with warnings.catch_warnings(), target(what, allow=(TypeError,)):
            warnings.simplefilter("ignore")
            if case["api"] == "expr":
                got = oe.contract_expression(eq, *[a.shape for a in arrays], optimize=opt, use_blas=case["blas"], **kw)(*arrays)
            else:
                got = oe.contract(eq, *arrays, optimize=opt, use_blas=case["blas"], **kw)
    except TypeError as e:
        if allowed:
            raise Violation(f"{what}: every operand may be cast to {to}, but it raised {e}") from None
    else:
        if not allowed:
            raise Violation(f"{what}: returned {got.dtype}, although the casting rule forbids casting an operand to {to}")
        ref.same(got, exp, what)
    ctx.label("casting:" + str(case["casting"]), "allowed" if allowed else "forbidden", "dtype" if case["dtype"] else "no dtype")
    ctx.nt(bool(kw))


SUBS = [
    Sub("out", check, cases, quick=24000, thorough=300000),
    Sub("casting", check_casting, castings, quick=8000, thorough=100000, rule="dtype=/casting= on operands of any mix of dtypes: refused exactly where numpy's casting rule refuses"),
    Sub("histories", check_hist, hist, quick=12000, thorough=150000, rule="with/without out inside sharing contexts, numpy and torch"),
]
