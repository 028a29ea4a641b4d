"""C19: any library with tensordot and transpose is enough; device backends keep constants on the device."""
import contextlib
import importlib.util

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import ref
from common import make_opt, opt_specs
from core import Sub, Violation, target
from fakes import FakeCupy, FakeTensorflow, FakeTheano, Minimal
from gen import high_rank_nets, any_path, nets, symbols, twice_nets

RULE = (
    "random contractions in which every index occurs exactly twice including the output are run, with every strategy and through contract / expressions / sharing, "
    "on stand-in array libraries that offer only tensordot and transpose (as function or as array method) and whose functions refuse foreign types; "
    "expressions are called repeatedly with numpy arrays on stand-ins for cupy (counted host/device transfers) and theano (symbolic graph); "
    "histories of calls of up to three expressions (arguments drawn from few arrays, also the same one twice, or symbolic variables; inside sharing contexts or not) "
    "run on theano and on tensorflow in graph mode; "
    "the torch tensordot / transpose / einsum wrappers are compared with numpy's on random axes, also without torch.tensordot; values exact; "
    "non-trivial = 3+ operands or a transposition"
)
ASSUMPTIONS = ["cupy, theano and tensorflow 1 (graph mode) are not installed here: their backends run on stand-in modules with the documented functions only"]
M1 = Minimal("vp_minimal_fn")
M2 = Minimal("vp_minimal_method", transpose_function=False)
CUPY = FakeCupy()
THEANO = FakeTheano()
TF = FakeTensorflow()


@st.composite
def minimal_cases(draw):
    net = draw(high_rank_nets(twice=True) if draw(st.integers(0, 7)) == 7 else twice_nets())
    n = len(net["inputs"])
    opt = draw(st.one_of(opt_specs(), st.builds(lambda p: {"cls": "path", "path": p}, any_path(n, max_arity=2, singles=False))))
    return {"net": net, "opt": opt, "lib": draw(st.integers(0, 1)), "mode": draw(st.sampled_from(["contract", "contract", "inter", "expr", "const"])),
            "const": sorted(draw(st.sets(st.integers(0, n - 1), max_size=n - 1))), "auto": draw(st.booleans()),
            "share": draw(st.booleans()), "seed": draw(st.integers(0, 999))}


def check_minimal(c, ctx):
    net, lib = c["net"], (M1, M2)[c["lib"]]
    arrs = ref.make_arrays(net, "int64", c["seed"])
    exp = ref.einsum(net, arrs)
    xs = [lib.Arr(a) for a in arrs]
    if c["opt"] is None and c["mode"] in ("expr", "const"):
        c["opt"] = "auto"  # expressions refuse optimize=None
    opt = make_opt(c["opt"])
    kw = {} if c["auto"] else {"backend": lib.name}
    eq = ref.eq_of(net)
    what = f"{c['mode']} {eq} {ref.shapes(net)} optimize={c['opt']} on {lib.name} ({'auto' if c['auto'] else 'explicit'} backend{', sharing' if c['share'] else ''})"
    with (oe.shared_intermediates() if c["share"] else contextlib.nullcontext()):
        for rep in range(2):
            lib.reset()
            with target(what):
                if c["mode"] == "inter":
                    args = []
                    for x, t in zip(xs, net["inputs"]):
                        args += [x, list(t)]
                    got = oe.contract(*args, list(net["output"]), optimize=make_opt(c["opt"]), **kw)
                elif c["mode"] == "contract":
                    got = oe.contract(eq, *xs, optimize=make_opt(c["opt"]), **kw)
                else:
                    const = c["const"] if c["mode"] == "const" else []
                    if rep == 0:
                        ex = oe.contract_expression(eq, *[x if k in const else x.shape for k, x in enumerate(xs)], constants=const, optimize=opt)
                    got = ex(*[x for k, x in enumerate(xs) if k not in const], **kw)
            if not isinstance(got, lib.Arr):
                raise Violation(f"{what}: returned {type(got)}, not the library's array type")
            ref.same(got._x, exp, what)
            ctx.label("transposed" if lib.calls["transpose"] else "no-transpose")
            ctx.nt(len(xs) >= 3 or lib.calls["transpose"] > 0)
    for x, a in zip(xs, arrs):
        if not np.array_equal(x._x, a):
            raise Violation(f"{what}: changed an operand")
    ctx.label("mode:" + c["mode"])


# ------------------------------------------------------------ device backends
@st.composite
def device_cases(draw, theano=False):
    if theano:
        net = draw(twice_nets(n_max=5, cap=2000))
    else:
        net = draw(nets(n_min=1, n_max=5, pool=6, max_rank=3, cap=2000, syms="wide"))
    n = len(net["inputs"])
    const = sorted(draw(st.sets(st.integers(0, n - 1), max_size=n - 1))) if n > 1 else []
    return {"net": net, "const": const, "opt": draw(st.sampled_from(["auto", "greedy", "optimal", "dp", "branch-1"])),
            "calls": draw(st.lists(st.tuples(st.integers(0, 99), st.sampled_from(["dev", "dev", "dev", "np"]), st.booleans()), min_size=1, max_size=5)),
            "share": draw(st.integers(0, 3)) == 3, "eval": draw(st.booleans())}


def check_cupy(c, ctx):
    net = c["net"]
    carr = ref.make_arrays(net, "float64", 7)
    const = c["const"]
    eq = ref.eq_of(net)
    n = len(carr)
    what = f"expression {eq} {ref.shapes(net)} constants={const} optimize={c['opt']}"
    CUPY.reset()
    with target(what):
        ex = oe.contract_expression(eq, *[carr[k] if k in const else carr[k].shape for k in range(n)], constants=const, optimize=c["opt"])
        if c["eval"] and const:
            ex.evaluate_constants(backend="cupy")
    ready = bool(c["eval"] and const)
    if len(CUPY.moved) != (len(const) if ready else 0):
        raise Violation(f"{what}: evaluating {len(const)} constants moved {len(CUPY.moved)} arrays to the device")
    with (oe.shared_intermediates() if c["share"] else contextlib.nullcontext()):
        for seed, kind, use_out in c["calls"]:
            arrs = ref.make_arrays(net, "float64", seed)
            truth = [carr[k] if k in const else arrs[k] for k in range(n)]
            exp = ref.einsum(net, truth)
            given = [arrs[k] for k in range(n) if k not in const]
            kw = {"backend": "cupy"} if kind == "dev" else {}
            out = np.full(exp.shape, 77.0) if use_out else None
            CUPY.reset()
            with target(f"{what} called with numpy arrays {kw}"):
                got = ex(*given, **kw) if out is None else ex(*given, out=out, **kw)
            if out is not None and got is not out:
                raise Violation(f"{what} {kw}: does not return out")
            if not isinstance(got, (np.ndarray, np.generic)):
                raise Violation(f"{what} {kw}: numpy in, {type(got)} out")
            ref.same(got, exp, f"{what} {kw}", check_dtype=False)
            if kind == "dev":
                want = len(given) + (0 if ready else len(const))
                if len(CUPY.moved) != want:
                    raise Violation(f"{what}: a call moved {len(CUPY.moved)} arrays to the device, {want} needed "
                                    f"({len(given)} arguments, constants {'already there' if ready else 'not there yet'})")
                if CUPY.fetched != 1:
                    raise Violation(f"{what}: {CUPY.fetched} device-to-host transfers for one result")
                ready = ready or bool(const)
            elif CUPY.moved or CUPY.calls["einsum"] + CUPY.calls["tensordot"]:
                raise Violation(f"{what}: a numpy call used the device")
            ctx.label(kind, "const" if const else "noconst")
    ctx.nt(len(c["calls"]) >= 2 and n >= 2)


def check_theano(c, ctx):
    net = c["net"]
    carr = ref.make_arrays(net, "float64", 7)
    const = c["const"]
    eq = ref.eq_of(net)
    n = len(carr)
    what = f"expression {eq} {ref.shapes(net)} constants={const} optimize={c['opt']} on theano"
    with target(what):
        ex = oe.contract_expression(eq, *[carr[k] if k in const else carr[k].shape for k in range(n)], constants=const, optimize=c["opt"])
    f0 = THEANO.functions
    for seed, kind, _ in c["calls"]:
        arrs = ref.make_arrays(net, "float64", seed)
        exp = ref.einsum(net, [carr[k] if k in const else arrs[k] for k in range(n)])
        given = [arrs[k] for k in range(n) if k not in const]
        kw = {"backend": "theano"} if kind == "dev" else {}
        with target(f"{what} called with numpy arrays {kw}"):
            got = ex(*given, **kw)
        if not isinstance(got, (np.ndarray, np.generic)):
            raise Violation(f"{what} {kw}: numpy in, {type(got)} out")
        ref.same(got, exp, f"{what} {kw}", check_dtype=False)
        if THEANO.functions - f0 > 1:
            raise Violation(f"{what}: the graph was compiled {THEANO.functions - f0} times for one expression")
    ctx.nt(len(c["calls"]) >= 2)


# ------------------------------------------------------------ graph backends
@st.composite
def graph_cases(draw):
    be = draw(st.sampled_from(["theano", "tensorflow"]))
    exprs = []
    for _ in range(draw(st.integers(1, 3))):
        net = draw(twice_nets(n_min=2, n_max=4, cap=400)) if be == "theano" else draw(nets(n_min=1, n_max=4, pool=5, max_rank=3, cap=400, bcast=False, zero=False, syms="wide"))
        net = dict(net, sizes=[2] * len(net["sizes"]), ones=[])
        n = len(net["inputs"])
        exprs.append({"net": net, "const": sorted(draw(st.sets(st.integers(0, n - 1), max_size=n - 1))), "opt": draw(st.sampled_from(["auto", "greedy", "dp"]))})
    step = st.fixed_dictionaries({"e": st.integers(0, len(exprs) - 1), "args": st.lists(st.integers(0, 2), min_size=4, max_size=4),
                                  "kind": st.sampled_from(["dev", "dev", "dev", "np", "sym"]), "out": st.booleans()})
    return {"be": be, "exprs": exprs, "share": draw(st.lists(st.tuples(st.booleans(), st.lists(step, min_size=1, max_size=4)), min_size=1, max_size=3)),
            "seed": draw(st.integers(0, 99))}


def check_graph(c, ctx):
    be = c["be"]
    rng = np.random.RandomState(c["seed"])
    pool = {(r, k): np.asarray(rng.randint(-3, 4, size=(2,) * r), dtype=float) for r in range(8) for k in range(3)}
    exs = []
    for e in c["exprs"]:
        net, const = e["net"], e["const"]
        ops = [pool[len(t), 0] if k in const else (2,) * len(t) for k, t in enumerate(net["inputs"])]
        with target(f"building {ref.eq_of(net)} constants={const}"):
            exs.append(oe.contract_expression(ref.eq_of(net), *ops, constants=const, optimize=e["opt"]))
    steps = 0
    same = False
    for share, calls in c["share"]:
        with (oe.shared_intermediates() if share else contextlib.nullcontext()):
            for s in calls:
                e = c["exprs"][s["e"]]
                net, const = e["net"], e["const"]
                full = [pool[len(t), 0 if k in const else s["args"][k]] for k, t in enumerate(net["inputs"])]
                given = [x for k, x in enumerate(full) if k not in const]
                exp = ref.einsum(net, full)
                what = f"expression {ref.eq_of(net)} constants={const} optimize={e['opt']} call {steps} ({s['kind']}) on {be}{' while sharing' if share else ''}, arguments {s['args'][:len(full)]}"
                same = same or len({id(x) for x in given}) < len(given)
                if s["kind"] == "sym":
                    if not given:
                        continue
                    if be == "theano":
                        vs = [THEANO.Var(None, x.ndim) for x in given]
                    else:
                        vs = [TF.module.placeholder(x.dtype, x.shape) for x in given]
                    with target(what):
                        got = exs[s["e"]](*vs)
                    if not isinstance(got, THEANO.Var if be == "theano" else TF.Tensor):
                        raise Violation(f"{what}: variables in, {type(got)} out")
                    got = np.asarray(got._ev(dict(zip(vs, given))))
                else:
                    kw = {"backend": be} if s["kind"] == "dev" else {}
                    out = np.full(exp.shape, 5.5) if s["out"] else None
                    with target(what):
                        got = exs[s["e"]](*given, **kw, **({"out": out} if s["out"] else {}))
                    if s["out"] and got is not out:
                        raise Violation(f"{what}: out= was not returned")
                    if not isinstance(got, (np.ndarray, np.generic)):
                        raise Violation(f"{what}: numpy in, {type(got)} out")
                ref.same(got, exp, what, check_dtype=False)
                steps += 1
    ctx.label("be:" + be, "same-array-twice" if same else "distinct")
    ctx.nt(steps >= 3)


# ------------------------------------------------------------ torch wrappers
@st.composite
def torch_ops(draw):
    ra, rb = draw(st.integers(0, 4)), draw(st.integers(0, 4))
    k = draw(st.integers(0, min(ra, rb)))
    form = draw(st.sampled_from(["pair", "pair", "int", "scalars" if k == 1 else "pair"]))
    if form == "int":
        ax = [list(range(ra - k, ra)), list(range(k))]
    else:
        ax = [draw(st.permutations(list(range(ra))))[:k], draw(st.permutations(list(range(rb))))[:k]]
    sa = draw(st.lists(st.sampled_from([2, 3, 1]), min_size=ra, max_size=ra))
    sb = draw(st.lists(st.sampled_from([2, 3, 1]), min_size=rb, max_size=rb))
    for x, y in zip(*ax):
        sb[y] = sa[x]
    return {"sa": sa, "sb": sb, "ax": ax, "form": form, "fallback": draw(st.booleans()), "perm": draw(st.permutations(list(range(ra)))),
            "seed": draw(st.integers(0, 99)), "kind": draw(st.sampled_from([list, tuple])).__name__}


OLD = {}


def check_torch(c, ctx):
    import torch
    from opt_einsum.backends import torch as ot

    rng = np.random.RandomState(c["seed"])
    a = np.asarray(rng.randint(-3, 4, size=c["sa"]), dtype=float)
    b = np.asarray(rng.randint(-3, 4, size=c["sb"]), dtype=float)
    seq = list if c["kind"] == "list" else tuple
    ax = [seq(x) for x in c["ax"]]
    if c["form"] == "int":
        axes = len(ax[0])
    elif c["form"] == "scalars":
        axes = (ax[0][0], ax[1][0])
        if not c["fallback"]:
            axes = (seq([axes[0]]), seq([axes[1]]))  # torch's own tensordot knows sequences only
    else:
        axes = tuple(ax)
    exp = np.tensordot(a, b, axes=axes)
    what = f"torch backend tensordot({c['sa']}, {c['sb']}, axes={axes})" + (" without torch.tensordot" if c["fallback"] else "")
    ta, tb = torch.tensor(a), torch.tensor(b)
    native = torch.tensordot
    try:
        if c["fallback"]:
            # an older torch: a second copy of the wrappers that never sees torch.tensordot
            del torch.tensordot
            if "torch" not in OLD:
                spec = importlib.util.spec_from_file_location("old_torch_wrappers", ot.__file__)
                OLD["torch"] = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(OLD["torch"])
            ot = OLD["torch"]
        with target(what):
            got = ot.tensordot(ta, tb, axes=axes)
        with target("torch backend transpose"):
            tr = ot.transpose(ta, c["perm"])
    finally:
        torch.tensordot = native
    if not isinstance(got, torch.Tensor) or not isinstance(tr, torch.Tensor):
        raise Violation(f"{what}: not a torch tensor")
    ref.same(got.numpy(), exp, what)
    ref.same(tr.numpy(), np.transpose(a, c["perm"]), f"torch backend transpose({c['sa']}, {c['perm']})")
    ctx.label("fallback" if c["fallback"] else "native", "form:" + c["form"])
    ctx.nt(len(c["ax"][0]) > 0)


SUBS = [
    Sub("minimal", check_minimal, minimal_cases, quick=12000, thorough=200000, rule="non-trivial = 3+ operands or a transposition took place"),
    Sub("cupy", check_cupy, device_cases, quick=10000, thorough=150000, rule="non-trivial = 2+ calls of an expression of 2+ operands"),
    Sub("theano", check_theano, lambda: device_cases(True), quick=6000, thorough=100000, rule="non-trivial = 2+ calls"),
    Sub("graph", check_graph, graph_cases, quick=12000, thorough=200000, rule="non-trivial = 3+ calls"),
    Sub("torch-wrappers", check_torch, torch_ops, quick=10000, thorough=150000, rule="non-trivial = at least one contracted axis"),
]
