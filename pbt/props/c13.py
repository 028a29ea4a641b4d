"""C13: the array library does not matter: values agree, array types are preserved, conversions round-trip."""
import gc
import importlib.util
import sys
import types
import warnings

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import ref
from core import Inconclusive, Sub, Violation, target
from gen import nets

warnings.filterwarnings("ignore")

RULE = (
    "random contractions are evaluated on torch, jax, tensorflow, dask, sparse, autograd, object and ndarray-subclass operands "
    "(values compared exactly with the dense reference, result type must belong to the operands' library), through expressions given numpy "
    "arrays with backend='torch'/'jax'/'tensorflow' (numpy comes back; with constants, repeated calls, recycled arrays, inside and outside sharing contexts), "
    "histories of contractions on several array libraries in one process (equal class names, nested modules, with and without einsum; each library refuses foreign arrays), and torch gradients are compared with the exact derivative of the multilinear form; non-trivial = 2+ operands"
)
ASSUMPTIONS = [
    "size-1 broadcasting is not used with tensorflow and sparse, scalars not with sparse (the libraries themselves reject them)",
    "jax runs with its default 32-bit types; values stay below 2**24", "theano, cupy, mars, ctf are not installed",
]
OPTS = ["auto", "greedy", "optimal", "dp", "branch-2", False]


class Sub64(np.ndarray):
    """array type defined in a module that offers no tensordot"""


class Elem:
    """an element that can only be added to and multiplied with its like"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return Elem(self.v + o.v) if isinstance(o, Elem) else NotImplemented

    def __mul__(self, o):
        return Elem(self.v * o.v) if isinstance(o, Elem) else NotImplemented


def to(be, x):
    x = np.array(x, order="C")
    if be == "torch":
        import torch

        return torch.tensor(x)
    if be == "jax":
        import jax.numpy as jnp

        return jnp.asarray(x)
    if be == "tensorflow":
        import tensorflow as tf

        return tf.constant(x)
    if be == "dask":
        import dask.array as da

        return da.from_array(x, chunks=2 if x.ndim else ())
    if be == "sparse":
        import sparse

        return sparse.COO.from_numpy(x)
    if be in ("object", "elem"):
        y = np.empty(x.shape, dtype=object)
        for c in np.ndindex(*x.shape):
            y[c] = int(x[c]) if be == "object" else Elem(int(x[c]))
        return y
    if be == "subclass":
        return x.view(Sub64)
    return x


def back(be, g, what):
    root = type(g).__module__.split(".")[0]
    want = {"torch": ("torch",), "jax": ("jax", "jaxlib"), "tensorflow": ("tensorflow",), "dask": ("dask",), "sparse": ("sparse", "numpy", "builtins"),
            "object": None, "elem": None, "subclass": ("numpy", "props", __name__.split(".")[0]), "autograd": ("numpy",)}[be]
    if want is not None and root not in want:
        raise Violation(f"{what}: {be} operands gave a {type(g)}")
    if be == "dask":
        g = g.compute(scheduler="synchronous")
    if be == "sparse" and hasattr(g, "todense"):
        g = g.todense()
    if be == "tensorflow":
        g = g.numpy()
    if be == "elem":
        if isinstance(g, Elem):
            return np.asarray(g.v)
        y = np.empty(np.shape(g))
        for c in np.ndindex(*y.shape):
            if not isinstance(g[c], Elem):
                raise Violation(f"{what}: element {c} is a {type(g[c])}, not a sum of products of the operands' elements")
            y[c] = g[c].v
        return y
    return np.asarray(g)


@st.composite
def direct(draw, bes):
    be = draw(st.sampled_from(bes))
    net = draw(nets(n_min=1, n_max=5, pool=5, max_rank=3, cap=600, bcast=be not in ("tensorflow", "sparse"), zero=be not in ("object", "elem"), syms="wide"))
    return {"net": net, "be": be, "opt": draw(st.sampled_from(OPTS)), "blas": draw(st.booleans()), "seed": draw(st.integers(0, 999)),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32", "complex128", "int64"])), "explicit": draw(st.booleans())}


def check_direct(case, ctx):
    net, be = case["net"], case["be"]
    dt = case["dtype"]
    if be in ("object", "elem", "sparse") or (be == "jax" and dt == "complex128"):
        dt = "float64"
    if be == "torch" and dt == "int64":
        dt = "float64"  # torch.tensordot and einsum are only promised for floating types here
    if be == "sparse" and any(len(t) == 0 for t in net["inputs"]):
        raise Inconclusive("sparse has no scalars")
    arrays = ref.make_arrays(net, dt, case["seed"], -2, 2)
    exp = ref.einsum(net, arrays)
    if np.max(np.abs(exp), initial=0) > 2**22:
        raise Inconclusive("not exact in 32 bits")
    eq = ref.eq_of(net)
    ops = [to(be, a) for a in arrays]
    kw = {}
    if be in ("object", "autograd", "elem"):
        kw["backend"] = "object" if be == "elem" else be
    elif case["explicit"] and be != "subclass":
        kw["backend"] = be
    what = f"contract({eq}, {[a.shape for a in arrays]} {dt} on {be}, optimize={case['opt']}, use_blas={case['blas']}, {kw})"
    try:
        with target(what):
            got = oe.contract(eq, *ops, optimize=case["opt"], use_blas=case["blas"], **kw)
            g = back(be, got, what)
    except Violation as e:
        if be == "sparse" and ("fill value" in str(e) or "fill_value" in str(e)):
            raise Inconclusive("sparse has no scalar intermediates") from e
        raise
    ref.same(g, exp, what, check_dtype=be in ("torch", "tensorflow", "dask", "autograd", "subclass"))
    ctx.label(be, f"n={len(arrays)}", "dtype:" + dt)
    ctx.nt(len(arrays) >= 2)


# ------------------------------------------------------ numpy in, numpy out
@st.composite
def convert(draw, bes, n_calls=5, npool=1000):
    be = draw(st.sampled_from(bes))
    net = draw(nets(n_min=2, n_max=4, pool=4, max_rank=3, cap=300, syms="pool", bcast=be == "torch"))
    n = len(net["inputs"])
    const = sorted(draw(st.sets(st.integers(0, n - 1), max_size=n - 1)))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("call"), st.lists(st.integers(0, npool), min_size=n, max_size=n), st.booleans()),
        st.tuples(st.just("call"), st.lists(st.integers(0, 2), min_size=n, max_size=n), st.booleans()),
        st.sampled_from([("enter",), ("enter",), ("exit",), ("drop",)]),
    ), min_size=1, max_size=n_calls))
    return {"net": net, "be": be, "const": const, "opt": draw(st.sampled_from(OPTS[:-1])), "blas": draw(st.booleans()), "ops": [list(o) for o in ops],
            "dtype": "float32" if be == "jax" else draw(st.sampled_from(["float32", "float64", "float64", "complex128"])),
            "big": draw(st.booleans())}


def check_convert(case, ctx):
    net, be = case["net"], case["be"]
    n = len(net["inputs"])
    eq = ref.eq_of(net)
    shp = ref.shapes(net)

    dt = case.get("dtype", "float32")
    scale = 2.0**20 if case.get("big") and dt != "float32" else 1.0
    bound = 2**22 if dt == "float32" else 2**52

    def arr(k, seed):
        rng = np.random.RandomState(seed * 31 + k)
        x = rng.randint(-2, 3, size=shp[k]).astype(dt).reshape(shp[k])
        if dt == "complex128":
            x = x + 1j * rng.randint(-2, 3, size=shp[k]).reshape(shp[k])
        if k == 0 and scale > 1:
            x = x * scale + rng.randint(-9, 10, size=shp[k]).reshape(shp[k])  # needs more than 24 bits
        return np.asarray(x, dtype=dt)

    consts = {k: arr(k, 77) for k in case["const"]}
    what0 = f"contract_expression({eq}, {shp}, constants={case['const']}, optimize={case['opt']})"
    with target(what0):
        ex = oe.contract_expression(eq, *[consts.get(k, shp[k]) for k in range(n)], constants=case["const"] or None, optimize=case["opt"],
                                    use_blas=case["blas"])
    stack = []
    pool = {}
    calls = 0
    try:
        for op in case["ops"]:
            if op[0] == "enter":
                cm = oe.shared_intermediates()
                cm.__enter__()
                stack.append(cm)
            elif op[0] == "exit":
                if stack:
                    stack.pop().__exit__(None, None, None)
            elif op[0] == "drop":
                pool.clear()
                gc.collect()
            else:
                seeds, use_out = op[1], op[2]
                given = []
                for k in range(n):
                    if k in consts:
                        continue
                    if (k, seeds[k]) not in pool:
                        pool[k, seeds[k]] = arr(k, seeds[k])
                    given.append(pool[k, seeds[k]])
                truth = [consts.get(k, arr(k, seeds[k])) for k in range(n)]
                exp = ref.einsum(net, truth)
                if np.max(np.abs(exp), initial=0) > bound:
                    raise Inconclusive("not exact")
                out = np.full(exp.shape, 9, dtype=dt) if use_out else None
                what = f"{what0} call {calls} with numpy {dt} arrays, backend={be}, sharing depth {len(stack)}, out={use_out}"
                with target(what):
                    got = ex(*given, backend=be, **({"out": out} if use_out else {}))
                if use_out and got is not out:
                    raise Violation(f"{what}: did not return out")
                if not isinstance(got, (np.ndarray, np.generic)):
                    raise Violation(f"{what}: numpy in, {type(got)} out")
                ref.same(got, exp, what, check_dtype=True)
                if calls % 3 == 2:
                    pool.clear()  # recycled ids
                    del given
                calls += 1
                ctx.label(be, "sharing" if stack else "plain", "const" if consts else "noconst")
                if case["net"]["ones"] == [] and calls == 1 and len(case["ops"]) > 1:
                    # the same expression stays usable with the native type afterwards
                    nat = [to(be, arr(k, seeds[k])) for k in range(n) if k not in consts]
                    with target(what + " then with native arrays"):
                        g2 = ex(*nat)
                        v2 = back(be, g2, what)
                    ref.same(v2, exp, what + " then with native arrays", check_dtype=True)
    finally:
        while stack:
            stack.pop().__exit__(None, None, None)
    ctx.nt(calls >= 1)


# ------------------------------------------------------ gradients
@st.composite
def grads(draw):
    net = draw(nets(n_min=1, n_max=4, pool=4, max_rank=3, cap=300, syms="pool"))
    return {"net": net, "opt": draw(st.sampled_from(OPTS)), "blas": draw(st.booleans()), "which": draw(st.integers(0, 3)), "share": draw(st.booleans())}


def check_grad(case, ctx):
    import torch

    net = case["net"]
    n = len(net["inputs"])
    k = case["which"] % n
    arrays = ref.make_arrays(net, "float64", 5, -2, 2)
    sz = ref.eff_sizes(net)
    w = np.random.RandomState(3).randint(-2, 3, size=tuple(sz[i] for i in net["output"])).astype(float).reshape(tuple(sz[i] for i in net["output"]))
    ops = [torch.tensor(np.array(a, order="C")) for a in arrays]
    ops[k].requires_grad_(True)
    what = f"gradient of contract({ref.eq_of(net)}, optimize={case['opt']}, use_blas={case['blas']}) w.r.t. operand {k}"
    with target(what):
        if case["share"]:
            with oe.shared_intermediates():
                r = oe.contract(ref.eq_of(net), *ops, optimize=case["opt"], use_blas=case["blas"])
        else:
            r = oe.contract(ref.eq_of(net), *ops, optimize=case["opt"], use_blas=case["blas"])
        (r * torch.tensor(w)).sum().backward()
        g = ops[k].grad
    if g is None:
        raise Violation(f"{what}: no gradient flows")
    # derivative of a multilinear form: contract everything else with w, put on the diagonal of repeated labels
    t = net["inputs"][k]
    uniq = list(dict.fromkeys(t))
    others = [net["inputs"][j] for j in range(n) if j != k] + [net["output"]]
    oarr = [arrays[j] for j in range(n) if j != k] + [w]
    ones = [[i] for i in uniq]
    e = ref.einsum_full(others + ones, uniq, oarr + [np.ones(sz[i]) for i in uniq], sz)
    exp = np.zeros(tuple(sz[i] for i in t))
    for c in np.ndindex(*e.shape):
        loc = dict(zip(uniq, c))
        exp[tuple(loc[i] for i in t)] = e[c]
    ref.same(g.numpy(), exp, what)
    ctx.nt(n >= 2)


# ------------------------------------------------------ the functions that adapt torch, also to a torch without tensordot
OLD = {}


def adapter(old):
    """opt_einsum.backends.torch, or a fresh copy of it that sees a torch without tensordot."""
    import torch

    if not old:
        from opt_einsum.backends import torch as mod

        return mod
    if "mod" not in OLD:

        class OldTorch(types.ModuleType):
            def __getattr__(self, name):
                if name == "tensordot":
                    raise AttributeError(name)
                return getattr(torch, name)

        from opt_einsum.backends import torch as mod

        spec = importlib.util.spec_from_file_location("opt_einsum.backends.torch_old", mod.__file__)
        new = importlib.util.module_from_spec(spec)
        real = sys.modules["torch"]
        sys.modules["torch"] = OldTorch("torch")
        try:
            spec.loader.exec_module(new)
            new.tensordot(torch.ones(2), torch.ones(2), 1)
        finally:
            sys.modules["torch"] = real
        OLD["mod"] = new
    return OLD["mod"]


@st.composite
def adapted(draw):
    nx, ny = draw(st.integers(0, 5)), draw(st.integers(0, 5))
    k = draw(st.integers(0, min(nx, ny)))
    ax = draw(st.permutations(range(nx)))[:k]
    ay = draw(st.permutations(range(ny)))[:k]
    form = draw(st.sampled_from(["tuples", "lists", "int", "ints"]))
    sx = draw(st.lists(st.integers(1, 3), min_size=nx, max_size=nx))
    sy = draw(st.lists(st.integers(1, 3), min_size=ny, max_size=ny))
    return {"sx": sx, "sy": sy, "ax": ax, "ay": ay, "form": form, "old": draw(st.sampled_from([True, True, False])), "seed": draw(st.integers(0, 999)),
            "fn": draw(st.sampled_from(["tensordot", "tensordot", "transpose", "einsum"]))}


def check_adapted(case, ctx):
    import torch

    sx, sy, ax, ay, form = list(case["sx"]), list(case["sy"]), list(case["ax"]), list(case["ay"]), case["form"]
    k = len(ax)
    if form == "int":
        ax, ay = list(range(len(sx) - k, len(sx))), list(range(k))
    for p, q in zip(ax, ay):
        sy[q] = sx[p]
    axes = {"tuples": (tuple(ax), tuple(ay)), "lists": (ax, ay), "int": k, "ints": (ax[0], ay[0]) if k == 1 and case["old"] else (tuple(ax), tuple(ay))}[form]
    rs = np.random.RandomState(case["seed"])
    x, y = rs.randint(-3, 4, size=sx).astype(float).reshape(sx), rs.randint(-3, 4, size=sy).astype(float).reshape(sy)
    what = f"torch{' without tensordot' if case['old'] else ''}: {case['fn']} of shapes {sx} and {sy}, axes={axes}"
    with target(what):
        mod = adapter(case["old"])
        tx, ty = torch.tensor(x), torch.tensor(y)
        if case["fn"] == "tensordot":
            got = mod.tensordot(tx, ty, axes)
            exp = np.tensordot(x, y, axes=axes)
        elif case["fn"] == "transpose":
            perm = tuple(rs.permutation(len(sx)).tolist())
            got, exp = mod.transpose(tx, perm), np.transpose(x, perm)
        else:
            a = "".join(oe.get_symbol(60 + i) for i in range(len(sx)))
            b = "".join(a[ax[ay.index(j)]] if j in ay else oe.get_symbol(20 + j) for j in range(len(sy)))
            o = "".join(c for c in a + b if (a + b).count(c) == 1)
            got, exp = mod.einsum(f"{a},{b}->{o}", tx, ty), np.tensordot(x, y, axes=(ax, ay))
    if not isinstance(got, torch.Tensor):
        raise Violation(f"{what}: returned {type(got)}")
    ref.same(got.numpy(), np.asarray(exp), what)
    ctx.label(case["fn"], "old torch" if case["old"] else "torch", form)
    ctx.nt(k >= 1)


# ------------------------------------------------------ several libraries in one process
@st.composite
def libraries(draw):
    names = ["Array", "Tensor", "ndarray", "DeviceArray"]
    libs = [{"cls": draw(st.sampled_from(names[:draw(st.integers(1, 4))])), "sub": draw(st.sampled_from(["", "", ".core", ".core.arrays"])),
             "einsum": draw(st.booleans()), "under": draw(st.booleans())} for _ in range(draw(st.integers(2, 4)))]
    calls = []
    for _ in range(draw(st.integers(2, 6))):
        net = draw(nets(n_min=2, n_max=4, pool=5, max_rank=3, cap=300, repeats=False))
        calls.append({"net": net, "lib": draw(st.integers(-2, len(libs) - 1)), "how": draw(st.sampled_from(["contract", "expr", "shared", "named"])),
                      "opt": draw(st.sampled_from(OPTS))})
    return {"libs": libs, "calls": calls}


LIBS = [0]


class OwnLib:
    """an array library: its functions only accept and return its own array type"""

    def __init__(self, spec, base, tag):
        LIBS[0] += 1
        name = f"{base}_{LIBS[0]}" if spec["under"] else f"{base}{LIBS[0]}"
        lib = self

        class Arr:
            def __init__(self, x):
                self._x = np.asarray(x)

            @property
            def shape(self):
                return self._x.shape

            @property
            def ndim(self):
                return self._x.ndim

        Arr.__name__ = Arr.__qualname__ = f"{spec['cls']}{tag}"  # the same for libraries of one case, fresh in the next
        Arr.__module__ = name + spec["sub"]
        self.name, self.Arr = name, Arr
        m = types.ModuleType(name)
        m.__spec__ = importlib.util.spec_from_loader(name, loader=None)
        m.tensordot = lambda x, y, axes=2: Arr(np.tensordot(lib.own(x), lib.own(y), axes=axes))
        m.transpose = lambda x, axes=None: Arr(np.transpose(lib.own(x), axes))
        if spec["einsum"]:
            m.einsum = lambda eq, *xs: Arr(np.einsum(eq, *[lib.own(x) for x in xs]))
        sys.modules[name] = m

    def own(self, x):
        if type(x) is not self.Arr:
            raise TypeError(f"{self.name} was handed a foreign {type(x)}")
        return x._x


def check_libraries(case, ctx):
    LIBS[0] += 1
    tag = LIBS[0]
    libs = [OwnLib(s, "vplib", tag) for s in case["libs"]]
    used = []
    try:
        for c in case["calls"]:
            net = c["net"]
            arrays = ref.make_arrays(net, "float64", 7, -2, 2)
            exp = ref.einsum(net, arrays)
            eq = ref.eq_of(net)
            if c["lib"] >= 0:
                lib = libs[c["lib"]]
                if not case["libs"][c["lib"]]["einsum"]:
                    # only what tensordot and transpose can do is promised
                    cnt = {}
                    for t in net["inputs"] + [net["output"]]:
                        for i in t:
                            cnt[i] = cnt.get(i, 0) + 1
                    if any(v != 2 for v in cnt.values()) or c["opt"] is False:
                        continue
                ops = [lib.Arr(a) for a in arrays]
                who, want = f"{lib.Arr.__module__}.{lib.Arr.__name__}", lib.Arr
            elif c["lib"] == -1:
                ops, who, want, lib = arrays, "numpy", (np.ndarray, np.generic), None
            else:
                import dask.array as da

                ops, who, want, lib = [to("dask", a) for a in arrays], "dask", da.Array, None
            kw = {"backend": {"numpy": "numpy", "dask": "dask"}.get(who) or lib.name} if c["how"] == "named" else {}
            what = f"contract({eq}) [{c['how']}, optimize={c['opt']}] on {who} arrays after calls on {used or 'nothing'}"
            with target(what):
                if c["how"] == "expr":
                    got = oe.contract_expression(eq, *[a.shape for a in arrays], optimize=c["opt"] or "auto")(*ops)
                elif c["how"] == "shared":
                    with oe.shared_intermediates():
                        got = oe.contract(eq, *ops, optimize=c["opt"])
                else:
                    got = oe.contract(eq, *ops, optimize=c["opt"], **kw)
            if not isinstance(got, want):
                raise Violation(f"{what}: gave a {type(got)}")
            g = got._x if c["lib"] >= 0 else got.compute(scheduler="synchronous") if who == "dask" else got
            ref.same(np.asarray(g), exp, what)
            used.append(who)
    finally:
        for lib in libs:
            sys.modules.pop(lib.name, None)
    ctx.nt(len(set(used)) >= 2)


SUBS = [
    Sub("direct", check_direct, lambda: direct(["torch", "tensorflow", "dask", "object", "autograd", "subclass", "torch", "tensorflow", "elem"]), quick=24000, thorough=250000),
    Sub("direct-jax", check_direct, lambda: direct(["jax"]), quick=1500, thorough=12000),
    Sub("direct-sparse", check_direct, lambda: direct(["sparse"]), quick=2500, thorough=25000),
    Sub("convert", check_convert, lambda: convert(["torch", "tensorflow"], 8), quick=15000, thorough=150000),
    Sub("convert-jax", check_convert, lambda: convert(["jax"]), quick=640, thorough=8000, case_timeout=120),
    Sub("libraries", check_libraries, libraries, quick=6000, thorough=60000),
    Sub("adapted", check_adapted, adapted, quick=4000, thorough=40000, rule="the torch adapter's functions against numpy's, on torch with and without tensordot"),
    Sub("gradient", check_grad, grads, quick=9000, thorough=90000),
]
