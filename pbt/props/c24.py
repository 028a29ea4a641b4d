"""C24: arrays are kept alive only as long as they are needed."""
import gc
import weakref

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import fakes
import ref
from common import make_opt, opt_specs
from core import Inconclusive, Sub, Violation, target
from gen import any_path, nets

RULE = (
    "contractions, expressions (with and without constants, repeated calls, converting backend) and path searches on an array library whose every array is tracked by a weak "
    "reference: whenever the library is called, each intermediate still alive is either not yet consumed, or an argument of this or of the previous operation; after a call only the result is alive; "
    "the arrays given are released as soon as the caller drops them (constants with the expression, shared arrays with the cache); "
    "non-trivial = at least two pairwise steps"
)
ASSUMPTIONS = ["the array library itself keeps no references", "an intermediate may stay alive during one operation after the one that consumed it"]


class Tracked(fakes.Minimal):
    """library whose results are tracked; `check_live` is evaluated inside every operation."""

    def __init__(self, name, einsum):
        super().__init__(name, einsum=einsum)
        self.clear()

    def clear(self):
        self.reset()
        self.refs = []  # weak references to the results, in order
        self.used = {}  # result number -> last operation that consumed it
        self.nops = 0
        self.bad = []  # (result number, message)
        self.peak = 0

    def _op(self, args, res):
        self.nops += 1
        live = {id(r()): k for k, r in enumerate(self.refs) if r() is not None}
        self.peak = max(self.peak, len(live))
        for a in args:
            if id(a) in live:
                self.used[live[id(a)]] = self.nops
        for k in live.values():
            last = self.used.get(k)
            if last is not None and last < self.nops - 1:
                self.bad.append((k, f"during operation {self.nops} the result of operation {k + 1}, last used by operation {last}, is still alive"))
        x = self.Arr(res)
        self.refs.append(weakref.ref(x))
        return x

    def tensordot(self, x, y, axes=2):
        self._chk(x, y)
        return self._op((x, y), np.tensordot(x._x, y._x, axes=axes))

    def transpose(self, x, axes):
        self._chk(x)
        return self._op((x,), np.transpose(x._x, axes))

    def einsum(self, eq, *ops, **kw):
        self._chk(*ops)
        return self._op(ops, np.einsum(eq, *[o._x for o in ops]))

    def alive(self):
        gc.collect()
        return [r() for r in self.refs if r() is not None]


LIB = Tracked("vp_tracked", True)
LIB2 = Tracked("vp_tracked_min", False)


@st.composite
def long_cases(draw):
    net = draw(nets(n_min=6, n_max=draw(st.sampled_from([10, 10, 24])), pool=10, max_rank=3, cap=2000, size_pool=(2, 1, 3)))
    n = len(net["inputs"])
    return {"net": net, "lib": 0, "opt": {"cls": "path", "path": draw(any_path(n))}, "blas": draw(st.booleans()), "seed": draw(st.integers(0, 999)),
            "const": sorted(draw(st.sets(st.integers(0, n - 1), max_size=n - 1))), "calls": draw(st.integers(1, 2)),
            "mode": draw(st.sampled_from(["contract", "expr", "contract", "shared"]))}


@st.composite
def cases(draw):
    pairs = draw(st.integers(0, 3)) == 0
    if pairs:
        net = draw(nets(n_min=2, n_max=6, pool=8, max_rank=4, cap=2000, repeats=False, dup=False, dangling=False, max_count=2))
        cnt = {i: sum(i in t for t in net["inputs"]) for t in net["inputs"] for i in t}
        net["output"] = [i for i in sorted(cnt) if cnt[i] == 1]
    else:
        net = draw(nets(n_min=1, n_max=6, pool=7, max_rank=4, cap=2000))
    n = len(net["inputs"])
    opt = {"cls": "path", "path": draw(any_path(n))} if n > 1 and draw(st.integers(0, 3)) == 0 and not pairs else draw(opt_specs())
    return {"net": net, "lib": int(pairs), "opt": opt, "blas": draw(st.booleans()), "seed": draw(st.integers(0, 999)),
            "const": sorted(draw(st.one_of(st.just(set()), st.sets(st.integers(0, n - 1), min_size=min(2, n - 1), max_size=n - 1)))), "calls": draw(st.integers(1, 3)),
            "mode": draw(st.sampled_from(["expr", "contract", "convert", "shared", "expr", "path", "contract", "expr"]))}


def dead(wrefs, what, who):
    gc.collect()
    left = [k for k, w in enumerate(wrefs) if w() is not None]
    if left:
        raise Violation(f"{what}: {who} {left} stay alive")


def check(c, ctx):
    net = c["net"]
    lib = LIB2 if c["lib"] else LIB
    eq, n = ref.eq_of(net), len(net["inputs"])
    base = ref.make_arrays(net, "float64", c["seed"])
    exp = ref.einsum(net, base)
    what = f"{c['mode']} {eq} shapes={ref.shapes(net)} optimize={c['opt']} use_blas={c['blas']}"
    kw = {"optimize": make_opt(c["opt"]), "use_blas": c["blas"]} if lib is LIB else {"optimize": make_opt(c["opt"])}
    if c["opt"] is None and c["mode"] not in ("contract", "shared"):
        kw["optimize"] = "auto"  # None is documented for contract only
    lib.clear()
    if c["mode"] == "path":
        ops = [np.array(b) for b in base]
        wr = [weakref.ref(o) for o in ops]
        with target(what):
            path, info = oe.contract_path(eq, *ops, **kw)
        str(info)
        del ops
        dead(wr, what, "operands, kept by the path report or the optimizer,")
        ctx.nt(len(path) >= 2)
        return
    if c["mode"] == "convert":
        return convert(c, ctx, net, eq, base, exp, what, kw)

    def result(r, what):
        if type(r) is not lib.Arr:
            raise Violation(f"{what}: returned a {type(r)}")
        ref.same(r._x, exp, what)

    def after(what, r, extra=()):
        """only the result and `extra` of the library's results are alive."""
        if lib.bad:
            raise Violation(f"{what}: {lib.bad[0][1]}")
        keep = {id(r)} | {id(e) for e in extra}
        left = [a for a in lib.alive() if id(a) not in keep]
        if left:
            raise Violation(f"{what}: after the call {len(left)} intermediate arrays are alive beside the result, shapes {[a.shape for a in left]}")

    if c["mode"] == "contract":
        ops = [lib.Arr(b) for b in base]
        wr = [weakref.ref(o) for o in ops]
        with target(what):
            r = oe.contract(eq, *ops, **kw)
        result(r, what)
        after(what, r)
        passthrough = any(r is o for o in ops)
        del ops
        if not passthrough:
            dead(wr, what, "operands")
        del r
        dead(wr + lib.refs, what, "operands or results, after the result was dropped,")
    elif c["mode"] == "shared":
        ops = [lib.Arr(b) for b in base]
        wr = [weakref.ref(o) for o in ops]
        with oe.shared_intermediates() as cache:
            for _ in range(c["calls"]):
                with target(what):
                    r = oe.contract(eq, *ops, **kw)
                result(r, what)
        del ops
        del cache, r
        dead(wr + lib.refs, what, "arrays, after the sharing cache was dropped,")
        # and nothing of it is left for later calls
        ops = [lib.Arr(b) for b in base]
        lib.clear()
        with target(what):
            r = oe.contract(eq, *ops, **kw)
        after(what + " after sharing", r)
    else:
        consts = {k: lib.Arr(base[k]) for k in c["const"]}
        args = [consts[k] if k in consts else ref.shapes(net)[k] for k in range(n)]
        with target(what):
            ex = oe.contract_expression(eq, *args, constants=c["const"] or None, **kw)
        del args
        wc = [weakref.ref(x) for x in consts.values()]
        held, everything = 0, []
        for k in range(c["calls"]):
            ops = [lib.Arr(base[i]) for i in range(n) if i not in consts]
            wr = [weakref.ref(o) for o in ops]
            if k:
                everything += lib.refs
                lib.clear()
            with target(what):
                r = ex(*ops)
            result(r, what)
            passthrough = any(r is o for o in ops)
            if k == 0 and consts:
                # contracted constants stay with the expression; at most one per constant
                gc.collect()
                left = [a for a in lib.alive() if a is not r]
                if len(left) > len(consts):
                    raise Violation(f"{what} constants={c['const']}: after the first call {len(left)} intermediates are alive for {len(consts)} constants")
                held = len(left)
                bad = [m for k2, m in lib.bad if lib.refs[k2]() is None]
                if bad:
                    raise Violation(f"{what} constants={c['const']} first call: {bad[0]}")
                del left
            else:
                after(f"{what} constants={c['const']} call {k + 1}", r)
            del ops
            if not passthrough:
                dead(wr, f"{what} call {k + 1}", "arguments, after the call,")
            del r
            dead(wr, f"{what} call {k + 1}", "arguments, after the result was dropped,")
        consts.clear()
        del ex
        dead(wc + everything + lib.refs, what, "constants or intermediates, after the expression was dropped,")
        ctx.label("constants" if c["const"] else "no-constants", f"held-{min(held, 3)}")
    ctx.label(c["mode"], f"peak-{min(lib.peak, 4)}")
    ctx.nt(n >= 3)


DEVICE = []


def device():
    """the stand-in for cupy (one per process: the library looks its functions up once) and the list of its arrays"""
    if not DEVICE:
        dev, made = fakes.FakeCupy(), []
        orig = dev.Arr.__init__

        def init(self, x):
            orig(self, x)
            made.append(weakref.ref(self))

        dev.Arr.__init__ = init
        dev.module.asarray = lambda x: dev.Arr(np.array(x))
        DEVICE.extend([dev, made])
    return DEVICE[1]


def convert(c, ctx, net, eq, base, exp, what, kw):
    """numpy arrays through an expression on a device library: neither host nor device copies of the arguments survive the call."""
    n = len(base)
    made = device()
    made.clear()
    consts = {k: np.array(base[k]) for k in c["const"]}
    args = [consts[k] if k in consts else ref.shapes(net)[k] for k in range(n)]
    with target(what):
        ex = oe.contract_expression(eq, *args, constants=c["const"] or None, **kw)
    del args
    for k in range(c["calls"]):
        ops = [np.array(base[i]) for i in range(n) if i not in consts]
        wr = [weakref.ref(o) for o in ops]
        m0 = len(made)
        with target(what):
            r = ex(*ops, backend="cupy")
        ref.same(r, exp, what)
        del ops
        dead(wr, f"{what} backend=cupy call {k + 1}", "arguments, after the call,")
        gc.collect()
        live = sum(w() is not None for w in made[m0:])
        allowed = len(consts) if k == 0 else 0
        if live > allowed:
            raise Violation(f"{what} backend=cupy call {k + 1}: {live} device arrays stay alive, {len(consts)} constants")
        del r
    consts.clear()
    del ex
    dead(made, what, "device arrays, after the expression was dropped,")
    ctx.label("convert")
    ctx.nt(n >= 3)


# ------------------------------------------------------------ installed libraries
@st.composite
def lib_cases(draw):
    net = draw(nets(n_min=1, n_max=4, pool=5, max_rank=3, cap=500, zero=False))
    n = len(net["inputs"])
    return {"net": net, "lib": draw(st.sampled_from(["numpy", "torch", "to-torch", "numpy-out", "object", "to-jax", "to-tensorflow", "dask", "sparse"])), "seed": draw(st.integers(0, 99)),
            "opt": draw(st.sampled_from(["auto", "greedy", "optimal", "dp", "branch-2", False])), "expr": draw(st.booleans()), "calls": draw(st.integers(1, 2)),
            "const": sorted(draw(st.one_of(st.just(set()), st.sets(st.integers(0, n - 1), max_size=n - 1))))}


def as_lib(x, lib):
    if lib == "torch":
        import torch

        return torch.tensor(np.array(x))
    if lib == "dask":
        import dask.array

        return dask.array.from_array(np.array(x), chunks=-1)
    if lib == "sparse":
        import sparse

        return sparse.COO.from_numpy(np.array(x))
    if lib == "object":
        return np.array(x).astype(object)
    return np.array(x)


def check_libs(c, ctx):
    net, lib = c["net"], c["lib"]
    n, eq = len(net["inputs"]), ref.eq_of(net)
    base = ref.make_arrays(net, "float64", c["seed"])
    exp = ref.einsum(net, base)
    expr = c["expr"] or lib.startswith("to-")
    const = c["const"] if expr else []
    opt = "auto" if c["opt"] is False and expr else c["opt"]
    if lib in ("dask", "sparse") and (n == 1 or opt is False or any(len(set(t)) < len(t) for t in net["inputs"])):
        raise Inconclusive("not offered by the library")
    what = f"{'expression' if expr else 'contract'} {eq} shapes={ref.shapes(net)} optimize={opt} constants={const} {lib}"
    consts = {k: as_lib(base[k], lib) for k in const}
    ckept = [weakref.ref(x) for x in consts.values()]
    ex = None
    if expr:
        with target(what):
            ex = oe.contract_expression(eq, *[consts[k] if k in consts else ref.shapes(net)[k] for k in range(n)], constants=const or None, optimize=opt)
    for k in range(c["calls"]):
        ops = [as_lib(base[i], lib) for i in range(n) if i not in consts]
        wr = [weakref.ref(o) for o in ops]
        kw = {}
        if lib == "numpy-out":
            kw["out"] = np.empty(exp.shape)
            wr.append(weakref.ref(kw["out"]))
        if lib.startswith("to-"):
            kw["backend"] = lib[3:]
        try:
            if expr:
                r = ex(*ops, **kw)
            else:
                if opt is not False and not kw:
                    kw["use_blas"] = bool(c["seed"] % 2)
                r = oe.contract(eq, *ops, optimize=opt, **kw)
        except Exception as e:
            if lib in ("numpy", "numpy-out", "torch", "to-torch"):
                raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:200]}") from e
            raise Inconclusive("refused by the library") from e  # C13 decides these
        kw.clear()
        del ops, r
        dead(wr, f"{what} call {k + 1}", "arrays given to the call, after it and its result were dropped,")
    consts.clear()
    ex = None
    dead(ckept, what, "constants, after the expression was dropped,")
    ctx.label(lib, "expr" if expr else "contract")
    ctx.nt(n >= 2)


SUBS = [Sub("libraries", check_libs, lib_cases, quick=3000, thorough=40000),
        Sub("lifetimes", check, cases, quick=14000, thorough=200000),
        Sub("long", check, long_cases, quick=3000, thorough=50000)]
