"""C22: the random contraction generators produce valid contractions with the requested structure."""
import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import testing

import ref
from core import Inconclusive, Sub, Violation, target

RULE = (
    "rand_equation over the whole parameter space (2-60 operands, regularity 1-8, outputs, dimension range, global index, seed): the equation must have exactly n "
    "operands, n*regularity//2 bonds each in exactly two different operands, n_out open indices, sizes in range and consistent, be reproducible from its seed, and be accepted and "
    "correctly evaluated by contract; build_shapes / build_views / build_arrays_from_tuples agree with the equation; non-trivial = 3+ operands"
)
ASSUMPTIONS = ["at least two operands (a single operand cannot carry a bond)"]


@st.composite
def params(draw, big=False):
    n = draw(st.integers(2, 60 if big else 8))
    dmin = draw(st.integers(1, 9))
    return {"n": n, "regularity": draw(st.integers(1, 8 if big else 4)), "n_out": draw(st.integers(0, 12 if big else 4)),
            "d_min": dmin, "d_max": dmin + draw(st.integers(0, 6)), "seed": draw(st.one_of(st.none(), st.integers(0, 2**31 - 1))),
            "global_dim": draw(st.booleans()), "ret": draw(st.booleans())}


def generate(c, ret):
    kw = {k: c[k] for k in ("n_out", "d_min", "d_max", "seed", "global_dim")}
    return testing.rand_equation(c["n"], c["regularity"], return_size_dict=ret, **kw)


def structure(c):
    what = f"rand_equation({c})"
    with target(what):
        r = generate(c, c["ret"])
    if len(r) != (3 if c["ret"] else 2):
        raise Violation(f"{what}: returned {len(r)} values")
    eq, shapes = r[0], r[1]
    if eq.count("->") != 1:
        raise Violation(f"{what}: equation {eq!r}")
    lhs, out = eq.split("->")
    terms = lhs.split(",")
    if len(terms) != c["n"] or len(shapes) != c["n"]:
        raise Violation(f"{what}: {len(terms)} operands and {len(shapes)} shapes")
    sizes = {}
    for t, s in zip(terms, shapes):
        if len(t) != len(s):
            raise Violation(f"{what}: operand {t!r} has shape {s}")
        if len(set(t)) != len(t):
            raise Violation(f"{what}: operand {t!r} has a trace")
        for ch, d in zip(t, s):
            if sizes.setdefault(ch, d) != d:
                raise Violation(f"{what}: index {ch!r} has sizes {sizes[ch]} and {d}")
            if not c["d_min"] <= d <= c["d_max"]:
                raise Violation(f"{what}: size {d} outside [{c['d_min']}, {c['d_max']}]")
    nb = c["n"] * c["regularity"] // 2
    cnt = {ch: sum(ch in t for t in terms) for ch in sizes}
    if len(set(out)) != len(out) or not set(out) <= set(sizes):
        raise Violation(f"{what}: output {out!r}")
    glob = [ch for ch in out if cnt[ch] == c["n"]] if c["global_dim"] else []
    if c["global_dim"] and not glob:
        raise Violation(f"{what}: no index is on every operand and the output: {eq}")
    bonds = [ch for ch in sizes if ch not in out]
    if len(bonds) != nb or any(cnt[ch] != 2 for ch in bonds):
        raise Violation(f"{what}: {len(bonds)} bonds with multiplicities {sorted({cnt[b] for b in bonds})}, expected {nb} bonds: {eq}")
    if len(out) != c["n_out"] + c["global_dim"]:
        raise Violation(f"{what}: {len(out)} output indices: {eq}")
    if sum(1 for ch in out if cnt[ch] == 1) < c["n_out"]:
        raise Violation(f"{what}: an open index is on several operands: {eq}")
    if 2 * nb + c["n_out"] >= c["n"] and any(len(t) - c["global_dim"] < 1 for t in terms):
        raise Violation(f"{what}: an operand has no index: {eq}")
    if c["ret"] and {k: int(v) for k, v in r[2].items()} != {k: int(v) for k, v in sizes.items()}:
        raise Violation(f"{what}: size_dict {r[2]} does not match the shapes {sizes}")
    return what, eq, shapes, terms, out, sizes


def check(c, ctx):
    what, eq, shapes, terms, out, sizes = structure(c)
    if c["seed"] is not None:
        np.random.rand(3)
        with target(what):
            r2 = generate(c, c["ret"])
        if r2[0] != eq or list(map(tuple, r2[1])) != list(map(tuple, shapes)):
            raise Violation(f"{what}: not reproducible: {eq} and {r2[0]}")
    with target(f"contract_path on {what}"):
        path, info = oe.contract_path(eq, *shapes, shapes=True, optimize="greedy")
    ref.check_path(path, c["n"], what)
    with target(f"build_shapes({eq})"):
        bs = testing.build_shapes(eq, {k: int(v) for k, v in sizes.items()})
    if [tuple(s) for s in bs] != [tuple(int(d) for d in s) for s in shapes]:
        raise Violation(f"build_shapes({eq!r}) = {bs}, expected {shapes}")
    total = 1
    for d in sizes.values():
        total *= int(d)
    if total <= 100000 and len(sizes) <= 30:
        with target(f"build_views({eq})"):
            views = testing.build_views(eq, {k: int(v) for k, v in sizes.items()})
            arrs = testing.build_arrays_from_tuples(shapes)
        if [np.shape(v) for v in views] != [tuple(s) for s in bs] or [np.shape(v) for v in arrs] != [tuple(s) for s in bs]:
            raise Violation(f"build_views({eq!r}) has shapes {[np.shape(v) for v in views]}")
        idx = {ch: k for k, ch in enumerate(sizes)}
        ints = [np.random.RandomState(k).randint(-2, 3, size=s).astype(float) for k, s in enumerate(bs)]
        exp = ref.einsum_full([[idx[ch] for ch in t] for t in terms], [idx[ch] for ch in out], ints, {idx[ch]: int(d) for ch, d in sizes.items()})
        with target(f"contract on {what}"):
            got = oe.contract(eq, *ints)
        ref.same(got, exp, what)
        ctx.label("evaluated")
    ctx.nt(c["n"] >= 3)


# ------------------------------------------------------------ build_shapes / build_views
CH = "abcdefghijklmnopqABC"


@st.composite
def strings(draw):
    terms = draw(st.lists(st.text(alphabet=CH, max_size=4), min_size=1, max_size=5))
    ell = draw(st.lists(st.booleans(), min_size=len(terms), max_size=len(terms)))
    return {"terms": terms, "ell": ell, "pos": draw(st.integers(0, 4)), "dims": draw(st.one_of(st.none(), st.lists(st.integers(1, 4), min_size=20, max_size=20))),
            "arrow": draw(st.booleans())}


def check_build(c, ctx):
    dims = None if c["dims"] is None else dict(zip(CH, c["dims"]))
    ell = any(c["ell"]) and dims is None
    parts = []
    for t, e in zip(c["terms"], c["ell"]):
        p = min(c["pos"], len(t))
        parts.append(t[:p] + "..." + t[p:] if e and ell else t)
    s = ",".join(parts) + ("->" if c["arrow"] else "")
    if ell:
        try:
            testing.build_shapes(s)
        except ValueError:
            pass
        else:
            raise Violation(f"build_shapes({s!r}) accepts an ellipsis without replace_ellipsis=True")
    with target(f"build_shapes({s!r})"):
        shp = testing.build_shapes(s, dims, replace_ellipsis=ell)
    if len(shp) != len(c["terms"]):
        raise Violation(f"build_shapes({s!r}) = {shp}")
    seen = {}
    nell = None
    for t, part, sh in zip(c["terms"], parts, shp):
        sh = tuple(sh)
        extra = len(sh) - len(t)
        p = part.find("...")
        if p < 0:
            if extra:
                raise Violation(f"build_shapes({s!r}) = {shp}")
            rest = sh
        else:
            if nell is not None and sh[p : p + extra] != nell:
                raise Violation(f"build_shapes({s!r}): the ellipsis has different shapes")
            nell = sh[p : p + extra]
            rest = sh[:p] + sh[p + extra :]
        for ch, d in zip(t, rest):
            if seen.setdefault(ch, d) != d or (dims is not None and dims[ch] != d):
                raise Violation(f"build_shapes({s!r}, {dims}): index {ch!r} has size {d}")
    size = max([int(np.prod(sh, dtype=object)) for sh in shp])
    if size > 200000:
        raise Inconclusive("large")
    with target(f"build_views({s!r})"):
        vs = testing.build_views(s, dims, replace_ellipsis=ell)
    if [np.shape(v) for v in vs] != [tuple(x) for x in shp]:
        raise Violation(f"build_views({s!r}) has shapes {[np.shape(v) for v in vs]}, build_shapes says {shp}")
    ctx.nt(len(c["terms"]) >= 2)


SUBS = [
    Sub("small", check, params, quick=12000, thorough=150000),
    Sub("large", check, lambda: params(True), quick=3000, thorough=40000),
    Sub("build", check_build, strings, quick=8000, thorough=80000),
]
