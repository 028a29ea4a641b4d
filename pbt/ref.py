"""Independent reference models (no opt_einsum code is used here)."""
import itertools
from math import prod

import numpy as np

from core import Inconclusive, Violation

FULL_CAP = 300_000


# ---------------------------------------------------------------- networks
def eff_sizes(net):
    """index -> size that the whole expression sees (1s broadcast up)."""
    ones = {(t, i) for t, i in net.get("ones", [])}
    out = {}
    for t, term in enumerate(net["inputs"]):
        for i in term:
            d = 1 if (t, i) in ones else net["sizes"][i]
            if out.get(i, 1) == 1:
                out[i] = d
    return out


def shapes(net):
    ones = {(t, i) for t, i in net.get("ones", [])}
    return [tuple(1 if (t, i) in ones else net["sizes"][i] for i in term) for t, term in enumerate(net["inputs"])]


def eq_of(net, output=True):
    s = net["syms"]
    lhs = ",".join("".join(s[i] for i in term) for term in net["inputs"])
    if not output:
        return lhs
    return lhs + "->" + "".join(s[i] for i in net["output"])


def implicit_output(net):
    """Einstein convention: indices appearing exactly once, sorted by symbol."""
    flat = [i for term in net["inputs"] for i in term]
    once = [i for i in set(flat) if flat.count(i) == 1]
    return sorted(once, key=lambda i: net["syms"][i])


# ---------------------------------------------------------------- arrays
def make_arrays(net, dtype="int64", seed=0, lo=-3, hi=3, layouts=None):
    rng = np.random.RandomState(seed % (2**31))
    out = []
    for t, shp in enumerate(shapes(net)):
        x = rng.randint(lo, hi + 1, size=shp)
        if dtype.startswith("complex"):
            x = x + 1j * rng.randint(lo, hi + 1, size=shp)
        if dtype == "bool":
            x = x > 0
        if dtype == "object":
            y = np.empty(shp, dtype=object)
            for c in np.ndindex(*shp):
                y[c] = int(x[c])
            x = y
        else:
            x = np.asarray(x).astype(dtype)
        lay = (layouts or ["C"])[t % len(layouts or ["C"])]
        out.append(layout(x, lay))
    return out


def layout(x, lay):
    if lay == "F":
        return np.asfortranarray(x) if x.ndim else x
    if lay == "neg" and x.ndim:
        sl = tuple(slice(None, None, -1) for _ in range(x.ndim))
        y = np.ascontiguousarray(x[sl])
        return y[sl]
    if lay == "strided" and x.ndim:
        big = np.zeros(tuple(2 * d for d in x.shape), dtype=x.dtype)
        sl = tuple(slice(None, None, 2) for _ in range(x.ndim))
        big[sl] = x
        return big[sl]
    if lay == "ro":
        y = x.copy()
        y.setflags(write=False)
        return y
    return x


# ---------------------------------------------------------------- einsum
def _expand(x, term, order, sizes):
    """View of operand x over the axes `order` (diagonals taken)."""
    uniq = []
    for i in term:
        if i not in uniq:
            uniq.append(i)
    # take diagonals by explicit fancy indexing
    for i in uniq:
        axes = [a for a, j in enumerate(term) if j == i]
        while len(axes) > 1:
            x = np.diagonal(x, axis1=axes[0], axis2=axes[1])
            term = [j for a, j in enumerate(term) if a not in (axes[0], axes[1])] + [i]
            axes = [a for a, j in enumerate(term) if j == i]
    perm = [list(term).index(i) for i in order if i in term]
    x = np.transpose(x, perm) if len(perm) > 1 else x
    shp = []
    k = 0
    for i in order:
        if i in term:
            shp.append(x.shape[k])
            k += 1
        else:
            shp.append(1)
    return x.reshape(shp)


def einsum_full(inputs, output, arrays, sizes):
    order = list(output) + sorted({i for t in inputs for i in t} - set(output), key=str)
    full = tuple(sizes[i] for i in order)
    if prod(full) > FULL_CAP:
        raise Inconclusive("index space too large for the dense reference")
    acc = None
    for term, x in zip(inputs, arrays):
        v = _expand(np.asarray(x), list(term), order, sizes)
        acc = v if acc is None else acc * v
    acc = np.broadcast_to(acc, full)
    summed = tuple(range(len(output), len(order)))
    if not summed:
        return np.array(acc)
    if acc.dtype == object:
        res = np.empty(full[: len(output)], dtype=object)
        for c in np.ndindex(*full[: len(output)]):
            tot = 0
            for v in np.asarray(acc[c]).ravel():
                tot = tot + v
            res[c] = tot
        return res
    return np.asarray(acc.sum(axis=summed, dtype=acc.dtype))


def einsum_seq(inputs, output, arrays, sizes):
    """Left-to-right elimination; used when the full index space is too big."""
    terms = [list(t) for t in inputs]
    arrs = [np.asarray(a) for a in arrays]
    cur_t, cur = terms[0], arrs[0]
    for k in range(1, len(terms) + 1):
        later = {i for t in terms[k + 1:] for i in t} | set(output)
        if k < len(terms):
            keep = [i for i in dict.fromkeys(list(cur_t) + terms[k]) if i in later]
            cur = einsum_full([cur_t, terms[k]], keep, [cur, arrs[k]], _local(sizes, [cur_t, terms[k]], [cur, arrs[k]]))
            cur_t = keep
    return einsum_full([cur_t], list(output), [cur], sizes)


def _local(sizes, ts, xs):
    d = {}
    for t, x in zip(ts, xs):
        for i, n in zip(t, x.shape):
            if d.get(i, 1) == 1:
                d[i] = n
    return d


def einsum(net, arrays, output=None):
    out = net["output"] if output is None else output
    sz = eff_sizes(net)
    if prod(sz.values()) <= FULL_CAP:
        return einsum_full(net["inputs"], out, arrays, sz)
    r = einsum_seq(net["inputs"], out, arrays, sz)
    return np.broadcast_to(r, tuple(sz[i] for i in out)).copy()


def einsum_large(net, arrays):
    """Pairwise elimination in an order of small intermediates: for networks of many tensors."""
    sz = eff_sizes(net)
    live = [(list(dict.fromkeys(t)), einsum_full([t], list(dict.fromkeys(t)), [a], _local(sz, [t], [a]))) for t, a in zip(net["inputs"], arrays)]
    out = set(net["output"])
    while len(live) > 1:
        cnt = {}
        for t, _ in live:
            for i in t:
                cnt[i] = cnt.get(i, 0) + 1
        best = None
        for a in range(len(live)):
            sa = set(live[a][0])
            for b in range(a + 1, len(live)):
                sb = set(live[b][0])
                keep = [i for i in sa | sb if i in out or cnt[i] > (i in sa) + (i in sb)]
                score = (prod(sz[i] for i in keep) - prod(sz[i] for i in sa) - prod(sz[i] for i in sb), a, b)
                if best is None or score < best[0]:
                    best = score, a, b, sorted(keep)
        _, a, b, keep = best
        (tb, xb), (ta, xa) = live.pop(b), live.pop(a)
        live.append((keep, einsum_full([ta, tb], keep, [xa, xb], _local(sz, [ta, tb], [xa, xb]))))
    t, x = live[0]
    r = einsum_full([t], list(net["output"]), [x], _local(sz, [t], [x]))
    return np.broadcast_to(r, tuple(sz[i] for i in net["output"])).copy()


def same(got, exp, what, rtol=0.0, scale=None, check_dtype=True):
    """exact (rtol=0) or tolerant comparison, raising Violation."""
    try:
        g = np.asarray(got)
    except Exception as e:
        raise Violation(f"{what}: result is not array-like: {e}") from e
    if g.shape != exp.shape:
        raise Violation(f"{what}: result shape {g.shape}, expected {exp.shape}")
    if check_dtype and g.dtype != exp.dtype:
        raise Violation(f"{what}: result dtype {g.dtype}, expected {exp.dtype}")
    if rtol == 0.0:
        eq = g == exp
        ok = bool(np.all(eq))
    else:
        sc = scale if scale is not None else float(np.max(np.abs(exp.astype(complex)), initial=1.0))
        ok = bool(np.all(np.abs(g.astype(complex) - exp.astype(complex)) <= rtol * max(sc, 1.0)))
    if not ok:
        raise Violation(f"{what}: wrong value: got {np.array2string(g.ravel()[:8])}, expected {np.array2string(exp.ravel()[:8])}")


# ---------------------------------------------------------------- paths
def check_path(path, n, what, pairwise=None):
    """Structural validity of a complete linear contraction path over n terms."""
    try:
        steps = [tuple(p) for p in path]
    except Exception as e:
        raise Violation(f"{what}: path {path!r} is not a sequence of tuples") from e
    cnt = n
    for k, s in enumerate(steps):
        if len(s) == 0:
            raise Violation(f"{what}: empty step {k} in path {steps} for {n} terms")
        for p in s:
            if isinstance(p, bool) or not hasattr(p, "__index__"):
                raise Violation(f"{what}: non-integer position {p!r} in path {steps}")
            if not 0 <= p < cnt:
                raise Violation(f"{what}: position {p} out of range at step {k} (have {cnt} terms) in path {steps} for {n} terms")
        if len(set(s)) != len(s):
            raise Violation(f"{what}: repeated position in step {k} of path {steps}")
        if pairwise and len(s) > 2:
            raise Violation(f"{what}: step {k} contracts {len(s)} terms at once in {steps}")
        cnt = cnt - len(s) + 1
    if cnt != 1:
        raise Violation(f"{what}: path {steps} leaves {cnt} terms of {n}")
    return [tuple(int(p) for p in s) for s in steps]


def simulate(inputs, output, path, sizes):
    """-> list of dicts, one per step, straight from the definition."""
    cur = [frozenset(t) for t in inputs]
    output = frozenset(output)
    steps = []
    for s in path:
        picked = [cur[p] for p in s]
        rest = [t for k, t in enumerate(cur) if k not in set(s)]
        either = frozenset().union(*picked)
        keep = output.union(*rest)
        res = either & keep
        shared = frozenset(i for i in either if sum(i in t for t in picked) >= 2)
        steps.append(
            dict(
                terms=picked,
                either=either,
                result=res,
                removed=either - res,
                size=prod([sizes[i] for i in res]),
                space=prod([sizes[i] for i in either]),
                inner=bool(shared - keep),
                nterms=len(s),
            )
        )
        cur = rest + [res]
    return steps


def flops_info(st):
    """FLOP count of one step as reported by PathInfo (inner if any index is summed)."""
    return st["space"] * (max(1, st["nterms"] - 1) + (1 if st["removed"] else 0))


def flops_pair(st):
    """FLOP count of a pairwise step as used by the path finders (inner iff a *shared* index is summed)."""
    return st["space"] * (max(1, st["nterms"] - 1) + (1 if st["inner"] else 0))


def brute_force_min(inputs, output, sizes, objective):
    """min over all binary trees of an additive / max objective, by exhaustive subset recursion.

    objective(step) -> (additive cost);  returns minimal total.  Exact because the result of
    contracting a set of leaves depends only on that set.
    """
    n = len(inputs)
    leaf = [frozenset(t) for t in inputs]
    outs = frozenset(output)
    allm = (1 << n) - 1
    sub_inds = {}

    def inds(m):
        if m not in sub_inds:
            mine = frozenset().union(*[leaf[k] for k in range(n) if m >> k & 1])
            if m & (m - 1) == 0:
                sub_inds[m] = mine
            else:
                rest = outs.union(*[leaf[k] for k in range(n) if not m >> k & 1])
                sub_inds[m] = mine & rest
        return sub_inds[m]

    best = {1 << k: 0 for k in range(n)}
    masks = sorted(range(1, allm + 1), key=lambda m: bin(m).count("1"))
    for m in masks:
        if m in best:
            continue
        low = m & -m
        s = (m - 1) & m
        b = None
        while s:
            if s & low:
                a, c = s, m ^ s
                ia, ic = inds(a), inds(c)
                either = ia | ic
                rest = outs.union(*[leaf[k] for k in range(n) if not m >> k & 1])
                res = either & rest
                st = dict(
                    terms=[ia, ic], either=either, result=res, removed=either - res, nterms=2,
                    size=prod([sizes[i] for i in res]), space=prod([sizes[i] for i in either]),
                    inner=bool((ia & ic) - rest),
                )
                v = objective(best[a], best[c], st)
                if v is not None and (b is None or v < b):
                    b = v
            s = (s - 1) & m
        best[m] = float("inf") if b is None else b
    return best[allm]


def all_pairwise_paths(n):
    """every pairwise linear path over n terms (order matters)."""
    if n == 1:
        yield ()
        return
    for i, j in itertools.combinations(range(n), 2):
        for rest in all_pairwise_paths(n - 1):
            yield ((i, j),) + rest
