"""C18: BLAS dispatch is sound: a pairwise step is handed to tensordot only where tensordot computes the same thing."""
import itertools
import string

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import blas

import ref
from core import Sub, Violation, target
from fakes import Counting
from gen import high_rank_nets, nets

RULE = (
    "ALL two-operand equations with operands of rank <= 3 up to renaming (every pattern of repeated, shared and batch indices, every output subset in every order), "
    "with distinct sizes and with size-1 broadcasting on shared indices, evaluated by contract and compared exactly with the dense reference; "
    "can_blas on all of these and on random pairs of rank <= 7 against the definition; three-operand steps and the choice between tensordot and einsum "
    "observed with a counting backend; non-trivial = at least one summed index"
)
ASSUMPTIONS = ["'can be a BLAS call' = two operands, no index twice in one operand, every index summed in both or kept from one, no broadcasting of summed indices"]
B = Counting("vp_counting_c18")
KINDS = {"GEMM", "DOT", "DOT/EINSUM", "OUTER/EINSUM", "GEMV/EINSUM", "TDOT"}


def patterns(n):
    """restricted growth strings of length n: all labelings up to renaming."""

    def rec(k, mx):
        if k == n:
            yield []
            return
        for v in range(mx + 1):
            for rest in rec(k + 1, max(mx, v + 1)):
                yield [v] + rest

    return rec(0, 0)


def pairs(tier):
    top = 3
    for ra in range(top + 1):
        for rb in range(top + 1):
            for p in patterns(ra + rb):
                yield {"l": p[:ra], "r": p[ra:]}
    if tier == "thorough":
        for ra, rb in ((4, 2), (2, 4), (4, 3), (3, 4), (4, 1), (1, 4)):
            for p in patterns(ra + rb):
                yield {"l": p[:ra], "r": p[ra:]}


def expected_blas(left, right, out, ls, rs):
    if len(set(left)) < len(left) or len(set(right)) < len(right):
        return False
    rem = []
    for i in set(left) | set(right):
        both = i in left and i in right
        if both == (i in out):
            return False
        if both:
            rem.append(i)
            if ls is not None and ls[left.index(i)] != rs[right.index(i)]:
                return False
    n = len(rem)
    if n == 0:
        return "OUTER/EINSUM"
    if left == right:
        return "DOT"
    if set(left) == set(right):
        return "DOT/EINSUM"
    for a in (left[-n:], left[:n]):
        for b in (right[-n:], right[:n]):
            if a == b:
                return "GEMM"
    if n in (len(left), len(right)):
        return "GEMV/EINSUM"
    return "TDOT"


def check_can(left, right, out, ls, rs):
    nm = string.ascii_letters
    L, R, O = ("".join(nm[i] for i in t) for t in (left, right, out))
    rem = frozenset(set(L + R) - set(O))
    what = f"can_blas([{L!r}, {R!r}], {O!r}, {sorted(rem)}, shapes={[ls, rs] if ls is not None else None})"
    with target(what):
        got = blas.can_blas([L, R], O, rem) if ls is None else blas.can_blas([L, R], O, rem, [tuple(ls), tuple(rs)])
    exp = expected_blas(left, right, out, ls, rs)
    if got != exp:
        if bool(got) == bool(exp) and (got not in KINDS):
            raise Violation(f"{what} = {got!r}, not a known kind")
        raise Violation(f"{what} = {got!r}, expected {exp!r}")
    return exp


def data(term, shp, k):
    n = int(np.prod(shp, dtype=int))
    return (((np.arange(n) * 7 + 3 * k) % 11) - 5).astype(float).reshape(shp)


def check_all_outputs(case, ctx):
    left, right = case["l"], case["r"]
    used = sorted(set(left) | set(right))
    nm = string.ascii_letters
    sizes = [2, 3, 4, 2, 3, 2, 2][: len(used)]
    shared = [i for i in used if i in left and i in right]
    variants = [frozenset()] + [frozenset({(s, i)}) for i in shared for s in (0, 1)]
    if len(shared) > 1:
        variants.append(frozenset({(0, shared[0]), (1, shared[1])}))
    for k in range(len(used) + 1):
        for sub in itertools.combinations(used, k):
            for out in itertools.permutations(sub):
                out = list(out)
                eq = "".join(nm[i] for i in left) + "," + "".join(nm[i] for i in right) + "->" + "".join(nm[i] for i in out)
                for ones in variants if k < 4 else variants[:2]:
                    ls = [1 if (0, i) in ones else sizes[i] for i in left]
                    rs = [1 if (1, i) in ones else sizes[i] for i in right]
                    exp_kind = check_can(left, right, out, ls, rs)
                    a, b = data(left, ls, 1), data(right, rs, 2)
                    eff = {}
                    for t, s in ((left, ls), (right, rs)):
                        for i, d in zip(t, s):
                            eff[i] = max(eff.get(i, 1), d)
                    exp = ref.einsum_full([left, right], out, [a, b], eff)
                    what = f"contract({eq}, {tuple(ls)}, {tuple(rs)})"
                    B.reset()
                    with target(what):
                        got = oe.contract(eq, a, b, backend=B.name)
                    ref.same(got, exp, what)
                    if exp_kind is False and B.calls["tensordot"]:
                        raise Violation(f"{what}: used tensordot for a step that is not a tensordot")
                    with target(what + " use_blas=False"):
                        got = oe.contract(eq, a, b, use_blas=False)
                    ref.same(got, exp, what + " use_blas=False")
                check_can(left, right, out, None, None)
    ctx.nt(bool(used))


# ------------------------------------------------------------ random pairs
@st.composite
def rand_pair(draw):
    if draw(st.integers(0, 2)) == 0:
        # a block of shared indices at one end (or in the middle) of each operand, as a block or nearly so
        n = draw(st.one_of(st.integers(1, 5), st.integers(1, 12)))
        fl, fr = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        block = list(range(n))
        left, right = list(range(n, n + fl)), list(range(n + fl, n + fl + fr))
        terms = []
        for free in (left, right):
            b = list(block)
            if n > 1 and draw(st.integers(0, 3)) == 0:
                k = draw(st.integers(0, n - 2))
                b[k], b[k + 1] = b[k + 1], b[k]
            at = draw(st.sampled_from([0, len(free), len(free), 0, len(free) // 2]))
            terms.append(free[:at] + b + free[at:])
        out = draw(st.permutations(left + right))
        if draw(st.integers(0, 4)) == 0:
            out = out + [draw(st.integers(0, n - 1))]
        tot = n + fl + fr
        return {"l": terms[0], "r": terms[1], "out": list(out), "ones": [[draw(st.integers(0, 1)), draw(st.integers(0, n - 1))]] if draw(st.integers(0, 3)) == 0 else [],
                "sizes": draw(st.lists(st.sampled_from([2, 3, 2, 1]), min_size=tot, max_size=tot))}
    p = draw(st.integers(1, 8))
    uniq = draw(st.integers(0, 3)) > 0
    left = draw(st.lists(st.integers(0, p - 1), max_size=7, unique=uniq))
    right = draw(st.lists(st.integers(0, p - 1), max_size=7, unique=uniq))
    used = sorted(set(left) | set(right))
    if draw(st.integers(0, 2)):
        # a genuine tensordot, possibly spoiled in one index
        out = [i for i in used if (i in left) != (i in right)]
        if used and draw(st.booleans()):
            x = draw(st.sampled_from(used))
            out = [i for i in out if i != x] if x in out else out + [x]
        out = draw(st.permutations(out))
    else:
        out = draw(st.lists(st.sampled_from(used), unique=True)) if used else []
    ones = draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(used)), max_size=2)) if used and draw(st.booleans()) else []
    return {"l": left, "r": right, "out": list(out), "ones": [list(o) for o in ones], "sizes": draw(st.lists(st.sampled_from([2, 3, 1]), min_size=p, max_size=p))}


def check_rand(c, ctx):
    ls = [1 if [0, i] in c["ones"] else c["sizes"][i] for i in c["l"]]
    rs = [1 if [1, i] in c["ones"] else c["sizes"][i] for i in c["r"]]
    check_can(c["l"], c["r"], c["out"], None, None)
    k = check_can(c["l"], c["r"], c["out"], ls, rs)
    ctx.label(f"kind:{k}")
    nm = string.ascii_letters
    terms = ["".join(nm[i] for i in t) for t in (c["l"], c["r"])]
    O = "".join(nm[i] for i in c["out"])
    for ins in ([], terms[:1], terms + [""], terms + terms[:1]):
        with target("can_blas"):
            g = blas.can_blas(list(ins), O, frozenset("".join(ins)) - frozenset(O))
        if g:
            raise Violation(f"can_blas({ins}, {O!r}) = {g!r} although there are {len(ins)} operands")
    used = sorted(set(c["l"]) | set(c["r"]))
    if len(used) <= 7 or int(np.prod([c["sizes"][i] for i in used])) <= 3000:
        a, b = data(c["l"], ls, 1), data(c["r"], rs, 2)
        eff = {}
        for t, s in ((c["l"], ls), (c["r"], rs)):
            for i, d in zip(t, s):
                eff[i] = max(eff.get(i, 1), d)
        exp = ref.einsum_full([c["l"], c["r"]], c["out"], [a, b], eff)
        what = f"contract({','.join(terms)}->{O}, {tuple(ls)}, {tuple(rs)})"
        with target(what):
            got = oe.contract(",".join(terms) + "->" + O, a, b)
        ref.same(got, exp, what)
        ctx.nt(bool(set(used) - set(c["out"])))


# ------------------------------------------------------------ dispatch inside larger contractions
@st.composite
def larger(draw):
    net = draw(nets(n_min=2, n_max=5, pool=6, max_rank=4, cap=3000, bcast=True, repeats=draw(st.booleans())))
    return {"net": net, "opt": draw(st.sampled_from(["greedy", "optimal", "dp", "auto", "branch-1"])), "seed": draw(st.integers(0, 99))}


@st.composite
def high_rank(draw):
    return {"net": draw(high_rank_nets(twice=draw(st.booleans()))), "opt": draw(st.sampled_from(["greedy", "optimal", "dp", "auto"])), "seed": draw(st.integers(0, 99))}


def check_larger(c, ctx):
    net = c["net"]
    arrs = ref.make_arrays(net, "float64", c["seed"])
    exp = ref.einsum(net, arrs)
    eq = ref.eq_of(net)
    with target(f"contract_path({eq})"):
        _, info = oe.contract_path(eq, *arrs, optimize=c["opt"])
    want = {"tensordot": 0, "einsum": 0}
    for _, _, s, _, kind in info.contraction_list:
        if kind and "EINSUM" not in kind:
            want["tensordot"] += 1
        else:
            want["einsum"] += 1
    B.reset()
    with target(f"contract({eq}, optimize={c['opt']})"):
        got = oe.contract(eq, *arrs, optimize=c["opt"], backend=B.name)
    ref.same(got, exp, f"contract({eq}, {ref.shapes(net)}, optimize={c['opt']})")
    for k in want:
        if B.calls[k] != want[k]:
            raise Violation(f"contract({eq}, {ref.shapes(net)}, optimize={c['opt']}): {B.calls[k]} {k} calls, the report announces {want[k]}")
    B.reset()
    with target(f"contract({eq}, optimize={c['opt']}, use_blas=False)"):
        got = oe.contract(eq, *arrs, optimize=c["opt"], backend=B.name, use_blas=False)
    ref.same(got, exp, f"contract({eq}, {ref.shapes(net)}, optimize={c['opt']}, use_blas=False)")
    if B.calls["tensordot"]:
        raise Violation(f"contract({eq}, use_blas=False) used tensordot")
    ctx.label(f"tensordots={min(3, want['tensordot'])}")
    ctx.nt(want["tensordot"] > 0)


SUBS = [
    Sub("all-pairs", check_all_outputs, cases=pairs, rule="complete enumeration up to rank 3 per operand", case_timeout=300),
    Sub("random-pairs", check_rand, rand_pair, quick=25000, thorough=300000),
    Sub("high-rank", check_larger, high_rank, quick=2500, thorough=40000, rule="2-3 operands of up to 20 axes"),
    Sub("dispatch", check_larger, larger, quick=10000, thorough=150000),
]
