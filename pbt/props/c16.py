"""C16: SSA and linear paths are two faithful encodings of the same contraction tree; costs of ssa paths are exact."""
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import paths
from opt_einsum.path_random import ssa_path_compute_cost

import ref
from core import Sub, Violation, target
from gen import any_path, graphs, sym

RULE = (
    "random contraction trees over 2-60 leaves with 1-, 2-, 3- and n-ary steps, encoded as ssa or linear path with arbitrary order inside a step; "
    "the conversion must describe the same sequence of leaf sets (own simulation) and convert back; ssa_path_compute_cost must equal a recomputation "
    "from the definition; small trees are enumerated completely; non-trivial = 3+ leaves"
)
ASSUMPTIONS = ["paths are complete"]


def leaves_linear(path, n):
    cur = [frozenset([k]) for k in range(n)]
    out = []
    for s in path:
        got = frozenset().union(*[cur[p] for p in s])
        out.append(frozenset(cur[p] for p in s))
        cur = [c for k, c in enumerate(cur) if k not in set(s)] + [got]
    return out, len(cur)


def leaves_ssa(path, n):
    cur = {k: frozenset([k]) for k in range(n)}
    out = []
    nxt = n
    for s in path:
        out.append(frozenset(cur[p] for p in s))
        cur[nxt] = frozenset().union(*[cur.pop(p) for p in s])
        nxt += 1
    return out, len(cur)


def lin_to_ssa_ref(path, n):
    ids = list(range(n))
    out = []
    for k, s in enumerate(path):
        out.append([ids[p] for p in s])
        ids = [x for j, x in enumerate(ids) if j not in set(s)] + [n + k]
    return out


@st.composite
def trees(draw):
    n = draw(st.one_of(st.integers(2, 7), st.integers(2, 60)))
    return {"n": n, "path": draw(any_path(n, max_arity=draw(st.sampled_from([2, 4, 4, 9, 25])))), "tup": draw(st.booleans())}


def check(case, ctx):
    n = case["n"]
    lin = [tuple(s) for s in case["path"]]
    ssa = [tuple(s) for s in lin_to_ssa_ref(lin, n)]
    mk = tuple if case["tup"] else list
    exp, _ = leaves_linear(lin, n)
    with target(f"linear_to_ssa({lin})"):
        s1 = paths.linear_to_ssa(mk(lin))
        s1 = [tuple(x) for x in s1]
    if [sorted(x) for x in s1] != [sorted(x) for x in ssa]:
        raise Violation(f"linear_to_ssa({lin}) = {s1}, expected {ssa}")
    with target(f"ssa_to_linear({ssa})"):
        l1 = paths.ssa_to_linear(mk(ssa))
        l1 = [tuple(x) for x in l1]
    got, left = leaves_linear(ref.check_path(l1, n, f"ssa_to_linear({ssa})"), n)
    if left != 1 or got != exp:
        raise Violation(f"ssa_to_linear({ssa}) = {l1}, which contracts {[sorted(map(sorted, g)) for g in got]}, expected {[sorted(map(sorted, g)) for g in exp]}")
    with target("round trip"):
        s2 = [tuple(sorted(x)) for x in paths.linear_to_ssa(paths.ssa_to_linear(mk(ssa)))]
        l2 = [tuple(sorted(x)) for x in paths.ssa_to_linear(paths.linear_to_ssa(mk(lin)))]
    if s2 != [tuple(sorted(x)) for x in ssa]:
        raise Violation(f"ssa -> linear -> ssa turns {ssa} into {s2}")
    if l2 != [tuple(sorted(x)) for x in lin]:
        raise Violation(f"linear -> ssa -> linear turns {lin} into {l2}")
    ctx.label("n>10" if n > 10 else "n<=10", "n-ary" if any(len(s) > 2 for s in lin) else "unary" if any(len(s) == 1 for s in lin) else "binary")
    ctx.nt(n >= 3)


def all_small(tier):
    for n in range(2, 6 if tier == "quick" else 7):
        for p in ref.all_pairwise_paths(n):
            yield {"n": n, "path": [list(s) for s in p], "tup": False}
            yield {"n": n, "path": [list(s)[::-1] for s in p], "tup": True}


@st.composite
def costs(draw):
    net = draw(graphs(n_min=2, n_max=14, size_draw=st.one_of(st.integers(1, 9), st.integers(1, 9), st.sampled_from([10**17 + 1, 2**70, 0, 0]))))
    return {"net": net, "path": draw(any_path(len(net["inputs"]), max_arity=2, singles=False))}


def check_cost(case, ctx):
    net = case["net"]
    n = len(net["inputs"])
    lin = [tuple(s) for s in case["path"]]
    ssa = [tuple(s) for s in lin_to_ssa_ref(lin, n)]
    ins = [frozenset(sym(i) for i in t) for t in net["inputs"]]
    out = frozenset(sym(i) for i in net["output"])
    sz = {sym(i): net["sizes"][i] for t in net["inputs"] for i in t}
    steps = ref.simulate(ins, out, lin, sz)
    with target("ssa_path_compute_cost"):
        got = ssa_path_compute_cost(ssa, list(ins), out, sz)
    exp = (sum(ref.flops_pair(s) for s in steps), max(s["size"] for s in steps))
    if tuple(got) != exp:
        raise Violation(f"ssa_path_compute_cost({ssa}, {[''.join(sorted(i)) for i in ins]}, {sorted(out)}, {sz}) = {tuple(got)}, expected {exp}")
    ctx.nt(n >= 3)


SUBS = [
    Sub("enumerated", check, cases=all_small, rule="every pairwise path over 2-5 leaves"),
    Sub("trees", check, trees, quick=40000, thorough=500000),
    Sub("cost", check_cost, costs, quick=12000, thorough=150000),
]
