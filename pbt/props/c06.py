"""C06: dynamic programming is optimal for its objective."""
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import paths

import dpmodel
import ref
from core import Sub, Violation, target
from gen import families, graphs, in_sequence, nets, with_syms
from props.c07 import check_dp, dp_cases

RULE = (
    "networks of 2-12 tensors; for every objective (flops, size, write, combo-k, limit-k), cost_cap mode and search_outer setting, "
    "the returned path is costed per connected part with an independent model and compared with the exhaustive minimum over all "
    "contraction trees of that part (without outer products unless search_outer); non-trivial = a connected part of 3+ tensors whose best and "
    "worst tree differ"
)
ASSUMPTIONS = ["documented objectives: flops=sum of index-space sizes, size=max, write=sum of result sizes, combo/limit with factor (default 64)"]

# near ties that only exact arithmetic can tell apart, and values beyond the range of floats
HUGE = (10**17 + 1, 10**17, 10**17 + 3, 2, 1, 10**120)


@st.composite
def cases(draw):
    net = draw(st.one_of(
        graphs(n_min=3, n_max=8, size_pool=(2, 3, 5, 8, 1)).map(with_syms),
        graphs(n_min=3, n_max=6, size_pool=HUGE).map(with_syms),
        nets(n_min=2, n_max=6, pool=7, max_rank=4, repeats=False, size_pool=(2, 3, 5, 1, 7), cap=10**9, zero=True, syms="plain"),
    ))
    return {
        "net": net,
        "minimize": draw(st.one_of(
            st.sampled_from(["flops", "size", "write", "combo", "limit", "combo-3", "limit-5", "combo-1000", "limit-1000", "combo-0", "limit-0", "combo-1", "limit-1"]),
            st.sampled_from(["flops", "size", "write", "combo", "limit"]),
            st.builds("{}-{}".format, st.sampled_from(["combo", "limit"]), st.one_of(st.integers(0, 20), st.integers(0, 10**6))))),
        "cost_cap": draw(st.sampled_from([True, False, 1, 0, 10, -7, 1000, 10**9])),
        "search_outer": draw(st.integers(0, 3)) == 3,
        "via": draw(st.sampled_from(["cls", "fn", "name"])),
    }


def check(case, ctx, shared=None):
    net = case["net"]
    n = len(net["inputs"])
    sizes = ref.eff_sizes(net)
    mini, outer = case["minimize"], case["search_outer"]
    syms = net["syms"]
    what = f"dp(minimize={mini}, cost_cap={case['cost_cap']}, search_outer={outer}) on {ref.eq_of(net)} {ref.shapes(net)}"
    ins = [frozenset(syms[i] for i in t) for t in net["inputs"]]
    out = frozenset(syms[i] for i in net["output"])
    sd = {syms[i]: d for i, d in sizes.items()}
    via = case["via"]
    if via == "name" and not (mini == "flops" and case["cost_cap"] is True and not outer and n >= 3):
        via = "cls"
    with target(what):
        if shared is not None:
            path = shared(ins, out, sd)
        elif via == "name":
            path, _ = oe.contract_path(ref.eq_of(net), *ref.shapes(net), shapes=True, optimize="dp")
        elif via == "cls":
            path = oe.DynamicProgramming(minimize=mini, cost_cap=case["cost_cap"], search_outer=outer)(ins, out, sd)
        else:
            path = paths.dynamic_programming(ins, out, sd, minimize=mini, cost_cap=case["cost_cap"], search_outer=outer)
    path = ref.check_path(path, n, what)
    got, _ = dpmodel.path_costs(net["inputs"], net["output"], sizes, mini, path, outer)
    best = (dpmodel.best_fast if n > 8 else dpmodel.best)(net["inputs"], net["output"], sizes, mini, outer)
    for g in best:
        if got[g] > best[g]:
            raise Violation(f"{what}: part {g} costs {got[g]} with path {path}, but {best[g]} is possible")
    ctx.label(mini, "outer" if outer else "no-outer", f"maxpart={max([len(g) for g in best], default=0)}")
    ctx.nt(any(len(g) >= 3 for g in best))


# ------------------------------------------------------------ more tensors
@st.composite
def larger(draw):
    outer = draw(st.integers(0, 2)) == 0
    if outer and draw(st.booleans()):
        # small tensors around a big one: their outer product often pays
        n = draw(st.integers(7, 9))
        k = draw(st.integers(2, 4))
        pool = draw(st.integers(k, k + 3))
        terms = [draw(st.lists(st.integers(0, pool), min_size=1, max_size=2, unique=True)) for _ in range(n - 1)]
        terms.append(list(range(pool + 1)))
        net = with_syms({"inputs": terms, "output": draw(st.lists(st.integers(0, pool), unique=True, max_size=2)), "ones": [],
                         "sizes": draw(st.lists(st.sampled_from([2, 3, 2, 9, 50]), min_size=pool + 1, max_size=pool + 1)), "kind": "centre"})
    else:
        net = with_syms(draw(graphs(n_min=9, n_max=9 if outer else 12, kinds=("random", "chain", "ring", "tree", "grid", "hyper", "disc"), size_pool=(2, 3, 5, 8, 1))))
    return {"net": net, "minimize": draw(st.sampled_from(["flops", "flops", "size", "write", "combo", "limit", "combo-3", "limit-5"])),
            "cost_cap": draw(st.sampled_from([True, False])), "search_outer": outer, "via": "cls"}


# ------------------------------------------------------------ one optimizer object
def check_instance(case, ctx):
    first = case["seq"][0]
    dp = oe.DynamicProgramming(minimize=first["minimize"], cost_cap=first["cost_cap"], search_outer=first["search_outer"])
    for c in case["seq"]:
        check({**first, "net": c["net"]}, ctx, shared=dp)


SUBS = [
    Sub("limited", check_dp, dp_cases, quick=2500, thorough=50000, rule="the same under a memory limit: minimal among the trees whose intermediates fit, refused only if there is none"),
    Sub("instances", check_instance, lambda: families(cases()), quick=2500, thorough=40000, rule="one DynamicProgramming object used for 2-4 related contractions"),
    Sub("larger", check, larger, quick=400, thorough=8000, case_timeout=120, rule="7-12 tensors, small tensors around a big one with outer products"),
    Sub("objective", check, cases, quick=20000, thorough=150000),
    Sub("sequences", in_sequence(check), lambda: families(cases()), quick=2500, thorough=40000, rule="2-4 related contractions searched one after another"),
]
