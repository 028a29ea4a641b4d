"""C05: the exhaustive strategies return a path of globally minimal estimated FLOP count."""
import opt_einsum as oe
from hypothesis import strategies as st

import ref
from core import Sub, Violation, target
from gen import families, graphs, in_sequence, nets, with_syms
from opt_einsum import paths

RULE = (
    "contractions of 2-6 tensors (hyperedges, duplicate index sets, outer products, dangling and batch indices); the path "
    "returned by 'optimal' (also through 'auto' for <=4 terms, 'auto-hq' for <=5) is costed by an independent model and "
    "compared with the minimum over ALL pairwise contraction trees (exhaustive subset recursion); non-trivial = 3+ tensors "
    "and at least two trees of different cost"
)
ASSUMPTIONS = ["FLOP estimate = product of sizes of involved indices, doubled iff an index shared by the pair is summed"]


def additive(fn):
    return lambda a, b, s: a + b + fn(s)


def neg_max(case):
    return case


@st.composite
def cases(draw):
    net = draw(st.one_of(
        nets(n_min=2, n_max=6, pool=6, max_rank=4, repeats=False, size_pool=(2, 3, 5, 1, 7), cap=10**9, syms="plain"),
        graphs(n_min=3, n_max=6, size_pool=(2, 3, 5, 9, 1)).map(with_syms),
        graphs(n_min=3, n_max=5, size_pool=(10**17 + 1, 10**17, 10**17 + 3, 2, 1, 10**120)).map(with_syms),  # exact arithmetic needed
    ))
    return {"net": net, "via": draw(st.sampled_from(["name", "fn", "auto", "auto-hq", "upper"]))}


def check(case, ctx):
    net = case["net"]
    n = len(net["inputs"])
    sizes = ref.eff_sizes(net)
    syms = net["syms"]
    via = case["via"]
    if via == "auto" and n > 4:
        via = "name"
    if via == "auto-hq" and n > 5:
        via = "name"
    eq = ref.eq_of(net)
    shp = ref.shapes(net)
    info = None
    with target(f"optimal path for {eq} {shp} via {via}"):
        if via == "fn":
            ins = [frozenset(syms[i] for i in t) for t in net["inputs"]]
            path = paths.optimal(ins, frozenset(syms[i] for i in net["output"]), {syms[i]: d for i, d in sizes.items()})
        else:
            opt = {"name": "optimal", "upper": "OPTIMAL"}.get(via, via)
            path, info = oe.contract_path(eq, *shp, shapes=True, optimize=opt)
    path = ref.check_path(path, n, "optimal")
    steps = ref.simulate(net["inputs"], net["output"], path, sizes)
    got = sum(ref.flops_pair(s) for s in steps)
    best = ref.brute_force_min(net["inputs"], net["output"], sizes, additive(ref.flops_pair))
    worst = -ref.brute_force_min(net["inputs"], net["output"], sizes, additive(lambda s: -ref.flops_pair(s)))
    if got > best:
        raise Violation(f"{eq} {shp} via {via}: path {path} costs {got} FLOPs but {best} is possible")
    # with no index private to one operand, the FLOP count shown to the user is the same quantity
    cnt = {i: sum(i in t for t in net["inputs"]) for i in sizes}
    if info is not None and n >= 2 and all(c > 1 or i in net["output"] for i, c in cnt.items()):
        if info.opt_cost != best:
            raise Violation(f"{eq} {shp} via {via}: reported opt_cost {info.opt_cost}, minimum is {best}")
        ctx.label("opt_cost-compared")
    ctx.label(f"n={n}", "via:" + via)
    sets = [frozenset(t) for t in net["inputs"]]
    if len(set(sets)) < n:
        ctx.label("duplicate-index-sets")
    ctx.nt(n >= 3 and worst > best)


# ------------------------------------------------------------ under a memory limit
@st.composite
def limited(draw):
    net = draw(st.one_of(
        nets(n_min=3, n_max=6, pool=6, max_rank=4, repeats=False, size_pool=(2, 3, 5, 1, 7), cap=10**9, syms="plain"),
        graphs(n_min=3, n_max=6, size_pool=(2, 3, 5, 9, 1)).map(with_syms),
        graphs(n_min=3, n_max=5, size_pool=(10**17 + 1, 10**17, 10**17 + 3, 2, 1)).map(with_syms),
    ))
    return {"net": net, "via": draw(st.sampled_from(["name", "fn", "auto", "auto-hq"])), "rank": draw(st.integers(0, 20)), "off": draw(st.sampled_from([0, 0, 0, -1, 1]))}


def check_limited(case, ctx):
    net = case["net"]
    n = len(net["inputs"])
    sizes, syms, via = ref.eff_sizes(net), net["syms"], case["via"]
    if (via == "auto" and n > 4) or (via == "auto-hq" and n > 5):
        via = "name"
    # a limit that separates the intermediates of different orders, large enough for the result
    seen = set()

    def note(a, b, s):
        seen.add(s["size"])
        return 0

    ref.brute_force_min(net["inputs"], net["output"], sizes, note)
    final = 1
    for i in net["output"]:
        final *= sizes[i]
    cand = sorted(s for s in seen if s >= final)
    limit = max(final, 1, cand[case["rank"] % len(cand)] + case["off"])
    best = ref.brute_force_min(net["inputs"], net["output"], sizes,
                               lambda a, b, s: None if s["size"] > limit or float("inf") in (a, b) else a + b + ref.flops_pair(s))
    eq, shp = ref.eq_of(net), ref.shapes(net)
    what = f"optimal path for {eq} {shp} via {via} with memory_limit={limit}"
    with target(what):
        if via == "fn":
            ins = [frozenset(syms[i] for i in t) for t in net["inputs"]]
            path = paths.optimal(ins, frozenset(syms[i] for i in net["output"]), {syms[i]: d for i, d in sizes.items()}, limit)
        else:
            path, _ = oe.contract_path(eq, *shp, shapes=True, optimize={"name": "optimal"}.get(via, via), memory_limit=limit)
    path = ref.check_path(path, n, what)
    got = sum(ref.flops_pair(s) if s["nterms"] == 2 else ref.flops_info(s) for s in ref.simulate(net["inputs"], net["output"], path, sizes))
    if got > best:
        raise Violation(f"{what}: path {path} costs {got} FLOPs, but an order that fits the limit costs {best}")
    free = ref.brute_force_min(net["inputs"], net["output"], sizes, additive(ref.flops_pair))
    ctx.label(f"n={n}", "via:" + via, "nothing-fits" if best == float("inf") else "limit-matters" if best > free else "same-optimum")
    ctx.nt(best != float("inf") and max(seen) > limit)


SUBS = [
    Sub("limited", check_limited, limited, quick=6000, thorough=100000, rule="a memory limit that excludes some orders: the path costs no more than any pairwise order that fits"),
    Sub("optimal", check, cases, quick=12000, thorough=200000),
    Sub("sequences", in_sequence(check), lambda: families(cases()), quick=3000, thorough=40000, rule="2-4 related contractions searched one after another"),
]
