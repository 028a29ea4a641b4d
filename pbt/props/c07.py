"""C07: memory_limit bounds every intermediate."""
import json
import os
from math import prod

import opt_einsum as oe
from hypothesis import strategies as st

import dpmodel
import ref
from common import make_opt
from core import Sub, Violation, expect_error, target
from gen import families, graphs, in_sequence, nets, with_syms

RULE = (
    "networks of 3-16 tensors with drawn limits (absolute, or placed around the sizes of intermediates that occur) are given to every "
    "limit-aware strategy; all results of steps other than the last must have at most memory_limit elements (dp: within each "
    "connected part, or a RuntimeError that exhaustive search confirms to be unavoidable); "
    "non-trivial = the limit excludes something: the unlimited path of the same strategy would break it"
)
ASSUMPTIONS = ["random-greedy strategies and dp's final outer products ignore the limit on the base tree: recorded known findings"]
KNOWN_FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "known_findings.json")

AWARE = ["optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "auto"]


@st.composite
def big_cases(draw):
    """more operands than the exhaustive strategies can take: the greedy family only."""
    spec = draw(st.sampled_from(["greedy", "eager", "auto", "branch-1", "greedy"]))
    net = draw(graphs(n_min=15, n_max=24 if spec == "branch-1" else 45, size_pool=(2, 3, 5, 1, 8)).map(with_syms))
    return {"net": net, "opt": spec, "rank": draw(st.integers(0, 60)), "abs": draw(st.one_of(st.none(), st.none(), st.integers(1, 500), st.just("max_input")))}


@st.composite
def cases(draw):
    spec = draw(st.one_of(
        st.sampled_from(AWARE),
        st.fixed_dictionaries({"cls": st.just("BranchBound"), "kw": st.fixed_dictionaries({
            "nbranch": st.sampled_from([None, 1, 2]), "minimize": st.sampled_from(["flops", "size"]),
            "cutoff_flops_factor": st.sampled_from([4, 1, 100])})}),
    ))
    full = spec in ("optimal", "branch-all") or (isinstance(spec, dict) and spec["kw"]["nbranch"] is None)
    top = 6 if full else 16 if spec in ("auto", "greedy", "eager", "branch-1") else 9
    net = draw(st.one_of(
        graphs(n_min=3, n_max=top, size_pool=draw(st.sampled_from([(2, 3, 5, 1, 8), (2, 3, 5, 1, 8), (2, 3, 1, 10**6, 2**40)]))).map(with_syms),
        nets(n_min=3, n_max=min(top, 6), pool=6, repeats=False, cap=10**9, size_pool=(2, 3, 4, 1, 6), syms="plain"),
    ))
    return {"net": net, "opt": spec, "rank": draw(st.integers(0, 6)), "abs": draw(st.one_of(st.none(), st.integers(1, 500), st.just("max_input")))}


def sizes_of(net, path):
    return [s["size"] for s in ref.simulate(net["inputs"], net["output"], path, ref.eff_sizes(net))]


def pick_limit(case, net, eq, shp, spec):
    """an explicit limit, or one placed just below a size the unlimited path uses."""
    with target("unlimited path"):
        free, _ = oe.contract_path(eq, *shp, shapes=True, optimize=make_opt(spec))
    free = ref.check_path(free, len(net["inputs"]), "unlimited")
    inter = sizes_of(net, free)[:-1]
    if case["abs"] is not None:
        return case["abs"], inter
    cand = sorted({max(1, s - 1) for s in inter} | {max(1, s) for s in inter})
    return (cand[case["rank"] % len(cand)] if cand else 1), inter


def numeric(limit, net):
    if limit == "max_input":
        e = ref.eff_sizes(net)
        return max([prod([e[i] for i in t]) for t in net["inputs"]] + [prod([e[i] for i in net["output"]])])
    return limit


def check(case, ctx):
    net, spec = case["net"], case["opt"]
    n = len(net["inputs"])
    eq, shp = ref.eq_of(net), ref.shapes(net)
    limit, inter = pick_limit(case, net, eq, shp, spec)
    lim = numeric(limit, net)
    what = f"contract_path({eq}, {shp}, optimize={spec}, memory_limit={limit})"
    with target(what):
        path, info = oe.contract_path(eq, *shp, shapes=True, optimize=make_opt(spec), memory_limit=limit)
    path = ref.check_path(path, n, what)
    got = sizes_of(net, path)
    for k, s in enumerate(got[:-1]):
        if s > lim:
            raise Violation(f"{what}: path {path} builds an intermediate of {s} elements at step {k}")
    if spec == "optimal":
        # minimal among the pairwise trees within the limit (the last result is the output and exempt)
        cnt = {i: sum(i in t for t in net["inputs"]) for t in net["inputs"] for i in t}
        if all(c > 1 or i in net["output"] for i, c in cnt.items()):
            sizes = ref.eff_sizes(net)
            best = feasible_min(net, sizes, lim)
            cost = sum(ref.flops_pair(s) for s in ref.simulate(net["inputs"], net["output"], path, sizes))
            if cost > best:
                raise Violation(f"{what}: path {path} costs {cost}, but a pairwise path within the limit costs {best}")
            ctx.label("optimal-within-limit")
    ctx.label(spec if isinstance(spec, str) else "BranchBound", "limit:" + ("max_input" if limit == "max_input" else "int"))
    if any(len(s) > 2 for s in path):
        ctx.label("many-term step")
    ctx.nt(any(s > lim for s in inter))


def feasible_min(net, sizes, lim):
    """exhaustive min FLOPs over pairwise trees whose non-final results fit the limit."""
    n = len(net["inputs"])
    full = (1 << n) - 1
    leaf = [frozenset(t) for t in net["inputs"]]
    out = frozenset(net["output"])

    inds = {}
    best = {}
    for m in sorted(range(1, full + 1), key=lambda m: bin(m).count("1")):
        mine = frozenset().union(*[leaf[k] for k in range(n) if m >> k & 1])
        rest = out.union(*[leaf[k] for k in range(n) if not m >> k & 1])
        if m & (m - 1) == 0:
            inds[m], best[m] = mine, 0
            continue
        inds[m] = mine & rest
        sz = prod([sizes[i] for i in inds[m]])
        b = float("inf")
        if m == full or sz <= lim:
            low = m & -m
            s = (m - 1) & m
            while s:
                if s & low:
                    a, c = s, m ^ s
                    if best[a] < float("inf") and best[c] < float("inf"):
                        either = inds[a] | inds[c]
                        f = prod([sizes[i] for i in either]) * (2 if (inds[a] & inds[c]) - rest else 1)
                        b = min(b, best[a] + best[c] + f)
                s = (s - 1) & m
        best[m] = b
    return best[full]


@st.composite
def dp_cases(draw):
    net = draw(st.one_of(
        graphs(n_min=3, n_max=8, size_pool=draw(st.sampled_from([(2, 3, 5, 1, 8), (2, 3, 5, 1, 8), (2, 3, 1, 10**6, 2**40)]))).map(with_syms),
        nets(n_min=3, n_max=6, pool=6, repeats=False, cap=10**9, size_pool=(2, 3, 4, 1, 6), syms="plain"),
    ))
    return {"net": net, "minimize": draw(st.sampled_from(["flops", "size", "write", "combo", "limit", "combo-2"])),
            "cost_cap": draw(st.sampled_from([True, False, 5])), "search_outer": draw(st.integers(0, 4)) == 4,
            "name": draw(st.booleans()), "rank": draw(st.integers(0, 6)), "abs": draw(st.one_of(st.none(), st.integers(1, 200), st.just("max_input")))}


def check_dp(case, ctx):
    net = case["net"]
    n = len(net["inputs"])
    eq, shp = ref.eq_of(net), ref.shapes(net)
    sizes = ref.eff_sizes(net)
    if case["name"]:
        spec, mini, outer = "dp", "flops", False
    else:
        mini, outer = case["minimize"], case["search_outer"]
        spec = {"cls": "DP", "kw": {"minimize": mini, "cost_cap": case["cost_cap"], "search_outer": outer}}
    with target("unlimited dp"):
        free, _ = oe.contract_path(eq, *shp, shapes=True, optimize=make_opt(spec))
    free = ref.check_path(free, n, "unlimited dp")
    _, inter = dpmodel.path_costs(net["inputs"], net["output"], sizes, mini, free, outer)
    limit = case["abs"]
    if limit is None:
        cand = sorted({max(1, s - 1) for s in inter} | {max(1, s) for s in inter}) or [1]
        limit = cand[case["rank"] % len(cand)]
    lim = numeric(limit, net)
    what = f"contract_path({eq}, {shp}, optimize={spec}, memory_limit={limit})"
    best = dpmodel.best(net["inputs"], net["output"], sizes, mini, outer, limit=lim)
    possible = all(v != float("inf") for v in best.values())
    try:
        with target(what, allow=(RuntimeError,)):
            path, _ = oe.contract_path(eq, *shp, shapes=True, optimize=make_opt(spec), memory_limit=limit)
    except RuntimeError as e:
        if possible:
            raise Violation(f"{what}: rejected ({e}) although a path within the limit exists")
        ctx.label("rejected")
        ctx.nt()
        return
    path = ref.check_path(path, n, what)
    if not possible:
        raise Violation(f"{what}: returned {path} although no path of the searched class fits the limit")
    got, ins = dpmodel.path_costs(net["inputs"], net["output"], sizes, mini, path, outer)
    if any(s > lim for s in ins):
        raise Violation(f"{what}: path {path} builds intermediates {ins}")
    for g in best:
        if got[g] > best[g]:
            raise Violation(f"{what}: part {g} costs {got[g]} with path {path}, but {best[g]} is possible within the limit")
    ctx.label("accepted")
    ctx.nt(any(s > lim for s in inter))


# ------------------------------------------------------ one optimizer object, several limits
@st.composite
def instances(draw):
    spec = draw(st.one_of(
        st.fixed_dictionaries({"cls": st.just("BranchBound"), "kw": st.fixed_dictionaries({
            "nbranch": st.sampled_from([None, 1, 2]), "minimize": st.sampled_from(["flops", "size"]), "cutoff_flops_factor": st.sampled_from([4, 1, 100])})}),
        st.fixed_dictionaries({"cls": st.just("DP"), "kw": st.fixed_dictionaries({"minimize": st.sampled_from(["flops", "size", "write"])})})))
    net = draw(st.one_of(
        graphs(n_min=3, n_max=6, size_pool=(2, 3, 5, 1, 8)).map(with_syms),
        nets(n_min=3, n_max=5, pool=6, repeats=False, cap=10**9, size_pool=(2, 3, 4, 1, 6), syms="plain")))
    return {"net": net, "opt": spec, "limits": draw(st.lists(st.one_of(st.sampled_from([None, -1, "max_input"]), st.integers(0, 8), st.integers(0, 8)), min_size=2, max_size=4))}


def check_instance(case, ctx):
    net, spec = case["net"], case["opt"]
    n = len(net["inputs"])
    eq, shp = ref.eq_of(net), ref.shapes(net)
    with target("unlimited path"):
        free, _ = oe.contract_path(eq, *shp, shapes=True, optimize=make_opt(spec))
    inter = sizes_of(net, ref.check_path(free, n, "unlimited"))[:-1]
    cand = sorted({max(1, s - 1) for s in inter} | {max(1, s) for s in inter}) or [1]
    o = make_opt(spec)
    limits = [m if m in (None, -1, "max_input") else cand[m % len(cand)] for m in case["limits"]]
    what = f"one {spec['cls']}({spec['kw']}) on {eq} {shp} with memory limits {limits}"
    hard = False
    for k, lim in enumerate(limits):
        res = []
        for opt in (o, make_opt(spec)) if spec["cls"] == "DP" else (o,):
            try:
                with target(what, allow=(RuntimeError,) if spec["cls"] == "DP" else ()):
                    path, _ = oe.contract_path(eq, *shp, shapes=True, optimize=opt, memory_limit=lim)
                res.append(ref.check_path(path, n, what))
            except RuntimeError:
                res.append(None)
        if len(res) == 2:
            if res[0] != res[1]:
                raise Violation(f"{what}: call {k} gives {res[0]}, a new object gives {res[1]}")
            continue
        if lim in (None, -1):
            continue
        for s in sizes_of(net, res[0])[:-1]:
            if s > numeric(lim, net):
                raise Violation(f"{what}: the path {res[0]} of call {k} builds an intermediate of {s} elements")
        hard = hard or (k > 0 and any(s > numeric(lim, net) for s in inter))
    ctx.label(spec["cls"])
    ctx.nt(hard or spec["cls"] == "DP")


def known():
    """probe the recorded findings; yield the text of those that still reproduce."""
    with open(KNOWN_FILE) as f:
        rec = [k for k in json.load(f)["known"] if k["property"] == "C07"]
    for k in rec:
        c = k["case"]
        try:
            path, _ = oe.contract_path(c["eq"], *map(tuple, c["shapes"]), shapes=True, optimize=c["optimize"], memory_limit=c["memory_limit"])
            terms, out = c["eq"].split("->")
            terms = terms.split(",")
            sizes = {ch: d for t, s in zip(terms, c["shapes"]) for ch, d in zip(t, s)}
            steps = ref.simulate(terms, out, [tuple(p) for p in path], sizes)
            if any(s["size"] > c["memory_limit"] for s in steps[:-1]):
                yield k["what"]
        except Exception:
            pass


SUBS = [
    Sub("limit", check, cases, quick=9000, thorough=150000, rule="optimal, branch-*, greedy, auto, BranchBound"),
    Sub("limit-large", check, big_cases, quick=2500, thorough=30000, rule="15 to 45 operands, greedy family and auto"),
    Sub("sequences", in_sequence(check), lambda: families(cases()), quick=2500, thorough=40000, rule="2-4 related contractions and limits one after another"),
    Sub("instances", check_instance, instances, quick=4000, thorough=60000, rule="one optimizer object called with 2-4 limits", case_timeout=60),
    Sub("dp-limit", check_dp, dp_cases, quick=6000, thorough=90000, rule="dynamic programming, all objectives"),
]
