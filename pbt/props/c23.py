"""C23: heuristic searches keep their documented promises: branching explores all inner products and keeps true records, greedy and auto follow their rules."""
import json
import os
from math import prod

import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import paths

import ref
from core import Inconclusive, Sub, Violation, target
from gen import graphs, nets, with_syms

RULE = (
    "networks of 3-6 tensors: BranchBound without cutoff is compared with the exhaustive minimum over all orders that form an outer product only when no two remaining tensors "
    "share an index (flops, or size then flops); BranchBound with any options and several calls: its record must be the true figures of the path it returns, never worse than the "
    "one-branch search nor than an earlier call; custom cost functions must receive true sizes; greedy on up to 30 tensors never takes an outer product while two tensors share a summable index and joins the "
    "smallest parts first; 'auto' returns the path of the strategy documented for that number of tensors; non-trivial = 4+ tensors"
)
ASSUMPTIONS = ["under a memory limit the records and, without cutoff, the flops are checked here (the limit itself is C07); the recorded size of a path that the limit ends by a contraction of all remaining terms is a known finding", "a summable index is one that is neither in the output nor on every tensor"]


KNOWN_FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "known_findings.json")


def sets_of(net):
    s = net["syms"]
    return [frozenset(s[i] for i in t) for t in net["inputs"]], frozenset(s[i] for i in net["output"]), {s[i]: net["sizes"][i] for t in net["inputs"] for i in t}


def true_cost(net, path):
    ins, out, sz = sets_of(net)
    steps = ref.simulate(ins, out, path, sz)
    return sum(ref.flops_pair(s) for s in steps), max(s["size"] for s in steps)


def key(minimize, flops, size):
    return (flops, size) if minimize == "flops" else (size, flops)


def small_nets(n_max=6):
    return st.one_of(
        graphs(n_min=3, n_max=n_max, size_pool=(2, 3, 5, 1, 8)).map(with_syms),
        graphs(n_min=3, n_max=min(n_max, 5), size_pool=(10**17 + 1, 10**17, 10**17 + 3, 2, 1)).map(with_syms),
        nets(n_min=3, n_max=min(n_max, 6), pool=6, repeats=False, cap=10**9, size_pool=(2, 3, 5, 1, 7), syms="plain"),
    )


# ---------------------------------------------------- exhaustive over inner products
@st.composite
def exhaustive(draw):
    return {"net": draw(small_nets(6)), "minimize": draw(st.sampled_from(["flops", "size"])), "fn": draw(st.booleans())}


def inner_first_min(ins, out, sz, minimize, limit=None):
    n = len(ins)
    full = (1 << n) - 1
    cache = {}

    def inds(m):
        mine = frozenset().union(*[ins[k] for k in range(n) if m >> k & 1])
        if m & (m - 1) == 0:
            return mine
        rest = out.union(*[ins[k] for k in range(n) if not m >> k & 1])
        return mine & rest

    I = {m: inds(m) for m in range(1, full + 1)}
    size = {m: prod([sz[i] for i in I[m]]) for m in I}

    def rec(state):
        """Pareto set of (flops, max size) from here on."""
        if len(state) == 1:
            return ((0, 0),)
        if state in cache:
            return cache[state]
        ms = sorted(state)
        pairs = [(a, b) for k, a in enumerate(ms) for b in ms[k + 1:]]
        if limit is not None:
            pairs = [(a, b) for a, b in pairs if size[a | b] <= limit]
        inner = [(a, b) for a, b in pairs if I[a] & I[b]] or pairs
        res = set()
        for a, b in inner:
            c = a | b
            rest = out.union(*[I[x] for x in ms if x not in (a, b)])
            f = prod([sz[i] for i in I[a] | I[b]]) * (2 if (I[a] & I[b]) - rest else 1)
            for f2, s2 in rec(frozenset(state - {a, b} | {c})):
                res.add((f + f2, max(size[c], s2)))
        keep = []
        for f, s in sorted(res):
            if not keep or s < keep[-1][1]:
                keep.append((f, s))
        cache[state] = tuple(keep)
        return cache[state]

    return min([key(minimize, f, s) for f, s in rec(frozenset(1 << k for k in range(n)))], default=None)


def check_exhaustive(case, ctx):
    net, mi = case["net"], case["minimize"]
    ins, out, sz = sets_of(net)
    n = len(ins)
    what = f"BranchBound(cutoff_flops_factor=None, minimize={mi}) on {ref.eq_of(net)} {ref.shapes(net)}"
    with target(what):
        if case["fn"]:
            path = paths.branch(list(ins), out, dict(sz), cutoff_flops_factor=None, minimize=mi)
        else:
            path, _ = oe.contract_path(ref.eq_of(net), *ref.shapes(net), shapes=True, optimize=oe.BranchBound(cutoff_flops_factor=None, minimize=mi))
    path = ref.check_path(path, n, what, pairwise=True)
    got = key(mi, *true_cost(net, path))
    best = inner_first_min(ins, out, sz, mi)
    if got > best:
        raise Violation(f"{what}: path {path} has {'(flops, size)' if mi == 'flops' else '(size, flops)'} {got}, an order by inner products has {best}")
    ctx.label(mi, f"n={n}")
    ctx.nt(n >= 4)


# ---------------------------------------------------- records, branches, repeated calls
@st.composite
def records(draw):
    kw = st.fixed_dictionaries({"nbranch": st.sampled_from([None, 1, 2, 3]), "cutoff_flops_factor": st.sampled_from([4, 1, 2, 100, None])})
    return {"net": draw(small_nets(7)), "minimize": draw(st.sampled_from(["flops", "size"])), "calls": draw(st.lists(kw, min_size=1, max_size=3)),
            "cost_fn": draw(st.sampled_from(["memory-removed", "memory-removed", "memory-removed-jitter", "CUSTOM"]))}


def check_records(case, ctx):
    net, mi = case["net"], case["minimize"]
    ins, out, sz = sets_of(net)
    n = len(ins)
    if n > 6 and any(c["nbranch"] is None or c["nbranch"] == 3 for c in case["calls"]):
        raise Inconclusive("too slow")
    bad = []

    def custom(size12, size1, size2, k12, k1, k2):
        for s, k in ((size12, k12), (size1, k1), (size2, k2)):
            if s != prod([sz[i] for i in k]):
                bad.append((s, k))
        if not (k1 | k2) & out <= k12 <= (k1 | k2):
            bad.append((k1, k2, k12))
        return size12 - 2 * size1 - size2

    fn = custom if case["cost_fn"] == "CUSTOM" else case["cost_fn"]
    what = f"BranchBound(minimize={mi}, cost_fn={case['cost_fn']}) on {ref.eq_of(net)} {ref.shapes(net)}, calls {case['calls']}"
    with target(what):
        o = oe.BranchBound(minimize=mi, cost_fn=fn, **case["calls"][0])
    prev = None
    for c in case["calls"]:
        o.nbranch, o.cutoff_flops_factor = c["nbranch"], c["cutoff_flops_factor"]
        with target(what):
            path = o(list(ins), out, dict(sz))
            again = o.path
        path = ref.check_path(path, n, what, pairwise=True)
        if [tuple(p) for p in again] != [tuple(p) for p in path]:
            raise Violation(f"{what}: .path is {again}, returned {path}")
        f, s = true_cost(net, path)
        if (o.best["flops"], o.best["size"]) != (f, s):
            raise Violation(f"{what}: recorded flops {o.best['flops']} and size {o.best['size']}, the path {path} has {f} and {s}")
        cur = key(mi, f, s)
        if prev is not None and cur > prev:
            raise Violation(f"{what}: a later call is worse: {prev} -> {cur}")
        prev = cur
    if case["cost_fn"] != "memory-removed-jitter":
        c0 = case["calls"][0]
        with target(what):
            first = oe.BranchBound(nbranch=1, minimize=mi, cost_fn=fn, cutoff_flops_factor=c0["cutoff_flops_factor"])(list(ins), out, dict(sz))
        one = key(mi, *true_cost(net, ref.check_path(first, n, what)))
        if prev > one:
            raise Violation(f"{what}: result {prev} is worse than that of a single branch {one}")
        ctx.label("vs-one-branch")
    if bad:
        raise Violation(f"{what}: the cost function was called with wrong arguments {bad[:3]}")
    ctx.label(mi, case["cost_fn"], f"calls={len(case['calls'])}")
    ctx.nt(n >= 4)


# ---------------------------------------------------- records under a memory limit
@st.composite
def limited_records(draw):
    return {"net": draw(small_nets(6)), "nbranch": draw(st.sampled_from([None, 1, 2, 3])), "cutoff": draw(st.sampled_from([4, 1, None])),
            "minimize": draw(st.sampled_from(["flops", "flops", "size"])), "limit": draw(st.one_of(st.integers(1, 60), st.integers(1, 2000)))}


def check_limited(case, ctx):
    net = case["net"]
    ins, out, sz = sets_of(net)
    n = len(ins)
    what = f"BranchBound(nbranch={case['nbranch']}, cutoff_flops_factor={case['cutoff']}) minimizing {case['minimize']} with memory_limit={case['limit']} on {ref.eq_of(net)} {ref.shapes(net)}"
    with target(what):
        o = oe.BranchBound(nbranch=case["nbranch"], cutoff_flops_factor=case["cutoff"], minimize=case["minimize"])
        path = o(list(ins), out, dict(sz), case["limit"])
    path = ref.check_path(path, n, what)
    steps = ref.simulate(ins, out, path, sz)
    flops = sum(ref.flops_pair(s) if s["nterms"] == 2 else ref.flops_info(s) for s in steps)
    many = any(s["nterms"] != 2 for s in steps)
    # a last contraction of all remaining terms may consist of two terms: then both ways of counting are in use
    alt = sum(ref.flops_pair(s) for s in steps[:-1]) + ref.flops_info(steps[-1])
    if o.best["flops"] not in ((flops,) if many else (flops, alt)):
        raise Violation(f"{what}: recorded {o.best['flops']} flops, the path {path} has {flops}")
    # (the size of a search that the limit ended by a contraction of all remaining terms is a recorded known finding)
    size = max(s["size"] for s in steps)
    if not many and steps[-1]["size"] <= case["limit"]:
        if o.best["size"] != size:
            raise Violation(f"{what}: recorded size {o.best['size']}, the largest tensor of the path {path} has {size}")
        ctx.label("size")
    ctx.label("many-term" if many else "pairwise")
    ctx.nt(n >= 4)


# ---------------------------------------------------- one branch follows the heuristic
@st.composite
def limited_exhaustive(draw):
    return {"net": draw(small_nets(6)), "limit": draw(st.one_of(st.integers(1, 60), st.integers(1, 400))), "fn": draw(st.booleans())}


def check_limited_exhaustive(case, ctx):
    net = case["net"]
    ins, out, sz = sets_of(net)
    n = len(ins)
    final = prod([sz[i] for i in out])
    limit = max(case["limit"], final)
    what = f"BranchBound(cutoff_flops_factor=None) with memory_limit={limit} on {ref.eq_of(net)} {ref.shapes(net)}"
    with target(what):
        if case["fn"]:
            path = paths.branch(list(ins), out, dict(sz), limit, cutoff_flops_factor=None)
        else:
            path, _ = oe.contract_path(ref.eq_of(net), *ref.shapes(net), shapes=True, optimize=oe.BranchBound(cutoff_flops_factor=None), memory_limit=limit)
    path = ref.check_path(path, n, what)
    got = sum(ref.flops_pair(s) if s["nterms"] == 2 else ref.flops_info(s) for s in ref.simulate(ins, out, path, sz))
    best = inner_first_min(ins, out, sz, "flops", limit)
    if best is not None and got > best[0]:
        raise Violation(f"{what}: path {path} costs {got} flops, an order by inner products within the limit costs {best[0]}")
    ctx.label("none-fits" if best is None else "fits", f"n={n}")
    ctx.nt(n >= 4 and best is not None and inner_first_min(ins, out, sz, "flops") != best)


def check_descent(case, ctx):
    net = case["net"]
    ins, out, sz = sets_of(net)
    n = len(ins)
    what = f"BranchBound(nbranch=1, cutoff_flops_factor=None) on {ref.eq_of(net)} {ref.shapes(net)}"
    with target(what):
        o = oe.BranchBound(nbranch=1, cutoff_flops_factor=None)
        path = o(list(ins), out, dict(sz))
    path = ref.check_path(path, n, what, pairwise=True)
    f, s = true_cost(net, path)
    if (o.best["flops"], o.best["size"]) != (f, s):
        raise Violation(f"{what}: recorded flops {o.best['flops']} and size {o.best['size']}, the path {path} has {f} and {s}")
    terms = list(ins)
    S = lambda k: prod([sz[i] for i in k])  # noqa: E731

    def result(a, b):
        return frozenset(i for i in terms[a] | terms[b] if i in out or cnt[i] > (i in terms[a]) + (i in terms[b]))

    def score(a, b):
        return S(result(a, b)) - S(terms[a]) - S(terms[b])

    for step in path:
        a, b = sorted(step)
        cnt = {}
        for t in terms:
            for i in t:
                cnt[i] = cnt.get(i, 0) + 1
        pairs = [(x, y) for x in range(len(terms)) for y in range(x + 1, len(terms))]
        inner = [p for p in pairs if terms[p[0]] & terms[p[1]]] or pairs
        if (a, b) not in inner:
            raise Violation(f"{what}: path {path} takes the outer product {step} while inner products are left")
        best = min(score(*p) for p in inner)
        if score(a, b) != best:
            raise Violation(f"{what}: path {path}: step {step} frees {-score(a, b)} elements, another pair frees {-best}")
        r = result(a, b)
        terms.pop(b)
        terms.pop(a)
        terms.append(r)
    ctx.nt(n >= 4)


# ---------------------------------------------------- greedy stages
@st.composite
def greedy_cases(draw):
    net = draw(st.one_of(graphs(n_min=3, n_max=30, size_pool=(2, 3, 1, 4, 7)).map(with_syms), small_nets(6)))
    return {"net": net, "cost": draw(st.sampled_from(["memory-removed", "CUSTOM"]))}


def check_greedy(case, ctx):
    net = case["net"]
    ins, out, sz = sets_of(net)
    n = len(ins)
    what = f"greedy(cost_fn={case['cost']}) on {ref.eq_of(net)} {ref.shapes(net)}"
    bad = []

    def custom(size12, size1, size2, k12, k1, k2):
        for s, k in ((size12, k12), (size1, k1), (size2, k2)):
            if s != prod([sz[i] for i in k]):
                bad.append((s, sorted(k)))
        if not (k1 | k2) & out <= k12 <= (k1 | k2):
            bad.append((sorted(k1), sorted(k2), sorted(k12)))
        return size12 - size1 - size2

    with target(what):
        path = paths.greedy(list(ins), out, dict(sz), cost_fn=custom if case["cost"] == "CUSTOM" else case["cost"])
    path = ref.check_path(path, n, what, pairwise=True)
    if bad:
        raise Violation(f"{what}: the cost function was called with wrong arguments {bad[:3]}")
    keep = out | frozenset.intersection(*ins)
    terms = list(ins)
    S = lambda k: prod([sz[i] for i in k])  # noqa: E731
    outer = 0
    for step in path:
        a, b = sorted(step)
        dup = len(set(terms)) < len(terms)
        inner = any((terms[x] & terms[y]) - keep for x in range(len(terms)) for y in range(x))
        if not dup and inner and not (terms[a] & terms[b]) - keep:
            raise Violation(f"{what}: path {path} takes the outer product {step} while tensors {[sorted(t) for t in terms]} share summable indices")
        if not dup and not inner:
            sizes = sorted(S(t & keep) for t in terms)
            if S(terms[a] & keep) + S(terms[b] & keep) > sizes[0] + sizes[1]:
                raise Violation(f"{what}: path {path}: the outer product {step} does not join the smallest parts")
            outer += 1
        rest = keep.union(*[t for k, t in enumerate(terms) if k not in (a, b)])
        r = (terms[a] | terms[b]) & rest
        terms.pop(b)
        terms.pop(a)
        terms.append(r)
    ctx.label(case["cost"], "outer" if outer else "no-outer")
    ctx.nt(n >= 4)


# ---------------------------------------------------- presets
@st.composite
def preset_cases(draw):
    opt = draw(st.sampled_from(["auto", "auto", "fn", True, "AUTO", "branch-all", "branch-2", "branch-1", "auto-hq", "auto-hq", "hq-fn"]))
    if opt in ("auto-hq", "hq-fn"):
        big = draw(st.integers(0, 9)) == 9
        n = draw(st.sampled_from([15, 16, 17, 18, 20] if big else [3, 4, 5, 5, 6, 6, 7, 8, 9, 10]))
        kinds = ("chain", "ring", "tree") if n > 8 else ("random", "chain", "ring", "star", "tree", "grid", "hyper", "disc")
    else:
        n = draw(st.sampled_from([3, 4, 5, 5, 6, 6] if opt == "branch-all" else [3, 5, 6, 7, 8] if opt == "branch-2" else [3, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 10, 12, 14, 14, 15, 15, 16, 20]))
        kinds = ("random", "chain", "ring", "star", "tree", "grid", "hyper", "disc", "dense")
    return {"net": draw(graphs(n_min=n, n_max=n, size_pool=(2, 3, 1, 4, 7), kinds=kinds).map(with_syms)), "opt": opt}


def check_preset(case, ctx):
    net, opt = case["net"], case["opt"]
    ins, out, sz = sets_of(net)
    n = len(ins)
    if opt in ("auto-hq", "hq-fn"):
        exp = ["optimal", "dp"] if n <= 5 else ["dp"] if n <= 16 else ["random-greedy-128"]
    elif opt in ("branch-all", "branch-2", "branch-1"):
        exp = [oe.BranchBound(nbranch={"branch-all": None, "branch-2": 2, "branch-1": 1}[opt])]
    else:
        exp = ["optimal" if n <= 4 else "branch-all" if n <= 6 else "branch-2" if n <= 8 else "branch-1" if n <= 14 else "greedy"]
    what = f"{opt} on {n} tensors {ref.eq_of(net)} {ref.shapes(net)}"

    def find(o):
        return [tuple(p) for p in oe.contract_path(ref.eq_of(net), *ref.shapes(net), shapes=True, optimize=o)[0]]

    with target(what):
        if opt in ("fn", "hq-fn"):
            got = [tuple(p) for p in (paths.auto if opt == "fn" else paths.auto_hq)(list(ins), out, dict(sz))]
        else:
            got = find(opt)
        want = [find(o) for o in exp]
    if got not in want:
        raise Violation(f"{what}: path {got}, but {exp} (documented for this number) gives {want}")
    ctx.label(opt if opt in ("auto-hq", "branch-all", "branch-2", "branch-1") else "auto", f"n={n}")
    ctx.nt(n >= 4)


def known():
    """probe the recorded findings; yield the text of those that still reproduce."""
    with open(KNOWN_FILE) as f:
        rec = [k for k in json.load(f)["known"] if k["property"] == "C23"]
    for k in rec:
        c = k["case"]
        try:
            ins = [frozenset(t) for t in c["inputs"]]
            o = oe.BranchBound()
            path = o(ins, frozenset(c["output"]), dict(c["sizes"]), c["memory_limit"])
            steps = ref.simulate(ins, frozenset(c["output"]), [tuple(p) for p in path], c["sizes"])
            if o.best["size"] != max(s["size"] for s in steps):
                yield k["what"]
        except Exception:
            pass


SUBS = [
    Sub("limited-exhaustive", check_limited_exhaustive, limited_exhaustive, quick=2500, thorough=40000, rule="without cutoff under a memory limit: no worse than any order by inner products that fits"),
    Sub("exhaustive", check_exhaustive, exhaustive, quick=7000, thorough=100000, case_timeout=60),
    Sub("records", check_records, records, quick=7000, thorough=100000, case_timeout=60),
    Sub("limited", check_limited, limited_records, quick=5000, thorough=60000, case_timeout=60),
    Sub("one-branch", check_descent, lambda: st.fixed_dictionaries({"net": small_nets(12)}), quick=5000, thorough=60000),
    Sub("one-branch-many", check_descent, lambda: st.fixed_dictionaries({"net": graphs(n_min=14, n_max=34, size_pool=(2, 3, 1, 4, 7)).map(with_syms)}),
        quick=250, thorough=4000, case_timeout=60, rule="the same on 14-34 tensors"),
    Sub("greedy", check_greedy, greedy_cases, quick=7000, thorough=100000),
    Sub("presets", check_preset, preset_cases, quick=2500, thorough=30000, case_timeout=60),
]
