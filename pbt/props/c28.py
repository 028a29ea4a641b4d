"""C28: the random choices of random-greedy follow their documented distribution; its options mean what is documented."""
import functools
import heapq
import math
import random
from fractions import Fraction

import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import paths
from opt_einsum.path_random import thermal_chooser

import ref
from core import Sub, Violation, target
from gen import graphs, sym

RULE = (
    "random queues of 1-90 candidate contractions (ties, negative, fractional and astronomically large costs, obsolete candidates) are drawn from 300 times and the counts "
    "per cost compared with the documented Boltzmann weights (7 standard deviations); complete searches with an observing chooser on networks of 3-14 tensors; trial 0, nbranch=1 "
    "and temperature 0 against greedy; cost functions against their definition; non-trivial = at least two candidates with positive weight"
)
ASSUMPTIONS = [
    "weight of candidate i among the nbranch cheapest available: exp(-(c_i - c_0) / temperature), with rel_temperature the temperature is multiplied by max(1, |c_0|)",
    "counts are judged with a bound of 7 standard deviations plus 6; the draws are seeded per case, so that a verdict is reproducible",
]
N = 300
TEMPS = [1.0, 0.0, 0.1, 0.5, 2.5, 10.0, 1e6, 1e-9]


@st.composite
def queues(draw):
    m = draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(15, 90)))
    kind = draw(st.sampled_from(["small", "small", "ties", "wide", "float", "huge"]))
    one = {"small": st.integers(-12, 12), "ties": st.sampled_from([-3, -2, 0]), "wide": st.integers(-5000, 5000),
           "float": st.integers(-80, 80).map(lambda x: x / 8), "huge": st.sampled_from([10**400, 10**400 + 10**399, 2 * 10**400, -(10**400), 7, 10**320])}[kind]
    costs = draw(st.lists(one, min_size=m, max_size=m))
    if draw(st.booleans()):
        costs = [c + 7 for c in costs]
    return {
        "costs": [str(c) if abs(c) > 2**60 else c for c in costs], "obsolete": draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=m, max_size=m)),
        "temperature": draw(st.sampled_from(TEMPS)), "rel": draw(st.booleans()), "nbranch": draw(st.one_of(st.integers(1, 9), st.sampled_from([8, 2, 14]), st.integers(1, 100))),
        "via": draw(st.sampled_from(["fn", "made", "changed"])), "seed": draw(st.integers(0, 10**6)),
    }


def build(case):
    """candidate k contracts the tensors {a_k} and {b_k}."""
    cand, remaining = [], {}
    for k, c in enumerate(case["costs"]):
        k1, k2, k12 = frozenset([sym(3 * k), sym(500)]), frozenset([sym(3 * k + 1), sym(500)]), frozenset([sym(3 * k), sym(3 * k + 1)])
        if case["obsolete"][k] != 1:
            remaining[k1] = 2 * k
        if case["obsolete"][k] != 2:
            remaining[k2] = 2 * k + 1
        cand.append(((int(c) if isinstance(c, str) else c, 2 * k + 1, 2 * k), k1, k2, k12))
    return cand, remaining


def weights(costs, case):
    c0 = min(costs)
    if case["temperature"] == 0:
        return [1.0 if c == c0 else 0.0 for c in costs]
    unit = Fraction(case["temperature"]) * (max(1, abs(Fraction(c0))) if case["rel"] else 1)
    return [math.exp(-float(min((Fraction(c) - Fraction(c0)) / unit, 1000))) for c in costs]


def within(count, p):
    return abs(count - N * p) <= 7 * math.sqrt(N * p * (1 - p)) + 6


def check_queue(case, ctx):
    cand, remaining = build(case)
    live = sorted([c for c in cand if c[1] in remaining and c[2] in remaining], key=lambda c: c[0])
    kw = {"temperature": case["temperature"], "rel_temperature": case["rel"], "nbranch": case["nbranch"]}
    what = f"chooser({kw}) on costs {[c[0][0] for c in live]} ({len(cand) - len(live)} obsolete candidates)"
    with target(what):
        if case["via"] == "fn" or case["nbranch"] == 1:
            choose = functools.partial(thermal_chooser, **kw)
        elif case["via"] == "made":
            choose = oe.RandomGreedy(**kw).choose_fn
        else:
            o = oe.RandomGreedy(temperature=77.0, nbranch=3, rel_temperature=not case["rel"])
            o.choose_fn
            for k, v in kw.items():
                setattr(o, k, v)
            choose = o.choose_fn
    heap = list(cand)
    heapq.heapify(heap)
    random.seed(case["seed"])
    counts = {}
    for _ in range(N if len(live) > 1 else 3):
        q, rem = list(heap), dict(remaining)
        with target(what):
            got = choose(q, rem)
        if not live:
            if got is not None:
                raise Violation(f"{what}: returned {got} although every candidate is obsolete")
            continue
        if got is None or tuple(got) not in live:
            raise Violation(f"{what}: returned {got}, which is not an available candidate")
        if rem != remaining:
            raise Violation(f"{what}: changed the mapping of remaining tensors")
        left = sorted([c for c in q if c in live], key=lambda c: c[0])
        if left != [c for c in live if c != tuple(got)] or any(c not in cand for c in q):
            raise Violation(f"{what}: after choosing {got[0]} the queue holds {[c[0] for c in q]}")
        if any(q[(i - 1) // 2][0] > q[i][0] for i in range(1, len(q))):
            raise Violation(f"{what}: the queue is no heap any more: {[c[0] for c in q]}")
        counts[tuple(got)] = counts.get(tuple(got), 0) + 1
    if len(live) < 2:
        ctx.label("single")
        return
    top = live[: case["nbranch"]]
    ws = weights([c[0][0] for c in top], case)
    tot = sum(ws)
    cut = top[-1][0][0]
    probs = {}
    for c, w in zip(top, ws):
        probs[c[0][0]] = probs.get(c[0][0], 0) + w / tot
    seen = {}
    for c, k in counts.items():
        seen[c[0][0]] = seen.get(c[0][0], 0) + k
    for cost in set(seen) | set(probs):
        p, k = min(1.0, probs.get(cost, 0.0)), seen.get(cost, 0)
        if (p == 0 and k) or not within(k, p):
            raise Violation(f"{what}: candidates of cost {cost} were drawn {k} times out of {N}, expected about {N * p:.1f}")
    # and every prefix of the candidates in order of cost
    k, p = 0, 0.0
    for cost in sorted(probs):
        k, p = k + seen.get(cost, 0), min(1.0, p + probs[cost])
        if not within(k, p):
            raise Violation(f"{what}: candidates of cost up to {cost} were drawn {k} times out of {N}, expected about {N * p:.1f}")
    for c, w in zip(top, ws):
        if c[0][0] != cut and not within(counts.get(c, 0), w / tot):
            raise Violation(f"{what}: candidate {c[0]} was drawn {counts.get(c, 0)} times out of {N}, expected about {N * w / tot:.1f}")
    ctx.label("T=0" if case["temperature"] == 0 else "rel" if case["rel"] else "abs", case["via"])
    ctx.nt(sum(w > 1e-3 for w in ws) > 1)


# ------------------------------------------------------- complete searches, observed
@st.composite
def searches(draw):
    net = draw(graphs(n_min=3, n_max=14, size_pool=(2, 3, 5, 1)))
    return {"net": net, "temperature": draw(st.sampled_from([1.0, 0.0, 0.0, 0.3, 1e6])), "rel": draw(st.booleans()), "nbranch": draw(st.sampled_from([8, 2, 3, 1, 40])),
            "seed": draw(st.integers(0, 10**6)), "via": draw(st.sampled_from(["greedy", "ssa"]))}


def operands(net):
    ins = [frozenset(sym(i) for i in t) for t in net["inputs"]]
    return ins, frozenset(sym(i) for i in net["output"]), {sym(i): net["sizes"][i] for t in net["inputs"] for i in t}


def check_search(case, ctx):
    net = case["net"]
    ins, out, sz = operands(net)
    n = len(ins)
    what = f"greedy search with an observing chooser on {[''.join(sorted(i)) for i in ins]}->{''.join(sorted(out))} {sz}"
    keep = out | frozenset.intersection(*ins)
    steps = []

    def size(ks):
        r = 1
        for k in ks:
            r *= sz[k]
        return r

    def observer(queue, remaining):
        live = [c for c in queue if c[1] in remaining and c[2] in remaining]
        pairs = {frozenset((c[1], c[2])) for c in live}
        keys = list(remaining)
        for a in range(len(keys)):
            for b in range(a):
                if (keys[a] & keys[b]) - keep and frozenset((keys[a], keys[b])) not in pairs:
                    raise Violation(f"{what}: the chooser is not offered the pair {sorted(keys[a])}, {sorted(keys[b])}")
        for c in live:
            if not c[3] <= c[1] | c[2]:
                raise Violation(f"{what}: candidate {c} has indices of neither tensor")
            if c[0][0] != size(c[3]) - size(c[1]) - size(c[2]):
                raise Violation(f"{what}: candidate {c} has cost {c[0][0]}, expected {size(c[3]) - size(c[1]) - size(c[2])}")
        got = thermal_chooser(queue, remaining, nbranch=case["nbranch"], temperature=case["temperature"], rel_temperature=case["rel"])
        if not live:
            if got is not None:
                raise Violation(f"{what}: chose {got} of no candidates")
            return got
        if got is None:
            raise Violation(f"{what}: {len(live)} candidates, but none was chosen")
        costs = sorted(c[0][0] for c in live)
        if got[0][0] > costs[min(len(costs), case["nbranch"]) - 1]:
            raise Violation(f"{what}: chose cost {got[0][0]} with nbranch={case['nbranch']}, available {costs}")
        if case["temperature"] == 0 and got[0][0] != costs[0]:
            raise Violation(f"{what}: chose cost {got[0][0]} at temperature 0, available {costs}")
        steps.append(len(costs))
        return got

    random.seed(case["seed"])
    with target(what):
        if case["via"] == "greedy":
            path = paths.greedy(list(ins), out, dict(sz), choose_fn=observer, cost_fn="memory-removed")
        else:
            path = paths.ssa_to_linear(paths.ssa_greedy_optimize(list(ins), out, dict(sz), observer, "memory-removed"))
    ref.check_path(path, n, what)
    ctx.label(net["kind"])
    ctx.nt(max(steps, default=0) > 1)


# ------------------------------------------------------- options of RandomGreedy
@st.composite
def option_cases(draw):
    net = draw(graphs(n_min=3, n_max=16, size_pool=(2, 3, 5, 7)))
    return {"net": net, "temperature": draw(st.sampled_from([1.0, 0.0, 0.3, 100.0])), "rel": draw(st.booleans()), "nbranch": draw(st.sampled_from([1, 1, 2, 8])),
            "reps": draw(st.integers(1, 6)), "minimize": draw(st.sampled_from(["flops", "size"])), "cost": draw(st.sampled_from(["memory-removed", "CUSTOM"]))}


def custom(size12, size1, size2, k12, k1, k2):
    return 3 * size12 - size1 - 2 * size2


def check_options(case, ctx):
    ins, out, sz = operands(case["net"])
    cost = custom if case["cost"] == "CUSTOM" else case["cost"]
    kw = {"temperature": case["temperature"], "rel_temperature": case["rel"], "nbranch": case["nbranch"], "minimize": case["minimize"], "cost_fn": cost}
    what = f"RandomGreedy({kw}) on {[''.join(sorted(i)) for i in ins]}->{''.join(sorted(out))} {sz}"
    with target(what):
        plain = [tuple(s) for s in paths.greedy(list(ins), out, dict(sz), cost_fn=cost)]
        first = oe.RandomGreedy(max_repeats=1, **kw)
        p1 = [tuple(s) for s in first(list(ins), out, dict(sz))]
        many = oe.RandomGreedy(max_repeats=case["reps"], **kw)
        pm = [tuple(s) for s in many(list(ins), out, dict(sz))]
        random.seed(12345)
        again = oe.RandomGreedy(max_repeats=case["reps"], **kw)
        pa = [tuple(s) for s in again(list(ins), out, dict(sz))]
    if p1 != plain:
        raise Violation(f"{what}: the first trial found {p1}, greedy with that cost function finds {plain}")
    if case["nbranch"] == 1:
        if pm != plain or set(many.costs) != set(first.costs) or set(many.sizes) != set(first.sizes):
            raise Violation(f"{what}: with one branch the trials found {pm} with costs {many.costs}, sizes {many.sizes}; greedy finds {plain}")
    if pm != pa or many.costs != again.costs or many.sizes != again.sizes:
        raise Violation(f"{what}: two fresh optimizers disagree: {pm} {many.costs} and {pa} {again.costs}")
    if len(many.costs) != case["reps"]:
        raise Violation(f"{what}: {len(many.costs)} trials instead of {case['reps']}")
    ctx.nt(len(ins) > 3)


# ------------------------------------------------------- trials differ
def variety_cases(tier):
    for n in (8, 12, 20):
        for temp in (0.0, 1.0):
            for kind in ("ring", "star", "parts"):
                for cost in ("memory-removed", "memory-removed-jitter"):
                    yield {"n": n, "temperature": temp, "kind": kind, "cost": cost}


def check_variety(case, ctx):
    n = case["n"]
    if case["kind"] == "ring":
        ins = [frozenset((sym(k), sym((k + 1) % n))) for k in range(n)]
    elif case["kind"] == "star":
        ins = [frozenset(sym(k) for k in range(n - 1))] + [frozenset([sym(k)]) for k in range(n - 1)]
    else:
        ins = [frozenset((sym(k // 2), sym(100 + k))) for k in range(n)]
    out = frozenset(sym(100 + k) for k in range(n)) if case["kind"] == "parts" else frozenset()
    sz = {i: 2 for t in ins for i in t}
    what = f"trials of RandomGreedy(temperature={case['temperature']}, cost_fn={case['cost']}) on a {case['kind']} of {n} equal tensors"
    with target(what):
        o = oe.RandomGreedy(temperature=case["temperature"], cost_fn=case["cost"])
        fn, args = o.setup(ins, out, sz)
        got = [tuple(map(tuple, fn(r, *args)[0])) for r in range(1, 141)]
        rep = [tuple(map(tuple, fn(r, *args)[0])) for r in range(1, 141)]
    if got != rep:
        raise Violation(f"{what}: a trial repeated with the same number gave another path")
    # of 20 equal tensors there are so many equally good orders that trials hardly ever agree
    if len(set(got)) < (130 if n == 20 and case["kind"] != "parts" else 6):
        raise Violation(f"{what}: 140 trials gave only {len(set(got))} different paths although many contractions cost the same")
    ctx.nt()


# ------------------------------------------------------- cost functions
@st.composite
def cost_cases(draw):
    s = st.one_of(st.integers(0, 50), st.integers(1, 10**9), st.sampled_from([10**20, 10**310, 10**500 + 1, 2**1024]))
    return {"sizes": [str(draw(s)) for _ in range(3)], "seed": draw(st.integers(0, 10**6))}


def check_cost(case, ctx):
    s12, s1, s2 = map(int, case["sizes"])
    exact = s12 - s1 - s2
    ks = [frozenset("ab"), frozenset("ac"), frozenset("bc")]
    with target("cost_memory_removed"):
        got = paths.cost_memory_removed(s12, s1, s2, *ks)
    if got != exact:
        raise Violation(f"cost_memory_removed({s12}, {s1}, {s2}) = {got}, expected {exact}")
    random.seed(case["seed"])
    with target("cost_memory_removed_jitter"):
        js = [paths.cost_memory_removed_jitter(s12, s1, s2, *ks) for _ in range(60)]
    if exact == 0:
        bad = any(j != 0 for j in js)
    else:
        rel = [Fraction(j) / exact for j in js]
        bad = any(abs(r - 1) > Fraction(1, 10) for r in rel) or abs(sum(rel) / 60 - 1) > Fraction(1, 50) or (len(set(js)) < 10 and abs(exact) > 10**4)
    if bad:
        raise Violation(f"cost_memory_removed_jitter({s12}, {s1}, {s2}) gives {js[:5]}..., not {exact} with slight noise")
    ctx.nt(exact != 0)


SUBS = [
    Sub("weights", check_queue, queues, quick=4000, thorough=60000, case_timeout=60),
    Sub("searches", check_search, searches, quick=5000, thorough=80000),
    Sub("options", check_options, option_cases, quick=4000, thorough=60000),
    Sub("variety", check_variety, cases=variety_cases),
    Sub("cost-functions", check_cost, cost_cases, quick=3000, thorough=30000),
]
