"""Reference view of what the dynamic program is documented to minimise."""
import ref
from core import Violation

FACTORS = {"combo": 64, "limit": 64}


def parse(minimize):
    kind, _, f = minimize.partition("-")
    return kind, int(f) if f else FACTORS.get(kind)


def local(minimize):
    """combiner(costA, costB, step) for one objective."""
    kind, f = parse(minimize)
    if kind == "flops":
        return lambda a, b, s: a + b + s["space"]
    if kind == "size":
        return lambda a, b, s: max(a, b, s["size"])
    if kind == "write":
        return lambda a, b, s: a + b + s["size"]
    if kind == "combo":
        return lambda a, b, s: a + b + s["space"] + f * s["size"]
    if kind == "limit":
        return lambda a, b, s: a + b + max(s["space"], f * s["size"])
    raise AssertionError(minimize)


def components(inputs, output, search_outer):
    """(leaf index sets after private sums, list of connected groups of leaves)."""
    cnt = {}
    for t in list(inputs) + [output]:
        for i in set(t):
            cnt[i] = cnt.get(i, 0) + 1
    reduced = [frozenset(i for i in t if cnt[i] > 1) for t in inputs]
    live = [k for k, t in enumerate(inputs) if reduced[k] or not t]
    if search_outer:
        return reduced, ([live] if live else [])
    out = set(output)
    comps = []
    todo = list(live)
    while todo:
        g = [todo.pop(0)]
        grew = True
        while grew:
            grew = False
            inds = set().union(*[reduced[k] for k in g]) - out
            for k in list(todo):
                if reduced[k] & inds:
                    g.append(k)
                    todo.remove(k)
                    grew = True
        comps.append(sorted(g))
    return reduced, comps


def best(inputs, output, sizes, minimize, search_outer=False, limit=None):
    """{component: minimal cost} (inf = nothing within the memory limit)."""
    reduced, comps = components(inputs, output, search_outer)
    comb = local(minimize)
    out = set(output)
    res = {}

    def obj(a, b, s):
        if not search_outer and not ((s["terms"][0] & s["terms"][1]) - out):
            return None
        if limit is not None and s["size"] > limit:
            return None
        if a == float("inf") or b == float("inf"):
            return None
        return comb(a, b, s)

    for g in comps:
        if len(g) == 1:
            res[tuple(g)] = 0
        else:
            res[tuple(g)] = ref.brute_force_min([reduced[k] for k in g], output, sizes, obj)
    return res


def path_costs(inputs, output, sizes, minimize, path, search_outer=False):
    """cost of `path` per component, plus the sizes of all intermediates inside components."""
    from math import prod

    reduced, comps = components(inputs, output, search_outer)
    comb = local(minimize)
    n = len(inputs)
    where = {k: tuple(g) for g in comps for k in g}
    out = frozenset(output)
    cur = [(1 << k, 0, None) for k in range(n)]
    costs = {tuple(g): 0 for g in comps}
    insizes = []

    def leaves(m):
        return [k for k in range(n) if m >> k & 1]

    def inds(m):
        ls = leaves(m)
        mine = frozenset().union(*[reduced[k] for k in ls])
        if len(ls) == 1:
            return mine
        rest = out.union(*[reduced[k] for k in range(n) if not m >> k & 1])
        return mine & rest

    for s in path:
        picked = [cur[p] for p in s]
        rest = [c for k, c in enumerate(cur) if k not in set(s)]
        m = 0
        for c in picked:
            m |= c[0]
        groups = {where.get(k) for k in leaves(m)}
        cost = 0
        if len(picked) == 1:
            cost = picked[0][1]
        elif len(groups) == 1 and None not in groups:
            if len(picked) != 2:
                raise Violation(f"dynamic programming returned a non-pairwise step {s} in {path}")
            ia, ib = inds(picked[0][0]), inds(picked[1][0])
            either = ia | ib
            keep = out.union(*[reduced[k] for k in range(n) if not m >> k & 1])
            r = either & keep
            st = dict(terms=[ia, ib], size=prod([sizes[i] for i in r]), space=prod([sizes[i] for i in either]))
            cost = comb(picked[0][1], picked[1][1], st)
            insizes.append(st["size"])
            g = groups.pop()
            if len(leaves(m)) == len(g):
                costs[g] = cost
        cur = rest + [(m, cost, None)]
    return costs, insizes


def best_fast(inputs, output, sizes, minimize, search_outer=False):
    """like `best` without limit, on bitmaps (for more tensors)."""
    reduced, comps = components(inputs, output, search_outer)
    kind, f = parse(minimize)
    bit = {}
    for t in reduced:
        for i in t:
            bit.setdefault(i, 1 << len(bit))
    out = 0
    for i in output:
        out |= bit.get(i, 0)
    dims = {b: sizes[i] for i, b in bit.items()}
    prods = {0: 1}

    def size(m):
        r = prods.get(m)
        if r is None:
            low = m & -m
            r = prods[m] = dims[low] * size(m ^ low)
        return r

    res = {}
    for g in comps:
        n = len(g)
        leaf = [sum(bit[i] for i in reduced[k]) for k in g]
        full = (1 << n) - 1
        union = [0] * (full + 1)
        for m in range(1, full + 1):
            low = (m & -m).bit_length() - 1
            union[m] = union[m & (m - 1)] | leaf[low]
        inds = [union[m] if m & (m - 1) == 0 else union[m] & (out | union[full ^ m]) for m in range(full + 1)]
        cost = [None] * (full + 1)
        for k in range(n):
            cost[1 << k] = 0
        for m in range(1, full + 1):
            if m & (m - 1) == 0:
                continue
            low = m & -m
            rest = m ^ low
            w = size(inds[m])
            b = None
            s = rest
            while s:
                # s: the part without the lowest leaf
                a = m ^ s
                ca, cs = cost[a], cost[s]
                if ca is not None and cs is not None and (search_outer or inds[a] & inds[s] & ~out):
                    if kind == "size":
                        v = max(ca, cs, w)
                    elif kind == "write":
                        v = ca + cs + w
                    else:
                        sp = size(inds[a] | inds[s])
                        v = ca + cs + (sp if kind == "flops" else sp + f * w if kind == "combo" else max(sp, f * w))
                    if b is None or v < b:
                        b = v
                s = (s - 1) & rest
            cost[m] = b
        res[tuple(g)] = cost[full]
    return res
