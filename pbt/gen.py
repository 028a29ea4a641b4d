"""Hypothesis strategies producing JSON-able cases."""
from math import prod

from core import setup_path

setup_path()
from hypothesis import strategies as st  # noqa: E402

LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()
UNI = "αβγδλµπΩÀéñŔ京Ƶјӝ"
POOL = LOWER + UPPER
WIDE = LOWER + UPPER + UNI


def shrink_sizes(sizes, cap, used=None):
    """deterministically lower the largest sizes until the product fits."""
    sizes = list(sizes)
    used = sorted(set(range(len(sizes)) if used is None else used))
    while used and prod([max(1, sizes[i]) for i in used]) > cap:
        k = max(used, key=lambda i: (sizes[i], i))
        sizes[k] = sizes[k] // 2 if sizes[k] > 16 else sizes[k] - 1
    return sizes


@st.composite
def nets(
    draw,
    n_min=1,
    n_max=5,
    pool=6,
    max_rank=4,
    size_pool=(2, 3, 1, 4, 5),
    zero=False,
    repeats=True,
    bcast=False,
    cap=20000,
    explicit=True,
    dup=True,
    dangling=True,
    max_count=None,
    syms="pool",
):
    """One contraction: terms over integer indices, output, sizes, symbols."""
    n = draw(st.integers(n_min, n_max))
    p = draw(st.integers(1, pool))
    inputs = []
    network = not max_count and n > 1 and draw(st.integers(0, 3)) == 3
    if network:
        # every index on exactly two of the operands and the output: what BLAS calls can do
        inputs = [[] for _ in range(n)]
        opened = []
        for i in range(p):
            a = draw(st.integers(0, n - 1))
            b = (a + draw(st.integers(0, n - 1))) % n
            inputs[a].append(i)
            (inputs[b] if a != b else opened).append(i)
        inputs = [draw(st.permutations(t)) for t in inputs]
    for t in range(0 if network else n):
        if dup and inputs and draw(st.integers(0, 5)) == 5:
            src = inputs[draw(st.integers(0, len(inputs) - 1))]
            term = draw(st.permutations(src)) if draw(st.booleans()) else list(src)
        else:
            term = draw(st.lists(st.integers(0, p - 1), min_size=0, max_size=max_rank, unique=not repeats))
        inputs.append(list(term))
    used = sorted({i for t in inputs for i in t})
    if max_count:
        seen = {}
        new = []
        for t in inputs:
            tt = []
            for i in t:
                seen[i] = seen.get(i, 0) + 1
                if seen[i] <= max_count:
                    tt.append(i)
            new.append(tt)
        inputs = new
        used = sorted({i for t in inputs for i in t})
    # output
    if network:
        out = list(draw(st.permutations(opened)))
    elif used:
        out = draw(st.lists(st.sampled_from(used), unique=True, max_size=min(len(used), 5)))
    else:
        out = []
    if not dangling:
        cnt = {i: sum(i in t for t in inputs) for i in used}
        out = list(out) + [i for i in used if cnt[i] == 1 and i not in out]
    szs = draw(st.lists(st.sampled_from(size_pool), min_size=p, max_size=p))
    if zero and used and draw(st.integers(0, 7)) == 7:
        szs[draw(st.sampled_from(used))] = 0
    szs = shrink_sizes(szs, cap, used)
    net = {"inputs": inputs, "output": out, "sizes": szs, "ones": []}
    if bcast and used and draw(st.integers(0, 2)) == 2:
        pairs = sorted({(t, i) for t, term in enumerate(inputs) for i in term})
        net["ones"] = [list(x) for x in draw(st.lists(st.sampled_from(pairs), unique=True, max_size=4))]
    net["syms"] = draw(symbols(p, syms))
    return net


def symbols(p, kind="pool"):
    if kind == "plain":
        return st.just(list(POOL[:p]))
    chars = POOL if kind == "pool" else WIDE
    return st.one_of(
        st.just(list(POOL[:p])),
        st.lists(st.sampled_from(chars), min_size=p, max_size=p, unique=True),
    )


@st.composite
def graphs(draw, n_min=2, n_max=12, kinds=("random", "chain", "ring", "star", "tree", "grid", "hyper", "disc", "dense"), size_pool=(2, 3, 1), cap=None, n_out_max=3,
           size_draw=None):
    """Tensor-network shaped contractions, larger n (path finding)."""
    n = draw(st.integers(n_min, n_max))
    kind = draw(st.sampled_from(kinds))
    terms = [[] for _ in range(n)]
    nxt = 0

    def edge(ts):
        nonlocal nxt
        for t in ts:
            terms[t].append(nxt)
        nxt += 1

    if kind in ("chain", "ring", "grid", "hyper"):
        for k in range(n - 1):
            edge((k, k + 1))
        if kind == "ring" and n > 2:
            edge((0, n - 1))
        if kind == "grid":
            w = draw(st.integers(2, 4))
            for k in range(n - w):
                edge((k, k + w))
    elif kind == "star":
        c = draw(st.integers(0, n - 1))
        for k in range(n):
            if k != c:
                edge((c, k))
    elif kind == "tree":
        for k in range(1, n):
            edge((draw(st.integers(0, k - 1)), k))
    elif kind == "dense":
        m = min(n, 5)
        for a in range(m):
            for b in range(a + 1, m):
                edge((a, b))
    if kind in ("random", "hyper", "disc", "dense"):
        for _ in range(draw(st.integers(0, max(1, n)))):
            k = draw(st.integers(1, 4 if kind in ("hyper", "random") else 2))
            ts = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=k, unique=True))
            edge(ts)
    # batch index over everything
    if draw(st.integers(0, 5)) == 5:
        edge(range(n))
    p = nxt
    used = list(range(p))
    out = draw(st.lists(st.sampled_from(used), unique=True, max_size=n_out_max)) if used else []
    # some dangling / open legs
    for _ in range(draw(st.integers(0, 2))):
        t = draw(st.integers(0, n - 1))
        terms[t].append(nxt)
        if draw(st.booleans()):
            out.append(nxt)
        nxt += 1
    # duplicate index sets (Hadamard products)
    if draw(st.integers(0, 3)) == 3:
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(0, n - 1))
        terms[b] = list(terms[a])
        live = {i for t in terms for i in t}
        out = [i for i in out if i in live]
    p = nxt
    if size_draw is not None:
        szs = [draw(size_draw) for _ in range(p)]
    else:
        szs = draw(st.lists(st.sampled_from(size_pool), min_size=p, max_size=p)) if p else []
    if cap:
        szs = shrink_sizes(szs, cap)
    return {"inputs": terms, "output": out, "sizes": szs, "ones": [], "kind": kind}


def with_syms(net):
    """give a graph() net symbols (deterministic, beyond 52 allowed)."""
    net = dict(net)
    net["syms"] = [sym(i) for i in range(len(net["sizes"]))]
    return net


def sym(i):
    return POOL[i] if i < 52 else chr(i + 140)


@st.composite
def any_path(draw, n, max_arity=3, singles=True):
    """A valid complete explicit path over n terms, as list of lists."""
    path = []
    cnt = n
    if n == 1:
        return [[0]]
    budget = 3
    while cnt > 1:
        if singles and budget and draw(st.integers(0, 9)) == 9:
            path.append([draw(st.integers(0, cnt - 1))])
            budget -= 1
            continue
        k = 2
        if max_arity > 2 and cnt > 2 and draw(st.integers(0, 3)) == 3:
            k = draw(st.integers(2, min(max_arity, cnt)))
        s = draw(st.lists(st.integers(0, cnt - 1), min_size=k, max_size=k, unique=True))
        path.append(s)
        cnt = cnt - k + 1
    if singles and draw(st.integers(0, 19)) == 19:
        path.append([0])
    return path


# ------------------------------------------------------------------ families of related cases
def _edit_net(draw, net):
    """a contraction that differs from `net` in one respect (never larger, same number of terms)."""
    net = {k: (list(v) if isinstance(v, list) else v) for k, v in net.items()}
    net["inputs"] = [list(t) for t in net["inputs"]]
    used = sorted({i for t in net["inputs"] for i in t})
    kind = draw(st.sampled_from(["sizes", "sizes", "shrink", "output", "order", "rename", "ones", "legs"]))
    if kind == "sizes" and len(used) > 1:
        new = draw(st.permutations([net["sizes"][i] for i in used]))
        for i, d in zip(used, new):
            net["sizes"][i] = d
    elif kind == "shrink" and used:
        i = draw(st.sampled_from(used))
        net["sizes"][i] = max(1, net["sizes"][i] - 1) if draw(st.booleans()) else max(1, net["sizes"][i] // 2)
    elif kind == "output" and used:
        net["output"] = draw(st.lists(st.sampled_from(used), unique=True, max_size=min(4, len(used))))
    elif kind == "order" and len(net["inputs"]) > 1:
        perm = draw(st.permutations(range(len(net["inputs"]))))
        net["inputs"] = [net["inputs"][p] for p in perm]
        net["ones"] = [[perm.index(t), i] for t, i in net["ones"]]
    elif kind == "rename" and "syms" in net:
        net["syms"] = draw(st.permutations(net["syms"]))
    elif kind == "ones" and net["ones"]:
        net["ones"] = net["ones"][:-1]
    elif kind == "legs":
        # permute the legs of one term
        k = draw(st.integers(0, len(net["inputs"]) - 1))
        net["inputs"][k] = draw(st.permutations(net["inputs"][k]))
    return net


@st.composite
def families(draw, base, max_len=4, keep=()):
    """Several related cases (same options and another contraction, same contraction and other options, unrelated), to be run one after
    another in one process: what an earlier call left behind must not matter. `keep`: option keys tied to the contraction."""
    first = draw(base)
    seq = [first]
    for _ in range(draw(st.integers(1, max_len - 1))):
        src = draw(st.sampled_from(seq))
        how = draw(st.sampled_from(["net", "net", "options", "both", "same", "fresh"]))
        if how == "same":
            seq.append(src)
            continue
        other = draw(base) if how in ("options", "fresh", "both") else src
        if how == "fresh":
            seq.append(other)
            continue
        new = dict(src)
        if how in ("options", "both") and len(other["net"]["inputs"]) == len(src["net"]["inputs"]):
            for k in other:
                if k != "net" and k not in keep:
                    new[k] = other[k]
        if how in ("net", "both"):
            new["net"] = _edit_net(draw, src["net"])
        seq.append(new)
    return {"seq": seq}


def in_sequence(check):
    def run(case, ctx):
        for c in case["seq"]:
            check(c, ctx)

    return run


@st.composite
def twice_nets(draw, n_min=2, n_max=6, cap=6000):
    """every index exactly twice, counting the output; no index twice in one operand."""
    n = draw(st.integers(n_min, n_max))
    terms = [[] for _ in range(n)]
    out = []
    nxt = 0
    for _ in range(draw(st.integers(0, 8))):
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(0, n))
        if a == b:
            b = n
        if len(terms[a]) > 4 or (b < n and len(terms[b]) > 4) or (b == n and len(out) > 5):
            continue
        terms[a].append(nxt)
        (out if b == n else terms[b]).append(nxt)
        nxt += 1
    terms = [draw(st.permutations(t)) for t in terms]
    out = draw(st.permutations(out))
    sizes = draw(st.lists(st.sampled_from([2, 3, 1, 4]), min_size=nxt, max_size=nxt))
    return {"inputs": [list(t) for t in terms], "output": list(out), "sizes": shrink_sizes(sizes, cap), "ones": [],
            "syms": draw(symbols(max(nxt, 1), "wide"))}


# ------------------------------------------------------------------ many axes
@st.composite
def high_rank_nets(draw, n_min=2, n_max=3, twice=False):
    """a few operands with up to 20 axes each (mostly of size 1 and 2)."""
    n = n_min if draw(st.booleans()) else draw(st.integers(n_min, n_max))
    p = draw(st.integers(8, 20))
    terms = [[] for _ in range(n)]
    out = []
    for i in range(p):
        # open index, shared by two operands, or (unless `twice`) anything else
        kind = draw(st.sampled_from(["open", "open", "pair"] if twice else ["open", "open", "pair", "pair", "batch", "sum"]))
        a = draw(st.integers(0, n - 1))
        b = (a + 1 + draw(st.integers(0, n - 2))) % n
        for t in {a, b} if kind in ("pair", "batch") else {a}:
            terms[t].append(i)
        if kind in ("open", "batch"):
            out.append(i)
    how = draw(st.integers(0, 4))
    terms = [list(t) if how == 0 else list(draw(st.permutations(t))) for t in terms]
    out = list(out) if how < 2 and draw(st.booleans()) else list(draw(st.permutations(out)))
    if how >= 3 and len(out) > 2:
        # in the order of the operands, except for one exchange
        out = [i for t in (terms if draw(st.booleans()) else terms[::-1]) for i in t if i in out]
        out = list(dict.fromkeys(out))
        k = draw(st.one_of(st.just(len(out) - 2), st.integers(0, len(out) - 2)))
        out[k], out[k + 1] = out[k + 1], out[k]
    used = {i for t in terms for i in t}
    out = [i for i in out if i in used]
    two = draw(st.sets(st.integers(0, p - 1), max_size=9))
    big = set(out[-2:]) if draw(st.booleans()) else set()
    sizes = [3 if i in big and draw(st.booleans()) else 2 if i in two or i in big else 1 for i in range(p)]
    return {"inputs": terms, "output": out, "sizes": sizes, "ones": [], "syms": draw(symbols(p, "wide"))}
