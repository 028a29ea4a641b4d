"""C20: user-supplied path finders are given the true contraction and their path is what is executed."""
import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import paths

import ref
from core import Sub, Violation, expect_error, target
from fakes import Counting
from gen import any_path, graphs, nets, with_syms

RULE = (
    "PathOptimizer subclasses and registered path functions record their arguments and return a drawn valid path (pairs, many-term and single-term steps), for random "
    "contractions with repeated indices, ellipsis, broadcasting, every form of memory_limit and entry point; the arguments must describe the contraction (index sets per operand, "
    "output set, broadcast sizes, resolved limit), the path must come back unchanged, drive the steps and give the reference value; histories of registrations "
    "with colliding names against a dictionary model; stateful optimizers reused on equal and on different contractions; non-trivial = 3+ operands"
)
ASSUMPTIONS = ["the path finder returns a valid complete path and leaves its arguments alone"]
B = Counting("vp_counting_c20")


class Recorder(paths.PathOptimizer):
    def __init__(self, path):
        self.path, self.calls = path, []

    def __call__(self, inputs, output, size_dict, memory_limit=None):
        self.calls.append((list(inputs), output, dict(size_dict), memory_limit))
        return self.path


COUNT = [0]


@st.composite
def cases(draw):
    net = draw(nets(n_min=3, n_max=6, pool=6, max_rank=4, cap=5000, bcast=True, zero=True, syms="wide"))
    n = len(net["inputs"])
    return {"net": net, "path": draw(any_path(n)), "kind": draw(st.sampled_from(["class", "fn", "fn"])),
            "mem": draw(st.one_of(st.none(), st.sampled_from([-1, "max_input", 1, 7, 1000, 10**9]), st.integers(1, 100))),
            "entry": draw(st.sampled_from(["contract", "path", "path-shapes", "expr", "inter"])), "case": draw(st.sampled_from(["lower", "upper", "title"])),
            "ptype": draw(st.sampled_from(["list-tuple", "list-list", "tuple-tuple"])), "seed": draw(st.integers(0, 99)), "ell": draw(st.integers(0, 3)) == 3}


@st.composite
def large_cases(draw):
    """many operands and indices: only the arguments and the returned path are compared."""
    net = with_syms(draw(graphs(n_min=8, n_max=70, size_pool=(2, 3, 5, 1, 10**6))))
    return {"net": net, "path": draw(any_path(len(net["inputs"]))), "kind": draw(st.sampled_from(["class", "fn"])),
            "mem": draw(st.sampled_from([None, -1, "max_input", 12, 10**30])), "entry": draw(st.sampled_from(["path-shapes", "path-shapes", "build"])),
            "case": "title", "ptype": draw(st.sampled_from(["list-tuple", "list-list", "tuple-tuple"])), "seed": 0, "ell": draw(st.integers(0, 3)) == 3}


def check(c, ctx):
    net = c["net"]
    n = len(net["inputs"])
    path = {"list-tuple": lambda p: [tuple(s) for s in p], "list-list": lambda p: [list(s) for s in p],
            "tuple-tuple": lambda p: tuple(tuple(s) for s in p)}[c["ptype"]](c["path"])
    rec = Recorder(path)
    if c["kind"] == "class":
        opt = rec
    else:
        COUNT[0] += 1
        name = f"Vp-Custom-{COUNT[0]}"
        with target("register_path_fn"):
            paths.register_path_fn(name, rec.__call__)
        opt = {"lower": name.lower(), "upper": name.upper(), "title": name}[c["case"]]
    try:
        run(c, net, n, path, rec, opt, ctx)
    finally:
        if c["kind"] == "fn":
            getattr(paths, "_PATH_OPTIONS", {}).pop(name.lower(), None)  # keep the registry small


def run(c, net, n, path, rec, opt, ctx):
    ell = c["ell"] and c["entry"] in ("contract", "path", "path-shapes", "expr", "build")
    shp = ref.shapes(net)
    arrs = exp = None
    if c["entry"] in ("contract", "inter", "expr", "path"):
        arrs = ref.make_arrays(net, "float64", c["seed"])
        exp = ref.einsum(net, arrs)
    eff = ref.eff_sizes(net)
    nm = {i: net["syms"][i] for i in range(len(net["syms"]))}
    eq = ref.eq_of(net)
    if ell:
        # an extra leading ellipsis dimension of size 2 on every operand
        lhs, rhs = eq.split("->")
        eq = ",".join("..." + t for t in lhs.split(",")) + "->..." + rhs
        shp = [(2,) + s for s in shp]
        if arrs is not None:
            arrs = [np.stack([a, 2 * a]) for a in arrs]
            exp = np.stack([exp, exp * 2.0**n])
    mem = c["mem"]
    what = f"{c['entry']} {eq} {shp} with a user path finder returning {path}, memory_limit={mem}"
    got = info = back = None
    with target(what):
        if c["entry"] == "contract":
            B.reset()
            got = oe.contract(eq, *arrs, optimize=opt, memory_limit=mem, backend=B.name)
        elif c["entry"] == "inter":
            args = []
            for a, t in zip(arrs, net["inputs"]):
                args += [a, list(t)]
            B.reset()
            got = oe.contract(*args, list(net["output"]), optimize=opt, memory_limit=mem, backend=B.name)
        elif c["entry"] == "expr":
            ex = oe.contract_expression(eq, *shp, optimize=opt, memory_limit=mem)
            if len(rec.calls) != 1:
                raise Violation(f"{what}: the path finder ran {len(rec.calls)} times while building the expression")
            B.reset()
            got = ex(*arrs, backend=B.name)
        elif c["entry"] == "build":
            ex = oe.contract_expression(eq, *shp, optimize=opt, memory_limit=mem)
            steps = [tuple(sorted(x[0])) for x in ex.contraction_list]
            if steps != [tuple(sorted(s)) for s in path]:
                raise Violation(f"{what}: the steps of the expression are {steps}")
        elif c["entry"] == "path":
            back, info = oe.contract_path(eq, *arrs, optimize=opt, memory_limit=mem)
        else:
            back, info = oe.contract_path(eq, *shp, shapes=True, optimize=opt, memory_limit=mem)
    if len(rec.calls) != 1:
        raise Violation(f"{what}: the path finder was called {len(rec.calls)} times")
    ins, out, sd, lim = rec.calls[0]
    # the symbols may have been replaced: match them up through the operands
    inter = c["entry"] == "inter"
    if len(ins) != n:
        raise Violation(f"{what}: given {len(ins)} inputs")
    if not inter:
        e_ins = [frozenset(nm[i] for i in t) for t in net["inputs"]]
        extra = set()
        if ell:
            extra = set().union(*[set(x) for x in ins]) - {nm[i] for i in eff}
            if len(extra) != 1 or any(not extra <= set(x) for x in ins) or not extra <= set(out):
                raise Violation(f"{what}: the ellipsis dimension is not one common index: inputs {ins} output {out}")
        if [frozenset(x) - extra for x in ins] != e_ins:
            raise Violation(f"{what}: inputs given as {ins}")
        if frozenset(out) - extra != frozenset(nm[i] for i in net["output"]):
            raise Violation(f"{what}: output given as {out}")
        e_sd = {nm[i]: d for i, d in eff.items()}
        for x in extra:
            e_sd[x] = 2
        if {k: int(v) for k, v in sd.items()} != e_sd:
            raise Violation(f"{what}: sizes given as {sd}, expected {e_sd}")
    else:
        # any injective renaming is fine
        ren = {}
        sig = {i: (frozenset(t for t, term in enumerate(net["inputs"]) if i in term), i in net["output"], eff[i]) for i in eff}
        gsig = {}
        for k in set().union(*ins) if ins else set():
            gsig[k] = (frozenset(t for t, x in enumerate(ins) if k in x), k in out, int(sd.get(k, -1)))
        if sorted(map(repr, map(_norm, sig.values()))) != sorted(map(repr, map(_norm, gsig.values()))) or set(sd) != set(gsig):
            raise Violation(f"{what}: given inputs {ins}, output {out}, sizes {sd}")
    full = dict(eff)
    mult = 2 if ell else 1
    szs = [int(np.prod([full[i] for i in set(t)], dtype=object)) * mult for t in net["inputs"]]
    if mem == "max_input":
        osz = int(np.prod([full[i] for i in net["output"]], dtype=object)) * mult
        # the size of an operand with a repeated index may count the index once or per axis
        rep = [int(np.prod([full[i] for i in t], dtype=object)) * mult for t in net["inputs"]]
        if not (isinstance(lim, (int, np.integer)) and min(max(szs), max(rep)) <= lim <= max(max(rep), osz)):
            raise Violation(f"{what}: memory limit given as {lim!r}, largest input has {max(szs)} elements")
    elif mem in (None, -1):
        if lim not in (None, -1, float("inf")):
            raise Violation(f"{what}: memory limit given as {lim!r}")
    elif lim != mem:
        raise Violation(f"{what}: memory limit given as {lim!r}")
    if back is not None:
        if [tuple(sorted(s)) for s in back] != [tuple(sorted(s)) for s in path] or [tuple(sorted(s)) for s in info.path] != [tuple(sorted(s)) for s in path]:
            raise Violation(f"{what}: contract_path returned {back}")
        if [tuple(sorted(x[0])) for x in info.contraction_list] != [tuple(sorted(s)) for s in path]:
            raise Violation(f"{what}: the steps {[x[0] for x in info.contraction_list]} do not follow the path")
    elif got is not None:
        ref.same(got, exp, what, check_dtype=False)
        if B.calls["einsum"] + B.calls["tensordot"] != len(path):
            raise Violation(f"{what}: {len(path)} steps, but {B.calls} backend calls")
    ctx.label(c["entry"], c["kind"], "ellipsis" if ell else "plain")
    ctx.nt(True)


def _norm(t):
    return (sorted(t[0]), t[1], t[2])


# ------------------------------------------------------------ the registry
BUILTIN = ["auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp", "dynamic-programming",
           "random-greedy", "random-greedy-128"]
NAMES = ["vpx", "VPX", "Vpx", "vp-y", "vp y", "é-Path", "É-path", "auto2", "greedy ", " vpx", "vpx@ ", "vpx@", "vp_y", "v.p/y@\t", "vpx@-2"]


@st.composite
def registry(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(["reg", "reg", "get", "use", "builtin", "unknown"]))
        nme = draw(st.sampled_from(NAMES))
        if kind == "builtin":
            nme = draw(st.sampled_from(BUILTIN))
            nme = draw(st.sampled_from([nme, nme.upper(), nme.title()]))
        ops.append([kind, nme])
    return {"ops": ops}


def chain(seed):
    rng = np.random.RandomState(seed)
    arrs = [rng.randint(-3, 4, size=s).astype(float) for s in ((2, 3), (3, 2), (2, 4))]
    return arrs, arrs[0] @ arrs[1] @ arrs[2]


def check_registry(c, ctx):
    model = {}
    arrs, exp = chain(3)
    base = dict(getattr(paths, "_PATH_OPTIONS", {}))
    COUNT[0] += 1
    try:
        for kind, nme in c["ops"]:
            if kind != "builtin":
                nme = nme.replace("@", str(COUNT[0])) if "@" in nme else f"{nme}{COUNT[0]}"  # fresh names for every case
            low = nme.lower()
            if kind == "reg":
                rec = Recorder([(0, 1), (0, 1)])
                if low in model:
                    expect_error(f"register_path_fn({nme!r}), already registered", lambda: paths.register_path_fn(nme, rec), (KeyError, ValueError))
                else:
                    with target(f"register_path_fn({nme!r})"):
                        paths.register_path_fn(nme, rec)
                    model[low] = rec
            elif kind == "builtin":
                rec = Recorder([(0, 1), (0, 1)])
                before = paths.get_path_fn(nme)
                expect_error(f"register_path_fn({nme!r}), a built-in name", lambda: paths.register_path_fn(nme, rec), (KeyError, ValueError))
                if paths.get_path_fn(nme) is not before or paths.get_path_fn(low) is not before:
                    raise Violation(f"registering {nme!r} replaced the built-in optimizer")
                with target(f"contract(optimize={nme!r})"):
                    got = oe.contract("ab,bc,cd->ad", *arrs, optimize=nme)
                ref.same(got, exp, f"contract(optimize={nme!r})")
                if rec.calls:
                    raise Violation(f"a refused registration of {nme!r} is used")
            elif kind == "unknown" or low not in model:
                x = nme if low not in model else nme + "?"
                expect_error(f"get_path_fn({x!r}), never registered", lambda: paths.get_path_fn(x), (KeyError,))
                expect_error(f"contract(optimize={x!r}), never registered", lambda: oe.contract("ab,bc,cd->ad", *arrs, optimize=x), (KeyError,))
            elif kind == "get":
                with target(f"get_path_fn({nme!r})"):
                    fn = paths.get_path_fn(nme)
                if fn is not model[low]:
                    raise Violation(f"get_path_fn({nme!r}) is not the function registered under that name")
            else:
                rec = model[low]
                k = len(rec.calls)
                with target(f"contract(optimize={nme!r})"):
                    got = oe.contract("ab,bc,cd->ad", *arrs, optimize=nme)
                ref.same(got, exp, f"contract(optimize={nme!r})")
                if len(rec.calls) != k + 1:
                    raise Violation(f"contract(optimize={nme!r}) did not call the registered function")
    finally:
        reg = getattr(paths, "_PATH_OPTIONS", None)
        if reg is not None:
            reg.clear()
            reg.update(base)
    ctx.nt(sum(1 for o in c["ops"] if o[0] == "reg") >= 2)


# ------------------------------------------------------------ stateful optimizers
@st.composite
def reuse(draw):
    a = draw(nets(n_min=3, n_max=5, pool=5, max_rank=3, cap=3000))
    how = draw(st.sampled_from(["size", "output", "inputs", "order"]))
    return {"a": a, "how": how, "cls": draw(st.sampled_from(["BranchBound", "RandomGreedy"])), "times": draw(st.integers(1, 3)),
            "min": draw(st.sampled_from(["flops", "size"])), "pick": draw(st.integers(0, 99)), "seed": draw(st.integers(0, 99))}


def check_reuse(c, ctx):
    net = c["a"]
    mk = {"BranchBound": lambda: oe.BranchBound(nbranch=2, minimize=c["min"]), "RandomGreedy": lambda: oe.RandomGreedy(max_repeats=3, minimize=c["min"])}[c["cls"]]
    opt = mk()
    arrs = ref.make_arrays(net, "float64", c["seed"])
    exp = ref.einsum(net, arrs)
    eq = ref.eq_of(net)
    last = None
    for k in range(c["times"]):
        with target(f"contract({eq}) with a {c['cls']} instance, call {k + 1}"):
            path, info = oe.contract_path(eq, *arrs, optimize=opt)
            got = oe.contract(eq, *arrs, optimize=opt)
        ref.check_path(path, len(arrs), f"{eq} {c['cls']} call {k + 1}")
        ref.same(got, exp, f"{eq} {c['cls']} call {k + 1}")
        steps = ref.simulate([frozenset(t) for t in net["inputs"]], net["output"], [tuple(p) for p in path], ref.eff_sizes(net))
        cost = (sum(ref.flops_pair(s) for s in steps), max(s["size"] for s in steps))
        key = cost if c["min"] == "flops" else cost[::-1]
        if last is not None and key > last:
            raise Violation(f"{eq} {c['cls']}(minimize={c['min']}): call {k + 1} returned a worse path {path} {key} than the call before {last}")
        last = key
    # a different contraction must be refused by the used instance
    other = {k: (list(v) if isinstance(v, list) else v) for k, v in net.items()}
    used = sorted({i for t in net["inputs"] for i in t})
    if not used:
        return
    i = used[c["pick"] % len(used)]
    if c["how"] == "size":
        other["sizes"] = [d + (k == i) for k, d in enumerate(net["sizes"])]
    elif c["how"] == "output":
        other["output"] = [o for o in net["output"] if o != i] if i in net["output"] else net["output"] + [i]
    elif c["how"] == "inputs":
        other["inputs"] = net["inputs"] + [[i]]
    else:
        other["inputs"] = net["inputs"][::-1]
        if [set(t) for t in other["inputs"]] == [set(t) for t in net["inputs"]]:
            return
    oarr = ref.make_arrays(other, "float64", 1)
    expect_error(f"{c['cls']} instance used for {eq} {ref.shapes(net)}, then for {ref.eq_of(other)} {ref.shapes(other)}",
                 lambda: oe.contract_path(ref.eq_of(other), *oarr, optimize=opt), (ValueError,))
    ctx.label(c["cls"], c["how"])
    ctx.nt(True)


@st.composite
def in_place(draw):
    cls = draw(st.sampled_from(["BranchBound", "RandomGreedy"]))
    if cls == "RandomGreedy" and draw(st.booleans()):
        a = draw(graphs(n_min=6, n_max=60))  # many indices
    else:
        a = draw(nets(n_min=3, n_max=5, pool=5, max_rank=3, cap=3000, repeats=False))
    return {"a": a, "cls": cls,
            "how": draw(st.sampled_from(["size", "output", "swap", "inner"])), "pick": draw(st.integers(0, 99)), "twice": draw(st.booleans())}


def check_in_place(c, ctx):
    """the caller modifies the very objects it passed in the first call"""
    net = c["a"]
    used = sorted({i for t in net["inputs"] for i in t})
    if not used:
        return
    opt = oe.BranchBound(nbranch=2) if c["cls"] == "BranchBound" else oe.RandomGreedy(max_repeats=2)
    ins, out = [set(t) for t in net["inputs"]], set(net["output"])
    sizes = {i: net["sizes"][i] for i in used}
    what = f"{c['cls']} called with {ins}, {out}, {sizes}"
    for _ in range(1 + c["twice"]):
        with target(what):
            opt(ins, out, sizes)
    i = used[c["pick"] % len(used)]
    k = c["pick"] % len(ins)
    if c["how"] == "size":
        sizes[i] += 1
    elif c["how"] == "output":
        out ^= {i}
    elif c["how"] == "swap":
        if ins[k] == ins[k - 1]:
            return
        ins[k], ins[k - 1] = ins[k - 1], ins[k]
    elif i in ins[k] and len([t for t in ins if i in t]) < 2:
        return
    else:
        ins[k] ^= {i}
    expect_error(f"{what}; after the caller changed them to {ins}, {out}, {sizes}", lambda: opt(ins, out, sizes), (ValueError,))
    ctx.label(c["cls"], "in-place:" + c["how"])
    ctx.nt()


SUBS = [
    Sub("large", check, large_cases, quick=2000, thorough=30000, rule="8-70 operands: the arguments of the path finder, the returned path and the steps"),
    Sub("arguments", check, cases, quick=20000, thorough=250000),
    Sub("registry", check_registry, registry, quick=5000, thorough=60000, rule="non-trivial = 2+ registrations"),
    Sub("stateful", check_reuse, reuse, quick=5000, thorough=60000, rule="non-trivial = the changed contraction was tried"),
    Sub("in-place", check_in_place, in_place, quick=1500, thorough=20000, rule="the caller modifies the objects it passed before; non-trivial = the second call was made"),
]
