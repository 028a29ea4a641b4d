"""C12: malformed contractions are rejected, never silently computed."""
import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import ref
from core import Inconclusive, Sub, Violation, expect_error, target
from gen import high_rank_nets, nets

RULE = (
    "a valid contraction is drawn and accepted, then exactly one defect is injected (operand count, output label unknown or repeated, "
    "arrow, ellipsis, syntax characters in the place of indices, rank, dimension mismatch anywhere in the operand list, memory limit, optimizer name, keyword, label type, incomplete path) "
    "and every entry point (contract with each kind of strategy and optimize=False, contract_path on arrays and on shapes, "
    "contract_expression) must raise; junk explicit paths must raise or give the right value; non-trivial = the valid twin was accepted"
)
ASSUMPTIONS = ["ValueError/TypeError/KeyError count as rejection, per kind of defect"]
KINDS = ["drop", "extra", "out-unknown", "out-repeat", "arrow", "out-comma", "dots", "dots-out", "ell-short", "rank", "rank", "size", "size", "size", "memory", "optimizer",
         "kwarg", "expr-arg", "label-type", "out-label", "shapes-flag", "incomplete", "punct", "punct"]
APIS = ["contract", "false", "path", "path-shapes", "expr"]


@st.composite
def cases(draw):
    net = draw(nets(n_min=1, n_max=5, pool=5, max_rank=3, bcast=True, cap=3000, syms="wide"))
    return {"net": net, "kind": draw(st.sampled_from(KINDS)), "api": draw(st.sampled_from(APIS)), "r": draw(st.lists(st.integers(0, 9), min_size=4, max_size=4)),
            "opt": draw(st.sampled_from(["auto", "greedy", "optimal", "dp", "branch-1", "random-greedy", "PATH"])), "inter": draw(st.booleans())}


@st.composite
def many(draw):
    net = draw(nets(n_min=6, n_max=28, pool=12, max_rank=4, bcast=True, cap=3000, syms="wide"))
    return {"net": net, "kind": draw(st.sampled_from(["drop", "extra", "out-unknown", "out-repeat", "dots", "ell-short", "rank", "size", "size", "size", "punct"])),
            "api": draw(st.sampled_from(APIS)), "r": draw(st.lists(st.integers(0, 999), min_size=4, max_size=4)), "opt": draw(st.sampled_from(["auto", "greedy", "PATH"])), "inter": False}


@st.composite
def many_axes(draw):
    net = draw(high_rank_nets())
    return {"net": net, "kind": draw(st.sampled_from(["out-unknown", "out-repeat", "out-repeat", "dots", "ell-short", "rank", "rank", "size", "size", "size", "punct", "dots-out"])),
            "api": draw(st.sampled_from(APIS)), "r": draw(st.lists(st.integers(0, 999), min_size=4, max_size=4)), "opt": draw(st.sampled_from(["auto", "greedy", "PATH"])), "inter": False}


def call(api, args, arrays_pos, opt, **kw):
    """args: full positional argument list, arrays_pos: positions holding arrays."""
    args = list(args)
    if api == "contract":
        return oe.contract(*args, optimize=opt, **kw)
    if api == "false":
        return oe.contract(*args, optimize=False, **kw)
    if api == "path":
        return oe.contract_path(*args, optimize=opt, **kw)
    for k in arrays_pos:
        args[k] = tuple(args[k].shape)
    if api == "path-shapes":
        return oe.contract_path(*args, shapes=True, optimize=opt, **kw)
    return oe.contract_expression(*args, optimize=opt, **kw)


def check(case, ctx):
    net, kind, api, r = case["net"], case["kind"], case["api"], case["r"]
    n = len(net["inputs"])
    arrays = ref.make_arrays(net, "float64", 1)
    opt = case["opt"]
    if opt == "PATH":
        opt = [tuple(range(n))]
    sy = net["syms"]
    terms = ["".join(sy[i] for i in t) for t in net["inputs"]]
    out = "".join(sy[i] for i in net["output"])
    good = [",".join(terms) + "->" + out] + arrays
    pos = list(range(1, n + 1))
    with target(f"valid twin {good[0]} {[a.shape for a in arrays]} via {api}"):
        call(api, good, pos, opt)
    errs = (ValueError,)
    kw = {}
    args = list(good)
    fresh = next(c for c in "zyxwvutsrqponmlkjihgfedcba" if c not in good[0])
    t = r[0] % n
    if kind == "drop":
        k = 1 + r[0] % n
        args.pop(k)
        pos = list(range(1, n))
        if n == 1 and api != "path-shapes":
            pos = []
    elif kind == "extra":
        args.append(arrays[t])
        pos.append(n + 1)
    elif kind == "out-unknown":
        o = list(out)
        o.insert(r[1] % (len(o) + 1), fresh)
        args[0] = ",".join(terms) + "->" + "".join(o)
    elif kind == "out-repeat":
        if not out:
            raise Inconclusive("scalar output")
        o = list(out)
        o.insert(r[1] % (len(o) + 1), o[r[2] % len(o)])
        args[0] = ",".join(terms) + "->" + "".join(o)
    elif kind == "arrow":
        lhs = ",".join(terms)
        args[0] = [f"{lhs}->{out}->", f"{lhs}-{out}", f"{lhs}>{out}", f"{lhs}>-{out}", f"{lhs}->{out}-", f"{lhs}-->{out}", f"{lhs}->>{out}",
                   f"->{lhs}->{out}", f"{lhs}->{out}>", f"-{lhs}->{out}"][r[1]]
    elif kind == "out-comma":
        cut = r[1] % (len(out) + 1)
        args[0] = ",".join(terms) + "->" + out[:cut] + "," + (fresh if r[2] % 4 == 0 else "") + out[cut:]
        errs = (ValueError, KeyError)
    elif kind in ("dots", "ell-short"):
        bad = [".", "..", "....", "......", "...."][r[1] % 5] if kind == "dots" else "..."
        tt = list(terms)
        cut = r[2] % (len(tt[t]) + 1)
        if kind == "dots" and r[3] % 3 == 0:
            # two ellipses in one term
            cut2 = r[3] % (len(tt[t]) + 1)
            a, b = sorted((cut, cut2))
            tt[t] = tt[t][:a] + "..." + tt[t][a:b] + "..." + tt[t][b:]
        elif kind == "dots":
            tt[t] = tt[t][:cut] + bad + tt[t][cut:]
        else:
            # more labels next to the ellipsis than the operand has dimensions
            if arrays[t].ndim == 0:
                raise Inconclusive("scalar")
            tt[t] = tt[t][:cut] + bad + fresh + tt[t][cut:]
        args[0] = ",".join(tt) + "->" + out
    elif kind == "punct":
        # characters of the syntax in the place of indices, with operands of the rank that would need
        tt = [list(x) for x in terms]
        shp = [list(a.shape) for a in arrays]
        marks = ["-", ">", "->", ">-", ".", "..", "-.", "-->"][r[1] % 8]
        arrow = r[3] % 2
        where = []
        for q, ch in enumerate(marks):
            k = (t + q * r[2]) % n
            ax = (r[2] + q * r[0]) % (len(tt[k]) + 1)
            tt[k].insert(ax, ch)
            shp[k].insert(ax, 2)
            where.append(k)
        lhs = ",".join("".join(x) for x in tt)
        if "->" in lhs and lhs.count("-") == 1 and not arrow:
            raise Inconclusive("an arrow")
        args = [lhs + ("->" + out if arrow else "")] + [np.ones(x) for x in shp]
    elif kind == "dots-out":
        cut = r[2] % (len(out) + 1)
        args[0] = ",".join(terms) + "->" + out[:cut] + [".", "..", "....", "....."][r[1] % 4] + out[cut:]
    elif kind == "rank":
        tt = list(terms)
        if r[1] % 2 and tt[t] and (tt[t][-1] not in out or sum(tt[t][-1] in x for x in tt) > 1 or tt[t].count(tt[t][-1]) > 1):
            tt[t] = tt[t][:-1]
        else:
            c = r[2] % (len(tt[t]) + 1)
            known = "".join(terms)
            tt[t] = tt[t][:c] + (known[r[3] % len(known)] if known and r[3] % 2 else fresh) + tt[t][c:]
        args[0] = ",".join(tt) + "->" + out
    elif kind == "size":
        # enlarge one dimension of an index that some other axis fixes to a size > 1
        sz = ref.eff_sizes(net)
        cands = []
        for k, term in enumerate(net["inputs"]):
            for ax, i in enumerate(term):
                others = [d for kk, tm in enumerate(net["inputs"]) for ax2, j in enumerate(tm) if j == i and (kk, ax2) != (k, ax)
                          for d in [arrays[kk].shape[ax2]]]
                if max(others, default=1) > 1:
                    cands.append((k, ax, i))
        if not cands:
            raise Inconclusive("no shared index")
        k, ax, i = cands[r[1] % len(cands)]
        shp = list(arrays[k].shape)
        shp[ax] = sz[i] + 1 + r[2] % 2 if r[3] % 3 or sz[i] < 3 else sz[i] - 1
        if r[3] == 9 and api != "false":  # numpy.einsum itself takes 0 next to 2
            shp[ax] = 0
        args[1 + k] = np.ones(shp)
    elif kind == "memory":
        if api == "false":
            api = "contract"
        kw["memory_limit"] = [0, -2, -100, "max", "min_input", "", -3, 0.5, -0.5, "inputs"][r[1]]
    elif kind == "optimizer":
        if api == "false":
            api = "contract"
        if n < 3:
            raise Inconclusive("no search")
        opt = ["foo", "greedyy", "", "optimal ", "random", "branch", "dp-", "random-greedy-64", "auto_hq", "-"][r[1]]
        errs = (KeyError, ValueError)
    elif kind == "kwarg":
        kw[["foo", "einsum", "optimise", "path", "output", "use_blass", "Backend", "memory", "shape", "outs"][r[1]]] = [1, True, "greedy", 0, None][r[2] % 5]
        errs = (TypeError,)
    elif kind == "expr-arg":
        api = "expr"
        if r[1] % 3 == 0:
            opt = False
        elif r[1] % 3 == 1:
            kw["out"] = np.ones(3)
        else:
            kw["backend"] = ["numpy", "torch"][r[2] % 2]
    elif kind == "label-type":
        labs = [[int(i) for i in tm] for tm in net["inputs"]]
        if not any(labs):
            raise Inconclusive("no label")
        k = max(range(n), key=lambda q: (len(labs[q]), q == t))
        bads = [[1], {"a": 1}, {2}]
        if len({i for tm in labs for i in tm}) > 1:
            bads += ["x", None, (1, 2), 1j]
        labs[k][r[2] % len(labs[k])] = bads[r[1] % len(bads)]
        flat = [x for tm in labs for x in tm]
        if not any(isinstance(x, (list, dict, set)) for x in flat) and len({type(x) for x in flat}) < 2:
            raise Inconclusive("labels stay comparable")
        args = []
        for a, ls in zip(arrays, labs):
            args += [a, ls]
        pos = list(range(0, 2 * n, 2))
        errs = (TypeError,)
    elif kind == "out-label":
        args = []
        for a, tm in zip(arrays, net["inputs"]):
            args += [a, [int(i) for i in tm]]
        args.append([int(i) for i in net["output"]] + [77])
        pos = list(range(0, 2 * n, 2))
        errs = (KeyError, ValueError)
    elif kind == "shapes-flag":
        api = "path"
        kw["shapes"] = True
    elif kind == "incomplete":
        if n < 3:
            raise Inconclusive("short")
        k = 2 + r[1] % (n - 2)
        opt = [tuple(range(k))] if k < n else [(0, 1)]
        if api == "false":
            api = "contract"
        # such a path must be refused even if the output could be formed
    if case["inter"] and kind in ("size", "memory", "optimizer", "kwarg", "expr-arg", "rank", "out-repeat", "incomplete"):
        # the same defect in the interleaved form
        lhs, rhs = args[0].split("->")
        new = []
        for a, term in zip(args[1:], lhs.split(",")):
            new += [a, list(term)]
        args = new + [list(rhs)]
        pos = list(range(0, 2 * n, 2))
    if kind == "kwarg" and api == "expr":
        # such a keyword is kept for the backend's einsum: an error when built, or when called
        with_it = r[3] % 2

        def go():
            e = call(api, args, pos, opt, **(kw if with_it else {}))
            return e(*[args[k] for k in pos], **({} if with_it else kw))

        expect_error(f"{kind}: expression of {args[0] if isinstance(args[0], str) else pos} {kw} {'at construction' if with_it else 'in the call'}", go, errs)
        ctx.label(kind, api)
        ctx.nt()
        return
    expect_error(f"{kind}: {api}{[x if not isinstance(x, np.ndarray) else x.shape for x in args]} optimize={opt} {kw}", lambda: call(api, args, pos, opt, **kw), errs)
    ctx.label(kind, api)
    ctx.nt()


# -------------------------------------------------- junk paths
@st.composite
def junk(draw):
    net = draw(nets(n_min=2, n_max=5, pool=4, max_rank=2, cap=500, syms="plain"))
    n = len(net["inputs"])
    path = draw(st.lists(st.lists(st.integers(-2, n), min_size=1, max_size=3), min_size=0, max_size=n + 1))
    return {"net": net, "path": path, "api": draw(st.sampled_from(["contract", "expr"])), "blas": draw(st.booleans())}


def check_junk(case, ctx):
    net = case["net"]
    arrays = ref.make_arrays(net, "int64", 3)
    eq = ref.eq_of(net)
    path = [tuple(p) for p in case["path"]]
    try:
        if case["api"] == "contract":
            got = oe.contract(eq, *arrays, optimize=path, use_blas=case["blas"])
        else:
            got = oe.contract_expression(eq, *[a.shape for a in arrays], optimize=path or [()], use_blas=case["blas"])(*arrays)
    except Exception:
        ctx.label("rejected")
        ctx.nt()
        return
    ctx.label("accepted")
    ref.same(got, ref.einsum(net, arrays), f"{case['api']}({eq}, optimize={path}) accepted the path, but")
    ctx.nt()


# -------------------------------------------------- options
def option_cases(tier):
    for mk in ("BranchBound", "RandomGreedy", "DP"):
        for bad in ("", "flop", "memory", "SIZE", "combo-x", "write-2"):
            yield {"mk": mk, "kw": {"minimize": bad}}
    for nb in (0, -1, -5):
        yield {"mk": "BranchBound", "kw": {"nbranch": nb}}


def check_option(case, ctx):
    def go():
        o = {"BranchBound": oe.BranchBound, "RandomGreedy": oe.RandomGreedy, "DP": oe.DynamicProgramming}[case["mk"]](**case["kw"])
        return oe.contract_path("ab,bc,cd,de->ae", *[(2, 2)] * 4, shapes=True, optimize=o)

    expect_error(f"{case['mk']}({case['kw']})", go, (ValueError, KeyError, TypeError))
    ctx.nt()


SUBS = [
    Sub("many-axes", check, many_axes, quick=3000, thorough=40000, rule="one defect in a contraction of operands of up to 20 axes"),
    Sub("many-operands", check, many, quick=4000, thorough=50000, rule="one defect anywhere among 6-28 operands"),
    Sub("defects", check, cases, quick=60000, thorough=600000),
    Sub("junk-paths", check_junk, junk, quick=20000, thorough=250000),
    Sub("options", check_option, cases=option_cases),
]
