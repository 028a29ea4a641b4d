"""C04: the PathInfo report and the public cost helpers state the true figures of the returned path."""
import re
from decimal import Decimal
from math import prod

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import helpers

import ref
from common import CHEAP, make_opt
from core import Sub, Violation, target
from gen import any_path, families, graphs, in_sequence, nets, with_syms

RULE = (
    "contract_path is called on generated contractions (arrays or shapes, numpy-integer shapes, sizes up to 10^6, broadcasting, hyperedges, "
    "given or searched paths); every figure of the report (costs, sizes, scalings, speedup, equation, per-step list, printed text) is recomputed "
    "from the path by an independent model with exact integers, and the per-step einsum list is executed as a program; "
    "non-trivial = at least two steps and at least one summed index"
)
ASSUMPTIONS = ["FLOPs of a step = product of involved index sizes x (max(1, terms-1) + [an index is summed])"]


@st.composite
def cases(draw):
    big = draw(st.booleans())
    net = draw(st.one_of(
        nets(n_min=1, n_max=6, pool=6, bcast=True, zero=True, syms="wide", cap=10**30 if big else 5000,
             size_pool=(2, 3, 5, 1, 10, 10**6) if big else (2, 3, 1, 4)),
        graphs(n_min=2, n_max=24 if big else 7, size_pool=(2, 3, 7, 1, 100) if big else (2, 3, 1), cap=None if big else 5000).map(with_syms),
    ))
    n = len(net["inputs"])
    if draw(st.booleans()):
        opt = {"cls": "path", "path": draw(any_path(n, max_arity=4))}
    else:
        opt = draw(st.sampled_from(["auto", "branch-1", "greedy"] if n > 8 else CHEAP if n > 6 else CHEAP + ["optimal", "dp", "branch-all", "random-greedy", False]))
    return {"net": net, "opt": opt, "blas": draw(st.booleans()), "np_shapes": draw(st.booleans()), "big": big,
            "arrays": draw(st.booleans()), "seed": draw(st.integers(0, 999))}


@st.composite
def many_steps(draw):
    net = with_syms(draw(graphs(n_min=18, n_max=90, size_pool=(2, 3, 7, 1, 100))))
    opt = {"cls": "path", "path": draw(any_path(len(net["inputs"]), max_arity=4))} if draw(st.booleans()) else draw(st.sampled_from(["auto", "greedy", "random-greedy"]))
    return {"net": net, "opt": opt, "blas": draw(st.booleans()), "np_shapes": False, "big": True, "arrays": False, "seed": 0}


def ck(cond, msg):
    if not cond:
        raise Violation(msg)


def check(case, ctx):
    net = case["net"]
    n = len(net["inputs"])
    sizes = ref.eff_sizes(net)
    s = net["syms"]
    eq, shp = ref.eq_of(net), ref.shapes(net)
    what = f"contract_path({eq}, {shp}, optimize={case['opt']}, use_blas={case['blas']})"
    small = not case["big"] and prod([max(1, v) for v in sizes.values()]) <= 5000
    arrays = ref.make_arrays(net, "int64", case["seed"], -2, 2) if small else None
    with target(what):
        if arrays is not None and case["arrays"]:
            path, info = oe.contract_path(eq, *arrays, optimize=make_opt(case["opt"]), use_blas=case["blas"])
        else:
            args = [tuple(np.int64(d) for d in x) for x in shp] if case["np_shapes"] else shp
            path, info = oe.contract_path(eq, *args, shapes=True, optimize=make_opt(case["opt"]), use_blas=case["blas"])
        text = str(info)
    p = ref.check_path(path, n, what)
    ck([tuple(x) for x in info.path] == p, f"{what}: info.path {info.path} differs from the returned path {path}")
    if isinstance(case["opt"], dict):
        ck([sorted(x) for x in p] == [sorted(x) for x in case["opt"]["path"]], f"{what}: returned path {path} is not the supplied one")
    if case["opt"] is False:
        ck(len(p) == 1 and sorted(p[0]) == list(range(n)), f"{what}: unoptimized path is {path}")
    steps = ref.simulate(net["inputs"], net["output"], p, sizes)
    flops = [ref.flops_info(x) for x in steps]
    occ = sum(len(set(t)) for t in net["inputs"])
    naive = prod(sizes.values()) * (max(1, n - 1) + (1 if occ > len(sizes) else 0))

    def num(field, exp):
        got = getattr(info, field)
        ck(got == exp, f"{what}: {field} = {got}, expected {exp} (path {p})")

    num("opt_cost", sum(flops))
    num("naive_cost", naive)
    num("largest_intermediate", max([x["size"] for x in steps], default=1))
    ck(list(info.scale_list) == [len(x["either"]) for x in steps], f"{what}: scale_list {info.scale_list}")
    ck(list(info.size_list) == [x["size"] for x in steps], f"{what}: size_list {info.size_list} expected {[x['size'] for x in steps]}")
    ck(dict(info.size_dict) == {s[i]: d for i, d in sizes.items()}, f"{what}: size_dict {info.size_dict}")
    ck(set(info.indices) == {s[i] for i in sizes}, f"{what}: indices {info.indices}")
    ck(info.eq == eq, f"{what}: eq {info.eq}")
    sp = Decimal(naive) / max(Decimal(sum(flops)), Decimal(1))
    ck(abs(info.speedup - sp) <= abs(sp) * Decimal("1e-15"), f"{what}: speedup {info.speedup} expected {sp}")
    # printed report
    want = {
        "Naive scaling": len(sizes), "Optimized scaling": max([len(x["either"]) for x in steps], default=0),
        "Naive FLOP count": Decimal(naive), "Optimized FLOP count": Decimal(sum(flops)), "Theoretical speedup": sp,
        "Largest intermediate": Decimal(max([x["size"] for x in steps], default=1)),
    }
    for key, v in want.items():
        m = re.search(re.escape(key) + r":\s*(\S+)", text)
        ck(m is not None, f"{what}: report lacks {key}")
        ck(Decimal(m.group(1)) == Decimal(f"{v:.3e}"), f"{what}: report says {key} {m.group(1)}, expected {v:.3e}")
    ck(eq in text, f"{what}: report lacks the equation")
    # the per-step list is a program computing the contraction
    ck(len(info.contraction_list) == len(p), f"{what}: {len(info.contraction_list)} listed steps for path {p}")
    cur = ["".join(s[i] for i in t) for t in net["inputs"]]
    val = list(arrays) if arrays is not None else None
    for k, (entry, st_) in enumerate(zip(info.contraction_list, steps)):
        inds, removed, estr, remaining, do_blas = entry
        ck(sorted(inds) == sorted(p[k]), f"{what}: step {k} lists positions {inds}, path has {p[k]}")
        lhs, rhs = estr.split("->")
        terms = lhs.split(",")
        ck(terms == [cur[x] for x in inds], f"{what}: step {k} einsum {estr} but current terms are {cur} at {inds}")
        ck(set(rhs) == {s[i] for i in st_["result"]} and len(rhs) == len(set(rhs)), f"{what}: step {k} result '{rhs}'")
        ck(set(removed) == {s[i] for i in st_["removed"]}, f"{what}: step {k} removed {removed}")
        ck((not do_blas) or (case["blas"] and len(inds) == 2), f"{what}: step {k} BLAS flag {do_blas!r}")
        if val is not None:
            mapping = {c: i for i, c in enumerate(s)}
            ops = [val[x] for x in inds]
            tt = [[mapping[c] for c in t] for t in terms]
            r = ref.einsum_full(tt, [mapping[c] for c in rhs], ops, ref._local(sizes, tt, ops))
            val = [v for x, v in enumerate(val) if x not in set(inds)] + [r]
        cur = [t for x, t in enumerate(cur) if x not in set(inds)] + [rhs]
        if remaining is not None:
            ck(list(remaining) == cur, f"{what}: step {k} remaining {remaining}, expected {cur}")
            ck(",".join(cur) in text, f"{what}: report lacks remaining terms of step {k}")
    if p:
        ck(cur == ["".join(s[i] for i in net["output"])], f"{what}: listed steps end in {cur}")
        if val is not None:
            ref.same(val[0], ref.einsum(net, arrays), what + " per-step list executed")
            ctx.label("executed")
    ctx.label(f"steps={min(len(p), 9)}")
    ctx.nt(len(p) >= 2 and any(x["removed"] for x in steps))


# --------------------------------------------------------------- helpers
@st.composite
def helper_cases(draw):
    net = draw(nets(n_min=1, n_max=6, pool=7, repeats=False, size_pool=(2, 3, 1, 10, 12345, 10**9), zero=True, cap=10**80, syms="plain"))
    n = len(net["inputs"])
    return {"net": net, "pos": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)),
            "inner": draw(st.booleans()), "terms": draw(st.integers(1, 6)), "rep": draw(st.lists(st.integers(0, 6), max_size=6))}


def check_helpers(case, ctx):
    net = case["net"]
    s = net["syms"]
    sd = {s[i]: d for i, d in enumerate(net["sizes"])}
    ins = [frozenset(s[i] for i in t) for t in net["inputs"]]
    out = frozenset(s[i] for i in net["output"])
    keep = list(ins)
    with target(f"find_contraction({case['pos']}, {ins}, {out})"):
        res, remaining, removed, contract = helpers.find_contraction(tuple(case["pos"]), list(ins), out)
    picked = [ins[p] for p in case["pos"]]
    rest = [t for k, t in enumerate(ins) if k not in case["pos"]]
    either = frozenset().union(*picked)
    exp = either & out.union(*rest)
    ck(set(res) == exp and set(removed) == either - exp and set(contract) == either,
       f"find_contraction({case['pos']}, {ins}, {out}) = {(res, removed, contract)}")
    ck([set(x) for x in remaining] == [set(x) for x in rest] + [set(exp)], f"find_contraction remaining {remaining}")
    ck(ins == keep, "find_contraction changed its input")
    ix = [s[i % len(s)] for i in case["rep"]]
    with target("compute_size_by_dict / flop_count"):
        sz = helpers.compute_size_by_dict(ix, sd)
        fl = helpers.flop_count(ix, case["inner"], case["terms"], sd)
    want = prod([sd[c] for c in ix])
    ck(sz == want, f"compute_size_by_dict({ix}, {sd}) = {sz}, expected {want}")
    ck(fl == want * (max(1, case["terms"] - 1) + (1 if case["inner"] else 0)), f"flop_count({ix}, {case['inner']}, {case['terms']}) = {fl}")
    ctx.nt(len(case["pos"]) >= 2 and bool(removed))


# ------------------------------------------------------------ printed form of expressions
@st.composite
def text_cases(draw):
    net = draw(nets(n_min=2, n_max=5, pool=6, cap=500, syms="wide"))
    n = len(net["inputs"])
    return {"net": net, "path": draw(any_path(n)), "blas": draw(st.booleans()), "explicit": draw(st.booleans()),
            "const": sorted(draw(st.sets(st.integers(0, n - 1), max_size=n - 1))), "seed": draw(st.integers(0, 99))}


def check_text(c, ctx):
    net, const = c["net"], c["const"]
    if not c["explicit"]:
        net = dict(net, output=ref.implicit_output(net))
    n = len(net["inputs"])
    eq = ref.eq_of(net, c["explicit"])
    base = ref.make_arrays(net, "float64", c["seed"])
    path = [tuple(p) for p in c["path"]]
    what = f"contract_expression({eq}, {ref.shapes(net)}, constants={const}, optimize={path})"
    with target(what):
        _, info = oe.contract_path(eq, *ref.shapes(net), shapes=True, optimize=path, use_blas=c["blas"])
        ex = oe.contract_expression(eq, *[base[k] if k in const else ref.shapes(net)[k] for k in range(n)], constants=const or None, optimize=path, use_blas=c["blas"])
        before = (repr(ex), str(ex))
        got = ex(*[base[k] for k in range(n) if k not in const])
        after = (repr(ex), str(ex))
    ref.same(got, ref.einsum(net, base), what)
    ck(before[0] == after[0], f"{what}: repr changed by a call: {before[0]} and {after[0]}")
    m = re.match(r"^<ContractExpression\('(.*?)'(?:, constants=(\[.*\]))?\)>$", before[0])
    ck(m, f"{what}: repr {before[0]}")
    text = m.group(1)
    ck(text.replace("[", "").replace("]", "") == eq, f"{what}: repr shows the equation {text}")
    depth, pos, inside = 0, 0, [False] * n
    for ch in text.split("->")[0]:
        depth += {"[": 1, "]": -1}.get(ch, 0)
        ck(depth in (0, 1), f"{what}: brackets of {text}")
        if ch == ",":
            pos += 1
        inside[pos] |= bool(depth)
    ck([k for k in range(n) if inside[k]] == const, f"{what}: brackets of {text}")
    ck((m.group(2) or "[]").replace(" ", "") == str(const).replace(" ", ""), f"{what}: repr {before[0]}")
    steps = [(x[2], x[-1]) for x in info.contraction_list]
    # steps made of constants only, up to the first other one, are done by the first call
    live, done = [k in const for k in range(n)], 0
    for x in info.contraction_list:
        flags = [live[k] for k in x[0]]
        if not all(flags):
            break
        live = [f for k, f in enumerate(live) if k not in x[0]] + [True]
        done += 1
    for txt, want in ((before[1], steps), (after[1], steps[done:] if const else steps)):
        rows = re.findall(r"^ *(\d+)\. +'(.*?)'(?: \[(.*?)\])?$", txt, re.M)
        ck([int(r[0]) for r in rows] == list(range(1, len(rows) + 1)), f"{what}: step numbers in {txt}")
        ck([(r[1], r[2] or False) for r in rows] == [(e, b or False) for e, b in want], f"{what}: printed steps {rows}, expected {want}")
    ctx.nt(len(const) > 0 and n > 2)


SUBS = [
    Sub("many-steps", check, many_steps, quick=1500, thorough=20000, rule="18-90 tensors"),
    Sub("expression-text", check_text, text_cases, quick=3000, thorough=40000, rule="repr and str of an expression before and after a call, against its equation, constants and steps"),
    Sub("report", check, cases, quick=12000, thorough=200000),
    Sub("sequences", in_sequence(check), lambda: families(cases(), keep=("big",)), quick=3000, thorough=40000,
        rule="reports of 2-4 related contractions asked for one after another"),
    Sub("helpers", check_helpers, helper_cases, quick=6000, thorough=60000, rule="helpers.find_contraction / flop_count / compute_size_by_dict"),
]
