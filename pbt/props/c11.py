"""C11: every documented way of writing a contraction means the same contraction."""
import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum.parser import parse_einsum_input

import ref
from core import Inconclusive, Sub, Violation, target
from gen import WIDE, nets

RULE = (
    "one contraction, with a drawn set of ellipsis dimensions (possibly broadcast, fewer on some operands), is written in several "
    "presentations: explicit or implicit output, blanks anywhere, unicode symbols, interleaved with int / str / tuple labels, "
    "'...' at any position of a term, operands as arrays, nested lists or python scalars, through contract (all strategies and optimize=False), "
    "contract_expression and contract_path with arrays or shapes; each value is compared exactly with the dense reference; "
    "non-trivial = 2+ terms and a presentation other than the plain explicit string"
)
ASSUMPTIONS = ["integer values", "with an explicit output, '...' is kept in the output (numpy rejects dropping it)"]


@st.composite
def base(draw):
    net = draw(nets(n_min=1, n_max=4, pool=5, max_rank=3, size_pool=(2, 3, 1, 2, 3, 0), bcast=True, cap=2000, syms="wide"))
    n = len(net["inputs"])
    p = len(net["sizes"])
    m = draw(st.integers(0, 3) if draw(st.integers(0, 5)) else st.integers(4, 14))  # ellipsis dimensions
    esz = draw(st.lists(st.sampled_from([2, 3, 1]), min_size=m, max_size=m))
    if m > 3:
        big = draw(st.sets(st.integers(0, m - 1), max_size=3))
        esz = [d if k in big else 1 for k, d in enumerate(esz)]
    ell = []
    for t in range(n):
        if draw(st.integers(0, 2)):
            ell.append([draw(st.integers(0, m)), draw(st.integers(0, len(net["inputs"][t])))])
        else:
            ell.append(None)
    ones = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, max(0, m - 1))), max_size=2, unique=True)) if m else []
    pres = draw(st.lists(st.fixed_dictionaries({
        "form": st.sampled_from(["str", "str", "inter", "inter"]),
        "implicit": st.booleans(),
        "spaces": st.lists(st.integers(0, 30), max_size=5),
        "labels": st.sampled_from(["int", "str", "tuple", "bigint"]),
        "perm": st.permutations(list(range(p))),
        "opnd": st.sampled_from(["array", "array", "list", "tuple"]),
        "api": st.sampled_from(["contract", "contract", "expr", "false", "path"]),
        "opt": st.sampled_from(["auto", "greedy", "optimal", "dp"]),
        "spread": st.booleans(),
        "epos": st.integers(0, 5),
    }), min_size=1, max_size=4))
    return {"net": net, "m": m, "esz": esz, "ell": ell, "eones": [list(x) for x in ones], "pres": pres, "seed": draw(st.integers(0, 9999))}


def full_net(case):
    net = case["net"]
    p = len(net["sizes"])
    m = case["m"]
    ins = []
    for t, term in enumerate(net["inputs"]):
        e = case["ell"][t]
        if e is None:
            ins.append(list(term))
        else:
            k, pos = e
            ins.append(list(term[:pos]) + [p + j for j in range(m - k, m)] + list(term[pos:]))
    ones = [list(x) for x in net["ones"]] + [[t, p + j] for t, j in case["eones"] if p + j in ins[t]]
    used = sorted({i for t in ins for i in t if i >= p})
    return dict(net, inputs=ins, sizes=list(net["sizes"]) + list(case["esz"]), ones=ones), used, p


def blanks(s, where):
    out = []
    for k, ch in enumerate(s):
        # never split the arrow or the ellipsis: numpy does not allow it either
        if k in where and not (ch in ".>" and k and s[k - 1] in ".-"):
            out.append(" ")
        out.append(ch)
    return "".join(out)


def label_fn(kind, perm):
    if kind == "int":
        return lambda i: perm[i]
    if kind == "bigint":
        return lambda i: (perm[i] - 2) * 1000
    if kind == "str":
        return lambda i: "xyzabcde"[perm[i] % 8] + "q" * (perm[i] // 8) + "_ix"
    return lambda i: (perm[i] % 2, perm[i])


def as_operand(a, kind):
    if kind != "array" and 0 not in a.shape[:-1]:  # an empty list has no dimensions after the empty one
        return a.tolist() if kind == "list" else nested(a.tolist())
    return a


def nested(x):
    return tuple(map(nested, x)) if isinstance(x, list) else x


def check(case, ctx):
    net, eused, p = full_net(case)
    arrays = ref.make_arrays(net, "int64", case["seed"])
    n = len(arrays)
    sz = ref.eff_sizes(net)
    has_ell = any(e is not None for e in case["ell"])
    flat = [i for t in case["net"]["inputs"] for i in t]
    for pr in case["pres"]:
        # output meant by this presentation
        ell = case["ell"] if not pr["spread"] else [None] * n
        spread = pr["spread"] and bool(eused)
        if pr["form"] == "str":
            order = lambda i: net["syms"][i]  # noqa: E731
        else:
            order = label_fn(pr["labels"], pr["perm"])
        implicit = pr["implicit"] and not spread
        if implicit:
            out = eused + sorted([i for i in set(flat) if flat.count(i) == 1], key=order)
            outpos = 0
        else:
            o = list(case["net"]["output"])
            outpos = min(pr["epos"], len(o))
            out = o[:outpos] + eused + o[outpos:]
        if len(out) > 24:
            continue
        exp = ref.einsum_full(net["inputs"], out, arrays, sz)
        # render
        ops = [as_operand(a, pr["opnd"]) for a in arrays]
        if pr["form"] == "str":
            syms = list(net["syms"]) + [c for c in WIDE if c not in net["syms"]][: len(case["esz"])]
            terms = []
            for t in range(n):
                if ell[t] is None:
                    terms.append("".join(syms[i] for i in net["inputs"][t]))
                else:
                    term, (k, pos) = case["net"]["inputs"][t], ell[t]
                    terms.append("".join(syms[i] for i in term[:pos]) + "..." + "".join(syms[i] for i in term[pos:]))
            eq = ",".join(terms)
            if not implicit:
                if spread or not any(e is not None for e in ell):
                    eq += "->" + "".join(syms[i] for i in out)
                else:
                    o = case["net"]["output"]
                    eq += "->" + "".join(syms[i] for i in o[:outpos]) + "..." + "".join(syms[i] for i in o[outpos:])
            eq = blanks(eq, set(pr["spaces"]))
            args = [eq] + ops
        else:
            if spread:
                continue  # labels for the expanded dimensions would need an order of their own
            lab = order
            args = []
            for t in range(n):
                term = case["net"]["inputs"][t]
                ls = [lab(i) for i in term]
                if ell[t] is not None:
                    ls.insert(ell[t][1], Ellipsis)
                args += [ops[t], ls]
            if not implicit:
                o = [lab(i) for i in case["net"]["output"]]
                if any(e is not None for e in ell):
                    o.insert(outpos, Ellipsis)
                args.append(o)
        what = f"{pr['api']}{tuple(args[:1]) if pr['form'] == 'str' else [a for a in args if isinstance(a, list)]} shapes={[a.shape for a in arrays]} optimize={pr['opt']}"
        api = pr["api"]
        if api == "path":
            check_path_api(args, ops, arrays, pr, n, what)
        else:
            with target(what):
                if api == "contract":
                    got = oe.contract(*args, optimize=pr["opt"])
                elif api == "false":
                    got = oe.contract(*args, optimize=False)
                else:
                    sh = [a.shape for a in arrays]
                    it = iter(sh)
                    if pr["form"] == "str":
                        eargs = [args[0]] + sh
                    else:
                        eargs = [next(it) if (k % 2 == 0 and k < 2 * n) else x for k, x in enumerate(args)]
                    got = oe.contract_expression(*eargs, optimize=pr["opt"])(*arrays)
            # (an empty list has no integer dtype)
            ref.same(got, exp, what, check_dtype=pr["opnd"] == "array" or all(a.size for a in arrays))
        ctx.label(api, pr["form"], "implicit" if implicit else "explicit", "ellipsis" if has_ell and not spread else "no-ellipsis", pr["opnd"])
        ctx.nt(n >= 2 and (pr["form"] == "inter" or implicit or has_ell or bool(pr["spaces"]) or pr["opnd"] != "array"))


def check_path_api(args, ops, arrays, pr, n, what):
    """contract_path: arrays, lists and bare shapes give the same path and report."""
    with target(what):
        p1, i1 = oe.contract_path(*args, optimize=pr["opt"])
        sh = [tuple(a.shape) for a in arrays]
        if pr["form"] == "str":
            sargs = [args[0]] + sh
        else:
            it = iter(sh)
            sargs = [next(it) if (k % 2 == 0 and k < 2 * n) else x for k, x in enumerate(args)]
        p2, i2 = oe.contract_path(*sargs, shapes=True, optimize=pr["opt"])
        ins, out, _ = parse_einsum_input(args)
    if [tuple(x) for x in p1] != [tuple(x) for x in p2]:
        raise Violation(f"{what}: path {p1} from arrays, {p2} from their shapes")
    if (i1.eq, i1.opt_cost, i1.naive_cost, list(i1.size_list)) != (i2.eq, i2.opt_cost, i2.naive_cost, list(i2.size_list)):
        raise Violation(f"{what}: report from arrays {i1.eq} {i1.opt_cost}, from shapes {i2.eq} {i2.opt_cost}")
    ref.check_path(p1, n, what)
    # the canonical form itself denotes the contraction
    with target(what + f" canonical form {ins}->{out}"):
        got = oe.contract(ins + "->" + out, *arrays)
        again = oe.contract(*args)
    ref.same(got, np.asarray(again), what + " canonical form", check_dtype=False)


# ------------------------------------------------------- many labels
@st.composite
def many(draw):
    n = draw(st.integers(3, 10))
    p = draw(st.integers(20, 64))
    terms = [[] for _ in range(n)]
    single = 0
    for i in range(p):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if single >= 8 and a == b:
            b = (a + 1) % n
        single += a == b
        for t in sorted({a, b}):
            terms[t].append(i)
    big = draw(st.lists(st.integers(0, p - 1), max_size=9, unique=True))
    labels = draw(st.sampled_from(["int", "word", "symbols", "symbols-inter"]))
    return {"terms": terms, "p": p, "big": big, "labels": labels, "perm": draw(st.permutations(list(range(p)))), "implicit": draw(st.integers(0, 3)) > 0,
            "seed": draw(st.integers(0, 999)), "out": draw(st.lists(st.integers(0, p - 1), unique=True, max_size=6))}


def sym_at(k):
    return WIDE[k] if k < len(WIDE) else chr(0x4E00 + k)


def check_many(case, ctx):
    terms, p = case["terms"], case["p"]
    if any(len(t) > 30 for t in terms):
        return
    size = {i: 2 if i in case["big"] else 1 for i in range(p)}
    rng = np.random.RandomState(case["seed"])
    arrays = [rng.randint(-2, 4, size=tuple(size[i] for i in t)) for t in terms]
    perm = case["perm"]
    lab = {"int": lambda i: perm[i], "word": lambda i: f"ix{perm[i]:03d}", "symbols": lambda i: sym_at(perm[i]), "symbols-inter": lambda i: sym_at(perm[i])}[case["labels"]]
    used = {i for t in terms for i in t}
    if case["implicit"]:
        out = sorted([i for i in used if sum(t.count(i) for t in terms) == 1], key=lab)
    else:
        out = [i for i in case["out"] if i in used]
    # reference over the non-trivial indices only
    sq_terms = [[i for i in t if size[i] > 1] for t in terms]
    sq_arr = [a.reshape([2] * len(t)) for a, t in zip(arrays, sq_terms)]
    exp = ref.einsum_full(sq_terms, [i for i in out if size[i] > 1], sq_arr, size).reshape([size[i] for i in out])
    if case["labels"] == "symbols":
        args = [",".join("".join(lab(i) for i in t) for t in terms)] + arrays
        if not case["implicit"]:
            args[0] += "->" + "".join(lab(i) for i in out)
    else:
        args = []
        for a, t in zip(arrays, terms):
            args += [a, [lab(i) for i in t]]
        if not case["implicit"]:
            args.append([lab(i) for i in out])
    what = f"{len(terms)} tensors, {len(used)} {case['labels']} labels, implicit={case['implicit']}, terms={[[lab(i) for i in t] for t in terms]}"
    with target(what):
        path, _ = oe.contract_path(*args, optimize="greedy")
    ref.check_path(path, len(terms), what)
    if max(len(s["either"]) for s in ref.simulate(terms, out, path, size)) > 50:
        raise Inconclusive("more labels in one step than numpy.einsum supports")
    with target(what):
        got = oe.contract(*args, optimize=[tuple(x) for x in path])
    ref.same(got, exp, what)
    ctx.label("labels>52" if len(used) > 52 else "labels>26" if len(used) > 26 else "labels<=26", case["labels"])
    ctx.nt(len(used) > 26)


SUBS = [
    Sub("presentations", check, base, quick=35000, thorough=400000),
    Sub("many-labels", check_many, many, quick=3000, thorough=40000, rule="20-64 labels, implicit output order"),
]
