"""Small tasks on plain JSON data, run identically in this process and in child processes that differ in hash seed, assertion
flag and installed array libraries (pbt/child.py). Must not import numpy at module level."""
import itertools
import json
import warnings


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(y) for y in x), key=repr)
    if isinstance(x, dict):
        return [[jsonable(k), jsonable(v)] for k, v in x.items()]
    if hasattr(x, "item") and getattr(x, "shape", None) == ():
        return x.item()
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


def optimizer(spec):
    import opt_einsum as oe

    if isinstance(spec, list):
        if spec and spec[0] == "dp":
            return oe.DynamicProgramming(**spec[1])
        if spec and spec[0] == "bb":
            return oe.BranchBound(**spec[1])
        if spec and spec[0] == "rg":
            return oe.RandomGreedy(**spec[1])
        return [tuple(s) for s in spec]
    return spec


def task_path(t):
    import opt_einsum as oe

    shapes = [tuple(s) for s in t["shapes"]]
    if t.get("inter"):
        args = []
        for s, lab in zip(shapes, t["inter"]):
            args += [s, lab]
        args.append(t["inter_out"])
    else:
        args = [t["eq"]] + shapes
    path, info = oe.contract_path(*args, shapes=True, optimize=optimizer(t["opt"]), memory_limit=t["mem"])
    return {"path": path, "text": str(info), "eq": info.eq, "opt": info.opt_cost, "naive": info.naive_cost, "big": info.largest_intermediate,
            "scale": info.scale_list, "steps": [[c[0], sorted(c[1]), c[2], c[3], c[4]] for c in info.contraction_list]}


def task_helpers(t):
    import opt_einsum as oe
    from opt_einsum import helpers, parser

    eq = t["eq"]
    lhs, out = eq.split("->")
    terms = lhs.split(",")
    sizes = dict(zip(t["syms"], t["sizes"]))
    shapes = [tuple(s) for s in t["shapes"]]
    idx = set(t["syms"])
    r = {"valid": parser.convert_to_valid_einsum_chars(eq), "unused": list(itertools.islice(parser.gen_unused_symbols(eq, 5), 5)), "sym": [oe.get_symbol(i) for i in t["ints"]],
         "canon": parser.alpha_canonicalize(eq), "implicit": parser.find_output_str(lhs), "oshape": parser.find_output_shape(terms, shapes, out),
         "parsed": parser.parse_einsum_input([eq] + shapes, shapes=True)[:2], "size": helpers.compute_size_by_dict("".join(t["syms"]), sizes),
         "flops": helpers.flop_count(idx, bool(t["ints"][0] % 2), len(terms), sizes), "expr": repr(oe.contract_expression(eq, *shapes, optimize="greedy")),
         "exprs": str(oe.contract_expression(eq, *shapes, optimize="greedy"))}
    return r


def task_rand(t):
    from opt_einsum import testing

    kw = dict(t["kw"])
    eq, shapes, sizes = testing.rand_equation(**kw, return_size_dict=True)
    return {"eq": eq, "shapes": shapes, "sizes": sorted(sizes.items())}


class PyArr:
    """n-dimensional array in pure python"""

    def __init__(self, shape, flat):
        self.shape, self.flat = tuple(shape), list(flat)
        self.ndim = len(self.shape)

    def at(self, pos):
        k = 0
        for p, d in zip(pos, self.shape):
            k = k * d + p
        return self.flat[k]


def py_einsum(eq, *arrs):
    lhs, out = eq.split("->")
    terms = lhs.split(",")
    sizes = {}
    for t, a in zip(terms, arrs):
        if len(t) != len(a.shape):
            raise ValueError("rank")
        for c, d in zip(t, a.shape):
            if sizes.get(c, 1) == 1:
                sizes[c] = d
            elif d not in (1, sizes[c]):
                raise ValueError("size")
    inner = [c for c in sizes if c not in out]
    flat = []
    for o in itertools.product(*[range(sizes[c]) for c in out]):
        pos = dict(zip(out, o))
        tot = 0
        for i in itertools.product(*[range(sizes[c]) for c in inner]):
            pos.update(zip(inner, i))
            v = 1
            for t, a in zip(terms, arrs):
                v *= a.at([pos[c] if d != 1 else 0 for c, d in zip(t, a.shape)])
            tot += v
        flat.append(tot)
    return PyArr([sizes[c] for c in out], flat)


def py_tensordot(a, b, axes=2):
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    la = [chr(97 + k) for k in range(a.ndim)]
    lb = [chr(65 + k) for k in range(b.ndim)]
    for x, y in zip(*axes):
        if a.shape[x] != b.shape[y]:
            raise ValueError("shape mismatch")
        lb[y] = la[x]
    out = [c for c in la if c not in lb] + [c for c in lb if c not in la]
    return py_einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


def py_transpose(a, axes=None):
    axes = list(range(a.ndim))[::-1] if axes is None else list(axes)
    la = [chr(97 + k) for k in range(a.ndim)]
    return py_einsum("".join(la) + "->" + "".join(la[k] for k in axes), a)


def py_lib(einsum):
    """an array library in pure python (module `vppy` or `vppyt`)"""
    import importlib.util
    import sys
    import types

    name = "vppy" if einsum else "vppyt"
    if name in sys.modules:
        return sys.modules[name]
    m = types.ModuleType(name)
    m.__spec__ = importlib.util.spec_from_loader(name, loader=None)
    cls = type("Arr", (PyArr,), {})
    cls.__module__ = name
    m.Arr = cls

    def wrap(f):
        def g(*a, **k):
            for x in a:
                if isinstance(x, PyArr) and type(x) is not cls:
                    raise TypeError("foreign array")
            r = f(*a, **k)
            return cls(r.shape, r.flat)

        return g

    m.tensordot, m.transpose = wrap(py_tensordot), wrap(py_transpose)
    if einsum:
        m.einsum = wrap(py_einsum)
    sys.modules[name] = m
    return m


def task_values(t):
    """one contraction on arrays of a library that does not need numpy"""
    import opt_einsum as oe

    if t["lib"] == "torch":
        import torch

        def mk(s, f):
            return torch.tensor(f, dtype=torch.float64).reshape(tuple(s))

        def un(x):
            if type(x) is not torch.Tensor:
                raise TypeError(f"result is a {type(x)}")
            return [list(x.shape), x.reshape(-1).tolist()]
    else:
        m = py_lib(t["lib"] == "py")

        def mk(s, f):
            return m.Arr(s, f)

        def un(x):
            if type(x) is not m.Arr:
                raise TypeError(f"result is a {type(x)}")
            return [list(x.shape), x.flat]

    shapes = [tuple(s) for s in t["shapes"]]
    arrs = [mk(s, f) for s, f in zip(shapes, t["flats"])]
    kw = {"optimize": optimizer(t["opt"]), "use_blas": t["blas"]}
    out = []
    how = t["how"]
    if how == "contract":
        out.append(oe.contract(t["eq"], *arrs, **kw))
    elif how == "inter":
        args = []
        for a, lab in zip(arrs, t["inter"]):
            args += [a, lab]
        out.append(oe.contract(*args, t["inter_out"], **kw))
    elif how == "expr":
        e = oe.contract_expression(t["eq"], *shapes, **kw)
        out += [e(*arrs), e(*arrs)]
    elif how == "const":
        c = [k for k in t["const"]]
        e = oe.contract_expression(t["eq"], *[arrs[k] if k in c else shapes[k] for k in range(len(arrs))], constants=c, **kw)
        free = [arrs[k] for k in range(len(arrs)) if k not in c]
        out += [e(*free), e(*free)]
    elif how == "shared":
        with oe.shared_intermediates():
            out += [oe.contract(t["eq"], *arrs, **kw), oe.contract(t["eq"], *arrs, **kw)]
    elif how == "path":
        kw.pop("use_blas")
        path, _ = oe.contract_path(t["eq"], *arrs, **kw)
        kw["optimize"] = path
        out.append(oe.contract(t["eq"], *arrs, **kw))
    return [un(x) for x in out]


def task_pickled(t):
    """an object made in another process"""
    import base64
    import pickle

    import numpy as np

    obj = pickle.loads(base64.b64decode(t["blob"]))
    if t["kind"] == "expr":
        out = []
        for flats in t["calls"]:
            r = np.asarray(obj(*[np.array(f, dtype="int64").reshape(s) for f, s in zip(flats, t["shapes"])]))
            out.append([list(r.shape), r.ravel().tolist()])
        return {"values": out, "text": str(obj)}
    if t["kind"] == "info":
        return {"text": str(obj), "path": obj.path, "cost": obj.opt_cost, "eq": obj.eq}
    ins = [frozenset(x) for x in t["ins"]]
    path = obj(ins, frozenset(t["out"]), dict(t["sizes"]))
    return {"path": path, "best": [obj.best["flops"], obj.best["size"]] if t["kind"] == "rg" else None}


def task_bad(t):
    """a malformed request given by shapes"""
    import opt_einsum as oe

    shapes = [tuple(s) for s in t["shapes"]]
    if t["how"] == "path":
        p, _ = oe.contract_path(t["eq"], *shapes, shapes=True, optimize=optimizer(t["opt"]), memory_limit=t["mem"])
        return {"path": p}
    if t["how"] == "expr":
        e = oe.contract_expression(t["eq"], *shapes, optimize=optimizer(t["opt"]), memory_limit=t["mem"])
        return {"expr": str(e)}
    m = py_lib(True)
    arrs = []
    for s in shapes:
        n = 1
        for d in s:
            n *= d
        arrs.append(m.Arr(s, [1] * n))
    if t["how"] == "contract":
        r = oe.contract(t["eq"], *arrs, optimize=optimizer(t["opt"]), memory_limit=t["mem"])
    else:
        e = oe.contract_expression(t["eq"], *[tuple(s) for s in t["shapes0"]])
        r = e(*arrs)
    return {"value": [r.shape, r.flat]}


def run(task):
    """{"ok": result} or {"error": exception class name}"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = globals()["task_" + task["task"]](task)
        return json.loads(json.dumps({"ok": jsonable(r) if not isinstance(r, dict) else {k: jsonable(v) for k, v in r.items()}}))
    except Exception as e:
        return {"error": type(e).__name__, "msg": str(e)[:300]}
