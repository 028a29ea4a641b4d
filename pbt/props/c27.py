"""C27: results do not depend on the process: hash seed, assertions, installed array libraries."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

import ref
import tasks
from core import Inconclusive, Sub, Violation, target
from gen import any_path, graphs, nets, with_syms

RULE = (
    "random contractions are planned (every deterministic strategy, explicit paths, reports; random-greedy paths need only be valid), parsed, renamed, generated from seeds and evaluated (pure python array "
    "library, torch) in child processes with drawn hash seeds, with assertions stripped and with numpy and every other array library missing; the answers must equal those of this process "
    "and the dense reference, malformed requests must be refused everywhere; expressions (fresh or used, with constants), reports and optimizers are copied or pickled to another process and must behave there as here; non-trivial = 3+ operands, or a refused request"
)
ASSUMPTIONS = ["a missing library is modelled by an import hook that raises ModuleNotFoundError", "rand_equation and nested-list operands need numpy (documented by the error raised without it)"]

ALL = ["numpy", "torch", "jax", "jaxlib", "tensorflow", "dask", "sparse", "autograd", "scipy", "pandas", "theano", "cupy"]
CONFIGS = {
    "hash": {"block": [], "flags": []},
    "bare": {"block": ALL, "flags": []},
    "bare-O": {"block": ALL, "flags": ["-O"]},
    "bare-OO": {"block": ALL, "flags": ["-OO"]},
    "torch-only": {"block": [m for m in ALL if m != "torch"], "flags": []},
}
KIDS = {}


def ask(conf, hseed, task):
    key = (conf, hseed)
    for attempt in (0, 1):
        p = KIDS.get(key)
        if p is None:
            c = CONFIGS[conf]
            here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            p = KIDS[key] = subprocess.Popen([sys.executable, *c["flags"], os.path.join(here, "child.py"), *c["block"]], stdin=subprocess.PIPE,
                                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, PYTHONHASHSEED=str(hseed)))
        try:
            p.stdin.write(json.dumps(task) + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
        except BrokenPipeError:
            line = ""
        except BaseException:
            # the watchdog interrupted the exchange: this child's answers are out of step
            KIDS.pop(key).kill()
            raise
        if line:
            return json.loads(line)
        KIDS.pop(key).wait()
    raise Violation(f"the process ({conf}, hash seed {hseed}) ends on {json.dumps(task)[:600]}: the library cannot be used there")


HSEEDS = st.sampled_from([1, 2, 3, 4])


def compare(conf, hseed, task, ctx, here=None):
    here = tasks.run(task) if here is None else here
    there = ask(conf, hseed, task)
    if here == there or ("error" in here and here.get("error") == there.get("error")):
        return here
    what = f"process with hash seed {hseed}, configuration {conf}: {json.dumps(task)[:900]}"
    if "error" in there:
        raise Violation(f"{what}: raises {there['error']}: {there['msg']}" + ("" if "ok" in here else f" instead of {here['error']}"))
    if "error" in here:
        raise Violation(f"{what}: returned {json.dumps(there['ok'])[:300]} where this process raises {here['error']}: {here['msg']}")
    a, b = here["ok"], there["ok"]
    if isinstance(a, dict):
        for k in a:
            if a[k] != b.get(k):
                raise Violation(f"{what}: {k} is {json.dumps(b.get(k))[:300]}, here {json.dumps(a[k])[:300]}")
    raise Violation(f"{what}: gives {json.dumps(b)[:300]}, here {json.dumps(a)[:300]}")


# ------------------------------------------------------------ paths
DET = ["auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp", "dynamic-programming"]


@st.composite
def opts(draw, n):
    k = draw(st.integers(0, 9))
    if k == 0 and n <= 9:
        return ["dp", {"minimize": draw(st.sampled_from(["flops", "size", "write", "combo", "limit", "combo-3"])), "search_outer": draw(st.booleans()) and n <= 6,
                       "cost_cap": draw(st.sampled_from([True, False, 10]))}]
    if k == 1:
        return ["bb", {"nbranch": draw(st.sampled_from([1] + [2] * (n <= 9) + [3] * (n <= 7) + [None] * (n <= 5))), "minimize": draw(st.sampled_from(["flops", "size"])),
                       "cutoff_flops_factor": draw(st.sampled_from([4, None, 1]))}]
    if k == 2:
        return ["rg", {"max_repeats": draw(st.integers(1, 6)), "temperature": draw(st.sampled_from([0.0, 0.1, 1.0])), "rel_temperature": draw(st.booleans()),
                       "nbranch": draw(st.sampled_from([1, 4, 8])), "minimize": draw(st.sampled_from(["flops", "size"]))}]
    if k == 3:
        return "random-greedy"
    if k == 4:
        return draw(any_path(n))
    o = draw(st.sampled_from(DET))
    if n > 6 and o in ("optimal", "branch-all", "branch-2"):
        o = "greedy"
    if n > 9 and o in ("dp", "dynamic-programming", "auto-hq"):
        o = "greedy"
    return o


@st.composite
def path_cases(draw):
    if draw(st.booleans()):
        net = draw(nets(n_min=2, n_max=6, pool=8, max_rank=4, cap=10**9, bcast=True, zero=True, syms="wide", size_pool=(2, 3, 1, 4, 10, 64)))
    else:
        net = with_syms(draw(graphs(n_min=3, n_max=16, size_pool=(2, 3, 1, 10))))
    n = len(net["inputs"])
    out = {"net": net, "conf": draw(st.sampled_from(["hash", "bare", "bare-O", "bare-OO"])), "hseed": draw(HSEEDS), "opt": draw(opts(n)), "inter": draw(st.integers(0, 3)) == 3,
           "mem": draw(st.sampled_from([None, None, None, -1, "max_input", 30, 1000]))}
    return out


def check_path(c, ctx):
    net = c["net"]
    n = len(net["inputs"])
    task = {"task": "path", "eq": ref.eq_of(net), "shapes": ref.shapes(net), "opt": c["opt"], "mem": c["mem"]}
    if c["inter"]:
        lab = net["syms"] if c["hseed"] % 2 else list(range(len(net["syms"])))
        task["inter"] = [[lab[i] for i in t] for t in net["inputs"]]
        task["inter_out"] = [lab[i] for i in net["output"]]
    if c["opt"] == "random-greedy" or c["opt"][0] == "rg":
        # the trials' seeds are fixed, but the order of equally good candidates is not promised
        here = ask(c["conf"], c["hseed"], task)
        if "ok" in here:
            ref.check_path([tuple(s) for s in here["ok"]["path"]], n, f"process with hash seed {c['hseed']}, configuration {c['conf']}: {json.dumps(task)[:900]}")
    else:
        here = compare(c["conf"], c["hseed"], task, ctx)
    if "error" in here and not (here["error"] == "RuntimeError" and c["mem"] not in (None, -1)):
        raise Violation(f"contract_path {json.dumps(task)[:900]}: raised {here['error']}: {here['msg']}")
    ctx.label(c["conf"], "opt:" + (c["opt"] if isinstance(c["opt"], str) else str(c["opt"][0])[:2]))
    ctx.nt(n >= 3)


# ------------------------------------------------------------ helpers, generators
@st.composite
def helper_cases(draw):
    net = draw(nets(n_min=1, n_max=5, pool=8, max_rank=5, cap=10**9, bcast=True, syms="wide"))
    return {"net": net, "conf": draw(st.sampled_from(["hash", "bare", "bare-O", "bare-OO"])), "hseed": draw(HSEEDS),
            "ints": draw(st.lists(st.integers(0, 55000), min_size=1, max_size=4))}


def check_helpers(c, ctx):
    net = c["net"]
    sz = ref.eff_sizes(net)
    used = sorted(sz)
    task = {"task": "helpers", "eq": ref.eq_of(net), "shapes": ref.shapes(net), "syms": [net["syms"][i] for i in used], "sizes": [sz[i] for i in used],
            "ints": c["ints"]}
    here = compare(c["conf"], c["hseed"], task, ctx)
    if "error" in here:
        raise Violation(f"helpers on {json.dumps(task)[:900]}: raised {here['error']}: {here['msg']}")
    ctx.nt(len(net["inputs"]) >= 3)


@st.composite
def rand_cases(draw):
    n = draw(st.integers(2, 10))
    reg = draw(st.integers(1, 4))
    return {"hseed": draw(HSEEDS), "conf": "hash", "kw": {"n": n, "regularity": reg, "n_out": draw(st.integers(0, 4)), "d_min": 2, "d_max": draw(st.integers(2, 9)),
            "seed": draw(st.integers(0, 2**32 - 1)), "global_dim": draw(st.booleans())}}


def check_rand(c, ctx):
    here = compare(c["conf"], c["hseed"], {"task": "rand", "kw": c["kw"]}, ctx)
    if "error" in here:
        raise Violation(f"rand_equation({c['kw']}): raised {here['error']}: {here['msg']}")
    ctx.nt(c["kw"]["n"] >= 3)


# ------------------------------------------------------------ values without numpy
@st.composite
def value_cases(draw, libs):
    lib = draw(st.sampled_from(libs))
    net = draw(nets(n_min=1, n_max=4, pool=5, max_rank=3, cap=400, bcast=lib != "pyt", zero=True, repeats=lib != "pyt", syms="wide"))
    n = len(net["inputs"])
    return {"net": net, "lib": lib, "conf": "torch-only" if lib == "torch" else draw(st.sampled_from(["bare", "bare-O", "bare-OO", "hash"])), "hseed": 1 if lib == "torch" else draw(HSEEDS),
            "how": draw(st.sampled_from(["contract", "contract", "inter", "expr", "const", "shared", "path"])), "blas": draw(st.booleans()),
            "opt": draw(st.sampled_from(["auto", "greedy", "optimal", "dp", "auto-hq", "random-greedy"])), "const": sorted(draw(st.sets(st.integers(0, n - 1), max_size=n - 1))),
            "seed": draw(st.integers(0, 999))}


def check_values(c, ctx):
    net = c["net"]
    n = len(net["inputs"])
    how = c["how"]
    blas = c["blas"]
    if c["lib"] == "pyt":
        cnt = {}
        for t in net["inputs"] + [net["output"]]:
            for i in t:
                cnt[i] = cnt.get(i, 0) + 1
        if n < 2 or any(v != 2 for v in cnt.values()):
            raise Inconclusive("needs einsum")
        blas = True
    if how == "const" and not c["const"]:
        how = "expr"
    arrays = ref.make_arrays(net, "int64", c["seed"])
    exp = ref.einsum(net, arrays)
    task = {"task": "values", "lib": c["lib"], "eq": ref.eq_of(net), "shapes": ref.shapes(net), "flats": [a.ravel().tolist() for a in arrays], "opt": c["opt"], "blas": blas,
            "how": how, "const": c["const"], "inter": [list(t) for t in net["inputs"]], "inter_out": list(net["output"])}
    r = ask(c["conf"], c["hseed"], task)
    what = f"process with hash seed {c['hseed']}, configuration {c['conf']}: {json.dumps(task)[:900]}"
    if "error" in r:
        raise Violation(f"{what}: raised {r['error']}: {r['msg']}")
    for shape, flat in r["ok"]:
        ref.same(np.array(flat, dtype="int64").reshape(shape), exp, what, check_dtype=False)
    ctx.label(c["conf"], c["lib"], how)
    ctx.nt(n >= 2)


# ------------------------------------------------------------ malformed requests
@st.composite
def bad_cases(draw):
    net = draw(nets(n_min=2, n_max=4, pool=5, max_rank=3, cap=300, repeats=True, dup=False))
    return {"net": net, "conf": draw(st.sampled_from(["bare-O", "bare-OO", "bare", "hash"])), "hseed": draw(HSEEDS), "how": draw(st.sampled_from(["path", "expr", "contract", "call"])),
            "defect": draw(st.sampled_from(["rank", "dim", "extra", "missing", "output", "dup-output", "arrow", "limit", "optimizer", "path"])), "pick": draw(st.integers(0, 99))}


def check_bad(c, ctx):
    net = c["net"]
    eq = ref.eq_of(net)
    shapes = [list(s) for s in ref.shapes(net)]
    how, d, k = c["how"], c["defect"], c["pick"]
    task = {"task": "bad", "how": how, "eq": eq, "shapes": shapes, "shapes0": [list(s) for s in shapes], "opt": "auto", "mem": None}
    good = dict(task)
    n = len(shapes)
    cnt = {}
    for t in net["inputs"]:
        for i in t:
            cnt[i] = cnt.get(i, 0) + 1
    if d == "rank":
        if not shapes[k % n]:
            raise Inconclusive("no axis to drop")
        task["shapes"] = [s[1:] if j == k % n else s for j, s in enumerate(shapes)]
    elif d == "dim":
        pos = [(j, a) for j, t in enumerate(net["inputs"]) for a, i in enumerate(t) if cnt[i] > 1 and shapes[j][a] > 1]
        if not pos:
            raise Inconclusive("no shared index")
        j, a = pos[k % len(pos)]
        task["shapes"] = [[x + (jj == j and aa == a) for aa, x in enumerate(s)] for jj, s in enumerate(shapes)]
    elif d == "extra":
        task["shapes"] = shapes + [[2]]
    elif d == "missing":
        task["shapes"] = shapes[:-1]
    elif d == "output":
        task["eq"] = eq + next(s for s in "zyxwvut" if s not in eq)
    elif d == "dup-output":
        if not net["output"]:
            raise Inconclusive("no output index")
        task["eq"] = eq + eq[-1]
    elif d == "arrow":
        task["eq"] = eq.replace("->", ["-", ">", "->->", ">-"][k % 4])
    elif d == "limit":
        task["mem"] = ["max", "maximum_input", -3][k % 3]
    elif d == "optimizer":
        if n < 3:
            raise Inconclusive("nothing to optimize")
        task["opt"] = "no-such-optimizer"
    else:
        if n < 3:
            raise Inconclusive("two operands")
        task["opt"] = [[0, 1]] if k % 2 else [[0, 1]] * (n - 2) + [[0, 7]]
    if how == "call":
        if d not in ("rank", "extra", "missing", "dim"):
            raise Inconclusive("not a defect of a call")
        if d in ("rank", "dim"):
            raise Inconclusive("checked by the array library")
    g = ask(c["conf"], c["hseed"], good)
    if "error" in g:
        raise Violation(f"process with configuration {c['conf']}: {json.dumps(good)[:600]}: raised {g['error']}: {g['msg']}")
    r = ask(c["conf"], c["hseed"], task)
    if "error" not in r:
        raise Violation(f"process with hash seed {c['hseed']}, configuration {c['conf']}: malformed request ({d}) {json.dumps(task)[:600]} returned {json.dumps(r['ok'])[:200]}")
    ctx.label(c["conf"], d, how)
    ctx.nt(True)


# ------------------------------------------------------------ objects sent to another process
@st.composite
def pickle_cases(draw):
    net = draw(nets(n_min=2, n_max=5, pool=5, max_rank=3, cap=400, bcast=True, zero=True, syms="wide"))
    n = len(net["inputs"])
    return {"net": net, "kind": draw(st.sampled_from(["expr", "expr", "expr", "info", "dp", "rg"])), "const": sorted(draw(st.sets(st.integers(0, n - 1), max_size=n - 1))),
            "before": draw(st.integers(0, 2)), "calls": draw(st.integers(1, 2)), "hseed": draw(HSEEDS), "how": draw(st.sampled_from(["pickle", "pickle", "copy", "deepcopy", "pickle-twice"])),
            "opt": draw(st.sampled_from(["auto", "greedy", "dp", "optimal"])), "proto": draw(st.integers(2, 5)), "blas": draw(st.booleans())}


def check_pickle(c, ctx):
    net = c["net"]
    n = len(net["inputs"])
    eq, shp = ref.eq_of(net), ref.shapes(net)
    sz = ref.eff_sizes(net)
    nm = net["syms"]
    ins, out, sizes = [frozenset(nm[i] for i in t) for t in net["inputs"]], frozenset(nm[i] for i in net["output"]), {nm[i]: d for i, d in sz.items()}
    kind, const = c["kind"], c["const"] if c["kind"] == "expr" else []
    what = f"{kind} of {eq} {shp}, constants {const}, used {c['before']} times, then copied by {c['how']} (protocol {c['proto']})"
    task = {"task": "pickled", "kind": kind}
    if c["how"] == "copy" and const:
        raise Inconclusive("a shallow copy shares the store of contracted constants")
    arrays = [ref.make_arrays(net, "int64", s) for s in range(3)]
    with target(what):
        if kind == "expr":
            obj = oe.contract_expression(eq, *[arrays[0][k] if k in const else shp[k] for k in range(n)], constants=const or None, optimize=c["opt"], use_blas=c["blas"])
            for k in range(c["before"]):
                obj(*[a for j, a in enumerate(arrays[k]) if j not in const])
            task["shapes"] = [s for k, s in enumerate(shp) if k not in const]
            task["calls"] = [[a.ravel().tolist() for j, a in enumerate(arrays[k + 1]) if j not in const] for k in range(c["calls"])]
        elif kind == "info":
            _, obj = oe.contract_path(eq, *shp, shapes=True, optimize=c["opt"])
        else:
            obj = oe.DynamicProgramming() if kind == "dp" else oe.RandomGreedy(max_repeats=3)
            for _ in range(c["before"]):
                obj(ins, out, sizes)
            task.update(ins=[sorted(x) for x in ins], out=sorted(out), sizes=sizes)
        if c["how"].startswith("copy") or c["how"] == "deepcopy":
            dup = (copy.copy if c["how"] == "copy" else copy.deepcopy)(obj)
        else:
            dup = obj
            if c["how"] == "pickle-twice":
                dup = pickle.loads(pickle.dumps(obj, c["proto"]))
        blob = pickle.dumps(dup, c["proto"])
    task["blob"] = base64.b64encode(blob).decode()
    r = ask("hash", c["hseed"], task)
    if "error" in r:
        raise Violation(f"{what}: in another process it raised {r['error']}: {r['msg']}")
    r = r["ok"]
    if kind == "expr":
        for k, (shape, flat) in enumerate(r["values"]):
            full = [arrays[0][j] if j in const else arrays[k + 1][j] for j in range(n)]
            exp = ref.einsum(net, full)
            ref.same(np.array(flat, dtype="int64").reshape(shape), exp, f"{what}: in another process", check_dtype=False)
            with target(what):
                again = [obj(*[a for j, a in enumerate(arrays[k + 1]) if j not in const]), dup(*[a for j, a in enumerate(arrays[k + 1]) if j not in const])]
            for g in again:
                ref.same(np.asarray(g), exp, f"{what}: here afterwards", check_dtype=False)
    elif kind == "info":
        if r["text"] != str(obj) or r["eq"] != obj.eq or r["cost"] != tasks.jsonable(obj.opt_cost) or [tuple(p) for p in r["path"]] != [tuple(p) for p in obj.path]:
            raise Violation(f"{what}: in another process the report reads {r}")
    else:
        path = [tuple(p) for p in r["path"]]
        ref.check_path(path, n, what)
        if kind == "dp":
            with target(what):
                here = obj(ins, out, sizes)
            if [tuple(p) for p in here] != path:
                raise Violation(f"{what}: in another process it returns {path}, here {here}")
        elif c["before"] and tuple(r["best"]) > (obj.best["flops"], obj.best["size"]):
            raise Violation(f"{what}: in another process its best is {r['best']}, here {(obj.best['flops'], obj.best['size'])}")
    ctx.label(kind, c["how"])
    ctx.nt(n >= 2)


SUBS = [
    Sub("paths", check_path, path_cases, quick=12000, thorough=150000),
    Sub("helpers", check_helpers, helper_cases, quick=4000, thorough=40000),
    Sub("generators", check_rand, rand_cases, quick=1500, thorough=15000),
    Sub("values", check_values, lambda: value_cases(["py", "py", "pyt"]), quick=8000, thorough=80000),
    Sub("values-torch", check_values, lambda: value_cases(["torch"]), quick=2000, thorough=20000),
    Sub("pickled", check_pickle, pickle_cases, quick=5000, thorough=50000),
    Sub("malformed", check_bad, bad_cases, quick=4000, thorough=40000),
]
