"""C21: overlapping calls from several threads do not disturb each other."""
import itertools
import sys

import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st
from opt_einsum import sharing

import ref
from common import make_opt
from core import Sub, Violation, target
from fakes import Minimal
from gen import graphs, nets, twice_nets, with_syms
from props.c08 import build, conv, expr_spec
from sched import interleave, overlap

RULE = (
    "two threads run library calls; the first is paused after k executed lines of the library (k drawn, anywhere inside the call), the second "
    "runs to completion, then the first continues: calls of one expression (first or later call, with constants, numpy / torch / converted), "
    "contract and path searches of different contractions, the first calls on a new array library, and sharing contexts opened, nested and left on either thread; every value is compared exactly with "
    "the dense reference, and each thread must see only its own sharing state; also two or three threads taking up to nine turns of a drawn number of executed lines, including one sharing cache in use on all of them; non-trivial = the first thread really was paused inside a call"
)
ASSUMPTIONS = ["two or three threads, up to nine preemptions at line boundaries of the library's code per schedule", "operands are not modified by the callers"]


def verdict(pair, exps, what, ctx):
    if pair is None:
        raise Violation(f"{what}: two overlapping calls never return")
    for t, e, nm in zip(pair, exps, ("the interrupted call", "the overlapping call")):
        if t.err is not None:
            raise Violation(f"{what}: {nm} raised {type(t.err).__name__}: {t.err}")
        if e is not None:
            ref.same(np.asarray(t.res), e, f"{what}: {nm}", check_dtype=False)
    ctx.label("paused" if pair[0].paused else "finished-before-pause")
    ctx.nt(pair[0].paused)


# ------------------------------------------------------------ one expression
@st.composite
def schedules(draw):
    sp = draw(expr_spec(n_min=3))
    n = len(sp["net"]["inputs"])
    if draw(st.integers(0, 3)):
        # all but one or two arguments are constant
        free = draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=n - 2))
        sp["const"] = [k for k in range(n) if k not in free]
    return {"sp": sp, "pauses": draw(st.lists(st.integers(1, 130), min_size=6, max_size=10, unique=True)),
            "file": draw(st.sampled_from(["contract.py", "contract.py", ""])), "sa": draw(st.integers(0, 99)), "sb": draw(st.integers(0, 99)),
            "kinds": draw(st.sampled_from([["np", "np"], ["np", "np"], ["np->torch", "np"], ["np", "np->torch"], ["torch", "np"],
                                           ["np", "torch"], ["np->torch", "np->torch"]])),
            "warm": draw(st.integers(0, 3)) == 3}


def check_expr(case, ctx):
    for pause in case["pauses"]:
        sp = case["sp"]
        b = build(sp)
        if b is None:
            return
        ex, consts, what = b
        net = sp["net"]

        def prep(seed, kind):
            arrs = ref.make_arrays(net, sp["cdtype"] if consts else "float64", seed)  # (torch does not mix dtypes)
            exp = ref.einsum(net, [consts.get(k, arrs[k]) for k in range(len(arrs))])
            given = [conv(np.array(arrs[k]), kind) for k in range(len(arrs)) if k not in consts]
            kw = {"backend": "torch"} if kind == "np->torch" else {}
            return (lambda: ex(*given, **kw)), exp

        fa, ea = prep(case["sa"], case["kinds"][0])
        fb, eb = prep(case["sb"], case["kinds"][1])
        if case["warm"]:
            with target(what):
                fa()
        pair = overlap(fa, fb, pause, case["file"])
        verdict(pair, (ea, eb), f"{what} (kinds {case['kinds']}, pause after {pause} lines)", ctx)
        ctx.label("const" if consts else "noconst")


# ------------------------------------------------------------ independent contractions
@st.composite
def job(draw):
    net = draw(nets(n_min=2, n_max=6, pool=6, max_rank=3, cap=4000, syms="wide"))
    return {"net": net, "seed": draw(st.integers(0, 99)), "opt": draw(st.sampled_from(
        ["auto", "greedy", "optimal", "dp", "branch-2", "branch-1", "random-greedy", "auto-hq",
         {"cls": "DP", "kw": {"minimize": "size", "search_outer": True}}, {"cls": "BranchBound", "kw": {"nbranch": 2}},
         {"cls": "RandomGreedy", "kw": {"max_repeats": 3}}])), "share": draw(st.integers(0, 2)), "torch": draw(st.integers(0, 4)) == 4}


@st.composite
def two_jobs(draw):
    a = draw(job())
    b = draw(st.one_of(job(), st.just(a)))
    return {"a": a, "b": b, "pauses": draw(st.lists(st.one_of(st.integers(1, 60), st.integers(1, 400)), min_size=4, max_size=8, unique=True)),
            "file": draw(st.sampled_from(["", "", "sharing.py", "paths.py", "parser.py", "contract.py"]))}


def make_job(j):
    net = j["net"]
    arrs = ref.make_arrays(net, "float64", j["seed"])
    exp = ref.einsum(net, arrs)
    if j["torch"]:
        arrs = [conv(np.array(x), "torch") for x in arrs]
    eq = ref.eq_of(net)
    opt = make_opt(j["opt"])

    def fn():
        def state(depth):
            if bool(sharing.currently_sharing()) != (depth > 0):
                raise Violation(f"currently_sharing() is {sharing.currently_sharing()} inside {depth} contexts of this thread")

        state(0)
        if j["share"] == 0:
            r = oe.contract(eq, *arrs, optimize=opt)
            state(0)
            return r
        with oe.shared_intermediates() as c:
            state(1)
            if sharing.get_sharing_cache() is not c:
                raise Violation("the current cache is not this thread's")
            r = oe.contract(eq, *arrs, optimize=opt)
            if j["share"] == 2:
                with oe.shared_intermediates() as c2:
                    if sharing.get_sharing_cache() is not c2 or len(c2):
                        raise Violation("the current cache is not this thread's inner one")
                    oe.contract(eq, *arrs, optimize=opt)
            state(1)
            if sharing.get_sharing_cache() is not c:
                raise Violation("the current cache is not this thread's after leaving an inner context")
            n = len(c)
            mine = {id(x) for x in arrs}
            if not any(k[0] == "tensor" and k[1] in mine for k in c) and n == 0:
                raise Violation("nothing was cached in this thread's sharing context")
            state(1)
        state(0)
        return r

    return fn, exp


def check_jobs(case, ctx):
    for pause in case["pauses"]:
        fa, ea = make_job(case["a"])
        fb, eb = make_job(case["b"])
        what = (f"contract({ref.eq_of(case['a']['net'])}, optimize={case['a']['opt']}, sharing {case['a']['share']}) paused after {pause} lines "
                f"for contract({ref.eq_of(case['b']['net'])}, optimize={case['b']['opt']}, sharing {case['b']['share']})")
        verdict(overlap(fa, fb, pause, case["file"]), (ea, eb), what, ctx)
        if sharing.currently_sharing():
            raise Violation(f"{what}: the main thread is now sharing")
        ctx.label(f"share={case['a']['share']},{case['b']['share']}")


# ------------------------------------------------------------ several switches, two or three threads
def turns():
    return st.lists(st.tuples(st.integers(0, 2), st.one_of(st.integers(1, 6), st.integers(1, 40), st.integers(1, 150))).map(list), min_size=2, max_size=9)


@st.composite
def multi(draw):
    what = draw(st.sampled_from(["expr", "expr", "jobs", "cache"]))
    c = {"what": what, "turns": draw(turns()), "n": draw(st.sampled_from([2, 2, 3])), "seeds": draw(st.lists(st.integers(0, 99), min_size=3, max_size=3)),
         "file": draw(st.sampled_from(["contract.py", "", "sharing.py", "contract.py"]))}
    if what == "expr":
        c["sp"] = draw(schedules())["sp"]
        c["kinds"] = draw(st.lists(st.sampled_from(["np", "np", "np->torch", "torch"]), min_size=3, max_size=3))
    elif what == "jobs":
        c["jobs"] = draw(st.lists(job(), min_size=c["n"], max_size=c["n"]))
    else:
        c["jobs"] = [draw(job())] * c["n"]
    return c


def check_multi(c, ctx):
    if c["what"] == "expr":
        b = build(c["sp"])
        if b is None:
            return
        ex, consts, what = b
        net = c["sp"]["net"]

        def prep(seed, kind):
            arrs = ref.make_arrays(net, c["sp"]["cdtype"] if consts else "float64", seed)  # (torch does not mix dtypes)
            exp = ref.einsum(net, [consts.get(k, arrs[k]) for k in range(len(arrs))])
            given = [conv(np.array(arrs[k]), kind) for k in range(len(arrs)) if k not in consts]
            kw = {"backend": "torch"} if kind == "np->torch" else {}
            return (lambda: ex(*given, **kw)), exp

        jobs = [prep(s, k) for s, k in zip(c["seeds"][: c["n"]], c["kinds"])]
    elif c["what"] == "jobs":
        jobs = [make_job(j) for j in c["jobs"]]
        what = f"contract {[ref.eq_of(j['net']) for j in c['jobs']]}"
    else:
        # one user-supplied cache in use on all threads, for contractions of the same or of other arrays
        j, cache = c["jobs"][0], {}
        net = j["net"]
        sets = [ref.make_arrays(net, "float64", s) for s in c["seeds"]]
        sets[1] = sets[0]
        what = f"contract({ref.eq_of(net)}, optimize={j['opt']}) with one sharing cache on {c['n']} threads"

        def shared(arrs):
            def fn():
                with oe.shared_intermediates(cache):
                    oe.contract(ref.eq_of(net), *arrs, optimize=make_opt(j["opt"]))
                    return oe.contract(ref.eq_of(net), *arrs, optimize=make_opt(j["opt"]))

            return fn

        jobs = [(shared(a), ref.einsum(net, a)) for a in sets[: c["n"]]]
    what = f"{what}, turns {c['turns']} in {c['file'] or 'the library'}"
    ts = interleave([f for f, _ in jobs], c["turns"], c["file"])
    if ts is None:
        raise Violation(f"{what}: overlapping calls never return")
    for k, (t, (_, e)) in enumerate(zip(ts, jobs)):
        if t.err is not None:
            raise Violation(f"{what}: call {k} raised {type(t.err).__name__}: {t.err}")
        ref.same(np.asarray(t.res), e, f"{what}: call {k}", check_dtype=False)
    if sharing.currently_sharing():
        raise Violation(f"{what}: the main thread is now sharing")
    sw = sum(t.switches - 1 for t in ts)
    ctx.label(c["what"], f"switches-{min(sw, 6)}")
    ctx.nt(sw >= 2)


# ------------------------------------------------------------ the first use of an array library
_fresh = itertools.count()


@st.composite
def first_use(draw):
    einsum = draw(st.booleans())
    net = draw(nets(n_min=2, n_max=4, pool=5, max_rank=3, cap=2000, syms="plain") if einsum else twice_nets(n_max=4, cap=2000))
    return {"net": net, "einsum": einsum, "method": draw(st.booleans()), "modes": draw(st.lists(st.sampled_from(["contract", "expr", "explicit", "false"]), min_size=2, max_size=2)),
            "blas": draw(st.booleans()) if einsum else True,
            "pauses": draw(st.lists(st.one_of(st.integers(1, 20), st.integers(1, 90)), min_size=3, max_size=5, unique=True)),
            "file": draw(st.sampled_from(["backends/dispatch.py", "backends/dispatch.py", "contract.py", ""]))}


def check_first_use(c, ctx):
    net = c["net"]
    eq = ref.eq_of(net)
    for pause in c["pauses"]:
        lib = Minimal(f"vp_first_{next(_fresh)}", transpose_function=not c["method"], einsum=c["einsum"])
        try:
            jobs = []
            for seed, mode in enumerate(c["modes"]):
                arrs = ref.make_arrays(net, "int64", seed)
                xs = [lib.Arr(a) for a in arrs]
                ex = oe.contract_expression(eq, *[a.shape for a in arrs], use_blas=c["blas"])

                def fn(xs=xs, mode=mode, ex=ex):
                    if mode == "contract":
                        r = oe.contract(eq, *xs, use_blas=c["blas"])
                    elif mode == "expr":
                        r = ex(*xs)
                    elif mode == "explicit":
                        r = oe.contract(eq, *xs, use_blas=c["blas"], backend=lib.name)
                    else:
                        r = oe.contract(eq, *xs, optimize=False) if c["einsum"] else ex(*xs)
                    if not isinstance(r, lib.Arr):
                        raise Violation(f"the result is a {type(r).__name__}, not an array of the operands' library")
                    return r._x

                jobs.append((fn, ref.einsum(net, arrs)))
            pair = overlap(jobs[0][0], jobs[1][0], pause, c["file"])
            what = (f"first two calls {c['modes']} of {eq} on a new library ({'' if c['einsum'] else 'no '}einsum, transpose as {'method' if c['method'] else 'function'}), "
                    f"paused after {pause} lines of {c['file'] or 'the library'}")
            verdict(pair, (jobs[0][1], jobs[1][1]), what, ctx)
        finally:
            sys.modules.pop(lib.name, None)


# ------------------------------------------------------------ searches
SYSTEMATIC = ["auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "dp"]


@st.composite
def one_search(draw):
    net = with_syms(draw(graphs(n_min=3, n_max=7, size_pool=(2, 3, 5, 1))))
    opt = draw(st.one_of(st.sampled_from(SYSTEMATIC), st.sampled_from([
        {"cls": "DP", "kw": {"minimize": "size"}}, {"cls": "DP", "kw": {"minimize": "combo-3", "cost_cap": False}}, {"cls": "DP", "kw": {"search_outer": True}},
        {"cls": "BranchBound", "kw": {"nbranch": 2}}, {"cls": "BranchBound", "kw": {"minimize": "size"}}])))
    return {"net": net, "opt": opt, "limit": draw(st.sampled_from([None, None, "max_input", 100])) if not isinstance(opt, dict) and opt not in ("dp", "auto-hq") else None}


@st.composite
def two_searches(draw):
    a = draw(one_search())
    b = draw(st.one_of(one_search(), st.just(a), one_search().map(lambda x: dict(x, opt=a["opt"], limit=a["limit"]))))
    return {"jobs": [a, b], "pauses": draw(st.lists(st.one_of(st.integers(1, 60), st.integers(1, 800)), min_size=3, max_size=5, unique=True)),
            "file": draw(st.sampled_from(["", "paths.py", "paths.py", "contract.py", "helpers.py"]))}


def check_searches(c, ctx):
    for pause in c["pauses"]:
        jobs, exps, texts = [], [], []
        shared = make_opt(c["jobs"][0]["opt"])
        for j in c["jobs"]:
            net = j["net"]

            def search(opt, net=net, j=j):
                p, i = oe.contract_path(ref.eq_of(net), *ref.shapes(net), shapes=True, optimize=opt, memory_limit=j["limit"])
                return [[int(q) for q in x] for x in p], int(i.opt_cost), [s[2] for s in i.contraction_list]

            # an optimizer without state may serve both threads
            opt = shared if isinstance(shared, oe.DynamicProgramming) and j["opt"] == c["jobs"][0]["opt"] else make_opt(j["opt"])
            texts.append(f"{ref.eq_of(net)} {ref.shapes(net)} optimize={j['opt']} limit={j['limit']}")
            with target(f"contract_path {texts[-1]}"):
                exps.append(search(make_opt(j["opt"])))
            jobs.append(lambda search=search, opt=opt: search(opt))
        pair = overlap(jobs[0], jobs[1], pause, c["file"])
        what = f"contract_path {texts[0]} paused after {pause} lines of {c['file'] or 'the library'} for {texts[1]}"
        verdict(pair, (None, None), what, ctx)
        for t, e, nm in zip(pair, exps, ("interrupted", "overlapping")):
            if t.res != e:
                raise Violation(f"{what}: the {nm} search found {t.res}, alone {e}")


SUBS = [
    Sub("first-use", check_first_use, first_use, quick=1200, thorough=12000, rule="the first two calls on arrays of a new library overlap"),
    Sub("searches", check_searches, two_searches, quick=1500, thorough=25000, rule="two path searches of systematic strategies overlap; each finds what it finds alone"),
    Sub("interleavings", check_multi, multi, quick=12000, thorough=150000, rule="two or three threads, up to nine turns of a drawn number of executed lines"),
    Sub("expression", check_expr, schedules, quick=3000, thorough=40000, rule="two overlapping calls of one expression, one paused at every kind of point"),
    Sub("contractions", check_jobs, two_jobs, quick=3000, thorough=40000, rule="two independent contractions, with or without sharing contexts"),
]
