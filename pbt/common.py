"""Helpers shared by the property modules (public API of opt_einsum only)."""
import numpy as np
import opt_einsum as oe
from hypothesis import strategies as st

NAMES = [
    "auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic",
    "dp", "dynamic-programming", "random-greedy", "random-greedy-128",
]
CHEAP = ["auto", "branch-2", "branch-1", "greedy", "eager", "opportunistic"]


def make_opt(spec):
    if isinstance(spec, dict):
        kw = dict(spec.get("kw", {}))
        if spec["cls"] == "RandomGreedy":
            return oe.RandomGreedy(**kw)
        if spec["cls"] == "BranchBound":
            return oe.BranchBound(**kw)
        if spec["cls"] == "DP":
            return oe.DynamicProgramming(**kw)
        if spec["cls"] == "path":
            return [tuple(p) for p in spec["path"]]
        raise AssertionError(spec)
    return spec


def cls_specs():
    return st.one_of(
        st.fixed_dictionaries({
            "cls": st.just("RandomGreedy"),
            "kw": st.fixed_dictionaries({
                "max_repeats": st.integers(1, 6),
                "minimize": st.sampled_from(["flops", "size"]),
                "temperature": st.sampled_from([1.0, 0.0, 0.3, 10.0]),
                "rel_temperature": st.booleans(),
                "nbranch": st.sampled_from([8, 1, 2, 3]),
                "cost_fn": st.sampled_from(["memory-removed-jitter", "memory-removed"]),
            }),
        }),
        st.fixed_dictionaries({
            "cls": st.just("BranchBound"),
            "kw": st.fixed_dictionaries({
                "nbranch": st.sampled_from([None, 1, 2, 3]),
                "cutoff_flops_factor": st.sampled_from([4, 1, 2, 100, None]),
                "minimize": st.sampled_from(["flops", "size"]),
                "cost_fn": st.sampled_from(["memory-removed", "memory-removed-jitter"]),
            }),
        }),
        st.fixed_dictionaries({
            "cls": st.just("DP"),
            "kw": st.fixed_dictionaries({
                "minimize": st.sampled_from(["flops", "size", "write", "combo", "limit", "combo-8", "limit-256"]),
                "cost_cap": st.sampled_from([True, False, 1, 0, 17, -3, 1000]),
                "search_outer": st.booleans(),
            }),
        }),
    )


def opt_specs(bools=True, classes=True, false=False):
    xs = [st.sampled_from(NAMES)]
    if bools:
        xs.append(st.sampled_from([True, None] + ([False] if false else [])))
    if classes:
        xs.append(cls_specs())
    return st.one_of(*xs)


def mem_specs():
    return st.one_of(st.none(), st.sampled_from([-1, "max_input"]), st.integers(1, 60), st.integers(60, 5000))


def limited(mem):
    return mem is not None and mem != -1


def dp_like(spec, n):
    """can this optimizer run the dynamic program (which may reject a memory limit)?"""
    if isinstance(spec, dict):
        return spec["cls"] == "DP"
    return spec in ("dp", "dynamic-programming") or (spec == "auto-hq" and n > 5)


def names(net):
    s = net["syms"]
    return ["".join(s[i] for i in t) for t in net["inputs"]], "".join(s[i] for i in net["output"])
