"""C17: index symbols never collide: symbol generation, renaming and canonical forms preserve the meaning of an equation."""
import json
import os
import random
from collections import Counter

from hypothesis import strategies as st
from opt_einsum import parser

from core import Sub, Violation, target
from gen import POOL, WIDE

RULE = (
    "get_symbol over the whole usable integer range (blocks of consecutive numbers, distinctness, no surrogates, never one of ',->. '), gen_unused_symbols with arbitrary "
    "used sets, convert_to_valid_einsum_chars / alpha_canonicalize on random equations with unicode symbols (result must be an injective renaming; "
    "order-preserving resp. canonical), find_output_str / find_output_shape / get_shape against the definitions; non-trivial = 3+ distinct symbols"
)
ASSUMPTIONS = ["symbol numbers below 1 112 064 - 140 - 2048 (the end of unicode)"]
KNOWN_FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "known_findings.json")
RES = set(",->. ")
TOP = 0x10FFFF - 2048 - 140
KNOWN_SURROGATES = range(55156, 55296)  # known_findings.json: pinned by an existing unit test, so not repaired


def blocks(tier):
    step = 4000
    hi = 1_100_000
    for a in range(0, hi, step):
        yield {"a": a, "n": step + 3}


def check_block(case, ctx):
    a, n = case["a"], case["n"]
    seen = {}
    for i in range(a, a + n):
        with target(f"get_symbol({i})"):
            s = parser.get_symbol(i)
        if not isinstance(s, str) or len(s) != 1:
            raise Violation(f"get_symbol({i}) = {s!r} is not a single character")
        if 0xD800 <= ord(s) <= 0xDFFF and not (i in KNOWN_SURROGATES and ord(s) == i + 140):
            raise Violation(f"get_symbol({i}) is the surrogate {ord(s):#x}")
        if s in RES:
            raise Violation(f"get_symbol({i}) = {s!r} is reserved einsum syntax")
        if s in seen:
            raise Violation(f"get_symbol({i}) == get_symbol({seen[s]}) == {s!r}")
        seen[s] = i
    # distinct from everything lower: code points grow with the number beyond the 52 letters
    last = None
    for i in range(max(a, 52), a + n):
        o = ord(parser.get_symbol(i))
        if parser.get_symbol(i) in POOL:
            raise Violation(f"get_symbol({i}) = {parser.get_symbol(i)!r} repeats one of the first 52")
        if last is not None and o <= last:
            raise Violation(f"get_symbol is not injective around {i}")
        last = o
    ctx.nt()


# arbitrary numbers
def check_pair(case, ctx):
    i, j = case["i"], case["j"]
    with target("get_symbol"):
        a, b = parser.get_symbol(i), parser.get_symbol(j)
        if i not in KNOWN_SURROGATES:
            a.encode("utf8")
    if (a == b) != (i == j):
        raise Violation(f"get_symbol({i}) = {a!r}, get_symbol({j}) = {b!r}")
    ctx.nt(i != j)


NUM = st.one_of(st.integers(0, 200), st.integers(0, 60000), st.integers(55000, 58000), st.integers(0, 1_100_000))


@st.composite
def pairs(draw):
    i = draw(NUM)
    j = draw(st.one_of(NUM, st.sampled_from([i + 1, i + 140, i + 2048, max(0, i - 140), max(0, i - 2048), i + 26, i + 52])))
    return {"i": i, "j": j}


SYMCH = st.one_of(st.sampled_from(POOL), st.sampled_from(WIDE), NUM.filter(lambda k: k not in KNOWN_SURROGATES).map(lambda k: parser.get_symbol(k)), st.characters(min_codepoint=192, max_codepoint=0x3000, categories=("L",)))


@st.composite
def eqs(draw, maxsym=12, minsym=1):
    k = draw(st.integers(minsym, maxsym))
    syms = draw(st.lists(SYMCH, min_size=k, max_size=k, unique=True))
    if minsym > 1 and draw(st.booleans()):
        # mostly plain letters with a few others among them
        plain = draw(st.permutations(POOL))
        odd = draw(st.lists(st.sampled_from("αβγδλπΩÀéñŔ京Ƶӝ"), unique=True, max_size=10))
        syms = draw(st.permutations((odd + list(plain))[:k]))
    if minsym > 1:
        # every symbol is used: a permutation, cut into terms, plus some repeats
        perm = draw(st.permutations(range(k)))
        cuts = sorted(draw(st.lists(st.integers(0, k), max_size=6)))
        terms = [list(perm[a:b]) for a, b in zip([0] + cuts, cuts + [k])]
        terms += draw(st.lists(st.lists(st.integers(0, k - 1), max_size=4), max_size=3))
    else:
        terms = draw(st.lists(st.lists(st.integers(0, k - 1), max_size=4), min_size=1, max_size=5))
    used = sorted({i for t in terms for i in t})
    out = draw(st.one_of(st.none(), st.lists(st.sampled_from(used), unique=True, max_size=4) if used else st.just([])))
    return {"syms": syms, "terms": terms, "out": out, "ell": draw(st.integers(0, 3)) == 3,
            "syms2": draw(st.lists(SYMCH, min_size=k, max_size=k, unique=True)), "n": draw(st.integers(0, 60))}


def render(c, syms):
    s = ",".join("".join(syms[i] for i in t) for t in c["terms"])
    if c["ell"]:
        s = "..." + s
    if c["out"] is not None:
        s += "->" + ("..." if c["ell"] else "") + "".join(syms[i] for i in c["out"])
    return s


def renaming(a, b, what):
    """b must be a with symbols injectively renamed; returns the map."""
    if len(a) != len(b):
        raise Violation(f"{what}: {a!r} -> {b!r} changes the length")
    m = {}
    for x, y in zip(a, b):
        if x in ",->.":
            if x != y:
                raise Violation(f"{what}: {a!r} -> {b!r} changes the punctuation")
            continue
        if m.setdefault(x, y) != y:
            raise Violation(f"{what}: {a!r} -> {b!r} gives {x!r} two names")
    if len(set(m.values())) != len(m):
        raise Violation(f"{what}: {a!r} -> {b!r} merges symbols")
    return m


def check_eq(c, ctx):
    s = render(c, c["syms"])
    nsym = len({i for t in c["terms"] for i in t})
    with target(f"convert_to_valid_einsum_chars({s!r})"):
        v = parser.convert_to_valid_einsum_chars(s)
    m = renaming(s, v, "convert_to_valid_einsum_chars")
    if any(y not in POOL for y in m.values()):
        raise Violation(f"convert_to_valid_einsum_chars({s!r}) = {v!r} uses characters numpy does not accept")
    with target("has_valid_einsum_chars_only"):
        if not parser.has_valid_einsum_chars_only(v):
            raise Violation(f"has_valid_einsum_chars_only({v!r}) is False")
        h = parser.has_valid_einsum_chars_only(s)
    if bool(h) != all(ch in POOL or ch in ",->." for ch in s):
        raise Violation(f"has_valid_einsum_chars_only({s!r}) = {h}")
    with target(f"alpha_canonicalize({s!r})"):
        c1 = parser.alpha_canonicalize(s)
        c2 = parser.alpha_canonicalize(render(c, c["syms2"]))
        c3 = parser.alpha_canonicalize(c1)
    renaming(s, c1, "alpha_canonicalize")
    if c1 != c2:
        raise Violation(f"alpha_canonicalize: {s!r} -> {c1!r} but its renaming {render(c, c['syms2'])!r} -> {c2!r}")
    if c3 != c1:
        raise Violation(f"alpha_canonicalize is not idempotent: {c1!r} -> {c3!r}")
    # output convention
    lhs = ",".join("".join(c["syms"][i] for i in t) for t in c["terms"])
    flat = [i for t in c["terms"] for i in t]
    exp = "".join(sorted(c["syms"][i] for i in set(flat) if flat.count(i) == 1))
    with target("find_output_str"):
        o = parser.find_output_str(lhs)
    if o != exp:
        raise Violation(f"find_output_str({lhs!r}) = {o!r}, expected {exp!r}")
    with target("gen_unused_symbols"):
        g = list(parser.gen_unused_symbols(s, c["n"]))
    if len(g) != c["n"] or len(set(g)) != len(g) or set(g) & set(s) or any(len(x) != 1 or x in RES for x in g):
        raise Violation(f"gen_unused_symbols({s!r}, {c['n']}) = {g}")
    ctx.nt(nsym >= 3)


# shapes
@st.composite
def shp(draw):
    k = draw(st.integers(1, 4))
    sizes = draw(st.lists(st.sampled_from([2, 3, 5, 1, 0]), min_size=k, max_size=k))
    terms = draw(st.lists(st.lists(st.integers(0, k - 1), max_size=3, unique=True), min_size=1, max_size=4))
    ones = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=3))
    used = sorted({i for t in terms for i in t})
    return {"sizes": sizes, "terms": terms, "ones": [list(o) for o in ones], "out": draw(st.lists(st.sampled_from(used), unique=True)) if used else []}


def check_shape(c, ctx):
    shapes = [tuple(1 if [t, i] in c["ones"] else c["sizes"][i] for i in term) for t, term in enumerate(c["terms"])]
    exp = []
    for i in c["out"]:
        ds = [s[term.index(i)] for s, term in zip(shapes, c["terms"]) if i in term]
        non1 = [d for d in ds if d != 1]
        exp.append(non1[0] if non1 else 1)
    names = ["".join(POOL[i] for i in t) for t in c["terms"]]
    with target("find_output_shape"):
        got = tuple(parser.find_output_shape(list(names), list(shapes), "".join(POOL[i] for i in c["out"])))
    if got != tuple(exp):
        raise Violation(f"find_output_shape({names}, {shapes}, {[POOL[i] for i in c['out']]}) = {got}, expected {tuple(exp)}")
    for s in shapes:
        if 0 in s:
            continue
        x = 7
        for d in reversed(s):
            x = [x] * d
        y = x
        with target("get_shape"):
            g = tuple(parser.get_shape(y))
            g2 = tuple(parser.get_shape(tuple(y) if isinstance(y, list) else y))
            arr = parser.possibly_convert_to_numpy(y)
        if g != s or g2 != s or tuple(arr.shape) != s:
            raise Violation(f"get_shape of a nested list of shape {s} is {g}")
    ctx.nt(len(c["terms"]) >= 2)


def known():
    with open(KNOWN_FILE) as f:
        for k in json.load(f)["known"]:
            if k["property"] == "C17":
                try:
                    if 0xD800 <= ord(parser.get_symbol(k["case"]["i"])) <= 0xDFFF:
                        yield k["what"]
                except Exception:
                    pass


# long equations, as of large tensor networks
@st.composite
def long_eqs(draw):
    return {"seed": draw(st.integers(0, 10**6)), "terms": draw(st.integers(1, 500)), "nsym": draw(st.integers(1, 1500)), "rank": draw(st.integers(1, 6)),
            "start": draw(st.sampled_from([0, 0, 30, 1000])), "n": draw(st.integers(1, 40)), "ell": draw(st.booleans())}


def check_long(c, ctx):
    rng = random.Random(c["seed"])
    names = [parser.get_symbol(c["start"] + i) for i in range(c["nsym"])]
    terms = [[rng.choice(names) for _ in range(rng.randint(0, c["rank"]))] for _ in range(c["terms"])]
    flat = [x for t in terms for x in t]
    once = sorted(x for x, k in Counter(flat).items() if k == 1)
    lhs = ",".join("".join(t) for t in terms)
    out = "".join(rng.sample(once, len(once)))
    s = lhs + "->" + out
    what = f"an equation of {c['terms']} terms and {len(set(flat))} symbols (case {c})"
    with target(what):
        o = parser.find_output_str(lhs)
        canon = parser.alpha_canonicalize(s)
        shift = {x: parser.get_symbol(c["start"] + 5 + i) for i, x in enumerate(sorted(set(flat), reverse=True))}
        canon2 = parser.alpha_canonicalize("".join(shift.get(x, x) for x in s))
        valid = parser.convert_to_valid_einsum_chars(s)
        free = list(parser.gen_unused_symbols(s, c["n"]))
    if o != "".join(once):
        raise Violation(f"{what}: find_output_str gives {len(o)} indices, {len(once)} occur once")
    for got, fn in ((canon, "alpha_canonicalize"), (valid, "convert_to_valid_einsum_chars")):
        m = {}
        if len(got) != len(s) or any((x in ",->.") != (y in ",->.") or m.setdefault(x, y) != y for x, y in zip(s, got)) or len(set(m.values())) != len(m):
            raise Violation(f"{what}: {fn} is not an injective renaming")
    if canon != canon2:
        raise Violation(f"{what}: alpha_canonicalize depends on the names")
    if len(set(free)) != c["n"] or set(free) & set(s) or any(x in RES for x in free):
        raise Violation(f"{what}: gen_unused_symbols gives {free}")
    if c["ell"]:
        # an ellipsis gets names that none of the terms uses
        d = rng.randint(1, 4)
        shapes = [(2,) * len(t) for t in terms]
        k = rng.randrange(len(terms))
        shapes[k] = (2,) * d + shapes[k]
        eq = ",".join(("..." if j == k else "") + "".join(t) for j, t in enumerate(terms)) + "->..." + out
        with target(what):
            i2, o2, _ = parser.parse_einsum_input((eq, *shapes), shapes=True)
        new = o2[: len(o2) - len(out)]
        if o2[len(o2) - len(out):] != out or len(new) != d or len(set(new)) != d or set(new) & set(flat) or i2.split(",") != [(new if j == k else "") + "".join(t) for j, t in enumerate(terms)]:
            raise Violation(f"{what}: the ellipsis of {d} dimensions is given the names {new!r}")
    ctx.nt(len(s) > 500)


SUBS = [
    Sub("long-equations", check_long, long_eqs, quick=1500, thorough=15000, rule="up to 500 terms and 1500 symbols: output, renaming, unused symbols, names of ellipsis dimensions"),
    Sub("symbol-blocks", check_block, cases=blocks, rule="every number below 1.1 million"),
    Sub("symbol-pairs", check_pair, pairs, quick=20000, thorough=300000),
    Sub("equations", check_eq, eqs, quick=25000, thorough=300000),
    Sub("many-symbols", check_eq, lambda: eqs(52, 20), quick=8000, thorough=50000),
    Sub("shapes", check_shape, shp, quick=15000, thorough=150000),
]
