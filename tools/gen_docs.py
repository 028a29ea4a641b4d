"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, P, R = "opt_einsum/contract.py", "opt_einsum/paths.py", "opt_einsum/parser.py"
RG, SH, HP, BL = "opt_einsum/path_random.py", "opt_einsum/sharing.py", "opt_einsum/helpers.py", "opt_einsum/blas.py"
BK = "opt_einsum/backends/"

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, technique, note, state=()):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, observe=observe,
                      technique=technique, note=note, state=list(state)))


prop(
    "C01", "contract() computes the mathematical einsum under every setting",
    "For every valid equation and operands, contract returns the array defined by the Einstein sum of that equation (value, shape and result dtype), whatever optimize strategy or optimizer object, "
    "use_blas flag and memory_limit are chosen. Repeated indices in an operand mean diagonals, indices missing from the output are summed, size-1 dimensions broadcast, size-0 dimensions, scalars, outer products and "
    "single operands are handled like numpy.einsum does. Operands are never modified.",
    ["inputs", "configurations"], "all equations over any number of operands, shapes, memory layouts and numeric dtypes, times all strategies, use_blas and memory limits",
    "The tests compare a fixed list of about a hundred equations and some random ones with default sizes; the combination of equation structure, broadcasting, path, BLAS decision and limit is unbounded.",
    [C, P, R, BL, HP],
    [("step construction in contract_path", C), ("core contraction loop", C), ("can_blas", BL), ("find_contraction", HP), ("path finders", P)],
    ["opt_einsum.contract"], "property-based testing against an independent dense reference (exact integers)",
    "Random search; exact oracle (integer-valued data); up to 6 operands for values, 64 for networks of small dimension.",
)
prop(
    "C02", "Any valid explicit path gives the same result; returned paths replay",
    "For every contraction, every valid complete explicit path (pairwise, many-term and single-term steps, positions in any order, as lists or tuples) passed as optimize gives exactly the einsum value, through contract and through "
    "contract_expression. A path returned by contract_path can be passed back as optimize and reproduces both the same path and the same value. The path object given is never modified.",
    ["inputs", "configurations"], "all contractions times all valid contraction paths",
    "Tests use a handful of paths; the number of paths is factorial and the intermediate index orders, BLAS choices and positions depend on each.",
    [C, HP], [("contract_path loop over path steps", C), ("find_contraction", HP)], ["opt_einsum.contract", "opt_einsum.contract_expression", "opt_einsum.contract_path"],
    "property-based testing: random paths against a dense reference", "Random search, exact oracle.",
)
prop(
    "C03", "Every path finder terminates with a complete well-formed path",
    "For every index structure and sizes (including scalars, duplicates, disconnected parts, hyperedges, zero, one and huge dimensions) and every option, each named strategy, path function and optimizer object returns a finite sequence of "
    "steps of distinct, in-range integer positions that leaves exactly one tensor. The only permitted refusal is a RuntimeError of dynamic programming for an unsatisfiable memory limit. Named strategies return the same path for the same input, and the systematic ones (optimal, branch-*, greedy, dp, auto) a path that does not depend on how the indices are named.",
    ["inputs", "configurations"], "all index structures, sizes, limits and option combinations of every optimizer",
    "Tests run a few structures; termination and completeness depend on search pruning, caps and disconnected or degenerate structures that sampled tests do not reach.",
    [P, RG], [("optimal / BranchBound / greedy / dynamic programming", P), ("RandomGreedy and trial functions", RG), ("ssa_to_linear", P)],
    ["opt_einsum.contract_path", "opt_einsum.paths.*"], "property-based testing of structural invariants with a work bound for termination",
    "Random search up to ~40 tensors; non-termination is judged by a bound on executed lines.",
)
prop(
    "C04", "The contraction report states the true figures of the path",
    "Everything contract_path reports about a path (naive and optimized FLOP count, speedup, largest intermediate, scaling and sizes per step, the equation, shapes and sizes, the list of pairwise einsum steps, the printed table) equals the "
    "figure obtained by applying the documented definitions to the contraction and that path, with exact integers of any magnitude. The step list is itself a correct program for the contraction. The printed form of an expression shows its equation with exactly the constants in brackets, and the steps that remain. The public cost helpers agree with the same definitions.",
    ["inputs", "configurations"], "all contractions (arrays or shapes of any integer type), sizes up to astronomically large, and all paths",
    "Tests compare the report of a few examples; overflow, broadcasting, repeated indices and many-term steps vary without bound.",
    [C, HP], [("contract_path cost accounting, PathInfo", C), ("flop_count, compute_size_by_dict, find_contraction", HP)],
    ["PathInfo attributes and repr", "opt_einsum.helpers"], "property-based testing against an independent cost model; the step list is executed as a program",
    "Random search, exact integer oracle.",
)
prop(
    "C05", "'optimal' returns a path of globally minimal FLOP count",
    "For every contraction, the path returned by 'optimal' (and by 'auto' for up to 4 operands and 'auto-hq' for up to 5) without memory limit has the minimal estimated FLOP count over all pairwise contraction orders. With a memory limit that the result fits, it costs no more than any pairwise order whose intermediates all fit.",
    ["inputs"], "all contractions within the reach of exhaustive search, any index sharing pattern and sizes",
    "Minimality is a statement over all orders of all contractions; tests pin the path of a few.",
    [P], [("optimal search with sieving and result cache", P), ("auto / auto_hq tables", P)], ["opt_einsum.contract_path", "opt_einsum.paths.optimal"],
    "property-based testing against exhaustive minimisation over all contraction trees", "Random search up to 6 tensors; exhaustive oracle per case.",
)
prop(
    "C06", "Dynamic programming is optimal for its objective",
    "For every contraction, the dynamic programming optimizer returns, for each connected part, a tree of minimal cost for the chosen objective (flops, largest size, total write, combo, limit) among all trees without outer products (among all trees if "
    "outer products are searched), whatever the cost-cap setting and whatever the same optimizer object was used for before; with a memory limit, among the trees whose intermediates all fit.",
    ["inputs", "configurations"], "all contractions, objectives, cost-cap modes and outer-product settings",
    "Optimality ranges over all trees; tests check a few known costs.",
    [P], [("DynamicProgramming", P), ("_dp_compare_* objectives", P)], ["opt_einsum.DynamicProgramming", "optimize='dp'"],
    "property-based testing against exhaustive minimisation per connected part", "Random search up to 8 tensors; exhaustive oracle per case.",
)
prop(
    "C07", "memory_limit bounds every intermediate",
    "When a memory limit is given (an element count or 'max_input'), no intermediate array that the limit-aware strategies (optimal, branch-*, greedy, auto, dp, BranchBound) schedule has more elements than the limit; only the final result may be larger. "
    "Dynamic programming raises RuntimeError only if no contraction order of a connected part fits the limit. None and -1 mean no limit and do not change the path. This holds for every call of an optimizer object, whatever limit earlier calls had.",
    ["inputs", "configurations"], "all contractions, limits and limit-aware strategies",
    "Tests try a few limits; which intermediates occur depends on the structure, sizes and strategy.",
    [P, C], [("memory sieves of optimal, branch, greedy, dp", P), ("_choose_memory_arg", C)], ["opt_einsum.contract_path", "opt_einsum.contract"],
    "property-based testing: simulated intermediates against the limit, feasibility by exhaustive search",
    "Random search up to 16 tensors. random-greedy and dp's joins of disconnected parts ignore limits on this tree (known findings).",
)
prop(
    "C08", "A contraction expression is a pure reusable function",
    "An expression built by contract_expression returns the einsum value of its equation for the arguments of each call (and its constants), no matter what was called before, with which sizes (of the same rank), array libraries or backend, with or without "
    "out, and no matter which other expressions exist. Constants may be any subset of the arguments; neither arguments, constants nor earlier results are changed by later calls. A wrong number of arguments raises ValueError.",
    ["histories", "inputs"], "all sequences of calls on any set of expressions",
    "Cached constants and per-backend compiled expressions are state; tests make one or two calls each.",
    [C, BK + "dispatch.py", BK + "torch.py"], [("ContractExpression.evaluate_constants / _get_evaluated_constants", C), ("backend expression cache", C)],
    ["opt_einsum.contract_expression"], "stateful property-based testing (histories) against a dense reference", "Random histories of up to 8 operations on up to 3 expressions.",
    [dict(name="_evaluated_constants", meaning="constants contracted once per backend", where=C)],
)
prop(
    "C09", "Sharing intermediates never changes a result",
    "Inside shared_intermediates contexts (nested, resumed with an earlier cache, interleaved with array creation and deletion) every contraction returns exactly the value it would return without sharing, for contractions that reuse operands, permute operands, "
    "rename indices or permute the output, through contract, expressions and converting backends.",
    ["histories"], "all histories of contexts, contractions and array lifetimes",
    "A wrong cache key shows only for particular pairs of contractions or recycled object identities; tests share a few fixed pairs.",
    [SH, C, BK + "torch.py"], [("cache keys in einsum/tensordot/transpose/to_backend wrappers", SH), ("alpha_canonicalize", R), ("saved tensors", SH)],
    ["opt_einsum.shared_intermediates"], "stateful property-based testing against a dense reference", "Random histories of up to 14 operations, numpy and torch.",
    [dict(name="sharing cache", meaning="memoised intermediates of a context", where=SH)],
)
prop(
    "C10", "A sharing context memoises, only there, only as long as it lives",
    "Inside a sharing context a contraction already performed in the same cache (also with renamed indices, or as a single step with permuted operands) makes no further backend call; outside any context nothing is memoised. Contexts nest per thread, end normally or by exception, "
    "can be resumed by passing the cache, affect only their own innermost cache and thread, and release all arrays when the cache is dropped.",
    ["histories", "schedules"], "all histories of entering, leaving, resuming and computing on several threads",
    "The stack of caches is hidden state; tests exercise one or two nestings.",
    [SH, C], [("sharing stack and shared_intermediates", SH), ("_memoize and cache wrappers", SH)], ["opt_einsum.shared_intermediates", "opt_einsum.sharing"],
    "model-based stateful testing with a call-counting backend", "Random histories of up to 16 operations on up to 3 threads, taking turns per operation.",
    [dict(name="_SHARING_STACK", meaning="caches in use, per thread", where=SH)],
)
prop(
    "C11", "All documented ways of writing a contraction are equivalent",
    "A contraction gives the same value whether written with explicit or implicit output, with blanks, with any unicode symbols, in interleaved format with integer, string or other sortable hashable labels, with ellipsis (at any position, broadcasting over different ranks), with operands as arrays, nested lists or "
    "python scalars, via contract with or without optimization, contract_path (arrays or shapes) or contract_expression. Implicit output follows the numpy convention (indices occurring once, sorted; ellipsis dimensions first).",
    ["inputs"], "all contractions times all presentations",
    "Tests contain some examples of each form; positions, ranks, symbol orders and label types combine without bound.",
    [R, C], [("parse_einsum_input, convert_interleaved_input, parse_ellipses, find_output_str", R)], ["opt_einsum.contract", "opt_einsum.contract_path", "opt_einsum.contract_expression"],
    "metamorphic and differential property-based testing against a dense reference", "Random search; exact oracle.",
)
prop(
    "C12", "Malformed contractions are rejected, never silently computed",
    "If an otherwise valid request has a defect (wrong number of operands, wrong rank, mismatching dimensions anywhere, unknown or repeated output index, malformed arrow or ellipsis, invalid memory limit, unknown optimizer, incomplete explicit path, unknown keyword), "
    "every entry point raises an error instead of returning a value, while the defect-free twin is accepted.",
    ["inputs"], "all valid requests with any single defect, through every entry point and strategy",
    "Tests check about thirty malformed calls; the position and combination of the defect varies freely.",
    [R, C], [("parse_einsum_input checks", R), ("rank and dimension checks in contract_path", C), ("_choose_memory_arg", C)], ["opt_einsum.contract", "opt_einsum.contract_path", "opt_einsum.contract_expression"],
    "property-based fault injection into valid inputs", "Random search over single injected defects.",
)
prop(
    "C13", "Values and array types do not depend on the array library",
    "Contracting arrays of torch, jax, tensorflow, dask, sparse, autograd, object dtype or numpy subclasses gives the same values as numpy and an array of the operands' own library. Expressions given numpy arrays and a converting backend return numpy arrays of equal value, "
    "with or without constants, repeatedly and inside sharing contexts. Torch gradients flow through contractions correctly.",
    ["inputs", "configurations", "histories"], "all contractions times all supported libraries and call forms",
    "Tests run ten equations per library.",
    [BK + "dispatch.py", BK + "torch.py", BK + "jax.py", BK + "tensorflow.py", BK + "object_arrays.py", C],
    [("backend dispatch and conversion", BK + "dispatch.py"), ("torch/object einsum implementations", BK)], ["opt_einsum.contract", "opt_einsum.contract_expression"],
    "differential property-based testing across array libraries", "Random search over the libraries installed here.",
)
prop(
    "C14", "Random optimizers return the best trial and keep honest records",
    "A random optimizer runs the configured number of trials (unless stopped by time), records the cost and size of each trial truthfully, and returns the path of the best trial for its objective (flops or size, ties by the other), over all calls of the same instance, "
    "whether trials run serially or through a pool executor. Trial costs are the true costs of the trial's path.",
    ["histories", "configurations", "schedules"], "all networks, trial outcomes, objectives, executors and repeated calls",
    "Trials are random and may run concurrently; tests look at a few seeds.",
    [RG], [("RandomOptimizer.__call__ and repeat/parallel generators", RG), ("ssa_path_compute_cost, thermal_chooser", RG)], ["opt_einsum.RandomGreedy", "opt_einsum.path_random.RandomOptimizer"],
    "model-based property testing with recording executors", "Random search; executors with controlled completion.",
    [dict(name="best, costs, sizes", meaning="records of the trials", where=RG)],
)
prop(
    "C15", "out= receives exactly the result; einsum options are honoured",
    "contract and expression calls with out= write exactly the einsum value into that array (any layout, view, 0-d, wider dtype), return that same object and touch no other memory. Options dtype, casting and order act as for numpy.einsum. Both hold for every strategy, "
    "with and without BLAS, and inside sharing contexts, where later changes to out do not alter later results.",
    ["inputs", "histories", "configurations"], "all contractions, output layouts, options and histories",
    "Tests use out for a few contractions with fresh contiguous arrays.",
    [C, SH, BK + "torch.py"], [("out handling in the core contraction loop", C), ("einsum keyword filtering", C)], ["opt_einsum.contract(out=)", "expression(out=)"],
    "property-based testing with guarded memory and a dense reference", "Random search; exact oracle.",
)
prop(
    "C16", "SSA and linear paths encode the same contraction tree",
    "Converting a path between the recycled linear and the single-assignment form preserves the sequence of contracted leaf sets and converts back to the same path, for steps of any arity and order. The cost and size computed for an ssa path are those of its definition.",
    ["inputs"], "all contraction trees with steps of any arity",
    "Tests round-trip a few random pairwise paths.",
    [P, RG], [("ssa_to_linear, linear_to_ssa", P), ("ssa_path_compute_cost", RG)], ["opt_einsum.paths.ssa_to_linear", "opt_einsum.paths.linear_to_ssa", "opt_einsum.path_random.ssa_path_compute_cost"],
    "round-trip property testing against a simulation; small trees enumerated", "Random search to 60 leaves, complete enumeration of small trees.",
)
prop(
    "C17", "Index symbols never collide and renaming preserves meaning",
    "Symbols generated for different numbers differ and are never einsum syntax; unused symbols are unused and distinct. Renaming an equation (to valid characters, or to canonical form) is an injective renaming that keeps punctuation; canonical forms of equations that differ only by "
    "renaming are equal. Implicit output, output shapes and operand shapes follow their definitions.",
    ["inputs"], "all symbol numbers and all equations over any unicode symbols",
    "The symbol space has a million elements with gaps; tests try a few.",
    [R], [("get_symbol, gen_unused_symbols, convert_to_valid_einsum_chars, alpha_canonicalize, find_output_str, find_output_shape, get_shape", R)], ["opt_einsum.get_symbol", "opt_einsum.parser"],
    "exhaustive symbol enumeration and property-based testing", "Complete below 1.1 million symbol numbers; random equations.",
)
prop(
    "C18", "Pairwise BLAS dispatch is sound",
    "A pairwise step is performed by tensordot only if tensordot computes exactly that step: two operands, no repeated index in an operand, every index either summed from both or kept from one, and no broadcasting of summed dimensions; the reported BLAS kind is a truthful classification of it. "
    "Every two-operand equation has the correct value; the calls made match the report and use_blas=False never calls tensordot.",
    ["inputs"], "all two-operand equations and shapes, alone and as steps of larger contractions",
    "Tests list about twenty pairs; the pattern of index positions, broadcasts and output orders is a combinatorial space.",
    [BL, C], [("can_blas", BL), ("tensordot branch of the core contraction", C)], ["opt_einsum.contract", "opt_einsum.blas.can_blas", "PathInfo"],
    "exhaustive enumeration of small equations plus property-based testing with a counting backend", "Complete to rank 3 per operand (all outputs); random to rank 7.",
)
prop(
    "C19", "Libraries with only tensordot and transpose suffice; constants stay on device",
    "If every index of a contraction occurs exactly twice counting the output (no traces), contract and expressions succeed, for every strategy, on any array library that offers just tensordot and transpose (function or method), return that library's arrays and the correct value. "
    "Expressions on converting device backends (cupy, theano, torch) move each constant to the device once, each argument once per call, and return numpy results of the correct value. "
    "On graph backends (theano, tensorflow without eager execution) every call gives the value for its own arguments, whatever arrays the first call was given and inside or outside sharing contexts; symbolic arguments give a symbolic result.",
    ["inputs", "configurations", "histories"], "all einsum-free contractions, strategies and call sequences",
    "No such library is in the test environment; tests use fixed equations on installed ones.",
    [C, BK + "dispatch.py", BK + "cupy.py", BK + "theano.py", BK + "tensorflow.py", BK + "torch.py"], [("einsum-free branch of the core contraction", C), ("get_func / has_einsum / has_tensordot", BK + "dispatch.py"), ("to_cupy, to_theano, to_torch, to_tensorflow and build_expression", BK)],
    ["opt_einsum.contract", "opt_einsum.contract_expression"], "property-based testing with stand-in array libraries that count calls and transfers",
    "Stand-ins implement the documented interface of cupy/theano/tensorflow 1, which are not installed.",
)
prop(
    "C20", "User path finders get the true contraction and their path is executed",
    "A PathOptimizer object or a function registered under a name is called exactly once per search with the index set of each operand, the output set, the broadcast size of every index and the resolved memory limit, and the path it returns is the one reported and executed. "
    "Registered names are case-insensitive and existing names cannot be replaced. Stateful optimizers reused on a different contraction raise ValueError, and on the same contraction never get worse.",
    ["inputs", "histories", "configurations"], "all contractions, entry points, limits and registration histories",
    "Tests register one optimizer and inspect one call.",
    [C, P], [("path selection in contract_path", C), ("register_path_fn, get_path_fn, PathOptimizer", P)], ["opt_einsum.contract_path", "opt_einsum.paths.register_path_fn"],
    "model-based property testing with recording path finders", "Random search.",
    [dict(name="_PATH_OPTIONS", meaning="registered path finders", where=P)],
)
prop(
    "C21", "Overlapping calls from several threads do not disturb each other",
    "When calls from several threads overlap at any point (calls of the same expression, with or without constants, first or later call and any backend; contractions, also the first ones on a new array library; path searches of systematic strategies; sharing contexts), each returns exactly the value (or path) it returns alone, no call fails or blocks forever, "
    "and each thread sees only its own sharing contexts.",
    ["schedules", "histories"], "all interleavings of the calls of several threads",
    "Tests start a few threads once and see one schedule.",
    [C, SH, P], [("order of publishing evaluated constants", C), ("per-thread sharing stack", SH)], ["opt_einsum.contract_expression", "opt_einsum.shared_intermediates", "opt_einsum.contract"],
    "schedule exploration by property-based testing: two or three threads take turns of drawn numbers of executed lines", "Two or three threads, up to nine preemptions per schedule, line granularity.",
    [dict(name="_evaluated_constants / contraction_list", meaning="constants contracted once per backend", where=C)],
)
prop(
    "C22", "Random contraction generators produce what was asked for",
    "rand_equation returns a valid equation with exactly n operands, n*regularity//2 bonds each on exactly two different operands, n_out open indices, an optional index common to all operands and the output, consistent sizes within the requested range, at least one index per operand when there are enough, "
    "and is reproducible from its seed. build_shapes, build_views and build_arrays_from_tuples agree with the equation and sizes.",
    ["inputs"], "all parameter combinations and seeds",
    "Tests use the generators with fixed seeds and do not check their structure.",
    ["opt_einsum/testing.py"], [("rand_equation, build_shapes, build_views", "opt_einsum/testing.py")], ["opt_einsum.testing"],
    "property-based testing of structural invariants", "Random search to 60 operands.",
)
prop(
    "C23", "Heuristic searches keep their documented promises and records",
    "Branching without a cutoff finds the best order among all that form outer products only when no two remaining tensors share an index, for flops and for size (for flops also among those that fit a memory limit); with any options (under a memory limit as well) its recorded best flops and size are the true figures "
    "of the path it returned last, and without a limit are never worse than with one branch or than an earlier call. Cost functions receive true sizes and index sets. Greedy takes no outer product while two tensors share a summable index, and then joins "
    "the smallest parts first. 'auto' and 'auto-hq' return the path of the strategy documented for that number of tensors.",
    ["inputs", "configurations", "histories"], "all networks, branch counts, cutoffs, cost functions, sequences of calls on one optimizer object",
    "Tests compare a few fixed paths; pruning and record keeping only go wrong for particular cost landscapes.",
    [P], [("BranchBound", P), ("ssa_greedy_optimize", P), ("auto, auto_hq", P)], ["opt_einsum.BranchBound", "opt_einsum.paths.greedy", "opt_einsum.paths.auto"],
    "property-based testing against exhaustive search and the documented rules", "Random search; exhaustive oracle to 6 tensors, greedy rules to 30.",
)
prop(
    "C24", "Arrays are kept alive only as long as they are needed",
    "During a contraction an intermediate array is released once it has been consumed; after the call only its result is alive. Neither contract, contract_path reports, optimizers nor expressions keep the arrays they were called with, on the host or on a device; an expression keeps only its "
    "constants and at most one contracted array per constant, until it is dropped; a sharing cache keeps arrays until it is dropped and leaves nothing behind.",
    ["inputs", "histories"], "all contractions, paths, expressions and sequences of calls",
    "Tests compare values only; a retained reference shows as memory use.",
    [C, SH, BK + "cupy.py"], [("dereferencing in the core contraction loop", C), ("ContractExpression", C), ("sharing cache", SH), ("build_expression", BK)],
    ["opt_einsum.contract", "opt_einsum.contract_expression", "opt_einsum.contract_path", "opt_einsum.shared_intermediates"],
    "property-based testing with a lifetime-tracking array library (weak references)", "Random search up to 10 operands; stand-in array libraries.",
    [dict(name="_evaluated_constants", meaning="contracted constants kept by an expression", where=C)],
)
prop(
    "C25", "Failures reach the caller and leave nothing behind",
    "If an array operation, a transfer, a user path finder, a cost function or a random trial raises any exception at any point, that exception reaches the caller unchanged in type (it is neither hidden nor replaced), operands and constants are unchanged, nothing stays alive on its account, and every later use of the same "
    "expression, optimizer object, sharing cache or thread behaves as if the failed call had not been made: correct values, memoisation intact, records of exactly the finished trials, a usable path.",
    ["fault_sequences", "histories"], "all points of failure, exception types and continuations",
    "Tests never let a backend operation or trial fail.",
    [C, SH, RG, P], [("evaluate_constants and error handling of ContractExpression.__call__", C), ("_memoize", SH), ("trial loop of RandomOptimizer", RG), ("state of BranchBound", P)],
    ["opt_einsum.contract", "opt_einsum.contract_expression", "opt_einsum.shared_intermediates", "opt_einsum.RandomGreedy", "opt_einsum.BranchBound"],
    "fault injection at a drawn operation, driven by property-based testing", "Random fault points and histories of up to 4 calls.",
    [dict(name="best, best_progress, costs, sizes", meaning="records of a search", where=P)],
)
prop(
    "C26", "Work grows with the number of tensors as documented",
    "On networks of bounded degree the work (Python-level steps) of greedy, one random-greedy trial, 'auto' for many tensors, the ssa-to-linear conversion and a call of an expression grows linearly with the number of tensors, also if one index is on all tensors or an output index on most; greedy is quadratic in "
    "the number of tensors that share one index; contract_path with greedy and dynamic programming over disconnected parts grow at most quadratically.",
    ["inputs"], "all families of networks of bounded degree, any number of tensors",
    "Tests use small networks and check no work bound.",
    [P, C, RG], [("ssa_greedy_optimize", P), ("dynamic programming per connected part", P), ("contract_path, core contraction loop", C)],
    ["opt_einsum.paths.greedy", "opt_einsum.RandomGreedy", "opt_einsum.DynamicProgramming", "opt_einsum.contract_path"],
    "property-based testing of a metamorphic relation: deterministic work counts at two sizes", "Growth between two sizes (up to 1200 tensors), bound between the stated and the next power.",
)
prop(
    "C27", "Results do not depend on hash seed, assertion flag or installed libraries",
    "In every Python process — under any hash seed, with assertions or docstrings stripped (-O, -OO), and whether or not numpy or any other array library is installed — planning by shapes (the systematic strategies, explicit paths, the report), "
    "parsing, renaming and the symbol helpers give the same answers, seeded random equations are the same, malformed requests are refused, and contracting arrays of a library that does not itself need numpy gives the correct value in that library's arrays. "
    "Expressions (fresh or used, with constants), contraction reports, dynamic programming and random-greedy optimizers that are deep-copied or pickled to another process behave there like the original.",
    ["inputs", "configurations"], "all contractions, hash seeds and sets of installed libraries",
    "The tests run in one process with numpy and all libraries installed and a fixed set of inputs.",
    [C, R, P, BK + "dispatch.py"], [("parsing without numpy", R), ("path finders independent of set order", P), ("backend inference", C), ("optional numpy", BK + "dispatch.py")],
    ["opt_einsum.contract_path", "opt_einsum.contract", "opt_einsum.contract_expression", "opt_einsum.testing.rand_equation", "opt_einsum.parser"],
    "differential property-based testing against child processes that differ in hash seed, flags and installed libraries", "Random search; 4 hash seeds per configuration, 5 configurations.",
)

prop(
    "C28", "Random-greedy draws as documented and its options mean what they say",
    "thermal_chooser (and RandomGreedy.choose_fn with the options of the moment) returns one of the nbranch cheapest candidates whose tensors are both still available, candidate i with probability proportional to exp(-(c_i - c_0)/T) where T is the temperature, "
    "multiplied by max(1, |c_0|) if rel_temperature; at temperature 0 only candidates of the lowest cost; None if none is available. It leaves all other available candidates in the queue, which stays a heap. A choose_fn given to greedy is offered every pair of remaining tensors "
    "that share a summable index, with the cost of its cost function. The first trial of a RandomGreedy is the greedy path for its cost function, with nbranch=1 every trial is; trials are repeatable by number and differ between numbers if several contractions are equally good. "
    "The built-in costs are size12 - size1 - size2, exactly or with slight noise, for integers of any magnitude.",
    ["inputs", "configurations"], "all candidate queues, costs, temperatures, branch counts and networks",
    "The tests only check that random searches beat greedy on a few networks; a wrong distribution or a lost candidate merely makes results worse.",
    [RG, P], [("thermal_chooser", RG), ("RandomGreedy.choose_fn, setup, trial function", RG), ("ssa_greedy_optimize with a chooser, cost functions", P)],
    ["opt_einsum.path_random.thermal_chooser", "opt_einsum.RandomGreedy", "opt_einsum.paths.greedy", "opt_einsum.paths.cost_memory_removed"],
    "property-based testing: sampled frequencies against the documented distribution, invariants of the queue", "Random search; statistical bound of 7 standard deviations.",
)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": [],
        "notes": "All checks are generated-input searches (hypothesis) with explicit oracles; see DESIGN.md. No hooks in /repo; its commits are fixes of genuine defects.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
