From fea3f8416aba4c1bd797d56b65b14638e62ae403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:01 +0000
Subject: [PATCH 01/29] fix: dynamic programming rejects contractions with a
 zero-sized dimension

The naive cost that bounds the cost-cap search became 0 as soon as any
dimension had size 0, so e.g. 'az,ab,bc->c' with z=0 raised 'No contraction
found for given memory_limit' although no limit was given.
---
 opt_einsum/paths.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 5c38c45..df553b2 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1193,7 +1193,9 @@ class DynamicProgramming(PathOptimizer):
         output = frozenset(symbol2int[c] for c in output_)
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, size_dict, 1)
+        # (zero-sized dimensions must not make this bound vanish)
+        naive_flops = len(inputs) * functools.reduce(operator.mul, (max(1, d) for d in size_dict), 1)
+        naive_cost = naive_scale * naive_flops
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0


From a1671e55dd1c03855d79ecc9b742eb8a36f0eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:01 +0000
Subject: [PATCH 02/29] fix: dynamic programming never returns if an
 unsatisfiable memory_limit meets minimize='combo'

The 'combo', 'limit' and custom objectives use an infinite naive cost, which
the growing cost cap could never exceed, so instead of raising 'No contraction
found for given memory_limit' the search looped forever.
---
 opt_einsum/paths.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index df553b2..33e6439 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1282,11 +1282,15 @@ class DynamicProgramming(PathOptimizer):
                                             contract2,
                                         )
 
-                if (cost_cap > naive_cost) and (len(x[-1]) == 0):
+                if (cost_cap >= naive_cost) and (len(x[-1]) == 0):
                     raise RuntimeError("No contraction found for given `memory_limit`.")
 
-                # increase cost cap for next iteration:
-                cost_cap = cost_increment * cost_cap
+                # increase cost cap for next iteration (a last attempt without any
+                # cap decides the objectives which have no finite naive cost):
+                if cost_cap > naive_flops:
+                    cost_cap = float("inf")  # type: ignore
+                else:
+                    cost_cap = cost_increment * cost_cap
 
             i, cost, contraction = list(x[-1].values())[0]
             subgraph_contractions.append(contraction)
-- 
2.43.0


From 6661045816eab36b01a2fa72f6a6d5900a47e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:35 +0000
Subject: [PATCH 03/29] fix: intermediate shape is wrong when a size-1
 dimension is broadcast against size 0

find_output_shape took the maximum, i.e. 1 instead of 0, so the following step
could be sent to tensordot with mismatching shapes: contract('a,a,a->',
ones(0), ones(1), ones(1)) raised ValueError.
---
 opt_einsum/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 316a421..f4aa508 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -166,7 +166,14 @@ def find_output_shape(inputs: List[str], shapes: List[TensorShapeType], output:
     >>> oe.parser.find_output_shape(["a", "a"], [(4, ), (1, )], "a")
     (4,)
     """
-    return tuple(max(shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0) for c in output)
+    # a dimension of size 1 is broadcast up to any other size, including 0
+    return tuple(
+        max(
+            (shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0),
+            key=lambda d: (d != 1, d),
+        )
+        for c in output
+    )
 
 
 _BaseTypes = (bool, int, float, complex, str, bytes)
-- 
2.43.0


From fef4bec233e61d47fc2068efa3d807a3fabc25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:16 +0000
Subject: [PATCH 04/29] fix: 'optimal' and branch searches reuse the wrong
 contraction result for equal index sets

The result of contracting two tensors depends on the remaining tensors, but was
cached under the two index sets only. With duplicate index sets the search used
wrong FLOP counts and intermediate sizes: for ',a,a,a->' (a=2) 'optimal'
returned a path of 8 FLOPs although 7 is possible.
---
 opt_einsum/paths.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 33e6439..0097ed8 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -231,9 +231,11 @@ def optimal(
     best_flops = {"flops": float("inf")}
     best_ssa_path = {"ssa_path": (tuple(range(len(inputs))),)}
     size_cache: Dict[FrozenSet[str], int] = {}
-    result_cache: Dict[Tuple[ArrayIndexType, ArrayIndexType], Tuple[FrozenSet[str], int]] = {}
+    # the outcome of a contraction depends on which tensors are left, not just on the
+    # indices of the pair, so label each (intermediate) tensor by its set of inputs
+    result_cache: Dict[Tuple[int, int], Tuple[FrozenSet[str], int]] = {}
 
-    def _optimal_iterate(path, remaining, inputs, flops):
+    def _optimal_iterate(path, remaining, inputs, leaves, flops):
         # reached end of path (only ever get here if flops is best found so far)
         if len(remaining) == 1:
             best_flops["flops"] = flops
@@ -244,7 +246,7 @@ def optimal(
         for i, j in itertools.combinations(remaining, 2):
             if i > j:
                 i, j = j, i
-            key = (inputs[i], inputs[j])
+            key = (leaves[i], leaves[j])
             try:
                 k12, flops12 = result_cache[key]
             except KeyError:
@@ -274,11 +276,18 @@ def optimal(
             _optimal_iterate(
                 path=path + ((i, j),),
                 inputs=inputs + (k12,),
+                leaves=leaves + (leaves[i] | leaves[j],),
                 remaining=remaining - {i, j} | {len(inputs)},
                 flops=new_flops,
             )
 
-    _optimal_iterate(path=(), inputs=inputs_set, remaining=set(range(len(inputs))), flops=0)
+    _optimal_iterate(
+        path=(),
+        inputs=inputs_set,
+        leaves=tuple(1 << i for i in range(len(inputs))),
+        remaining=set(range(len(inputs))),
+        flops=0,
+    )
 
     return ssa_to_linear(best_ssa_path["ssa_path"])
 
@@ -400,9 +409,10 @@ class BranchBound(PathOptimizer):
         output: FrozenSet[str] = frozenset(output_)
 
         size_cache = {k: compute_size_by_dict(k, size_dict) for k in inputs}
-        result_cache: Dict[Tuple[FrozenSet[str], FrozenSet[str]], Tuple[FrozenSet[str], int]] = {}
+        # label each (intermediate) tensor by its set of inputs, see `optimal`
+        result_cache: Dict[Tuple[int, int], Tuple[FrozenSet[str], int]] = {}
 
-        def _branch_iterate(path, inputs, remaining, flops, size):
+        def _branch_iterate(path, inputs, leaves, remaining, flops, size):
             # reached end of path (only ever get here if flops is best found so far)
             if len(remaining) == 1:
                 self.best["size"] = size
@@ -412,10 +422,11 @@ class BranchBound(PathOptimizer):
 
             def _assess_candidate(k1: FrozenSet[str], k2: FrozenSet[str], i: int, j: int) -> Any:
                 # find resulting indices and flops
+                key = (leaves[i], leaves[j])
                 try:
-                    k12, flops12 = result_cache[k1, k2]
+                    k12, flops12 = result_cache[key]
                 except KeyError:
-                    k12, flops12 = result_cache[k1, k2] = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                    k12, flops12 = result_cache[key] = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
 
                 try:
                     size12 = size_cache[k12]
@@ -483,13 +494,21 @@ class BranchBound(PathOptimizer):
                 _branch_iterate(
                     path=path + ((i, j),),
                     inputs=inputs + (k12,),
+                    leaves=leaves + (leaves[i] | leaves[j],),
                     remaining=(remaining - {i, j}) | {len(inputs)},
                     flops=new_flops,
                     size=new_size,
                 )
                 bi += 1
 
-        _branch_iterate(path=(), inputs=inputs, remaining=set(range(len(inputs))), flops=0, size=0)
+        _branch_iterate(
+            path=(),
+            inputs=inputs,
+            leaves=tuple(1 << i for i in range(len(inputs))),
+            remaining=set(range(len(inputs))),
+            flops=0,
+            size=0,
+        )
 
         return self.path
 
-- 
2.43.0


From 5bb613ddb6715a73c4128e6a6d2912dbbb8c2738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:57 +0000
Subject: [PATCH 05/29] fix: numpy to backend conversions are mixed up between
 arrays inside shared_intermediates

The conversion cache is keyed by the id of the numpy array but did not keep
that array alive, so a later array reusing the id got the tensor of the dead
one: expressions called with backend='tensorflow' (or with jax constants) inside
a sharing context silently returned results of earlier inputs.
---
 opt_einsum/sharing.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index c9ee583..dc30995 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -183,6 +183,23 @@ def einsum_cache_wrap(einsum: Any) -> Any:
     return cached_einsum
 
 
+class _SavedRef:
+    """A cache key identifying a tensor by its id, that also keeps the tensor
+    alive (and hence its id from being recycled) for as long as it is in the cache.
+    """
+
+    __slots__ = ("tensor",)
+
+    def __init__(self, tensor: ArrayType):
+        self.tensor = tensor
+
+    def __hash__(self) -> int:
+        return hash(id(self.tensor))
+
+    def __eq__(self, other: Any) -> bool:
+        return isinstance(other, _SavedRef) and self.tensor is other.tensor
+
+
 def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any:
     """Decorates an ``to_backend()`` implementation to be memoized inside a
     :func:`shared_intermediates` context (e.g. ``to_cupy``, ``to_torch``).
@@ -199,7 +216,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array, constant=constant)
 
             # hash by id
-            key = to_backend.__name__, id(array), constant
+            key = to_backend.__name__, _SavedRef(array), constant
             return _memoize(key, to_backend, array, constant=constant)
 
     else:
@@ -210,7 +227,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array)
 
             # hash by id
-            key = to_backend.__name__, id(array)
+            key = to_backend.__name__, _SavedRef(array)
             return _memoize(key, to_backend, array)
 
     return cached_to_backend
-- 
2.43.0


From 972bc023fd22eb802a86b807cfe9f3b83394cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:53 +0000
Subject: [PATCH 06/29] fix: a zero-dimensional out array raises IndexError if
 the last step is a tensordot

---
 opt_einsum/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 9ea929f..6e52cb3 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -692,7 +692,7 @@ def _core_contract(
                 new_view = _transpose(new_view, axes=transpose, backend=backend)
 
                 if handle_out:
-                    out[:] = new_view  # type: ignore
+                    out[()] = new_view  # type: ignore
 
         else:
             # Call einsum
-- 
2.43.0


From bb80b1579e80af21c745b36f6932f1b4a1df98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:53 +0000
Subject: [PATCH 07/29] fix: out and einsum keyword arguments are ignored
 inside shared_intermediates

---
 opt_einsum/sharing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index dc30995..4f058a7 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -165,7 +165,11 @@ def einsum_cache_wrap(einsum: Any) -> Any:
 
         # hash modulo commutativity by computing a canonical ordering and names
         backend = kwargs.pop("backend", "numpy")
-        equation = args[0]
+
+        # an explicit output array or dtype etc. is not part of the key
+        if any(v is not None for v in kwargs.values()):
+            return einsum(*args, backend=backend, **kwargs)
+
         inputs, output, operands = parse_einsum_input(args)
         inputs = inputs.split(",")
 
@@ -178,7 +182,7 @@ def einsum_cache_wrap(einsum: Any) -> Any:
         canonical_equation = alpha_canonicalize(canonical_inputs + "->" + output)
 
         key = "einsum", backend, canonical_equation, canonical_ids
-        return _memoize(key, einsum, equation, *operands, backend=backend)
+        return _memoize(key, einsum, *args, backend=backend)
 
     return cached_einsum
 
-- 
2.43.0


From 75f8bf2d12a32462248ec32e8c604c9f8b9b5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:53 +0000
Subject: [PATCH 08/29] fix: einsum keyword arguments such as dtype raise
 TypeError if a step uses tensordot

---
 opt_einsum/contract.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 6e52cb3..1581b29 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -648,6 +648,9 @@ def _core_contract(
     # try and do as much as possible without einsum if not available
     no_einsum = not backends.has_einsum(backend)
 
+    # options such as dtype are understood by einsum only
+    einsum_only = bool(_filter_einsum_defaults(kwargs))  # type: ignore
+
     # Start contraction loop
     for num, contraction in enumerate(contraction_list):
         inds, idx_rm, einsum_str, _, blas_flag = contraction
@@ -663,7 +666,7 @@ def _core_contract(
         handle_out = specified_out and ((num + 1) == len(contraction_list))
 
         # Call tensordot (check if should prefer einsum, but only if available)
-        if blas_flag and ("EINSUM" not in blas_flag or no_einsum):  # type: ignore
+        if blas_flag and not einsum_only and ("EINSUM" not in blas_flag or no_einsum):  # type: ignore
             # Checks have already been handled
             input_str, results_index = einsum_str.split("->")
             input_left, input_right = input_str.split(",")
@@ -684,7 +687,7 @@ def _core_contract(
                 axes = ((), ())
 
             # Contract!
-            new_view = _tensordot(*tmp_operands, axes=axes, backend=backend, **kwargs)
+            new_view = _tensordot(*tmp_operands, axes=axes, backend=backend)
 
             # Build a new view if needed
             if (tensor_result != results_index) or handle_out:
-- 
2.43.0


From 3160814a057a220a0297d67db848ed37cd246d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:53 +0000
Subject: [PATCH 09/29] fix: contract(optimize=False) ignores the backend and
 does not parse its input

---
 opt_einsum/contract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 1581b29..3b07582 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -581,7 +581,9 @@ def contract(
 
     # If no optimization, run pure einsum
     if optimize is False:
-        return _einsum(*operands_list, out=out, **kwargs)
+        inputs, output, parsed_operands = parser.parse_einsum_input(operands_list)
+        backend = parse_backend(parsed_operands, backend)
+        return _einsum(f"{inputs}->{output}", *parsed_operands, backend=backend, out=out, **kwargs)
 
     # Grab non-einsum kwargs
     gen_expression = kwargs.pop("_gen_expression", False)
-- 
2.43.0


From b8614823947dde2933fdd21e5cbaf12c0accaa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:53 +0000
Subject: [PATCH 10/29] fix: the torch backend does not write an einsum result
 to out

---
 opt_einsum/backends/torch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index f7f01f2..6f5af0c 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -45,7 +45,14 @@ def einsum(equation, *operands, **kwargs):
     equation = convert_to_valid_einsum_chars(equation)
 
     torch, _ = _get_torch_and_device()
-    return torch.einsum(equation, operands)
+    result = torch.einsum(equation, operands)
+
+    out = kwargs.get("out", None)
+    if out is not None:
+        out[()] = result
+        return out
+
+    return result
 
 
 def tensordot(x, y, axes=2):
-- 
2.43.0


From b3a83690724ea837973389030732ab08a659f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:08 +0000
Subject: [PATCH 11/29] fix: convert_to_valid_einsum_chars replaces the
 ellipsis

---
 opt_einsum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index f4aa508..ce4d116 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -109,7 +109,7 @@ def convert_to_valid_einsum_chars(einsum_str: str) -> str:
     >>> oe.parser.convert_to_valid_einsum_chars("Ĥěļļö")
     'cbdda'
     """
-    symbols = sorted(set(einsum_str) - set(",->"))
+    symbols = sorted(set(einsum_str) - set(",->."))
     replacer = {x: get_symbol(i) for i, x in enumerate(symbols)}
     return "".join(replacer.get(x, x) for x in einsum_str)
 
-- 
2.43.0


From a3a6ff769c194bfc95ffe1a6c7bb23d590d2c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:08 +0000
Subject: [PATCH 12/29] fix: the object backend does not broadcast dimensions
 of size 1

---
 opt_einsum/backends/object_arrays.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/backends/object_arrays.py b/opt_einsum/backends/object_arrays.py
index 8954a18..a603705 100644
--- a/opt_einsum/backends/object_arrays.py
+++ b/opt_einsum/backends/object_arrays.py
@@ -36,7 +36,9 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
     sizes = {}
     for term, array in zip(inputs, arrays):
         for k, d in zip(term, array.shape):
-            sizes[k] = d
+            # dimensions of size 1 are broadcast
+            if sizes.get(k, 1) == 1:
+                sizes[k] = d
 
     out_size = tuple(sizes[k] for k in output)
     out = np.empty(out_size, dtype=object)
@@ -50,7 +52,10 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
         def gen_inner_sum():
             for coo_i in np.ndindex(*inner_size):
                 coord.update(dict(zip(inner, coo_i)))
-                locs = (tuple(coord[k] for k in term) for term in inputs)
+                locs = (
+                    tuple(coord[k] if d != 1 else 0 for k, d in zip(term, array.shape))
+                    for term, array in zip(inputs, arrays)
+                )
                 elements = (array[loc] for array, loc in zip(arrays, locs))
                 yield functools.reduce(operator.mul, elements)
 
-- 
2.43.0


From 6da6a3a89eb5d4fdd2042eaaf855a4fe3cc4d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:08 +0000
Subject: [PATCH 13/29] fix: interleaved input with more than 26 labels
 permutes the implicit output

---
 opt_einsum/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index ce4d116..bbd11f1 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -277,7 +277,9 @@ def convert_interleaved_input(operands: Sequence[Any]) -> Tuple[str, Tuple[Any,
         symbol_set.discard(Ellipsis)
 
         # build the map based on sorted user symbols, retaining the order we lost in the `set`
-        symbol_map = {symbol: get_symbol(idx) for idx, symbol in enumerate(sorted(symbol_set))}
+        # (note that `get_symbol` runs through lower case before upper case letters)
+        symbols = sorted(get_symbol(idx) for idx in range(len(symbol_set)))
+        symbol_map = dict(zip(sorted(symbol_set), symbols))
 
     except TypeError:  # unhashable or uncomparable object
         raise TypeError(
-- 
2.43.0


From b0d750831435f180c5b5ddda6885f8b7535bf31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:08 +0000
Subject: [PATCH 14/29] fix: parallel random optimizers skip trials beyond
 pre_dispatch

---
 opt_einsum/path_random.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 1376822..579e81e 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -135,10 +135,9 @@ class RandomOptimizer(paths.PathOptimizer):
         # the idea here is to submit at least ``pre_dispatch`` jobs *before* we
         # yield any results, then do both in tandem, before draining the queue
         for r in repeats:
-            if len(self._futures) < self.pre_dispatch:
-                self._futures.append(self._executor.submit(trial_fn, r, *args))
-                continue
-            yield self._futures.popleft().result()
+            if len(self._futures) >= self.pre_dispatch:
+                yield self._futures.popleft().result()
+            self._futures.append(self._executor.submit(trial_fn, r, *args))
 
         while self._futures:
             yield self._futures.popleft().result()
-- 
2.43.0


From b19276d80ea6e836d88b4e270254317cf0c99f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:23 +0000
Subject: [PATCH 15/29] fix: the documented
 BranchBound(cutoff_flops_factor=None) raises TypeError

---
 opt_einsum/paths.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 0097ed8..c16b684 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -340,7 +340,7 @@ class BranchBound(PathOptimizer):
     def __init__(
         self,
         nbranch: Optional[int] = None,
-        cutoff_flops_factor: int = 4,
+        cutoff_flops_factor: Optional[int] = 4,
         minimize: str = "flops",
         cost_fn: str = "memory-removed",
     ):
@@ -355,7 +355,8 @@ class BranchBound(PathOptimizer):
                 each step. Defaults to None.
             cutoff_flops_factor: If at any point, a path is doing this much worse than the best path
                 found so far was, terminate it. The larger this is made, the more paths
-                will be fully explored and the slower the algorithm. Defaults to 4.
+                will be fully explored and the slower the algorithm. If None, never
+                terminate a path this way. Defaults to 4.
             minimize: Whether to optimize the path with regard primarily to the total
                 estimated flop-count, or the size of the largest intermediate. The
                 option not chosen will still be used as a secondary criterion.
@@ -444,7 +445,9 @@ class BranchBound(PathOptimizer):
                 if new_flops < self.best_progress[len(inputs)]:
                     self.best_progress[len(inputs)] = new_flops
                 # sieve based on current progress relative to best
-                elif new_flops > self.cutoff_flops_factor * self.best_progress[len(inputs)]:
+                elif (self.cutoff_flops_factor is not None) and (
+                    new_flops > self.cutoff_flops_factor * self.best_progress[len(inputs)]
+                ):
                     return None
 
                 # sieve based on memory limit
@@ -519,7 +522,7 @@ def branch(
     size_dict: Dict[str, int],
     memory_limit: Optional[int] = None,
     nbranch: Optional[int] = None,
-    cutoff_flops_factor: int = 4,
+    cutoff_flops_factor: Optional[int] = 4,
     minimize: str = "flops",
     cost_fn: str = "memory-removed",
 ) -> PathType:
-- 
2.43.0


From be904c124b7096b332f85051ad62625c31e4f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 16/29] fix: first calls of an expression with constants race
 between threads

---
 opt_einsum/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 3b07582..ba5383e 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -786,8 +786,8 @@ class ContractExpression:
         except KeyError:
             new_ops, new_contraction_list = self(*tmp_const_ops, backend=backend, evaluate_constants=True)
 
-        self._evaluated_constants[backend] = new_ops
         self.contraction_list = new_contraction_list
+        self._evaluated_constants[backend] = new_ops
 
     def _get_evaluated_constants(self, backend: str) -> List[Optional[ArrayType]]:
         """Retrieve or generate the cached list of constant operators (mixed
-- 
2.43.0


From 7c39480eeb2535fec3804b9003659e80e2e23b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:17 +0000
Subject: [PATCH 17/29] fix: register_path_fn silently replaces an existing
 optimizer if the name differs in case

---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index c16b684..8c8ac05 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1407,10 +1407,11 @@ _PATH_OPTIONS: Dict[str, PathSearchFunctionType] = {
 
 def register_path_fn(name: str, fn: PathSearchFunctionType) -> None:
     """Add path finding function ``fn`` as an option with ``name``."""
+    name = name.lower()
     if name in _PATH_OPTIONS:
         raise KeyError(f"Path optimizer '{name}' already exists.")
 
-    _PATH_OPTIONS[name.lower()] = fn
+    _PATH_OPTIONS[name] = fn
 
 
 def get_path_fn(path_type: str) -> PathSearchFunctionType:
-- 
2.43.0


From e3ab20e06fa53903fcd87dcdfadbffd0b1cbc886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:57 +0000
Subject: [PATCH 18/29] fix: an incomplete explicit path silently drops
 operands from the result

---
 opt_einsum/contract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index ba5383e..9226c95 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -408,6 +408,10 @@ def contract_path(
         contraction = (contract_inds, idx_removed, einsum_str, remaining, do_blas)
         contraction_list.append(contraction)
 
+    # An incomplete path would leave some of the operands out of the result
+    if len(input_list) != 1:
+        raise ValueError(f"Invalid contraction path {path_tuple}: {len(input_list)} terms are left to be contracted.")
+
     opt_cost = sum(cost_list)
 
     if einsum_call_arg:
-- 
2.43.0


From 26aa2f92e21f3aa9453fa0b0b1ec16ae304cf0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:37 +0000
Subject: [PATCH 19/29] fix: the torch backend cannot transpose a
 zero-dimensional result

---
 opt_einsum/backends/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index 6f5af0c..4b0d159 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -35,7 +35,7 @@ def _get_torch_and_device():
 
 def transpose(a, axes):
     """Normal torch transpose is only valid for 2D matrices."""
-    return a.permute(*axes)
+    return a.permute(tuple(axes))
 
 
 def einsum(equation, *operands, **kwargs):
-- 
2.43.0


From 6f2dd1e355075e9ccf3374e09aa20d42f55dd625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:14 +0000
Subject: [PATCH 20/29] fix: an expression hides a KeyError raised while its
 constants are evaluated

---
 opt_einsum/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 9226c95..dcfa442 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -785,9 +785,9 @@ class ContractExpression:
         backend = parse_backend(tmp_const_ops, backend)
 
         # get the new list of operands with constant operations performed, and remaining contractions
-        try:
+        if backends.has_backend(backend):
             new_ops, new_contraction_list = backends.evaluate_constants(backend, tmp_const_ops, self)
-        except KeyError:
+        else:
             new_ops, new_contraction_list = self(*tmp_const_ops, backend=backend, evaluate_constants=True)
 
         self.contraction_list = new_contraction_list
-- 
2.43.0


From ed9e366e2b9aa3d2bc24a5dbb9df4dff3aa5d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:14 +0000
Subject: [PATCH 21/29] fix: BranchBound has no path to return after a search
 that was interrupted by an exception

---
 opt_einsum/paths.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 8c8ac05..2ca6257 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -406,6 +406,10 @@ class BranchBound(PathOptimizer):
         """
         self._check_args_against_first_call(inputs_, output_, size_dict)
 
+        # progress of an earlier call that failed before finding any path is no guide
+        if "ssa_path" not in self.best:
+            self.best_progress.clear()
+
         inputs: Tuple[FrozenSet[str]] = tuple(map(frozenset, inputs_))  # type: ignore
         output: FrozenSet[str] = frozenset(output_)
 
-- 
2.43.0


From 252a59750bdd78698104ab93757609d1b8416c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:31 +0000
Subject: [PATCH 22/29] fix: branching search exceeds the recursion limit for
 many tensors

---
 opt_einsum/paths.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 2ca6257..7bfb457 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -498,7 +498,7 @@ class BranchBound(PathOptimizer):
             bi = 0
             while (self.nbranch is None or bi < self.nbranch) and candidates:
                 _, _, new_flops, new_size, (i, j), k12 = heapq.heappop(candidates)
-                _branch_iterate(
+                yield _branch_iterate(
                     path=path + ((i, j),),
                     inputs=inputs + (k12,),
                     leaves=leaves + (leaves[i] | leaves[j],),
@@ -508,14 +508,23 @@ class BranchBound(PathOptimizer):
                 )
                 bi += 1
 
-        _branch_iterate(
-            path=(),
-            inputs=inputs,
-            leaves=tuple(1 << i for i in range(len(inputs))),
-            remaining=set(range(len(inputs))),
-            flops=0,
-            size=0,
-        )
+        # run the recursion on an explicit stack, as it is as deep as there are inputs
+        stack = [
+            _branch_iterate(
+                path=(),
+                inputs=inputs,
+                leaves=tuple(1 << i for i in range(len(inputs))),
+                remaining=set(range(len(inputs))),
+                flops=0,
+                size=0,
+            )
+        ]
+        while stack:
+            deeper = next(stack[-1], None)
+            if deeper is None:
+                stack.pop()
+            else:
+                stack.append(deeper)
 
         return self.path
 
-- 
2.43.0


From 7ba8ee457a821c9dbc8166ababb86046412ae248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 23/29] fix: random-greedy fails when costs exceed the range of
 floats

---
 opt_einsum/path_random.py | 11 ++++++++---
 opt_einsum/paths.py       |  8 +++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 579e81e..af780d3 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -6,6 +6,7 @@ import math
 import time
 from collections import deque
 from decimal import Decimal
+from fractions import Fraction
 from random import choices as random_choices
 from random import seed as random_seed
 from typing import Any, Dict, Generator, Iterable, List, Optional, Tuple, Union
@@ -255,15 +256,19 @@ def thermal_chooser(queue, remaining, nbranch=8, temperature=1, rel_temperature=
     cmin = costs[0]
 
     # adjust by the overall scale to account for fluctuating absolute costs
-    if rel_temperature:
-        temperature *= max(1, abs(cmin))
+    scale = max(1, abs(cmin)) if rel_temperature else 1
 
     # compute relative probability for each potential contraction
     if temperature == 0.0:
         energies = [1 if c == cmin else 0 for c in costs]
     else:
         # shift by cmin for numerical reasons
-        energies = [math.exp(-(c - cmin) / temperature) for c in costs]
+        try:
+            energies = [math.exp(-(c - cmin) / (temperature * scale)) for c in costs]
+        except OverflowError:
+            # costs beyond the range of floats (the weight of any ratio above 1000 vanishes)
+            unit = Fraction(temperature) * Fraction(scale)
+            energies = [math.exp(-min((Fraction(c) - Fraction(cmin)) / unit, 1000)) for c in costs]
 
     # randomly choose a contraction based on energies
     (chosen,) = random_choices(range(n), weights=energies)
diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 7bfb457..5a02538 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -8,6 +8,7 @@ import operator
 import random
 import re
 from collections import Counter, defaultdict
+from fractions import Fraction
 from typing import Any, Callable, Dict, FrozenSet, Generator, List, Optional, Sequence, Set, Tuple, Union
 from typing import Counter as CounterType
 
@@ -327,7 +328,12 @@ def cost_memory_removed_jitter(size12: int, size1: int, size2: int, k12: int, k1
     """Like memory-removed, but with a slight amount of noise that breaks ties
     and thus jumbles the contractions a bit.
     """
-    return random.gauss(1.0, 0.01) * (size12 - size1 - size2)
+    noise = random.gauss(1.0, 0.01)
+    cost = size12 - size1 - size2
+    if abs(cost) < 1e300:
+        return noise * cost
+    # beyond the range of floats
+    return int(Fraction(noise) * cost)
 
 
 _COST_FNS = {
-- 
2.43.0


From a2301bd21be8c95763f9b2450d0970422dfd82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:26 +0000
Subject: [PATCH 24/29] fix: dynamic programming fails for 'combo' and 'limit'
 when costs exceed the range of floats

---
 opt_einsum/paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 5a02538..f9b2861 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1098,7 +1098,7 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
         raise ValueError(f"Couldn't parse `minimize` value: {minimize}.")
 
     minimize, custom_factor = match.groups()
-    factor = float(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
+    factor = int(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
     if minimize == "combo":
         return functools.partial(_dp_compare_combo, factor=factor, combine=sum), float("inf")
     elif minimize == "limit":
@@ -1236,7 +1236,7 @@ class DynamicProgramming(PathOptimizer):
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
         # (zero-sized dimensions must not make this bound vanish)
         naive_flops = len(inputs) * functools.reduce(operator.mul, (max(1, d) for d in size_dict), 1)
-        naive_cost = naive_scale * naive_flops
+        naive_cost = naive_flops if naive_scale == 1 else float("inf")
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0


From 186369cfdec38d8b337bd9a95595a1ed323afaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:26 +0000
Subject: [PATCH 25/29] fix: stateful optimizers do not notice a contraction
 that was modified in place

---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index f9b2861..fcc3065 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -60,7 +60,8 @@ class PathOptimizer:
         """Utility that stateful optimizers can use to ensure they are not
         called with different contractions across separate runs.
         """
-        args = (inputs, output, size_dict)
+        # (keep copies, as the caller may modify its own objects between calls)
+        args = (list(map(frozenset, inputs)), frozenset(output), dict(size_dict))
         if not hasattr(self, "_first_call_args"):
             # simply set the attribute as currently there is no global PathOptimizer init
             self._first_call_args = args
-- 
2.43.0


From 26877e547ab1a1c2acf6d8345a2316d4eeb58c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:14 +0000
Subject: [PATCH 26/29] fix: dynamic programming does not end for an explicit
 cost_cap of zero

---
 opt_einsum/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index fcc3065..4d7b0c7 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1332,7 +1332,7 @@ class DynamicProgramming(PathOptimizer):
                 if cost_cap > naive_flops:
                     cost_cap = float("inf")  # type: ignore
                 else:
-                    cost_cap = cost_increment * cost_cap
+                    cost_cap = cost_increment * max(cost_cap, 1)
 
             i, cost, contraction = list(x[-1].values())[0]
             subgraph_contractions.append(contraction)
-- 
2.43.0


From 7d69f55a756d13195ef9bcec00c9b2635eb80b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:51 +0000
Subject: [PATCH 27/29] fix: graph backends mix up arguments if an expression
 is first called with the same array twice while sharing

---
 opt_einsum/backends/tensorflow.py | 7 ++++++-
 opt_einsum/backends/theano.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/backends/tensorflow.py b/opt_einsum/backends/tensorflow.py
index a6544f8..e4905ef 100644
--- a/opt_einsum/backends/tensorflow.py
+++ b/opt_einsum/backends/tensorflow.py
@@ -59,7 +59,12 @@ def build_expression_graph(arrays, expr):
     """Build a tensorflow function based on ``arrays`` and ``expr``."""
     tf, _, _ = _get_tensorflow_and_device()
 
-    placeholders = [to_tensorflow(array) for array in arrays]
+    # each argument needs its own placeholder, even if the same array is given twice while sharing
+    placeholders = []
+    for array in arrays:
+        x = to_tensorflow(array)
+        placeholders.append(to_tensorflow.__wrapped__(array) if any(x is p for p in placeholders) else x)
+
     graph = expr._contract(placeholders, backend="tensorflow")
 
     def tensorflow_contract(*arrays):
diff --git a/opt_einsum/backends/theano.py b/opt_einsum/backends/theano.py
index 5b54aab..8d6ceec 100644
--- a/opt_einsum/backends/theano.py
+++ b/opt_einsum/backends/theano.py
@@ -24,7 +24,12 @@ def build_expression(arrays, expr):
     """Build a theano function based on ``arrays`` and ``expr``."""
     import theano
 
-    in_vars = [to_theano(array) for array in arrays]
+    # each argument needs its own variable, even if the same array is given twice while sharing
+    in_vars = []
+    for array in arrays:
+        x = to_theano(array)
+        in_vars.append(to_theano.__wrapped__(array) if any(x is v for v in in_vars) else x)
+
     out_var = expr._contract(in_vars, backend="theano")
 
     # don't supply constants to graph
-- 
2.43.0


From 18dff46d131842b7cc55f8e727991901b714304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:20 +0000
Subject: [PATCH 28/29] fix: empty nested lists are refused as operands

---
 opt_einsum/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index bbd11f1..b79b5f2 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -193,6 +193,8 @@ def get_shape(x: Any) -> TensorShapeType:
         shape = []
         while isinstance(x, Sequence) and not isinstance(x, _BaseTypes):
             shape.append(len(x))
+            if not x:
+                break
             x = x[0]
         return tuple(shape)
     else:
-- 
2.43.0


From e3a41e3d8a057fb8695a4d6d0eede432c6709401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:11 +0000
Subject: [PATCH 29/29] fix: BranchBound keeps a path of an earlier call under
 a stricter memory limit

---
 opt_einsum/paths.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 4d7b0c7..ae199f1 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -413,6 +413,12 @@ class BranchBound(PathOptimizer):
         """
         self._check_args_against_first_call(inputs_, output_, size_dict)
 
+        # the best path of an earlier call need not obey a stricter memory limit
+        limit: Any = float("inf") if memory_limit in _UNLIMITED_MEM else memory_limit
+        if limit < getattr(self, "_best_limit", limit):
+            self.best = {"flops": float("inf"), "size": float("inf")}
+        self._best_limit = limit
+
         # progress of an earlier call that failed before finding any path is no guide
         if "ssa_path" not in self.best:
             self.best_progress.clear()
-- 
2.43.0

