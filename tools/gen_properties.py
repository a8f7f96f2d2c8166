#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that ids, anchors and texts stay consistent)."""
import json, os
I = "include/noarr/structures/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": [I + f for f in files],
                    **({"state": state} if state else {}),
                    "mechanism": [{"name": n, "where": I + w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

prop("C01", "Distinct valid indices occupy disjoint bytes inside the structure",
  "For every structure built from the library's building blocks and every two different valid full indices, the bytes of the two addressed elements do not overlap (unless the indices differ only in broadcast dimensions, in which case they address the same element). Every addressed element lies completely inside the number of bytes the structure reports as its size.",
  ["inputs", "configurations"], "all compositions of the listed structures x all lengths/parameters x all pairs of valid indices",
  "Tests evaluate offset at a handful of literal indices of a few structures; overlap and out-of-bounds are statements about all pairs of indices for all lengths.",
  ["structs/layouts.hpp", "structs/bcast.hpp", "structs/blocks.hpp", "structs/views.hpp", "structs/slice.hpp", "structs/setters.hpp", "structs/zcurve.hpp", "extra/funcs.hpp", "base/structs_common.hpp"],
  [("vector/tuple offset and size computation", "structs/layouts.hpp"), ("offset_of recursion", "base/structs_common.hpp")],
  ["structure | offset(state)", "structure | get_size()"])
prop("C02", "Offsets, sizes and lengths equal the documented layout formula",
  "The offset of an element is the sum over nesting levels of index times the size of one inner sub-structure (outermost dimension added last), a tuple field starts after the fields before it, broadcast adds nothing; the size is the product/sum of the same terms, and each dimension's length is the one it was given. This holds for all 64-bit lengths and indices, whether the lengths live in the structure or are passed separately in the state, and for whole sub-structures as well as scalar elements.",
  ["inputs", "configurations"], "all nestings of scalar/vector/array/tuple/bcast x all 64-bit lengths and indices",
  "Tests check a few constants; truncation, overflow or a wrong operand shows only at particular magnitudes or nestings.",
  ["structs/layouts.hpp", "structs/scalar.hpp", "structs/bcast.hpp", "structs/setters.hpp", "extra/funcs.hpp", "base/structs_common.hpp", "base/utility.hpp"],
  [("vector_t/tuple_t strict_offset_of, size", "structs/layouts.hpp"), ("offset/get_size/get_length functions", "extra/funcs.hpp")],
  ["offset", "get_size", "get_length", "get_at"])
prop("C03", "Views address exactly the documented element of the original structure",
  "Fixing, slicing, spanning, shifting, stepping, reversing, renaming, joining, hoisting, reordering or setting the length of a dimension yields a structure whose element at every valid index is the documented element of the original (index plus start, start plus index times stride, length minus one minus index, same index in both joined dimensions, ...). Each remaining dimension reports exactly the number of indices that are valid there, other dimensions are unaffected, and the reported size in bytes stays that of the original.",
  ["inputs", "configurations"], "all views and compositions of views x all lengths, starts, strides, ends satisfying the documented preconditions x all valid indices",
  "Tests try a few literal starts/strides; off-by-one in lengths or mapping appears only for particular residues (e.g. length not a multiple of stride).",
  ["structs/views.hpp", "structs/slice.hpp", "structs/setters.hpp", "structs/bcast.hpp"],
  [("sub_state/length of each view", "structs/slice.hpp"), ("rename/join/hoist", "structs/views.hpp"), ("fix/set_length", "structs/setters.hpp")],
  ["offset", "get_length", "get_size"])
prop("C04", "Blocking and merging dimensions is a bijection on indices",
  "Splitting a dimension into blocks (exact, with a statically separated border, or with a dynamic is-present dimension) makes every original index reachable through exactly one combination of the new indices and reaches nothing else, and block lengths are reported accordingly. Merging a major and a minor dimension is the inverse: index i addresses major i / minor-length, minor i % minor-length, and the merged length is the product.",
  ["inputs", "configurations"], "all lengths x all block lengths (divisible where documented, arbitrary otherwise) x all indices",
  "Tests use a few (length, block) pairs; the remainder/border cases depend on residues.",
  ["structs/blocks.hpp", "extra/shortcuts.hpp"],
  [("into_blocks_t, into_blocks_static_t, into_blocks_dynamic_t, merge_blocks_t sub_state and length", "structs/blocks.hpp")],
  ["offset", "get_length", "traverser"])
prop("C05", "Z-curve merging visits each index tuple exactly once in Morton order",
  "Merging dimensions along a z-curve maps the single new index, over its whole reported length, bijectively onto the tuples of original indices, for every combination of lengths that respects the declared maximum and alignment. When the lengths are equal powers of two the mapping is bit interleaving (Morton order), and aligned blocks of indices stay contiguous in the merged index.",
  ["inputs", "configurations"], "all length combinations within the declared maximum/alignment x all merged indices",
  "Tests cover a few sizes; the non-power-of-two boundary handling is input dependent.",
  ["structs/zcurve.hpp"], [("merge_zcurve_t sub_state/length", "structs/zcurve.hpp")], ["offset", "get_length", "traverser"])
prop("C06", "for_each visits every valid index exactly once, in signature order",
  "A traverser's for_each calls its function exactly once for every valid combination of indices of the traversed structure and for no other, in the lexicographic order given by the structure's dimension order (outermost first). This also holds after any ordering transformation (hoist, reorder, slice, shift, step, span, fix, reverse, blocks, merge, z-curve), where the state passed in always addresses the original structure's element and covers exactly the elements the transformation selects.",
  ["inputs", "programs", "configurations"], "all structures x all ordering transformations x all lengths/parameters",
  "Tests count iterations for a few fixed sizes; exactly-once and order are universally quantified over indices and sizes.",
  ["extra/traverser.hpp", "extra/sig_utils.hpp", "base/state.hpp", "base/structs_common.hpp", "structs/blocks.hpp", "structs/slice.hpp", "structs/views.hpp"],
  [("for_each_impl and state_at translation", "extra/traverser.hpp")], ["function passed to for_each"])
prop("C07", "for_dims/for_sections and nested traversal partition the index space",
  "Traversing by sections over any chosen dimensions in any chosen order calls the function once per index combination of those dimensions in that nesting order, handing it an inner traverser whose own traversal covers exactly the elements of that section. Nesting inner traversals to completion visits every element exactly once, and the inner traverser's state and fixed structure agree with the section it was given.",
  ["inputs", "programs", "configurations"], "all subsets/orders of dimensions x all lengths",
  "Tests check a few fixed sizes and orders.",
  ["extra/traverser.hpp", "extra/sig_utils.hpp"], [("for_sections/for_dims", "extra/traverser.hpp")], ["inner traverser", "state()"])
prop("C08", "Traverser ranges, iterators and random access agree with the traversal",
  "Iterating a traverser range (or a sub-range, or through iterator arithmetic and indexing) yields exactly the same sections in the same order as the section traversal; the reported size and iterator differences are the number of steps. Splitting a range at any point yields two ranges that together cover the original without gap or overlap.",
  ["inputs", "histories"], "all lengths x all sequences of iterator operations/splits within bounds",
  "Tests walk a few fixed ranges.",
  ["interop/traverser_iter.hpp", "interop/tbb.hpp"], [("traverser_iterator_t/traverser_range_t", "interop/traverser_iter.hpp")], ["range/iterator API"])
prop("C09", "The planner performs the same traversal as the equivalent traverser",
  "Executing a planner whose innermost action is a plain function performs exactly the visits (same multiset, same order) the traverser over the same structures and ordering performs; per-section callbacks run exactly once around each of their sections and see the section's state. Planner ranges and iterators cover the same sections in the same order.",
  ["inputs", "programs"], "all structures, orderings, section dimensions x all lengths",
  "Tests use a few fixed sizes.",
  ["extra/planner.hpp", "interop/planner_iter.hpp"], [("planner_t execution", "extra/planner.hpp"), ("planner iterators", "interop/planner_iter.hpp")], ["callbacks"])
prop("C10", "Traversing several structures together visits the joint index space once",
  "A traverser over several structures iterates each dimension that occurs in any of them exactly once, with shared dimensions advancing together, so that each combination of indices of the union of dimensions is visited exactly once. The state handed out is a valid index for every one of the structures and addresses in each the element with those indices.",
  ["inputs", "configurations"], "all sets of structures with partially shared dimensions x all lengths",
  "Tests use a few fixed combinations.",
  ["extra/traverser.hpp", "extra/sig_utils.hpp"], [("union_t", "extra/traverser.hpp")], ["function passed to for_each"])
prop("C11", "States behave as immutable finite maps with pointwise arithmetic",
  "Creating, extending, replacing, removing, filtering, merging and reading items of a state behaves like a finite map from tags to values: every item not named by the operation keeps its value and every named one gets the given value. Addition and subtraction act item by item with unsigned wrap-around, neighbor and index update change only the named indices, and equality holds exactly when all items agree.",
  ["inputs", "histories"], "all states over a set of tags x all 64-bit values x all operation sequences (bounded)",
  "Tests check a few literal values.",
  ["base/state.hpp", "extra/shortcuts.hpp"], [("state and its operators", "base/state.hpp"), ("neighbor/update_index/idx", "extra/shortcuts.hpp")], ["state API"])
prop("C12", "Layout introspection never lies about the offsets",
  "Whenever a structure is reported to have a stride along a dimension, consecutive indices in that dimension differ by exactly that many bytes for all values of the other indices; whenever a dimension not produced by border or partial blocking is reported uniform, its length does not depend on other indices, and a tuple dimension is never reported uniform. The offset along a dimension changes exactly as the full offset does when only that index changes, and (without blocking over shifted or reversed dimensions) the offsets along all dimensions add up to the full offset. The reported lower bound (of a whole dimension or an index range) is the smallest offset along it, the reported lower-bound index is valid and attains it, and a structure without sub-selecting views that is reported contiguous is filled by its elements without holes.",
  ["inputs", "configurations"], "all structures with a positive answer x all lengths and indices",
  "Tests check that the trait answers true/false and a few numbers, not that the answer is truthful for every index.",
  ["introspection/stride_along.hpp", "introspection/uniform_along.hpp", "introspection/contiguous.hpp", "introspection/offset_along.hpp", "introspection/lower_bound_along.hpp"],
  [("per-structure recursive traits", "introspection/stride_along.hpp")], ["stride_along, IsUniformAlong, IsContiguous, offset_along, lower_bound_along, lower_bound_at"])
prop("C13", "A bag stores every element independently and within its allocation",
  "A bag created for a structure allocates exactly the structure's size; writing an element through any valid index and reading it back yields the written value, and no other element changes. References, fixed/sliced views, transformed copies and raw-pointer bags of the same data address the same elements, and all accesses stay within the allocation.",
  ["inputs", "histories"], "all structures x all lengths x all pairs of indices and values",
  "Tests fill a few matrices of literal size.",
  ["interop/bag.hpp", "extra/funcs.hpp"], [("bag operator[], get_ref, make_bag", "interop/bag.hpp")], ["bag[state]", "get_at"])
prop("C14", "Serializing and deserializing data is a layout-independent round trip",
  "Serializing a structure's data emits every element exactly once in traversal order, one per line, and deserializing that stream into the same structure restores every element and consumes nothing more. The stream depends only on the logical order of dimensions used, so data written from one layout and read into a reordered view of another layout lands at the same logical indices.",
  ["inputs"], "all structures x all lengths x all element values",
  "Tests compare one literal example.",
  ["interop/serialize_data.hpp", "extra/traverser.hpp"], [("serialize_data/deserialize_data", "interop/serialize_data.hpp")], ["stream operators"])
prop("C15", "Striped layouts keep thread stripes disjoint and within their banks",
  "A striped structure stores one complete private copy of the sub-structure per stripe: elements of different stripes or of different indices never share a byte, all lie within the reported size, and no shared-memory bank holds data of two stripes where that is possible (otherwise of at most the declared maximum conflict size). Neighbouring stripes lie a constant distance apart; the number of stripes, stripe index and per-stripe thread grouping partition the threads as declared.",
  ["inputs", "configurations"], "all stripe counts/bank parameters x all lengths x all stripe indices",
  "Tests compare a few literal offsets.",
  ["interop/cuda_striped.cuh"], [("cuda_striped_t strict_offset_of/size", "interop/cuda_striped.cuh")], ["offset", "get_size", "stripe_index"])
prop("C16", "GPU traversal covers each index by exactly one block/thread",
  "Mapping dimensions to grid and block coordinates covers every index of those dimensions exactly once over all (block, thread) pairs of the launch configuration the library computes, and each thread then traverses exactly the remaining dimensions. The launch dimensions equal the lengths of the mapped dimensions. Stepping a dimension by a thread group (cuda_step) deals its indices round-robin to the group's threads, so that each index belongs to exactly one of them.",
  ["inputs", "schedules"], "all lengths x all (block, thread) coordinates",
  "Tests emulate a few fixed launches.",
  ["interop/cuda_traverser.cuh", "interop/cuda_step.cuh"], [("cuda_traverser_t", "interop/cuda_traverser.cuh"), ("cuda_step", "interop/cuda_step.cuh")], ["grid_dim/block_dim, inner traverser"])
prop("C17", "Compile-time and run-time parameters give identical results",
  "Supplying a length, index, start, stride, block length or bound as a compile-time constant yields exactly the same lengths, sizes, offsets and traversals as supplying the same value at run time, and so does supplying a run-time value (or an index) in any integer type that represents it. Arithmetic on compile-time and run-time values follows ordinary unsigned 64-bit arithmetic in every mix.",
  ["inputs", "configurations"], "all structures x which parameters are static x all remaining dynamic values",
  "Tests mostly use one variant at a time with literal values.",
  ["base/utility.hpp", "structs/layouts.hpp", "structs/slice.hpp", "structs/setters.hpp", "structs/blocks.hpp"],
  [("constexpr_arithmetic", "base/utility.hpp")], ["offset", "get_length", "get_size"])
prop("C18", "Composing proto-structures is associative; shortcuts mean their expansion",
  "Applying proto-structures one after another or first combining them and applying the combination yields structures that answer all queries identically, and a neutral or empty combination changes nothing. Every shortcut (sized vectors/arrays/tuples, length copies from another structure, strip mining, symmetric spans, fixing by state, bounded spans, ...) behaves exactly as its documented expansion.",
  ["programs", "inputs"], "all groupings of proto-structure chains x all parameters",
  "Tests check a few groupings with literal values.",
  ["base/structs_common.hpp", "extra/shortcuts.hpp", "structs/slice.hpp", "structs/setters.hpp", "structs/layouts.hpp"],
  [("operator^ and compose", "base/structs_common.hpp"), ("shortcuts", "extra/shortcuts.hpp")], ["offset", "get_length", "traverser"])
prop("C19", "Printed structure descriptions state the exact parameters",
  "The textual description of a structure object contains every compile-time and run-time parameter with its exact value in source syntax, so distinct parameters give distinct texts and reading the digits back gives the value. This holds for every integer value of every supported type, including negative ones.",
  ["inputs"], "all parameter values (bounded width) of the supported integer types",
  "Tests compare a few literals.",
  ["extra/mangle.hpp"], [("mangle_expr integer rendering", "extra/mangle.hpp")], ["mangle_expr"])
prop("C20", "Structure objects carry their parameters unchanged",
  "A structure object stores exactly the run-time parameters it was given, each retrievable unchanged by position, in whatever mix of empty and non-empty members; static parameters and empty members take no storage. Copying the object bytewise preserves all answers.",
  ["inputs", "configurations"], "all mixes of empty/non-empty fields x all values",
  "Tests check a few mixes with literal values.",
  ["base/contain.hpp"], [("flexible_contain/strict_contain", "base/contain.hpp")], ["get<I>", "structured bindings", "sizeof"])
prop("C21", "Translating an index through views is consistent with offsets",
  "Asking a transformed structure for the sub-structure state that corresponds to an outer index gives a state which, applied to the sub-structure, addresses the same byte as the outer index applied to the whole. This holds for every layout-preserving view, block and curve transformation and composition of them.",
  ["inputs", "configurations"], "all view compositions x all parameters x all valid indices",
  "Tests check a few literal states.",
  ["base/structs_common.hpp", "structs/views.hpp", "structs/slice.hpp", "structs/blocks.hpp", "structs/setters.hpp", "structs/zcurve.hpp"],
  [("state_at recursion", "base/structs_common.hpp")], ["state_at", "offset"])
prop("C22", "Parallel traversals do the sequential work under every schedule",
  "Traversing in parallel (OpenMP, TBB-style range splitting, standard parallel algorithms) calls the function exactly once for each index, however the runtime partitions and interleaves the work. A parallel reduction gives the sequential result for every split when the join is the pointwise combination, including privatized output copies that are merged for every element exactly once; no two concurrently running accumulations touch the same element of the output.",
  ["schedules", "inputs"], "all splits of the outermost range / assignments of iterations to workers x all lengths",
  "Tests of the parallel headers only compile them or run one schedule.",
  ["interop/tbb.hpp", "interop/omp.hpp", "interop/std_para.hpp", "interop/traverser_iter.hpp"],
  [("tbb_for_each/tbb_reduce/tbb_reduce_bag", "interop/tbb.hpp"), ("omp_for_each/omp_for_sections", "interop/omp.hpp"), ("execution-policy for_each", "interop/std_para.hpp")], ["function passed in", "output bag"])
prop("C23", "Signatures and static interface queries describe the structure truthfully",
  "For every structure, the type-level descriptions agree with the run-time behaviour for all parameter values: the signature lists exactly the dimensions the structure can be indexed with, in nesting order; a length the signature states as static equals the length the structure reports; a dimension with an unknown length is one whose length has to be supplied; a tuple-like dimension has exactly one alternative per field. The scalar type of a fully indexed structure is the type of the element that get_at returns, and the point/cube/accept queries say what the structure (or the top structure of a traverser after any order) really supports. Whether a length, a size or an offset is available in a state (has_length, has_size, has_offset) is answered without a compile-time failure, and truthfully: not when something it depends on has not been supplied, and (once all lengths are) whenever everything has.",
  ["inputs", "programs"], "all lengths and parameters x structures and orders with any subset of static parameters",
  "Tests compare a few signature types; a wrong static length is consistent with every run that does not compare it to the real one.",
  ["base/signature.hpp", "structs/slice.hpp", "structs/blocks.hpp", "structs/setters.hpp", "structs/views.hpp", "structs/zcurve.hpp", "extra/struct_traits.hpp", "extra/traverser.hpp"],
  [("signature members of the structures", "structs/slice.hpp"), ("function_sig/dep_function_sig", "base/signature.hpp"), ("is_point/is_cube/scalar_t", "extra/struct_traits.hpp")], ["signature", "length", "scalar_t", "is_cube"])
prop("C24", "A program written against logical dimensions gives the same result for every layout and traversal order",
  "An algorithm that uses bags and traversers or planners (copying, transposing, matrix multiplication, row sums and prefix sums, broadcasting, stencils with neighbours, updating records, histograms, the functions of examples/matrix) stores in the logical elements of its outputs exactly the mathematically defined values of its logical inputs, for all element values and sizes: whichever layout each operand has (row/column order, tiled, padded, reversed, strided, renamed, a field of a record, part of a bigger array, flattened), whichever order the traversal takes (hoisting, blocking, border blocks, merging, space-filling curves, reversing, splitting into slices, spans or steps), and whether it runs by for_each, nested for_dims, range iteration or a planner. Operands that are only read, and elements outside the traversed part, keep their values.",
  ["inputs", "programs"], "all element values and sizes x layouts of all operands x traversal orders x ways to run",
  "Tests run a handful of layouts with one order and fixed sizes; a wrong element appears only in particular combinations.",
  ["extra/traverser.hpp", "extra/planner.hpp", "interop/bag.hpp", "interop/traverser_iter.hpp", "structs/blocks.hpp", "structs/slice.hpp", "structs/views.hpp", "structs/zcurve.hpp", "extra/shortcuts.hpp"],
  [("union of structures and traversal", "extra/traverser.hpp"), ("planner execution", "extra/planner.hpp"), ("element access", "interop/bag.hpp")], ["for_each", "operator[]"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
