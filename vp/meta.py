"""What each check specifies, its oracle, bounds and what lies outside (evidence and DESIGN.md take it from here)."""
W = 'lengths, indices, starts, ends: every 64-bit value satisfying the documented preconditions'
M = {
'C01': dict(
  how='Two full index tuples are symbolic; both are valid and differ in a non-broadcast dimension. The harness takes offset(i), offset(j) and get_size() from the real structure and checks |offset(i)-offset(j)| >= element size, offset + element size <= get_size(), and equality for indices that differ in broadcast dimensions only.',
  oracle='none besides the statement itself (the two offsets are compared with each other and with the size)',
  bounds=['lengths and parameters up to 3 bits (quick) or 4 bits (thorough) for layouts and views, 2-3 bits for blocks and merges; both index tuples arbitrary valid values', 'plain layouts, tuples, broadcasts, every view and two-level view compositions, blocks, merges, z-curves; 36 (quick) / 140 (thorough) compositions of up to three views drawn by a fixed pseudo-random sequence (vp/chains.py)'],
  outside=['larger lengths (non-linear 64-bit arithmetic over pairs of indices is out of reach for the solver); C02/C03 cover large magnitudes', 'more than four dimensions', 'tuples with fields of increasing alignment (known finding of C02)'],
  why='overlap is a statement over all pairs of indices for all lengths'),
'C02': dict(
  how='Each structure of a generated family is built with symbolic 64-bit lengths and indices; offset, get_size and get_length are compared with the documented formula written by the generator from the structure description (vp/model.py), as one bit-vector equality per query.',
  oracle='vp/model.py: an independent reading of the documentation (sum of index times sub-structure size; product/sum sizes)',
  bounds=[W + ' (wrapping like std::size_t)', 'up to 3 nested dimensions, tuples of up to 3 fields, nested tuples, lengths in the structure / in the state / static', 'states holding also an index and a length of a dimension the structure does not have'],
  outside=['deeper nestings', 'tuple fields of increasing alignment (known finding)'],
  why='truncation or a wrong operand shows only at particular magnitudes or nestings'),
'C03': dict(
  how='Like C02 for every view and two- or three-level view compositions: offset of a symbolic valid index, length of each remaining dimension, size; views in tuple dimensions; views over unsized vectors with lengths set later or passed in the state.',
  oracle='vp/model.py: each view as a substitution on indices and a length formula',
  bounds=[W, 'step views: 8-bit (quick) / 16-bit (thorough) lengths, starts and strides (division)', '~60 view compositions; drawn by a fixed pseudo-random sequence (vp/chains.py): 30 (quick) / 120 (thorough) compositions of two to four views over layouts of two to four dimensions or tuples for every 64-bit value, and 20 / 80 with steps, blocks and merges for 5-bit values', 'states holding also indices and lengths of hidden and unrelated dimensions'],
  outside=['compositions deeper than four views', 'preconditions violated (start beyond the length, stride 0)'],
  why='an off-by-one in a length or mapping appears only for particular residues'),
'C04': dict(
  how='Soundness: any valid combination of new indices addresses the documented original index, and block lengths equal the documented quotient/remainder. Uniqueness: two different valid combinations address different elements. Surjectivity: for every original index the combination computed by the oracle is valid and addresses it.',
  oracle='division with remainder, written in the harness',
  bounds=['lengths and block lengths up to 4 bits (quick) / 6 bits (thorough); surjectivity 4 / 7 bits', 'into_blocks, into_blocks_static (with its border dimension), into_blocks_dynamic, merge_blocks, strip_mine*, also composed with views and each other; 20 (quick) / 80 (thorough) drawn compositions of two or three of them (vp/chains.py); states also holding items of hidden and unrelated dimensions'],
  outside=['block length 0; lengths that the documentation requires to divide but do not'],
  why='border cases depend on residues of length modulo block'),
'C05': dict(
  how='General curve: for every pair of merged indices below the reported length the two index tuples are valid and differ if the indices differ (with equal cardinality this is a bijection). Morton order: for equal power-of-two lengths the tuple is the bit de-interleaving. Alignment: indices in one aligned block stay in one aligned box.',
  oracle='bit de-interleaving written in the harness',
  bounds=['general curve: 1-4 dimensions, every combination of lengths up to the declared maximum (2, 4, 8, 16, 64; thorough 32 for two dimensions) that is a multiple of the declared alignment (1, 2, 4, 8, 16), every pair of merged indices', 'Morton order: 1-8 dimensions, equal lengths 2^k with up to 62 bits of merged index, every merged index'],
  outside=['larger maxima with non-power-of-two lengths', 'more than 8 merged dimensions'],
  assumptions=['lengths are non-zero, at most the declared maximum and multiples of the declared alignment, as merge_zcurve requires'],
  why='the non-power-of-two boundary handling is input dependent'),
'C06': dict(
  how='for_each runs with a callback that counts its calls and records the state at the K-th call for a symbolic K; a plain loop nest generated from the structure description does the same. The checks: same number of calls, the K-th states agree in every index, and the offset of the state in the original structure is the documented element. K ranges over all calls, so this is equality of sequences.',
  oracle='generated plain loop nests (vp/p_trav.py) with offsets from vp/model.py',
  bounds=['lengths 0-3 (quick: mostly 2 bits) / 0-7 (thorough: 3 bits) per dimension, starts, strides, block lengths likewise; ten further orders with one long dimension of up to 15-63 (quick) / 31-255 (thorough) elements', '~70 orders and 20 (quick) / 80 (thorough) drawn compositions of up to three (vp/chains.py): hoist, reorder, slice, shift, step, span, fix, reverse, rename, blocks (three kinds), merge, z-curve, set_length, compositions; tuples; broadcasts'],
  outside=['larger lengths, more than three dimensions'],
  why='exactly-once and order are universally quantified over indices and sizes'),
'C07': dict(
  how='for_sections/for_dims over chosen dimensions in chosen orders with a recording callback; K-th section index equals that of the loop nest; inside, the inner traverser is run and its visits recorded likewise; state() and top_struct() of the inner traverser are queried.',
  oracle='generated loop nests',
  bounds=['lengths 0-3 / 0-7 per dimension; with one long dimension of up to 31-63 (quick) / 63-127 (thorough) elements for seven selections', 'subsets and orders of up to three dimensions; nested sections; sections after orders'],
  outside=['for_sections/for_dims that leave a tuple dimension unselected (does not compile by design)'],
  why='tests check a few fixed sizes and orders'),
'C08': dict(
  how='begin/end iteration, operator[], iterator +,-,+=,-=,++,--, comparisons, distances, range splitting (TBB split constructor), empty(), is_divisible(), sub-ranges: with symbolic positions the element reached equals the section of that index; split halves are adjacent and cover the original.',
  oracle='index arithmetic in the harness; the section traversal itself',
  bounds=['lengths up to 3 bits for visited sequences, symbolic positions and split points; pure arithmetic checks 64-bit'],
  outside=['iterator positions outside [begin, end]'],
  why='all sequences of iterator operations'),
'C09': dict(
  how='planner executions recorded like C06 and compared to the loop nest; per-section callbacks count their sections; planner ranges and iterators as in C08.',
  oracle='generated loop nests (the same as for the traverser)',
  bounds=['16 (quick) / 60 (thorough) orders drawn by a fixed pseudo-random sequence (vp/chains.py) besides the listed ones', 'lengths 0-3 / 0-7 per dimension, ~50 orders; five orders with one long dimension of up to 31-63 / 63-255 elements; section callbacks over one and two dimensions'],
  outside=['section callbacks over the split dimension of into_blocks_dynamic (they fire for absent indices; the documentation does not settle this)'],
  why='tests use a few fixed sizes'),
'C10': dict(
  how='traversers over two to four structures with shared and unshared dimensions, with orders; sequence comparison as in C06; the handed-out state is used with every structure and must be a valid index of it.',
  oracle='generated loop nests over the union of dimensions',
  bounds=['lengths 0-3 / 0-7 per dimension; one long dimension of up to 31-63 / 63-127 elements for five of the combinations', '~45 unions and orders, 16 (quick) / 60 (thorough) drawn by a fixed pseudo-random sequence (vp/chains.py)'],
  outside=['shared dimensions of different lengths (not allowed)', 'tuples in other than the first structure (do not compile)'],
  why='exactly once over the union for every set of lengths'),
'C11': dict(
  how='States with symbolic 64-bit items; with, remove, filter, merge, restrict, get, contains, +, -, ==, neighbor, update_index, idx, make_state compared item by item.',
  oracle='an array of values with a compile-time tag list in the harness (a finite map)',
  bounds=['every 64-bit value', 'up to 5 items; sequences of up to 4 operations'],
  outside=['more items', 'operators on states with static items (mostly not compilable)'],
  why='values are arbitrary 64-bit words'),
'C12': dict(
  how='For each structure and dimension whose query is available, the reported value is compared with differences of real offsets: stride (two consecutive indices), uniformity (two contexts), offset along (two indices; sum over dimensions), lower bound (an arbitrary index is not below; the reported index attains it), contiguity (an arbitrary byte in the spanned range is covered: number of elements times size equals the span).',
  oracle='real offsets of the same structure',
  bounds=['12 (quick) / 40 (thorough) compositions of up to three views drawn by a fixed pseudo-random sequence (vp/chains.py) besides the listed ones', 'lengths and parameters 3 bits (quick) / 4 bits (thorough), 2-3 bits for blocks and steps', 'layouts, tuples, views, blocks, merges, z-curves and compositions'],
  outside=['lower bounds for blocks of a shifted or sliced dimension; ranges below tuple dimensions (do not compile); lower_bound_at of a dynamic block dimension with a range (no such overload) and of a static-border dimension (does not compile)'],
  why='tests check that the trait answers true/false, not that the answer is truthful for every index'),
'C13': dict(
  how='A bag over an allocation tracked by the executor: a symbolic pre-state, one write at a symbolic index, then a read at another symbolic index. Out-of-allocation accesses are reported by the memory model. Bags owning memory (make_bag, vector bags, unique bags), raw bags, views and transformed copies address the same object at the same offset. new/delete sizes are checked.',
  oracle='the read-over-write law; vp/model.py for offsets',
  bounds=['16 (quick) / 60 (thorough) views of raw bags drawn by a fixed pseudo-random sequence (vp/chains.py) besides the listed ones', 'indices and lengths 2 bits (quick) / 3 bits (thorough), element values any 64-bit word'],
  outside=['bags whose structure size overflows'],
  why='independence of elements is over all pairs of indices'),
'C14': dict(
  how='serialize/deserialize through a stand-in stream (operator<< / >> into a buffer): after a round trip between two layouts of the same index space an arbitrary element is equal; the element order is the traversal order.',
  oracle='element equality; the loop nest for the order',
  bounds=['lengths 0-3, element values any value of the scalar type'],
  outside=['textual formatting by <iostream> (replaced by the stand-in stream)'],
  why='all lengths and values'),
'C15': dict(
  how='For symbolic index, stripe and lengths: elements of the same stripe keep to the banks of that stripe, different (index, stripe) pairs do not overlap, everything is inside the reported size, offset is the documented function of the sub-structure offset.',
  oracle='bank arithmetic in the harness',
  bounds=['lengths and indices 6 bits (quick) / 10 bits (thorough), all stripes; thread numbers 12/16 bits; 23 instances of element type, stripe count (1-64), bank count and width'],
  outside=['execution on a GPU (threadIdx etc. are variables)'],
  why='tests compare a few literal offsets'),
'C16': dict(
  how='blockIdx/threadIdx/gridDim/blockDim are symbolic inputs (tests/noarr_test_cuda_dummy.hpp); the launch dimensions computed by the library bound them. For an arbitrary index, exactly one (block, thread) visits it; inner traversals are compared with loop nests. cuda_step: cooperative-groups stand-in with symbolic rank and size.',
  oracle='loop nests; round-robin arithmetic',
  bounds=['lengths 0-3 (quick) / 0-7 (thorough), up to three grid and three block dimensions'],
  outside=['CUDA compilation, grids exceeding hardware limits'],
  why='all coordinates rather than a few emulated launches'),
'C17': dict(
  how='Two structures that differ only in which parameters are compile-time constants; their offsets, lengths, sizes and visits are compared for all remaining symbolic values. The same for parameters, lengths in states and indices given as int, unsigned char, short, ... instead of std::size_t. The run-time parameter is set to the constant. constexpr arithmetic: each operator on constants of boundary values against the run-time operator.',
  oracle='the run-time variant of the same code',
  bounds=['22 (quick) / 120 (thorough) compositions drawn by a fixed pseudo-random sequence (vp/chains.py) with all and with some parameters static', W, 'constants from a set of small and boundary values', 'other integer types: values of up to 7 bits (6 in the quick tier, fewer for steps and blocks)', 'traversals: lengths 0-3'],
  outside=['make_const<0> minus LONG_MIN; a 32-bit unsigned operand mixed with make_const<0>'],
  why='static and dynamic paths are different template specialisations'),
'C18': dict(
  how='The same chain of proto-structures grouped in different ways, and each shortcut against its expansion: offset, lengths, size, traversal of both sides are compared.',
  oracle='the other grouping / the documented expansion',
  bounds=['28 (quick) / 100 (thorough) chains of up to four views and 10 / 40 traversal orders drawn by a fixed pseudo-random sequence (vp/chains.py) besides the listed ones', W, '4-6 bits for steps and blocks; traversals: lengths 0-3'],
  outside=['both sides mostly become the same term, so most checks are discharged by the solver front end (simplification) without a search'],
  why='all groupings of chains and all parameters'),
'C19': dict(
  how='mangle_expr / print_struct text is built symbolically into a buffer; the harness parses the digits back and compares with the parameter; two different parameters give different texts.',
  oracle='decimal parsing in the harness',
  bounds=['single integers: all 8/16-bit values; 32/64-bit types: 16 low bits (quick) / 32-64 bits (thorough), the negative counterparts, and minimum/maximum; parameters of structures 7 bits (quick) / 10 bits (thorough); static values from a set with boundary values'],
  outside=['64-bit values with all 20 digits symbolic (division by 10 of wide symbolic values)'],
  why='digits are lost only for particular magnitudes or signs'),
'C20': dict(
  how='strict_contain / flexible_contain with mixes of empty and non-empty members; get<I> after construction equals the value given; sizeof; copies; structures carrying parameters answer alike after a bytewise copy.',
  oracle='the values given',
  bounds=['every 64-bit value', 'up to 5 members, all mixes of up to 3'],
  outside=['members with non-trivial copy operations'],
  why='mixes of empty and non-empty members'),
'C21': dict(
  how='offset of the whole at a symbolic valid index == offset of the sub-structure at state_at(...) of it; for every layer of the composition.',
  oracle='the sub-structure itself',
  bounds=[W, '36 (quick) / 140 (thorough) drawn compositions of two to four views (vp/chains.py)', '4-6 bits for blocks, 8/16 bits for steps, z-curve lengths up to the declared maximum'],
  outside=['state_at through vector and tuple (not provided by the library)'],
  why='all parameters and indices'),
'C22': dict(
  how='oneTBB, OpenMP and <execution> are replaced by stand-ins whose scheduling decisions (where to split, which part runs first, on which thread) are symbolic inputs; the library code on top is the real one (OpenMP regions are outlined by clang and call mocked __kmpc_*). For an arbitrary index: visited exactly once with its element; reductions equal the sequential result; two accumulations on different threads never touch the same address.',
  oracle='plain loop nests; sequential reduction',
  bounds=['lengths 0-3 or 0-7; one long dimension of up to 15 (TBB) or 7 (quick) / 63 or 31 (thorough) elements for four traversals', 'TBB: split depth 2 (reductions 1 quick / 2 thorough), 2 threads, both orders; OpenMP: 1-3 threads, arbitrary contiguous cuts, forward/backward; std: cuts of depth 2, both orders'],
  outside=['interleavings inside one callback (callbacks are user code)', 'more threads or deeper splits', 'the schedulers themselves'],
  assumptions=['the stand-ins admit every schedule that the real libraries guarantee within the stated depth'],
  why='tests run one schedule'),
'C23': dict(
  how='The generator of a structure states its dimension tree (names, which lengths are static and to what, alternatives of tuple dimensions); the harness walks the real signature type with templates and compares, and a static length in the signature is compared with length<Dim>() for all values of the remaining symbolic parameters. Element types of get_at, is_point, is_cube, accept queries likewise; traverser orders through top_struct(). has_length/has_size/has_offset are compared, for every subset of the lengths and without each single index, with whether the formula of the oracle can be evaluated from what was supplied.',
  oracle='dimension tree derived from the documentation by the generator; the run-time length',
  bounds=['32 (quick) / 120 (thorough) compositions drawn by a fixed pseudo-random sequence (vp/chains.py) with none, all and some parameters static', W, 'structure families x every subset of static parameters; a set of traverser orders and unions'],
  outside=['most conclusions are reached during compilation or by simplification (types are constants); the solver is left with lengths that depend on symbolic parameters'],
  why='the number of static/dynamic parameter mixes; a wrong static length is invisible to runs that never compare it'),
'C24': dict(
  how='Programs (templates in vp/p_algo.py) are instantiated for combinations of operand layouts, orders and ways of running; all element values are symbolic 32-bit values, sizes are split into cases. The logical contents of the outputs and inputs after the run are compared with the mathematical definition evaluated over plain arrays of the same symbolic values.',
  oracle='plain loops over two-dimensional C arrays',
  bounds=['element values: all 32-bit values (arithmetic modulo 2^32)', 'sizes 0-3 per dimension (matrix product 0-2 with an inner dimension of up to 3; stencils up to 4 x 4)', '19 layouts; copies: a third of (quick) or all (thorough) pairs; 27 orders of two dimensions, 24 of three; 7 ways of running'],
  outside=['larger sizes; more than three dimensions', 'floating point elements (summation order matters there)', 'all combinations of layouts x orders x ways: pairs are covered systematically, triples by rotation'],
  assumptions=['in the functions of examples/matrix signed element arithmetic wraps (compiled with -fwrapv)'],
  why='the product of layouts, orders and sizes; wrong elements appear in particular combinations'),
}
COMMON = ['clang 18 -O1 front end, LLVM inlining/SROA of the real headers; the IR is executed by /verif/vp/sym.py over z3 bit-vectors', 'overflow and shift undefined behaviour, out-of-object accesses, reads of uninitialised memory on branches, unreachable code and non-termination within the step limit are reported too',
  'std::size_t is 64 bits; little endian; x86-64']
def merge(pid, spec):
    m = M.get(pid, {})
    for k in ('bounds', 'outside', 'assumptions'):
        if not spec.get(k): spec[k] = list(m.get(k, []))
    spec['assumptions'] = spec['assumptions'] + [c for c in COMMON if c not in spec['assumptions']]
    spec['method'] = m.get('how', ''); spec['oracle'] = m.get('oracle', '')
    return spec
