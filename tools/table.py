# P(id,title,statement,over,quantifier text,why tests can't,files)
def PP(id,title,st,over,text,why,files,mech):
    P(id,title,st,over,text,why,files)
    R[-1]['anchors']['mechanism']=[dict(name=n,where=w) for n,w in mech]
PP('P01','Bit-range primitives act on exactly the bits asked for',
 'Over an array of machine words, setting a half-open bit range turns exactly those bits to one and leaves every other bit as it was; counting a range returns the number of ones in it; searching from a position below a limit returns the first set bit at or after it, or the limit when there is none. Reading and setting a single bit touch only that bit. None of them accesses a word outside those the range covers.',
 ['inputs'],'every word array, every start/end/limit inside it (word-aligned or not), word sizes 32 and 64 bits',
 'Tests use a few literal ranges; word-boundary, mask and off-by-one behaviour must hold for every start/end pair and every length.',
 ['arolla/util/bits.h'],[('mask computation at both ends of a range and the word loop between them','arolla/util/bits.h')])
PP('P02','Unaligned bit-range copy and in-place AND keep all other bits',
 'Copying a number of bits between bit arrays at arbitrary bit offsets makes each destination bit in the range equal the corresponding source bit and leaves every destination bit outside the range unchanged. The in-place logical AND of two bit arrays read at arbitrary offsets stores, for every position, the conjunction of the two bits. Neither touches memory outside the words the operands occupy.',
 ['inputs'],'every pair of offsets, every length, every content, word sizes 32 and 64',
 'The result depends on the offsets modulo the word size and on the number of trailing bits; tests sample a few combinations.',
 ['arolla/util/algorithms.h'],[('word-by-word shifting of source into destination','arolla/util/algorithms.h')])
PP('P03','Presence bitmaps: read, combine, count and build are exact',
 'Reading bit i (or a whole word) of a presence bitmap at any bit offset yields the stored bit, with an empty bitmap meaning that everything is present; intersecting two presence bitmaps marks an element present exactly when both inputs have it, whatever their bit offsets; testing whether all or no elements are present is exact; counting returns the number of present elements; building a bitmap from a stream of booleans stores exactly that stream.',
 ['inputs'],'every bitmap content, length, and pair of bit offsets 0..31, including empty (all-present) operands',
 'The word-shifting code for unequal bit offsets has many cases; tests use few offset pairs and short bitmaps.',
 ['arolla/dense_array/bitmap.h','arolla/dense_array/bitmap.cc'],[('word access with offset and the shift/mask merge','arolla/dense_array/bitmap.h'),('all-set test, bit counting over a range, full-bitmap construction','arolla/dense_array/bitmap.cc')])
PP('P04','Sorted searches return the first position meeting the bound',
 'For any ascending sequence and any key, lower bound returns the first index whose element is not less than the key and upper bound the first index whose element is greater, or the length when there is none. The galloping variant returns the same index relative to the position it starts from. A NaN key compares less or greater than nothing: its lower bound is 0 and its upper bound the length.',
 ['inputs'],'all ascending arrays of any length (int32, int64, float, double), all keys including NaN and infinities',
 'Off-by-one and NaN handling depend on the length, duplicates and position of the key; tests sample small arrays.',
 ['arolla/util/binary_search.h','arolla/util/binary_search.cc','arolla/qexpr/operators/math/binary_search.h'],[('branch-free small search, binary search and galloping search','arolla/util/binary_search.h'),('size dispatch','arolla/util/binary_search.cc')])
PP('P05','Integer arithmetic operators are total and exact',
 'For every pair of 32- or 64-bit integers, addition, subtraction, multiplication, negation and absolute value give the two\'s complement wrap-around result, floor-division and modulo satisfy a = q*b + r with r between 0 and b (sign of b) and report an error exactly when b is zero, and sign, min, max and bit operations give their mathematical value. No operand combination triggers undefined behaviour.',
 ['inputs'],'all pairs of int32 and int64 operands including the most negative value and zero divisors',
 'The dangerous operands (most negative value divided by minus one, mixed signs, zero) form a tiny part of 2^128 pairs.',
 ['arolla/qexpr/operators/math/arithmetic.h','arolla/qexpr/operators/bitwise/bitwise.h'],[('unsigned arithmetic for wraparound; adjustment of truncated division','arolla/qexpr/operators/math/arithmetic.h'),('bitwise functors','arolla/qexpr/operators/bitwise/bitwise.h')])
PP('P06','Numeric casts are value-preserving or report an error',
 'Casting a number to an integer type gives the value truncated toward zero when that value is representable and otherwise reports an error (an unsigned target also refuses every negative number); casting to boolean is true exactly for non-zero values; casts that cannot fail (int to wider int, bool to number) preserve the value. No input, including NaN, infinities and values next to the representable limits, causes undefined behaviour.',
 ['inputs'],'every float32/float64 bit pattern and every int32/int64/uint64 value, for each target type',
 'The limits of the destination range are not all representable in the source float type, so the boundary behaviour depends on exact bit patterns that tests sample sparsely.',
 ['arolla/qexpr/operators/core/cast_operator.h'],[('safe range bounds per source/destination pair','arolla/qexpr/operators/core/cast_operator.h')])
PP('P07','Presence logic, comparisons and boolean operators obey three-valued logic',
 'Presence operators treat a missing value as absence: AND keeps the first value only if the second is present, OR returns the first present value, NOT swaps presence, and equality, inequality and ordering comparisons of optionals are present exactly when both sides are present and the comparison holds. Boolean operators follow Kleene logic, where a missing operand is "unknown" and the result is missing exactly when it cannot be determined. The conditional selects by presence without looking at the unselected branch\'s value. Over arrays the same holds element by element.',
 ['inputs'],'all combinations of present/missing operands and values, all supported numeric types including NaN',
 'Existing tests enumerate only some operand combinations and types.',
 ['arolla/qexpr/operators/core/logic_operators.h','arolla/qexpr/operators/bool/logic.h','arolla/qexpr/operators/bool/comparison.h','arolla/qexpr/operators/dense_array/logic_ops.h','arolla/qexpr/operators/array/logic_ops.h','arolla/memory/optional_value.h'],[('optional-value operator functors','arolla/qexpr/operators/core/logic_operators.h'),('Kleene logic functors','arolla/qexpr/operators/bool/logic.h')])
PP('P09','Sparse id filters: offsets, membership, merges and unions agree with sets',
 'A sparse id filter denotes a set of ids: none, all, or the listed ones less an offset. Converting an id to a position finds it exactly when it is in the set, the position is its rank, and the position converts back to the id. Merging filters yields a set containing every id of each: either all ids (allowed when the data is dense) or exactly the union, in order and without duplicates. Iterating the common ids of two filters visits exactly the intersection, once each, in increasing order, with the right position in each filter. The upper bound of an intersection is the smallest of the filters given.',
 ['inputs'],'all sorted id sequences of any length, with any offset, and all ids',
 'Galloping and merging logic has behaviour depending on relative gaps between ids that tests with a handful of ids do not reach.',
 ['arolla/array/id_filter.h','arolla/array/id_filter.cc'],[('galloping position lookup and merge loops','arolla/array/id_filter.h'),('merging of two filters','arolla/array/id_filter.cc')])
PP('P10','Grouping edges are valid maps and survive composition and conversion',
 'An edge built from split points is accepted exactly when the points start at zero and never decrease, and one built from a mapping exactly when every present entry names an existing parent. Converting between the two forms, composing edges and asking for group sizes all describe the same child-to-parent relation as following the original edges one child at a time.',
 ['inputs'],'all split-point sequences and mappings of any length, including empty groups, missing entries and chains of edges',
 'Tests check a few hand-written edges; validity and composition are statements over all of them.',
 ['arolla/dense_array/edge.h','arolla/dense_array/edge.cc','arolla/array/edge.h','arolla/array/edge.cc'],[('validation in the edge factories; composition and conversions','arolla/dense_array/edge.cc')])
PP('P11','String buffers return exactly the strings they were built from',
 'Whatever order strings are added or copied in, whatever shared-prefix or slicing state the source has, and whether entries are left at their default, a string buffer built by any builder returns at each position exactly the string assigned to it (or the default). Slicing and deep copying preserve every string.',
 ['inputs','histories'],'all sequences of builder operations, string contents and lengths, source offsets, default values',
 'Offsets are relative to a base that depends on slicing history; tests seldom combine slices, reshuffles and defaults.',
 ['arolla/memory/strings_buffer.h','arolla/memory/strings_buffer.cc'],[('offset bookkeeping of the builders','arolla/memory/strings_buffer.cc')])
PP('P12','Frame layouts give every slot its own aligned, in-frame memory',
 'However slots are added to a frame layout, each slot lies inside the frame, is aligned for its type, and does not overlap any other separately added slot; the frame alignment is the maximum needed. Every non-trivial field is initialised once when a frame is created and destroyed once when it is destroyed.',
 ['histories','inputs'],'all sequences of slot additions with any types, sizes and nested layouts',
 'Overlap and alignment depend on the whole history of additions; tests build a few layouts.',
 ['arolla/memory/frame.h','arolla/memory/frame.cc','arolla/util/algorithms.h'],[('slot allocation with alignment rounding','arolla/memory/frame.h')])
PP('P13','Intrusive reference counts free an object exactly once',
 'An object managed by a reference-counting pointer stays alive while any owner holds it and is destroyed exactly once, when its last owner lets go, through any sequence of copies, moves, assignments (including self-assignment), resets and swaps.',
 ['histories'],'all sequences of owner operations over any number of owners',
 'Tests run a few sequences; the count invariant must hold after each of an unbounded sequence of operations.',
 ['arolla/util/refcount.h','arolla/util/refcount_ptr.h'],[('increment / decrement-and-test','arolla/util/refcount.h'),('copy, move and reset of the owner','arolla/util/refcount_ptr.h')])
PP('P14','Aggregations fold exactly the present elements of each group',
 'Count, any, all, min, max, logical and integer sum aggregations, inverse mapping, ordinal/dense rank, running count and weighted cumulative aggregators give for each group the value defined by folding the group\'s present elements in order; accumulator state never leaks from one group to the next.',
 ['inputs','histories'],'all group contents, sizes and orders, all presence patterns, all sequences of groups',
 'Leaks between groups and rank ties depend on long input histories; tests use short fixed groups.',
 ['arolla/qexpr/operators/aggregation/group_op_accumulators.h','arolla/qexpr/aggregation_ops_interface.h'],[('accumulators: reset, add, get result, finalize','arolla/qexpr/operators/aggregation/group_op_accumulators.h')])
PP('P15','Element-wise dense array operations agree with the scalar operation',
 'Applying an element-wise operation to dense arrays gives, at each position, a present result exactly when all (required) inputs are present there, equal to the scalar operation on those values; missing inputs never influence the result. Arrays of different lengths are rejected with an error.',
 ['inputs'],'all array lengths, contents, presence patterns and bitmap bit offsets, with unary, binary and ternary operations and optional arguments',
 'Presence handling is word-at-a-time with bit offsets; tests cover few lengths and offsets.',
 ['arolla/dense_array/ops/dense_ops.h','arolla/dense_array/ops/util.h','arolla/dense_array/dense_array.h'],[('bitmap intersection and value loop','arolla/dense_array/ops/dense_ops.h')])
PP('P16','Sparse and dense representations of an array are interchangeable',
 'An array\'s observable element at each position (present value or missing), its size, its present count and its slices do not depend on whether it is stored constant, dense or sparse; converting between representations and iterating present or all elements in any of them gives the same elements in order; iterating over several arrays together visits, in order, exactly the rows in which every required array has an element.',
 ['inputs'],'all arrays, all id filters and missing-id values, all slice bounds',
 'The number of representation combinations per operation is large; tests exercise some.',
 ['arolla/array/array.h','arolla/array/array.cc','arolla/array/array_util.h','arolla/array/array_util.cc','arolla/array/ops_util.h'],[('id filter indirection with a value for missing ids','arolla/array/array.h')])
PP('P17','Group-wise operations do not depend on how the edge is represented',
 'A group-wise operation over an edge given as split points, as a mapping or to a scalar yields for every group (or element) what the accumulator yields on the sequence of that group\'s elements in child order; elements that map to no group are ignored; values given for missing elements never matter.',
 ['inputs'],'all edges, arrays and presence patterns, with one or two child and parent arguments',
 'Combinations of edge form, bit offset and accumulator kind are too many to sample.',
 ['arolla/dense_array/ops/dense_group_ops.h','arolla/array/group_op.h'],[('iteration over split points or mapping and accumulator protocol','arolla/dense_array/ops/dense_group_ops.h')])
PP('P18','String operators index and slice by well-defined positions',
 'Substring, find and rfind on bytes and on unicode text clamp positions (negative from the end) to the valid range, return the first or last occurrence position not before the start and ending not after the end or report missing, and never read outside the string; stripping removes exactly the leading and trailing characters asked for.',
 ['inputs'],'all strings, patterns, start and end positions including extreme 64-bit ones',
 'Boundary arithmetic on positions and occurrences at the ends are sampled sparsely by tests.',
 ['arolla/qexpr/operators/strings/find.h','arolla/qexpr/operators/strings/find.cc','arolla/qexpr/operators/strings/strings.h','arolla/qexpr/operators/strings/strings.cc'],[('position clamping and scan','arolla/qexpr/operators/strings/find.cc')])
PP('P19','Decision forest split conditions and tree evaluation follow the tree',
 'Evaluating a decision tree walks from the root, at each split going to the true branch exactly when the condition holds for the input (interval conditions are closed at both ends, set conditions test membership, missing inputs fail the test or take the configured default), and returns the value attached to the leaf reached; every evaluation strategy returns that same value.',
 ['inputs','programs'],'all trees, split conditions and inputs including NaN and missing',
 'Different evaluators are compiled for different tree shapes; tests compare them on few random trees.',
 ['arolla/decision_forest/split_conditions/interval_split_condition.h','arolla/decision_forest/split_conditions/set_of_values_split_condition.h','arolla/decision_forest/decision_forest.h','arolla/decision_forest/batched_evaluation','arolla/decision_forest/pointwise_evaluation'],[('split condition evaluation','arolla/decision_forest/split_conditions'),('compiled tree walkers','arolla/decision_forest/pointwise_evaluation/pointwise.h')])
PP('P20','The least-recently-used cache stays bounded and returns only what was stored',
 'The total weight of the entries of the least-recently-used cache never exceeds its capacity (unless it holds a single entry), a lookup returns the value last stored for an equal key or nothing, and entries are evicted only on overflow, the one used (stored or looked up) least recently first.',
 ['histories'],'all sequences of insertions, lookups and clears, any capacity',
 'Eviction order is a property of operation histories.',
 ['arolla/util/lru_cache.h'],[('list plus index map','arolla/util/lru_cache.h')])
PP('P21','Piecewise-linear curves interpolate their control points',
 'A piecewise-linear curve (plain, logarithmic or symmetric logarithmic in its input) returns the first value up to its first control point and the last value from its last one, in between the interpolation of the two neighbouring control points up to rounding, and NaN for NaN unless it is constant; evaluating many inputs equals evaluating each; points that do not ascend strictly, leave the domain or ask for unsupported asymptotes are rejected, and a curve survives being written as text and read.',
 ['inputs'],'all finite control points and all floating-point inputs',
 'Floating-point rounding near control points is not covered by sampled tests.',
 ['arolla/pwlcurve/curves.h','arolla/pwlcurve/curves.cc'],[('segment search and interpolation','arolla/pwlcurve/curves.cc')])
PP('P22','Jagged shapes stay well-formed through every transformation',
 'A jagged shape\'s edges always chain: each dimension\'s parent count equals the size of the previous dimension. Adding, removing and flattening dimensions, and concatenating or stacking shapes and the arrays they describe, preserve that and keep every item under its ancestors; equivalence and broadcastability compare all groups; a broadcast edge names the ancestor of every item; malformed edge lists are rejected with an error.',
 ['inputs','histories'],'all shapes of any rank and group sizes, all sequences of transformations',
 'Tests use few small shapes.',
 ['arolla/jagged_shape/jagged_shape.h','arolla/jagged_shape/util'],[('edge chain validation','arolla/jagged_shape/jagged_shape.h')])
PP('P23','Expression transformations preserve the meaning of expressions',
 'Lowering, optimising, casting and compiling an expression leave its value on every input, and whether it reports an error, unchanged.',
 ['programs','inputs'],'all well-typed expressions and inputs',
 'A statement over all programs.',
 ['arolla/expr/eval','arolla/expr/optimization'],[('rewrite rules and compilation','arolla/expr')])
PP('P24','Serialising and deserialising returns an identical value',
 'Decoding the encoding of any serialisable value or expression gives one with the same fingerprint; malformed input is rejected with an error and never crashes.',
 ['inputs'],'all values and expressions, and all malformed byte strings',
 'A statement over all values and all corrupt inputs.',
 ['arolla/serialization_base','arolla/serialization_codecs'],[('encoder/decoder pairs','arolla/serialization_codecs')])
PP('P25','Fingerprints are deterministic and separate different values',
 'Within a process the fingerprint of a value depends only on its data: copies have the same fingerprint wherever they are held in memory, every byte combined into a fingerprint takes part in it, and two scalars, strings, buffers, arrays, edges or shapes of one type that a user can tell apart feed different data to the fingerprint.',
 ['inputs'],'all byte sequences combined into a fingerprint; all pairs of values of the container types',
 'A statement over pairs of values.',
 ['arolla/util/fingerprint.h','arolla/util/fingerprint.cc','arolla/array/id_filter.cc','arolla/dense_array/dense_array.h','arolla/memory/strings_buffer.cc'],[('per-type hashing traits','arolla/util/fingerprint.h')])
PP('P26','Concurrent evaluation and registries are race-free',
 'Compiled expressions may be evaluated from many threads at once and registries read while being extended without data races or lost registrations.',
 ['schedules'],'all thread interleavings',
 'Interleavings are not controlled by the tests.',
 ['arolla/util/threading.h','arolla/expr/registered_expr_operator.cc'],[('locks and immutable compiled state','arolla/expr')])
PP('P27','Index iteration and cursor helpers visit each element once in order',
 'Iterating an indexable container through its iterator visits positions 0..size-1 in order with consistent comparison, difference and arithmetic; and the safe addition, multiplication and absolute-value helpers used across the system return the exact result, or report overflow exactly when the result does not fit.',
 ['inputs'],'all sizes, positions, and operand values',
 'Arithmetic identities over all 64-bit positions cannot be sampled.',
 ['arolla/util/iterator.h','arolla/util/algorithms.h','arolla/util/overflow.h'],[('random-access iterator arithmetic','arolla/util/iterator.h')])
PP('P28','Sequence slicing and indexing respect bounds',
 'Slicing a sequence yields exactly the requested elements in order, with negative positions counted from the end and out-of-range ones clamped; indexing outside the bounds is reported as an error; neither ever reads outside the sequence. A range contains exactly the numbers from start (inclusive) to stop (exclusive) with the given step, a zero step being an error; repeat, make and zip give the elements asked for, in order.',
 ['inputs'],'all sequences, indices and slice bounds',
 'Index arithmetic over all 64-bit values.',
 ['arolla/sequence/sequence.h','arolla/sequence/mutable_sequence.h','arolla/qexpr/operators/seq/sequence_operators.h','arolla/qexpr/operators/bootstrap/sequence_operators.cc'],[('bounds checks','arolla/sequence/sequence.h')])
for i in ['P%02d'%k for k in range(1,29) if k!=8]: NA.setdefault(i,'no contract built for it yet')
NA['P23']='needs a semantics of the whole expression language and its operator registry as the specification; no contract over the individual functions within reach of the verifier expresses it'
NA['P24']='the encoders and decoders are protobuf- and virtual-dispatch-based functions over unbounded type-erased object graphs, outside the IR subset the verifier accepts; fingerprint equality would additionally need an injective model of CityHash'
NA['P26']='a statement about thread schedules; the deductive verifier here is sequential and the obligations would all be about the C++ memory model'
