"""Which units (contract files) decide which property."""
T='Assurance: every obligation generated from the current source is discharged for all inputs and any number of loop iterations. '
A='arolla/'
# implementation files linked into native runs
UTIL=[A+'util/%s.cc'%f for f in('bytes','class_info','demangle','fingerprint','init_arolla','init_arolla_internal','repr','text','unit')]
QTYPE=UTIL+[A+'memory/%s.cc'%f for f in('raw_buffer_factory','frame','optional_value')]+[A+'qtype/%s.cc'%f for f in('base_types','derived_qtype','optional_qtype','qtype','tuple_qtype','typed_ref','typed_slot','typed_value','weak_qtype')]
PROPS={
 'P01':dict(level='proof',units=[dict(src='bits.cc')],note=T+'Trusted: the VC generator vc/sym.py, clang front end, SMT solvers. Array lengths are assumed below 2^40 elements.',
   assumptions=['array lengths below 2^40 elements']),
 'P02':dict(level='proof',units=[dict(src='algos.cc')],note=T+'Trusted: the VC generator vc/sym.py, clang front end, SMT solvers.',
   assumptions=['bit counts below 2^45']),
 'P03':dict(level='proof',units=[dict(src='bitmap.cc')],note=T+'Builder histories: one AddByGroups step is proved from an arbitrary state satisfying the builder invariant.',
   assumptions=['bit counts below 2^40','RawBufferFactory contract: CreateRawBuffer(n) returns n fresh bytes']),
 'P05':dict(level='proof',units=[dict(src='arith.cc')],note=T+'Trusted: as P01, and the stand-ins for absl status construction in units/models.h (proof only; native runs use the real abseil).',
   assumptions=['absl::Status constructors and error factories yield a status of the documented code (units/models.h)']),
 'P06':dict(level='proof',units=[dict(src='casts.cc',srcs=['arolla/util/repr.cc'])],note=T+'Trusted: as P05; message formatting (Repr, StrCat) is assumed to return some string.',
   assumptions=['absl::Status constructors and error factories yield a status of the documented code (units/models.h)','Repr and StrCat return some string and have no other effect']),
 'P04':dict(level='proof',units=[dict(src='bsearch.cc')],note='Galloping search: discharged for all arrays up to 2^40 elements. LowerBound/UpperBound: the real code instantiates the search once per power of two of the length; the instances for lengths below 2^8 (quick) or 2^16 (thorough) are discharged for all contents and keys, larger lengths are not covered.',
   assumptions=['array lengths below 2^8 (quick) / 2^16 (thorough) for LowerBound and UpperBound','the array has no NaN element']),
 'P07':dict(level='proof',units=[dict(src='logic.cc'),dict(src='arraylogic.cc',srcs=[A+f for f in('array/edge.cc','array/id_filter.cc','dense_array/bitmap.cc','dense_array/edge.cc','memory/strings_buffer.cc','memory/raw_buffer_factory.cc','util/fingerprint.cc','util/preallocated_buffers.cc','util/status.cc')])],note=T+'Trusted: as P01. Proved also for dense arrays (has, not, and). Bounded: or on dense arrays and on arrays of every form, and the conditional on dense arrays, against small random arrays. Optional lifting is checked for WrapFnToAcceptOptionalArgs; lifting generated by the operator codegen is not.',
   assumptions=[]),
 'P27':dict(level='proof',units=[dict(src='index.cc')],native_s=2,note=T+'Trusted: as P05.',
   assumptions=['positions and lengths below 2^40']),
 'P28':dict(level='proof',units=[dict(src='seq.cc',srcs=[f for f in QTYPE if 'typed_ref' not in f]+[A+f for f in('qexpr/operators.cc','qexpr/qexpr_operator_signature.cc','qexpr/operator_errors.cc','sequence/sequence.cc','sequence/mutable_sequence.cc','sequence/sequence_qtype.cc')])],note=T+'MutableSequence::Make, seq.make and seq.zip are covered by bounded native contracts only. DCHECKs are dropped in the obligations of this unit (they are executed natively).',
   assumptions=['MutableSequence::Make returns fresh memory for that many elements or an error','element types are copied bytewise in the proofs (int32, int64, bool)']),
 'P09':dict(level='proof',units=[dict(src='idfilter.cc')],note=T+'Trusted: as P01. The debug-only re-validation of ids in the constructor is dropped in the obligations (it is executed natively).',
   assumptions=['id lists below 2^40 elements, ids below 2^40, offsets within +-2^40','callers pass ascending ids in range (the documented precondition of IdFilter)']),
 'P13':dict(level='proof',units=[dict(src='refcount.cc')],native_s=2,note=T+'Histories are decided by induction over one owner operation started from any state satisfying "count = number of owners". Sequential executions only: the atomic operations are taken in program order.',
   assumptions=['counts stay below 2^30','single-threaded histories (the memory orderings are not checked)']),
 'P14':dict(level='proof',units=[dict(src='agg.cc',srcs=['arolla/util/cancellation.cc'])],native_s=2,note=T+'Accumulators with a constant-size state (count, any, all, logical, sum, product, mean, min, max, weighted average, collapse, arg min/max) are proved by their fold equations from any state. Those that collect the group in a vector or hash map (median, inverse CDF, ranks, weighted CDF, inverse mapping, string join, group by, take over) are covered by bounded native histories only (groups of up to 9 elements, up to 4 groups).',
   assumptions=['counts stay below 2^62','floating-point sums are taken in IEEE double arithmetic as written']),
 'P18':dict(level='proof',units=[dict(src='strings.cc',srcs=['arolla/qexpr/operators/strings/strings.cc'])],native_s=4,note=T+'Proved: position clamping, and bytes find/rfind for all strings, patterns and positions, over a stand-in with the documented contract of absl::string_view::find/rfind. Substrings, stripping, replacing, decoding and everything on unicode text build std::string values and are covered by bounded native contracts only (strings of up to 9 characters).',
   assumptions=['absl::string_view::find and rfind return the first / last occurrence (stand-ins in units/strings.cc)','strings below 2^40 bytes','utf8_range (not installed) replaced by a validator of RFC 3629 in native runs']),
 'P10':dict(level='proof',units=[dict(src='edge.cc',srcs=[A+f for f in('array/edge.cc','array/id_filter.cc','dense_array/bitmap.cc','memory/raw_buffer_factory.cc','util/fingerprint.cc','util/preallocated_buffers.cc')])],native_s=4,note=T+'Proved for dense edges: validation by the factories, uniform groups, and conversion of split points to a mapping. Converting a mapping to split points, composition, equivalence and everything on (sparse) array edges are covered by bounded native contracts only (up to 5 edges with up to 52 children).',
   assumptions=['bitmap::CountBits counts (P03)','uniform group sizes below 2^22 for the values of the points','split points below 2^40']),
 'P11':dict(level='proof',units=[dict(src='strbuf.cc',srcs=[A+f for f in('memory/raw_buffer_factory.cc','util/fingerprint.cc','util/preallocated_buffers.cc')])],native_s=4,note=T+'Builder and reshuffle operations are proved one step at a time from any state satisfying the class invariant; growing the character buffer (reallocation) and whole histories are covered by bounded native contracts (up to 9 entries).',
   assumptions=['lengths and offsets below 2^40','RawBufferFactory contract: CreateRawBuffer(n) returns n fresh bytes']),
 'P12':dict(level='proof',units=[dict(src='frame.cc')],native_s=3,note=T+'Slot placement is proved one addition at a time from any builder state, for ten combinations of size and alignment and for subframes. The loops that construct and destroy the fields of one or many frames are proved to visit each field of each frame exactly once; how the list of initializers is merged over a whole history is covered by bounded native histories (up to 9 additions per level, subframes three levels deep).',
   assumptions=['frames below 2^40 bytes','stand-in for absl::flat_hash_map (a list of pairs)','subframes without initializers in the proof of add_sub_frame']),
 'P15':dict(level='proof',units=[dict(src='denseops.cc',srcs=[A+f for f in('dense_array/bitmap.cc','memory/raw_buffer_factory.cc','memory/strings_buffer.cc','util/fingerprint.cc','util/status.cc')]),dict(src='denserows.cc',srcs=[A+f for f in('dense_array/bitmap.cc','memory/raw_buffer_factory.cc','util/fingerprint.cc','util/status.cc')])],native_s=2,note=T+'Proved for one scalar function per implementation (unary, binary with and without offsets, ternary, row iteration, the universal unary operation and one word of the universal operation with optional argument and result). The other arities, string values, status-returning functions and the array helpers are covered by bounded native contracts (arrays of up to 140 elements).',
   assumptions=['array lengths below 2^40','bitmap::GetWordWithOffset reads 32 presence bits (P03; stand-in in units/denserows.cc)','RawBufferFactory contract: CreateRawBuffer(n) returns n fresh bytes']),
 'P16':dict(level='proof',units=[dict(src='array.cc',srcs=[A+f for f in('array/array_util.cc','dense_array/bitmap.cc','memory/raw_buffer_factory.cc','memory/strings_buffer.cc','util/fingerprint.cc','util/preallocated_buffers.cc')])],native_s=3,note=T+'Proved for arrays in sparse, dense and constant form: the element at a position, slices, iteration over all and over present elements, and over a subset of ids in sparse form. Conversions between the forms (WithIds, ToSparseForm, ToDenseForm, MakeOwned, ToDenseArray, ToBuffer, CreateArray, the builder), present counts, equivalence, first and last present ids and the joint iteration over several arrays are covered by bounded native contracts (up to 98 elements).',
   assumptions=['array lengths and ids below 2^40','bitmap::IterateByGroups visits every bit once, in order (P03; stand-in in units/dense.h)','callers pass ascending ids in range']),
 'P25':dict(level='proof',units=[dict(src='fingerprint.cc'),dict(src='fpvalues.cc',srcs=[A+f for f in('array/array.cc','array/edge.cc','array/id_filter.cc','dense_array/bitmap.cc','dense_array/dense_array.cc','dense_array/edge.cc','memory/raw_buffer_factory.cc','memory/strings_buffer.cc','util/bytes.cc','util/fingerprint.cc','util/preallocated_buffers.cc','util/repr.cc','util/text.cc','util/unit.cc')])],native_s=3,note=T+'Proved: the hasher feeds every byte it is given, once and in order, to the hash function, from any state of its buffer; scalars feed their bytes, strings and spans their length and then their contents. That the traits of the value types (optional values, buffers, strings buffers, id filters, dense and sparse arrays, edges, shapes) feed what tells two values apart is covered by bounded native contracts (pairs of small values). Expressions, operators, QTypes and decision forests are not covered.',
   assumptions=['CityHash128WithSeed is deterministic and separates different inputs (any function in the proofs; a mixing stand-in in native runs)','the seed of the process is a constant']),
 'P20':dict(level='exploration',units=[dict(src='lru.cc')],native_s=4,note='Bounded only: random histories of up to 40 operations on at most 9 keys (with and without weights, with colliding hashes) against a list kept in order of use. std::list and absl::flat_hash_set are beyond the reach of the verifier (heap structures of unbounded shape).',
   assumptions=[]),
 'P17':dict(level='proof',units=[dict(src='groupops.cc',srcs=[A+f for f in('array/edge.cc','array/id_filter.cc','dense_array/bitmap.cc','dense_array/edge.cc','memory/raw_buffer_factory.cc','util/fingerprint.cc','util/preallocated_buffers.cc','util/status.cc')])],native_s=4,note=T+'Proved: for a scalar edge every present row reaches the accumulator once, in order and with its value, and differing sizes are an error; for split points over arrays without missing elements the rows of a group are exactly those between its points and the result is placed at the group (aggregators) or at each row (partial). Other cases with mapping and split points, dense and sparse arrays, aggregators, partial and full accumulators, optional arguments, ids and sticky errors are covered by bounded native contracts (up to 140 rows and 300 groups) against one fresh accumulator per group.'),
 'P22':dict(level='exploration',units=[dict(src='jagged.cc',srcs=[A+f for f in('array/edge.cc','array/id_filter.cc','dense_array/bitmap.cc','dense_array/edge.cc','memory/raw_buffer_factory.cc','util/fingerprint.cc','util/preallocated_buffers.cc','util/status.cc')])],native_s=4,note='Bounded only: random shapes of up to 6 dimensions and about 200 items per dimension (dense-array and array edges, split points and mappings) against nested lists of group sizes: construction, rejection of malformed edge lists, AddDims, RemoveDims, FlattenDims, equivalence, broadcasting and its edge, concatenation and stacking of shapes and of arrays. Vectors of edges behind shared pointers are beyond the reach of the verifier.',
   assumptions=[]),
 'P21':dict(level='proof',units=[dict(src='curves.cc',srcs=[A+'pwlcurve/curves.cc']),dict(src='curvefind.cc')],native_s=4,note=T+'Proved, for plain curves of any number of control points in single and double precision: the equations of the segments are, bit for bit, those of the slope and intercept of their end points, and evaluation gives the first value up to the first point, the last value from the last one and in between the equation of the one segment the input lies in. Bounded: random curves of up to 8 control points of every type, evaluated in single and double precision at, next to and between the points and at special values, against interpolation in extended precision with a rounding tolerance; infinite ends, rejected inputs and the textual form. The verifier treats floating-point arithmetic as uninterpreted (deterministic, addition and multiplication commutative), so the rounding tolerance, and the logarithms of the other curve types, are bounded only; the decimal converter is a stand-in.',
   assumptions=['floating-point operations are deterministic functions of their operands']),
 'P19':dict(level='exploration',units=[dict(src='forest.cc',srcs=[A+f for f in('array/qtype/types.cc','decision_forest/batched_evaluation/batched_forest_evaluator.cc','decision_forest/decision_forest.cc','decision_forest/pointwise_evaluation/forest_evaluator.cc','decision_forest/pointwise_evaluation/oblivious.cc','decision_forest/pointwise_evaluation/single_input_eval.cc','dense_array/bitmap.cc','dense_array/qtype/types.cc','memory/frame.cc','memory/optional_value.cc','memory/raw_buffer_factory.cc','memory/strings_buffer.cc','qtype/array_like/array_like_qtype.cc','qtype/array_like/frame_iter.cc','qtype/base_types.cc','qtype/derived_qtype.cc','qtype/optional_qtype.cc','qtype/qtype.cc','qtype/shape_qtype.cc','qtype/typed_ref.cc','qtype/typed_slot.cc','qtype/typed_value.cc','qtype/weak_qtype.cc','util/bytes.cc','util/class_info.cc','util/demangle.cc','util/fingerprint.cc','util/init_arolla.cc','util/init_arolla_internal.cc','util/preallocated_buffers.cc','util/repr.cc','util/text.cc','util/unit.cc','array/array.cc','array/edge.cc','array/id_filter.cc','decision_forest/pointwise_evaluation/bitmask_builder.cc','decision_forest/pointwise_evaluation/bitmask_eval.cc','dense_array/dense_array.cc','dense_array/edge.cc')])],native_s=5,note='Bounded only: random forests of up to 5 trees (complete, degenerate and random shapes of up to 40 splits; interval, integer-set and text-set conditions on up to 5 inputs with infinite, NaN and missing values) evaluated by the plain evaluation, by the compiled evaluators with each of their algorithms switched on and off, in groups and over batches of up to 39 rows, against a walk of the tree; malformed trees. The evaluators are vectors of type-erased predictors, beyond the reach of the verifier.',
   assumptions=[]),
}
