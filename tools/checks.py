"""What is built and run for each property."""

def parts(name, n, **kw):
    return [dict(name='%s_%d' % (name, i), src=name + '.cpp', defs=['-DPART=%d' % i] + kw.get('defs', []), **{k: v for k, v in kw.items() if k != 'defs'}) for i in range(n)]

CHECKS = {}
NOT_APPLICABLE = []

_MKL = 'repo:src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp'
NOTE = 'Held on the executions of the run, see the evidence file; trusts the reference matrices of harness/bb.h and the sanitizers of clang 18. '

CHECKS['C01'] = dict(
    technique='reference-model monitor over random and hostile operand pairs, under ASan and UBSan',
    level_note=NOTE + 'Every ordered pair of 8 column-major and 5 row-major kinds.',
    units=parts('c01', 8),
    rule='random shapes (0..40) and twelve sparsity patterns per operand, second operand random or related to the first; every ordered pair of kinds; '
         'distinct: hash of kind pair and both operands, non-trivial: at least one non-zero element in each operand that can hold one',
    assumptions=['values are small integers times a power of two, so every sum is exact in the result precision and compared for equality'],
    must_observe=['updates of windows', 'matrices storing zeros', 'cases with long lines', 'cases with a line of more than 65536 elements', 'updates done', 'updates refused'],
)

CHECKS['C02'] = dict(
    technique='reference-model monitor over random operand pairs for every backend, under ASan and UBSan',
    level_note=NOTE + 'Backends: native, OpenBLAS, Eigen and the best-policy selector; every pair of 8 column-major kinds and pairs of row-major kinds. Intel MKL and Blaze are not installed: their functors run against stand-ins that check every argument (MKL dense routines: OpenBLAS).',
    units=parts('c02', 9) + [dict(name='c02_9', src='c02.cpp', defs=['-DPART=9'], objs=['tracker', 'blas', _MKL]), dict(name='c02_10', src='c02.cpp', defs=['-DPART=10'])],
    rule='random shapes (0..40, kernel boundary shapes up to 65), twelve sparsity patterns, operands exact in either precision or needing rounding; result into fresh, used and dirty destinations; '
         'distinct: hash of backend, kind pair and both operands',
    assumptions=['integer operands: products exact and compared for equality; rough operands: compared to a long double reference with a bound of 4(k+1) units of rounding times the largest magnitudes'],
    must_observe=['matrices storing zeros', 'cases with long lines', 'products OpenBLAS', 'products Eigen', 'products Native', 'products TheBestPolicy', 'inner dimension zero', 'products into dirty destinations', 'squares', 'products IntelMKL', 'products Blaze', 'dcsrmm', 'scsrmm', 'dcsrmultcsr', 'scsrmultcsr'],
)

CHECKS['C03'] = dict(
    technique='differential monitor: runtime dispatch against the concrete types and the reference model, under ASan and UBSan',
    level_note=NOTE + 'All 49 pairs of runtime kinds for products (native and best policy), sums, differences and updates; all 7 kinds for queries and conversions.',
    units=parts('c03', 5),
    rule='random shapes (0..20) and twelve sparsity patterns; every ordered pair of kinds in turn, then kinds at random; every operation repeated; distinct: hash of kinds and operands',
    assumptions=['dispatch before main is not exercised: the dispatch tables are initialised with the program'],
    must_observe=['matrices storing zeros', 'cases with long lines', 'cases with a line of more than 65536 elements', 'products Native', 'products TheBestPolicy', 'sums and differences', 'updates done', 'updates refused', 'queries', 'with itself'],
)

CHECKS['C04'] = dict(
    technique='reference-model monitor over random blocked operands, and an error-bound monitor over the whole cutting, multiplying and assembling path, under ASan and UBSan',
    level_note=NOTE + 'Blocks of all 7 runtime kinds, mixed at random and every pair of kinds.',
    units=parts('c04', 2),
    rule='random partitions (whole, ones, small, halves) of shapes up to 24; distinct: hash of both operands and the partition, non-trivial: both operands non-zero',
    assumptions=['hand-made blocks hold integers times a power of two, compared for equality; the path from block-size detection to assembly is compared to a long double product with a bound derived from the thresholds',
                 'there is at least one inner block'],
    must_observe=['matrices storing zeros', 'cases with long lines', 'products', 'products over several inner blocks', 'products over used matrices', 'squares', 'chains', 'pipelines'],
)

CHECKS['C05'] = dict(
    technique='invariant monitor over detected block sizes (partition, limits, placement against a greedy reference, CPU-time limit), under ASan and UBSan',
    level_note=NOTE + 'Magnitude profiles of integers, doubles and floats with and without ties, matrices in both storage orders and precisions, products.',
    units=parts('c05', 1),
    rule='profiles up to 400 places in six styles, matrices up to 60x60 in five magnitude styles, limits small, equal, wide and overflowing; distinct: hash of profile or matrix and limits',
    assumptions=['at least one row and column, a maximum of at least one', 'magnitude profile: summed changes of the binary exponents of neighbouring rows or columns; the choice between places of equal change is judged by the limits only',
                 'a case which needs more than 30 s of CPU time (they take milliseconds) is taken not to terminate'],
    must_observe=['strictly ordered profiles', 'dimensions cut', 'dimensions left whole', 'limits refused', 'limits accepted', 'matrices'],
)

CHECKS['C06'] = dict(
    technique='round-trip monitor on cutting and reassembly, and a recount of all block summaries, under ASan and UBSan',
    level_note=NOTE + 'Sources in double and single precision, hand-assembled and initializer-list block matrices.',
    units=parts('c06', 1),
    rule='random partitions of shapes up to 40, elements spread over and exactly on the significance thresholds, random occupation limits; distinct: hash of matrix and partition',
    assumptions=['occupation limits let no form accept an element it cannot hold'],
    must_observe=['cases with long lines', 'cases with a line of more than 65536 elements', 'cut in both dimensions', 'assembled by hand', 'blocks summarised', 'wrong initializer lists'] + ['blocks ' + k for k in ('Zero', 'SparseF', 'DenseF', 'SparseD', 'Multi<SparseD,SparseF>', 'Multi<SparseD,DenseF>', 'DenseD')],
)

CHECKS['C07'] = dict(
    technique='reference-model monitor on the chosen form and on every converted element, under ASan and UBSan',
    level_note=NOTE + 'Sources: dense double and single, column- and row-major, and views.',
    units=parts('c07', 1),
    rule='shapes up to 14x14, elements in all significance classes and exactly on the thresholds, occupation limits random and exactly met; every matrix converted with five settings in a row; distinct: hash of matrix and settings',
    assumptions=['single-precision threshold above the double-precision one', 'occupation limits let no form accept an element it cannot hold (zero: none, single-precision forms: none above the single-precision threshold)'],
    must_observe=['cases with long lines', 'cases with a line of more than 65536 elements'] + ['form ' + k for k in ('Zero', 'SparseF', 'DenseF', 'SparseD', 'Multi<SparseD,SparseF>', 'Multi<SparseD,DenseF>', 'DenseD')],
)

CHECKS['C08'] = dict(
    technique='reference-model and well-formedness monitor over every conversion, with and without magnitude range, under ASan and UBSan',
    level_note=NOTE + 'Every conversion the library offers between 4 dense, 4 sparse, 2 zero and 3 multiple kinds, and from views.',
    units=parts('c08', 5),
    rule='random shapes (0..40) and sparsity patterns, values exact, needing rounding, underflowing in single precision; ranges of four kinds with bounds on elements; distinct: hash of conversion and source',
    assumptions=['finite values within the range of single precision'],
    must_observe=['matrices storing zeros', 'cases with long lines', 'cases with a line of more than 65536 elements', 'conversions', 'conversions with range', 'converted back', 'conversions of views'],
)

CHECKS['C09'] = dict(
    technique='reference-model and well-formedness monitor over transpositions, under ASan and UBSan',
    level_note=NOTE + 'Dense and sparse, both storage orders and precisions, also results of products and differences.',
    units=parts('c09', 1),
    rule='random shapes (0..90) and sparsity patterns; distinct: hash of kind and source, non-trivial: non-zero source',
    must_observe=['matrices storing zeros', 'cases with long lines', 'cases with a line of more than 65536 elements', 'transpositions', 'rectangular', 'empty', 'transposed results'],
)

CHECKS['C10'] = dict(
    technique='definition monitor on norms and a state-machine monitor on cached norms over random programs of whole-matrix operations, under ASan and UBSan',
    level_note=NOTE + 'All representations, views, runtime-typed and blocked matrices; all three norms, each also as the norm of the matrix type.',
    units=parts('c10', 3),
    rule='shapes up to 90x90, magnitudes from 2^-300 to 2^300 (2^-60 to 2^60 in single precision); programs of 8 to 30 operations on three matrices, each followed and preceded by questions; distinct: matrix or hash of the states of a program',
    assumptions=['tolerance 4e-16 (n+8) relative for n elements', 'squares neither overflow nor underflow', 'single elements written into a matrix after a question are followed by resetNorm(), as documented'],
    must_observe=['matrices storing zeros', 'cases with long lines', 'cases with a line of more than 65536 elements', 'norms', 'questions', 'answers one', 'answers two', 'answers max', 'histories', 'views', 'results asked'],
)

CHECKS['C11'] = dict(
    technique='recount monitor on occupation questions in random order, and a state-machine monitor over random programs of whole-matrix operations, under ASan and UBSan',
    level_note=NOTE + 'All representations, views, runtime-typed and blocked matrices; four kinds of range with double and single bounds.',
    units=parts('c11', 3),
    rule='shapes up to 40x40, ranges with bounds on elements and neighbours of ranges asked before (other kind, other precision, one bound moved); programs of 8 to 30 operations on three matrices; distinct: matrix or hash of the states of a program',
    assumptions=['ranges that contain zero are asked of dense matrices only: other representations do not store zeros', 'single elements written into a matrix after a question are followed by reset()'],
    must_observe=['cases with long lines', 'cases with a line of more than 65536 elements', 'ranges splitting the elements', 'resets', 'answers', 'histories', 'questions of blocked matrices', 'results asked'],
)

CHECKS['C12'] = dict(
    technique='state-machine monitor comparing every live matrix and the memory of the caller with a model after every value operation, under ASan and UBSan',
    level_note=NOTE + 'Dense (double, float, int), sparse, zero and blocked matrices, sums of two matrices, matrices over guarded memory of the caller, windows into several matrices.',
    units=parts('c12', 1),
    rule='programs of 10 to 40 operations on four matrices; distinct: hash of the operations and states of a program',
    assumptions=['a copy assigned from a matrix over memory of the caller refers to the same memory and is not judged', 'a moved-from matrix is only assigned, resized or destroyed', 'a copied blocked matrix has its own array of blocks, the blocks are shared'],
    must_observe=['cases with long lines', 'cases with a line of more than 65536 elements', 'op copy assignment', 'op move assignment', 'op swap', 'op resize', 'op refused resize', 'op write', 'caller-owned memory compared', 'states compared', 'storages', 'windows walked'],
)

CHECKS['C15'] = dict(
    technique='definition monitor on membership and refusal, order-axiom monitor over all triples of random range sets, under ASan and UBSan',
    level_note=NOTE + 'Four kinds of range with double and float bounds; double, float, int and complex numbers.',
    units=parts('c15', 1),
    rule='bounds from a pool with many equal, tiny, huge and infinite ones; numbers on, next to and away from the bounds; sets of up to 20 ranges with duplicates; distinct: range or set of ranges',
    assumptions=['bounds and numbers are not NaN and have a representable magnitude', 'equal bounds are refused unless both are inclusive, as documented with the ranges'],
    must_observe=['values inside', 'values outside', 'negative bounds', 'reversed bounds', 'equal bounds', 'ordered triples'],
)

CHECKS['C13'] = dict(
    technique='allocation monitor (accounting, two fill patterns, refusal of every single allocation) over random programs on the whole interface, under ASan and UBSan',
    level_note=NOTE + 'Programs over 22 classes of operations, from products to text output, serialization and blocked matrices.',
    units=[dict(name='c13', src='c13.cpp', defs=['-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION'], objs=['tracker', 'blas', 'repo:src/MatrixFactory/MatrixGenerator.cpp'], thorough=8)],
    rule='random programs of 1..12 operations; each run with memory preset to two patterns and compared, and with bytes allocated before and after compared; each allocation of short programs refused in turn; each allocation of an assignment, resize, update, load or question of 7 kinds of matrix, of blocked matrices and of storages refused in turn, after which the matrix must hold its old or its new elements by every way of reading it; '
         'distinct: digest of everything the program observed',
    assumptions=['memory is accounted after every operation has run once (first-use tables are kept for the life of the process)'],
    must_observe=['allocations', 'allocations refused', 'programs ended by a refused allocation', 'first uses failed', 'matrices used after a failed operation', 'operations survived', 'storages used after a failed operation', 'refused sums of two matrices'] + ['op ' + o for o in ('products', 'backends', 'sums and differences', 'updates', 'dense operations', 'adaptive conversion', 'blocked matrices', 'views and walkers', 'questions', 'text output', 'sums of two matrices', 'memory of the caller', 'value operations', 'initializer lists', 'ranges', 'fillers', 'statistics', 'generated matrices', 'serialization', 'sparse operations', 'missing files', 'storages')],
)

CHECKS['C14'] = dict(
    technique='address monitor: the address every access, walker and iterator reaches is compared with the place of the element in the original, under ASan and UBSan',
    level_note=NOTE + 'Both storage orders and precisions, owned and caller-owned memory, views of views, copied, moved and swapped views, blocked matrices.',
    units=parts('c14', 1),
    rule='random shapes (0..60) and windows (whole, single element, bordering, empty, random, nested); four walking directions forwards and backwards, storage order in four ways, six ways of writing; distinct: hash of matrix and window',
    assumptions=['views of default-constructed views are not asked'],
    must_observe=['cases with long lines', 'cases with a line of more than 65536 elements', 'views', 'empty views', 'whole views', 'views of views', 'walks', 'copies between views'] + ['writes %d' % i for i in range(6)],
)

CHECKS['C16'] = dict(
    technique='reference-model monitor over chains of constructions, resizings and fillings of matrices with a past, under ASan and UBSan',
    level_note=NOTE + 'Dense, sparse, zero and blocked matrices in both storage orders and precisions, three index types, owned and caller-owned memory.',
    units=[dict(name='c16', src='c16.cpp', defs=['-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION'])],
    rule='random shapes (0..70, now and then up to 260, same size, transposed) and fillers on matrices that were used, copied, swapped or moved from; distinct: hash of shapes and fillers of a chain and the starting matrix',
    assumptions=['sparse matrices are filled only when they have room for all elements; a fill without structure (equal elements into a sparse matrix never filled before) is outside the claim', 'number of elements fits the index type'],
    must_observe=['cases with long lines', 'cases with a line of more than 65536 elements', 'refused resizes', 'refused diagonals', 'enormous sizes', 'sparse filled', 'sparse resized', 'blocked resized', 'zero', 'lists', 'very many elements', 'dimensions'] + ['resized ' + f for f in ('equal elements', 'consecutive numbers', 'reciprocal index sums', 'constant diagonal', 'assigned value', 'no filler')],
)

CHECKS['C18'] = dict(
    technique='range, reproducibility and collision monitors over random settings, from one and eight threads, under ASan and UBSan',
    level_note=NOTE + 'The chance of a proper generator failing the spread monitor is below one in ten to the twenty.',
    units=[dict(name='c18', src='c18.cpp', objs=['tracker', 'blas', 'repo:src/MatrixFactory/MatrixGenerator.cpp'])],
    rule='random shapes (0..40), seeds (small, neighbouring, all single-bit changes, around powers of two) and exponent ranges; distinct: hash of the settings',
    assumptions=['minimum exponent not above the maximum', 'different seeds are compared for 4x4 matrices or larger with a range of at least half an exponent', 'spread is judged by 16 parts of the range'],
    must_observe=['matrices', 'repeated', 'defaults', 'seeds compared', 'distributions', 'generated by threads'],
)

CHECKS['C25'] = dict(
    technique='recomputation monitor for deviations and equality over related and unrelated operands, under ASan and UBSan',
    level_note=NOTE + 'All 64 pairs of dense and sparse kinds in both storage orders and precisions, and views.',
    units=[dict(name='c25', src='c25.cpp')],
    rule='random shapes (0..40) and patterns; second operand equal, unrelated, changed in one, some or all elements by amounts from 1e-16 to 10; equality at 0.1 to 1e8 times the tolerance, other shapes, exchanged elements; distinct: hash of kinds and both operands',
    assumptions=['finite elements; squares neither over- nor underflow', 'deviations within 1e-12 of the recomputed ones, exactly zero for equal operands', 'elements within one percent of the tolerance are not judged',
                 'sparse matrices have to store the same positions to compare as equal, so stored positions are the same where equality is asked'],
    must_observe=['cases with long lines', 'cases with a line of more than 65536 elements', 'equal matrices', 'different matrices', 'equal within accuracy', 'not equal within accuracy', 'other shape', 'scalars'],
)

CHECKS['C20'] = dict(
    technique='counting monitor: every change of the register compared with the executed operations, with stepped-back clock and contending threads; ASan, UBSan and ThreadSanitizer',
    level_note=NOTE + 'Products of all representations and backends, runtime-typed and blocked products, block-size detection. Intel MKL and Blaze are not installed: their functors run against stand-ins.',
    units=[dict(name='c20', src='c20.cpp', copies=2, defs=['-DBLASBOOSTER_USE_TRACKER'], objs=['tracker', 'blas', _MKL]),
           dict(name='c20_tsan', src='c20.cpp', copies=2, variant='tsan', scale=0.4, defs=['-DBLASBOOSTER_USE_TRACKER'], objs=['tracker', 'blas', _MKL])],
    rule='every operation alone, random sequences of up to 25, 2 to 8 threads of up to 80 operations while another thread prints reports; distinct: operation, sequence or thread program',
    assumptions=['a product of sums of two matrices counts as the products of their parts'],
    must_observe=['entries', 'operations alone', 'operations in sequences', 'sequences while the clock is set back', 'operations on threads', 'reports during operations', 'scopes'],
)

CHECKS['C21'] = dict(
    technique='race detector (ThreadSanitizer) over random programs on 2 to 6 threads with injected delays, and a monitor comparing every result with a sequential run',
    level_note=NOTE + 'The whole interface: products with all backends, sums, updates, conversions, blocked matrices, views, questions, output, serialization, generators. Boost and OpenBLAS themselves are not instrumented.',
    units=[dict(name='c21', src='c21.cpp', copies=3, variant='tsan', defs=['-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION'], objs=['tracker', 'blas', 'repo:src/MatrixFactory/MatrixGenerator.cpp']),
           dict(name='c21_tracker', src='c21.cpp', copies=2, variant='tsan', scale=0.4, defs=['-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION', '-DBLASBOOSTER_USE_TRACKER'], objs=['tracker', 'blas', 'repo:src/MatrixFactory/MatrixGenerator.cpp'])],
    rule='random programs over 22 classes of operations on the matrices of each thread and 12 classes reading common matrices; a process of its own per case for first uses; without and with usage tracking; distinct: program of a thread',
    assumptions=['a matrix asked for its norm or occupation, or converted by occupation, is not used by another thread at that time: it keeps the answer', 'one thread per BLAS call'],
    must_observe=['first uses', 'programs on threads', 'operations on threads', 'programs reading common matrices', 'large products'],
)

CHECKS['C24'] = dict(
    technique='monitor on every selector call (which action ran, with what, how often, what came back) against the list, and on every compile-time lookup, under ASan and UBSan',
    level_note=NOTE + 'Lists of 0 to 40 types with and without repeats, 5 result types; runtime kinds through both selectors and both tables.',
    units=[dict(name='c24', src='c24.cpp', defs=['-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION'])],
    rule='35 lists made at compile time, 40 random pairs of predicates each (also accepting nothing); every pair of runtime kinds with random matrices; distinct: list and predicate, pair of kinds and matrix',
    assumptions=['selection of nothing is refused when core failures are configured to throw', 'StaticDispatcher cannot be instantiated (its compile-time assertion fails for every list) and is not claimed'],
    must_observe=['lists', 'members', 'selections', 'selections refused', 'pair selections', 'pair selections refused', 'kinds selected', 'names'],
)

CHECKS['C23'] = dict(
    technique='output monitor: every image and text is parsed by an independent reader and compared with the matrix, under ASan and UBSan',
    level_note=NOTE + 'Images of dense matrices of both storage orders and precisions and of views; texts of all representations and runtime kinds in both print modes.',
    units=[dict(name='c23', src='c23.cpp')],
    rule='random shapes (images 0..60, texts around the limits of 100), palettes of 0 to 26 colours with thresholds on elements, unsorted and repeated; distinct: matrix and palette, or matrix and kind',
    assumptions=['palette entries are single printable characters other than quotation mark and backslash', 'text shows ten digits after the point (dense) or the precision of the stream (sparse)'],
    must_observe=['cases with long lines', 'images', 'images of views', 'images of empty matrices', 'settings from a property tree', 'texts', 'full prints', 'too large', 'runtime kinds shown', 'texts on one stream'],
)

CHECKS['C22'] = dict(
    technique='round-trip monitor over files, with a file monitor (contents, inode, time, open descriptors) under faults: missing, truncated at every byte, damaged, write limits at random bytes; under ASan and UBSan',
    level_note=NOTE + 'Dense matrices of six kinds, storages, paths, lists and composite objects, both formats. Damage inside the numbers of a file cannot be noticed: there any usable object is accepted.',
    units=parts('c22', 2),
    rule='random shapes (0..40, for full devices 90) and bit patterns (binary: also infinities, NaN and denormal numbers), loaded into new, used and equal objects; distinct: hash of kind and file',
    assumptions=['the same type is read as was written', 'XML: finite numbers that are not denormal', 'a file cut behind the last datum may be read'],
    must_observe=['round trips', 'overwrites refused', 'overwrites', 'failures', 'writes without enough room', 'truncations noticed', 'damages noticed', 'questions after loading'],
)

CHECKS['C17'] = dict(
    technique='byte-exact monitor on imported matrices, and a file and memory monitor under faults: data and descriptors truncated at every byte, contradicting, malformed, missing; under ASan and UBSan',
    level_note=NOTE + 'Both descriptor formats, double and single precision, into new, used and caller-owned matrices.',
    units=[dict(name='c17', src='c17.cpp', objs=['tracker', 'blas', 'repo:src/MatrixFactory/MatrixFileImporter.cpp'])],
    rule='random stored matrices up to 30x30 with any bit patterns and windows (whole, bordering, inner, empty); distinct: descriptor and data',
    assumptions=['column-major matrices', 'offsets missing in an XML descriptor are zero; the file name is its last field', 'data missing outside the window need not be noticed', 'BrainTwister/Record.h is replaced by a stand-in (shim/), which refuses fields that are no numbers'],
    must_observe=['imports', 'imports of windows', 'imports of empty matrices', 'imports into memory of the caller', 'norms after an import', 'truncations noticed', 'truncated descriptor noticed', 'window outside the data noticed', 'absurd dimensions noticed', 'malformed descriptor noticed', 'failed imports accounted'],
)

import os as _os
_REPO_DEF = '-DREPO_DIR="%s"' % _os.environ.get('VERIF_REPO', '/repo')
CHECKS['C19'] = dict(
    technique='recording stand-ins for every BLAS symbol compare each call with the wrapper\'s arguments; differential monitor of every wrapper against the symbol in OpenBLAS; under ASan and UBSan',
    level_note=NOTE + 'All 154 routines and the 4 complex dot products of the OpenBLAS and the MKL interface, the 4 sparse MKL routines; MKL itself is not installed, its interface is judged by the recorded calls only.',
    units=[dict(name='c19_0', src='c19.cpp', defs=['-DPART=0', _REPO_DEF], objs=['blas']),
           dict(name='c19_1', src='c19.cpp', defs=['-DPART=1', _REPO_DEF], objs=['repo:src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp'], libs=['-lopenblas', '-lpthread']),
           dict(name='c19_2', src='c19.cpp', defs=['-DPART=2', _REPO_DEF], objs=['blas'])],
    rule='per routine random character arguments, sizes 0..4, leading dimensions and increments 9..12 (vectors: also negative), random contents and results, arguments sharing memory; distinct: hash of routine and its character and integer arguments',
    assumptions=['the table of routines in harness/c19_table.h was taken from the documented list of the pinned commit'],
    must_observe=['calls', 'results', 'aliased arguments', 'calls with output', 'documented', 'thread numbers'],
)
