#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the lines stay readable)."""
import json, os
C='include/BlasBooster/Core/'; U='include/BlasBooster/Utilities/'; I='include/BlasBooster/BlasInterface/'
F='include/BlasBooster/MatrixFactory/'
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Sums and differences are right for every pair of matrix representations",
  "For any two matrices of equal shape, each held in any supported representation (dense, sparse, zero, or a sum of two matrices) and precision, A+B and A-B have that shape and every element is the element-wise sum or difference, computed in the wider of the two precisions. A compound update A+=B or A-=B leaves in A exactly the element-wise result, or refuses with an exception and leaves A unchanged. The operands that are only read are never changed.",
  ["inputs","programs"],"all shapes, sparsity patterns, values, representation pairs, precisions and storage orders",
  "The unit tests add a few hand-written 2x2/3x3 matrices for some representation pairs; sign, merge order, pattern overlap and emptiness are quantified over all inputs and pairs.",
  [C+'BinaryFunctors.h',C+'MultipleMatrix.h',C+'ZeroMatrix.h',C+'SparseMatrix.h',C+'DenseMatrix.h'],
  [("element-wise and sorted-merge functors per representation pair",C+"BinaryFunctors.h BinaryOperationFunctor, BinaryAssignmentOperationFunctor")],
  ["operator+, operator-, operator+=, operator-= on concrete matrix types"])
p("C02","Matrix products are right for every representation pair and backend",
  "For any conformable pair of matrices in any supported representation and precision, and for every multiplication backend that accepts the pair, the product has as many rows as the left and as many columns as the right operand and each element is the inner product of the corresponding row and column up to rounding of the precision in which the two operands (or their parts) are multiplied, which is the wider one of the two. The operands are unchanged, and the result does not depend on what the destination held before. An inner dimension of zero yields an all-zero product.",
  ["inputs","configurations"],"all shapes (including empty and non-square), patterns, values, representation pairs, precisions, backends",
  "Existing multiplication tests use one 2x2 or 3x3 example per backend; leading dimensions, loop strides and empty columns only matter on shapes and patterns not sampled.",
  [C+'MatrixMultExp.h',C+'Multiplication.h',C+'Multiplication_Native.h',C+'Multiplication_OpenBLAS.h',C+'Multiplication_Eigen.h',C+'Multiplication_TheBestPolicy.h',C+'Multiplication_Blaze.h',C+'Multiplication_IntelMKL.h'],
  [("multiplication functors selected by operand kinds and backend tag",C+"Multiplication_*.h MultiplicationFunctor")],
  ["(A*B).execute<Backend>(), construction of a matrix from a product expression"])
p("C03","Runtime-typed operations agree with the statically typed ones",
  "For every ordered pair of runtime-typed matrices, whatever concrete kinds they hold, the runtime-dispatched product, sum, difference, compound update, norm, shape query, element-count query and conversion give exactly the result of the same operation on the concrete types. The reported kind of every runtime-typed matrix identifies the representation it really has, and the first use of any combination (after the program has entered main) behaves like every later use.",
  ["inputs","histories"],"all 7 x 7 pairs of concrete kinds, all operations, any order of first use",
  "Tests dispatch two or three kind combinations once; a transposed or off-by-one dispatch table only shows for specific pairs.",
  [U+'exec_dyn.h',U+'exec_dyn_2dim.h',U+'exec_if.h',U+'exec_if_2dim.h',C+'DynamicMatrixFunctions.h',C+'DynamicMatrixTypeList.h',C+'BinaryFunctors.h',C+'MatrixMultExp.h',C+'Norm.h'],
  [("dispatch tables built from the list of concrete kinds",U+"exec_dyn_2dim.h"),("linear search over the list",U+"exec_if.h")],
  ["free functions and operators on runtime-typed matrices"])
p("C04","Products of blocked matrices equal the product of the unblocked matrices",
  "For any two matrices cut into at least one block each, with matching inner block sizes, each block held in any representation, the blocked product assembles to the product of the assembled operands, and its block grid, block shapes and overall dimensions are the rows of the left and the columns of the right operand.",
  ["inputs"],"all block grids, block sizes and block representations",
  "One 2x2-block example is tested; accumulation over several inner blocks and mixed block kinds is not.",
  [C+'BlockedMatrix.h',C+'Multiplication_Native.h',C+'DenseMatrix.h',C+'MatrixMultExp.h'],
  [("row/column cursors over the block grid, per-block runtime dispatch",C+"Multiplication_Native.h")],
  ["(A*B).execute on blocked matrices; conversion blocked -> dense"])
p("C05","Block sizes always partition the matrix and respect the size limits",
  "For every matrix with at least one row and column and every pair of limits with a positive maximum and twice the minimum not above the maximum, block-size detection terminates and returns row and column sizes that are positive, add up to the dimensions, never exceed the maximum, and are never below the minimum unless a dimension is left whole; limits violating the relation are refused with an exception. For a product the inner sizes are one list valid for both operands. Cuts are placed where the magnitude profile of neighbouring rows or columns changes most (the choice among equal changes is free).",
  ["inputs"],"all matrices, shapes, magnitude profiles and limits",
  "Two hand-made profiles are tested; ties, profiles with no admissible cut and non-square matrices decide termination and correctness.",
  [C+'BlockSizeGenerator.h'],
  [("greedy cut insertion over sorted detection values",C+"BlockSizeGenerator.h get_block_size"),("exponent differences of neighbouring rows/columns",C+"BlockSizeGenerator.h get_detection_arrays")],
  ["BlockSizeGenerator operator(), matrix_matrix_mult, get_block_size, get_detection_arrays"])
p("C06","Cutting a matrix into blocks and reassembling it preserves it",
  "For any matrix and any partition of its rows and columns, the blocked form has one block per pair of row and column intervals with exactly that block's shape, and assembling the blocks reproduces every element to within the configured significance threshold (elements dropped) or single-precision rounding (elements demoted). A list of blocks is assembled in the same way, and refused if its blocks do not form a grid. The per-block kind, count, dimension and norm summaries describe exactly the blocks.",
  ["inputs"],"all matrices, partitions and thresholds",
  "No test cuts and reassembles a non-square matrix or checks the summaries.",
  [C+'BlockedMatrixGenerator.h',C+'MatrixConverter.h',C+'GenerateTypeMatrix.h',C+'DenseMatrix.h'],
  [("submatrix views passed to the adaptive converter",C+"BlockedMatrixGenerator.h")],
  ["BlockedMatrixGenerator, generateTypeMatrix, get_type_counting, generateDimensionMatrix, generateNormMatrix"])
p("C07","Adaptive conversion picks the first admissible form and bounds the error",
  "For any matrix and threshold settings for which some representation is admissible and no occupation limit admits an element which the form cannot hold, adaptive conversion chooses the first one, in the documented order from cheapest to most accurate, whose occupation limits for the double- and single-precision significance thresholds the matrix satisfies. Every element above the single-precision significance threshold is kept at the precision of the matrix values, every element between the two thresholds is kept at least in single precision, elements not above the double-precision threshold may be dropped, and nothing is counted twice.",
  ["inputs","configurations"],"all matrices, significance thresholds and occupation limits",
  "Two 2x2 matrices with one threshold set are tested; the decision depends on counts on both sides of both thresholds and on the order of the candidates.",
  [C+'MatrixConverter.h',C+'Threshold.h',C+'DynamicMatrixTypeList.h',U+'exec_if.h',C+'AbsoluteValueRangeChecker.h'],
  [("first-match search with occupation checks",C+"MatrixConverter.h"),("threshold lookup per representation and precision",C+"Threshold.h")],
  ["MatrixConverter result kind and elements"])
p("C08","Explicit conversions keep exactly the requested elements",
  "Converting any matrix between representation, storage order and precision keeps its shape and every element (rounded to the target precision), except that a conversion to dense or sparse form given a magnitude range keeps exactly the elements whose magnitude is in that range, and the zero form keeps the shape only. Values are finite and fit the target's range. The sparse form is always well formed: offsets start at zero and are non-decreasing, indices within a column or row are in range, sorted and unique, and the number of stored elements is the last offset. Converting back gives the kept elements and zeros elsewhere.",
  ["inputs"],"all shapes, patterns, values, ranges, source/target kinds and orders",
  "Tests convert a few small square matrices with the default range; non-square and mixed-order conversions use different strides.",
  [C+'DenseMatrix.h',C+'SparseMatrix.h',C+'SparseStorage.h',C+'ZeroMatrix.h',C+'MultipleMatrix.h',C+'Transposition.h',C+'Copy.h'],
  [("conversion constructors",C+"DenseMatrix.h, "+C+"SparseMatrix.h")],
  ["constructors of concrete matrix types from other matrices, element copy into a view"])
p("C09","Transposition swaps indices for every representation",
  "For every dense matrix in either storage order and every sparse matrix, the transpose has swapped dimensions and element (i,j) equals element (j,i) of the source; transposing twice gives the source back, the source is unchanged and sparse structure stays well formed.",
  ["inputs"],"all shapes, patterns and values",
  "Tests transpose one 3x3/2x3 example; empty rows/columns and single-row/column shapes exercise the counting pass differently.",
  [C+'Transposition.h'],[("counting sort of indices; paired cursors",C+"Transposition.h")],["transpose()"])
p("C10","Norms match their definition and always describe the current contents",
  "For every matrix in every representation the one-, two- and max-norm equal the sum of magnitudes, the root of the sum of squares and the largest magnitude of its current elements (to rounding), also for a sum of two matrices, a runtime-typed matrix and a blocked matrix. The larger-than and smaller-than queries agree with the norm value, asking does not change the matrix, and the answer after the whole matrix was assigned, swapped, moved, resized or updated with another matrix is that of the new contents, and the answer of the result of an operation is that of the result, whatever the operands and the destination were asked before.",
  ["inputs","histories"],"all matrices, representations and sequences of whole-matrix updates and queries",
  "Tests ask once, for one small matrix per type; staleness needs a query, an update and a second query.",
  [C+'Norm.h',C+'NormPolicy.h',C+'DenseMatrix.h',C+'SparseMatrix.h',C+'ZeroMatrix.h'],
  [("cached norm with an up-to-date flag",C+"NormPolicy.h"),("norm functors per representation",C+"Norm.h")],
  ["norm<>(), getNorm(), isNormLargerThan(), isNormSmallerThan()"])
p("C11","Occupation counts exactly the elements inside the asked magnitude range",
  "For any matrix and any magnitude range the number of significant elements is exactly the number of elements whose magnitude is in the range, occupation is that number over the matrix size, and the larger-than/smaller-than queries agree with it. A range that contains zero is asked of dense matrices. Answers for different ranges never influence each other, whatever the order and number of questions, and after a reset or whole-matrix assignment they describe the current contents.",
  ["inputs","histories"],"all matrices, all four kinds of range, all query sequences",
  "Tests ask one or two ranges once; the memo of answers is keyed by the range, so collisions need particular sequences.",
  [C+'Occupation.h',C+'OccupationPolicy.h',C+'AbsoluteValueRangeChecker.h',C+'DenseMatrix.h'],
  [("counts memoised per range",C+"OccupationPolicy.h")],["getNbOfSignificantElements, getOccupation, isOccupation*Than"])
p("C12","Copies, moves and swaps behave like independent values",
  "In any sequence of copying, moving, assigning, swapping, resizing and writing matrices or storages of one kind (dense, blocked, sparse, zero, or a bare storage), a copied or moved-to matrix has exactly the shape, overall dimensions and elements of its source at that moment, later writes to one never show in another that owns its memory (the blocks of a blocked matrix are shared by its copies), and swapping exchanges everything observable; a copied, moved or swapped window into a matrix is the window its source was. A matrix over caller-owned memory reads and writes exactly that memory and never frees it.",
  ["histories","programs"],"all sequences of value operations over several matrices",
  "Tests do single copies; aliasing, double release and lost dimensions need sequences of operations.",
  [C+'Storage.h',C+'SparseStorage.h',C+'DenseMatrix.h',C+'SparseMatrix.h',C+'Dimension.h',C+'MultipleMatrix.h'],
  [("owning flag of the storage",C+"Storage.h"),("defaulted copy, hand-written move and swap",C+"DenseMatrix.h")],
  ["constructors, assignment, swap, getNbRows/getNbColumns/getSize, elements"])
p("C13","Arbitrary programs over the matrix interface stay memory-clean",
  "Any program that uses matrices, views, iterators and conversions within their documented bounds performs no access outside live allocations, no use of an uninitialised value in an observable result, no undefined arithmetic, and releases everything it allocated exactly once, also when an operation ends in an exception: a matrix whose assignment, resize, update or load was refused, for example for lack of memory, still holds its old elements (an interrupted assignment of a whole matrix may also have been completed) and can be read, copied and assigned.",
  ["programs","histories","fault_sequences"],"all programs over the public interface, with injected allocation failures",
  "Unit tests run without sanitizers on fixed inputs and never inject faults.",
  [C+'Storage.h',C+'StripedIterator.h',C+'Memory.h',C+'DenseMatrix.h',C+'SparseMatrix.h',C+'BinaryFunctors.h',C+'Multiplication_Native.h'],
  [("owning storages and shared pointers",C+"Storage.h")],["address/leak/undefined-behaviour sanitizers, poisoned allocations"])
p("C14","Submatrix views and walkers visit exactly the addressed elements",
  "For any matrix, storage order and in-range window, a view over the window reads and writes exactly the window's elements of the original and nothing else, and walking the matrix or view by rows, by columns, in storage order forwards or backwards, visits every element once in that order. Single-element access, walkers and storage order agree on where each element is.",
  ["inputs"],"all shapes, windows, storage orders and walking directions",
  "Tests walk one 3x3 matrix; window offsets and leading dimensions are quantified over all windows.",
  [C+'Cursor.h',C+'CursorBase.h',C+'StridedCursorBase.h',C+'StripedIterator.h',C+'Storage.h',C+'DenseMatrix.h',C+'Copy.h'],
  [("strided iterators and cursors",C+"StripedIterator.h, "+C+"Cursor.h")],["views, iterators, cursors, operator()(row,column)"])
p("C15","Magnitude ranges classify numbers as specified and are consistently ordered",
  "For every combination of open, closed and absent bounds and every number, a value (not NaN) is in the range exactly if its magnitude lies on the right side of each bound; bounds that are negative, reversed, or equal without both belonging to the range are refused with an exception. The ordering used to tell ranges apart is irreflexive, antisymmetric and transitive over ranges of all kinds, and two ranges compare equivalent only if they have the same kind and bounds.",
  ["inputs"],"all bound kinds, thresholds and values including the bounds themselves, neighbours, infinities and negatives",
  "Tests check a handful of values and three ordered pairs; order axioms are statements about all triples.",
  [C+'AbsoluteValueRangeChecker.h'],[("range functors with a type id and lexicographic comparison",C+"AbsoluteValueRangeChecker.h")],
  ["operator(), operator<, exceptions of the constructors"])
p("C16","Resizing and filling produce exactly the described matrix",
  "After construction or resizing with a filler, a matrix of any kind has exactly the requested shape and size and the elements the filler describes (all equal, consecutive numbers in storage order, reciprocal index sums, a constant diagonal), whatever shape and contents it had before; a matrix given as a list of rows has exactly their shape and elements; a diagonal fill of a non-square matrix, a list with rows of different length, a resize of caller-owned memory to another size and a size for which there is no memory are refused with an exception.",
  ["inputs","histories"],"all shapes, storage orders, element types and resize sequences",
  "Only a few square fills are tested; shrinking, growing and same-size reshaping take different paths.",
  [C+'MatrixFiller.h',C+'Dimension.h',C+'Storage.h',C+'DenseMatrix.h',C+'SparseMatrix.h',C+'ZeroMatrix.h'],
  [("fillers applied after resizing",C+"MatrixFiller.h")],["constructors with filler, resize()"])
p("C17","Importing a matrix from files is exact or fails loudly",
  "Reading a matrix from a descriptor and its data file yields exactly the described window of the stored numbers, in both descriptor formats; if the descriptor or the data file is missing, malformed, inconsistent or too short for the window, the import ends in an exception and never in a matrix with made-up elements. Importing does not modify the files, and a failed import leaks nothing.",
  ["inputs","fault_sequences"],"all matrices, windows, and every truncation point or kind of damage of the files",
  "No test reads a matrix file; truncation points and window offsets are quantified over all of them.",
  [F+'MatrixFileImporter.h','src/MatrixFactory/MatrixFileImporter.cpp',C+'MatrixFileIO.h',C+'DenseMatrix.h'],
  [("stream state checks",'src/MatrixFactory/MatrixFileImporter.cpp'),("settings checks and windowed reads",C+"MatrixFileIO.h")],
  ["MatrixFileImporter, stream extraction, construction from a file"])
p("C18","Synthetic matrices are reproducible and stay in the configured range",
  "For every shape and settings the generated matrix has the requested shape and every element is of either sign with a magnitude between ten to the minus maximum and ten to the minus minimum exponent; equal settings give bit-identical matrices on every call and from every thread, different seeds give different matrices (of at least 4x4 elements), and both signs and the whole exponent range occur.",
  ["inputs","configurations"],"all shapes, seeds and exponent ranges",
  "No test covers the generator.",
  [F+'MatrixGenerator.h','src/MatrixFactory/MatrixGenerator.cpp',F+'MatrixFactory.h'],
  [("local seeded engine per call",'src/MatrixFactory/MatrixGenerator.cpp')],["MatrixGenerator()()"])
p("C19","Every BLAS wrapper forwards faithfully to the BLAS routine of its name",
  "For every routine of the BLAS interface and any valid arguments, calling the wrapper has exactly the effect and return value of calling the underlying BLAS routine of that name directly: the same arguments in the same positions, every output written, nothing else touched. The name reported for a wrapper is the name of its routine, and every routine of the documented function list has its wrapper.",
  ["inputs","configurations"],"all routines x all argument values",
  "No test calls a wrapper; 150 generated forwarding functions can each swap or drop an argument and still compile.",
  [I+'BlasInterface_OpenBLAS.h',I+'BlasInterface.h',I+'FunctionTypes.h',I+'Blas.h',I+'FunctionList.yml','src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp',I+'BlasInterface_IntelMKL.h','src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp'],
  [("generated forwarding functors",'src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp')],["recorded arguments at the BLAS symbol; outputs and return values"])
p("C20","Usage tracking counts every tracked operation exactly once under its own name",
  "When tracking is on, executing any sequence of tracked operations raises the call count of exactly the entries of the executed operations, by exactly the number of executions, and never lowers an accumulated time; every entry has a distinct name that maps back to the same entry, the report lists exactly the used entries with their counts, and counts stay exact when operations run on several threads at once.",
  ["histories","schedules"],"all operation sequences, all entries, all interleavings",
  "No test reads the tracker.",
  [U+'Tracker.h','src/Utilities/tracker.cpp',U+'EnumParser.h',C+'Multiplication_Native.h',C+'Multiplication_OpenBLAS.h',C+'Multiplication_Eigen.h',C+'BlockSizeGenerator.h'],
  [("scoped tracker adding to a global register on destruction",U+"Tracker.h")],["TrackerRegister counts/times/report"])
p("C21","Threads working on different matrices never interfere",
  "Any number of threads that construct, convert, add, multiply, dispatch and view matrices, each used by one thread only or shared as operands that no thread changes (asking a matrix itself for its norm or occupation counts as a change), produce the results of a sequential run, without a data race, including when threads make the first use of an operation at the same time and when tracking is on.",
  ["schedules"],"all interleavings of operations on unshared or read-only shared matrices",
  "All tests are single-threaded.",
  [U+'exec_dyn_2dim.h',U+'exec_dyn.h',U+'Tracker.h','src/Utilities/tracker.cpp',C+'NormPolicy.h',C+'OccupationPolicy.h',C+'BinaryFunctors.h'],
  [("function-local dispatch tables, global tracker register",U+"exec_dyn_2dim.h, "+U+"Tracker.h")],["race detector reports; per-thread results"])
p("C22","Saved objects load back unchanged and files are never clobbered by accident",
  "Any dense matrix or serialisable object written with the library's XML or binary writers and read back as the same type equals the original in shape and every element (XML: finite, not denormal), also when read into an object that already had contents. Writing to an existing file without permission to overwrite is refused and leaves that file byte-identical; an incomplete write, and reading a missing or truncated file or one whose sizes do not fit together, end in an exception; failed operations leak nothing and leave the object they should have read usable.",
  ["inputs","fault_sequences","histories"],"all objects, formats, overwrite settings and file damages",
  "Tests round-trip two tiny objects and no failure.",
  [U+'FileIO.h',U+'BoostSerializePath.h',C+'Storage.h',C+'Dimension.h',C+'DenseMatrix.h'],
  [("archive wrappers with existence checks",U+"FileIO.h"),("split save/load of storages",C+"Storage.h")],["writeXML/readXML, writeBinary/readBinary"])
p("C23","Pattern images and text output show exactly the matrix",
  "The pattern image of any matrix has exactly one pixel per element, in row order, each with the colour of the first palette entry whose threshold the element's magnitude reaches, else the background, and a header with the right dimensions and palette. Printing a matrix of any representation shows its dimensions and every element at its place (or the notice that it is too large), and never changes the matrix.",
  ["inputs","configurations"],"all matrices, palettes and print modes",
  "No test looks at the produced image or text.",
  [C+'PatternGenerator.h',C+'MatrixIO.h'],[("row/column cursors",C+"PatternGenerator.h")],["parsed XPM file, parsed stream output"])
p("C24","Compile-time type registries and runtime selectors are consistent",
  "For every list of types, each member's index, the member at each index and the list's length agree; a runtime selector runs exactly the action of the first type in the list that its predicate accepts (for two selectors: of the pair), passes results and arguments through unchanged, and selecting on the runtime kind of an object always reaches that object's own type. Names and enumeration values map back and forth without collision.",
  ["inputs","programs"],"all lists, indices and predicates",
  "Tests look at one list with three types; selectors are only used indirectly.",
  [U+'TypeList.h',U+'exec_if.h',U+'exec_if_2dim.h',U+'exec_dyn.h',U+'exec_dyn_2dim.h',U+'TypeChecker.h',U+'EnumParser.h',U+'TypeName.h',C+'DynamicMatrixTypeList.h'],
  [("recursive templates",U+"TypeList.h, "+U+"exec_if.h")],["GetIndex/GetType/GetSize, exec_*"])
p("C25","Accuracy statistics report the true deviation between two matrices",
  "For any two matrices of equal shape the reported maximal deviation is the largest magnitude of an element difference and the root-mean-square deviation is the root of the mean of the squared differences, both zero exactly if the matrices agree, independent of operand order. Comparing matrices for equality within accuracy holds exactly if shapes agree and every element pair is within the tolerance of its precision.",
  ["inputs"],"all pairs of matrices",
  "No test uses the statistics; equality is only used on passing examples.",
  [C+'StatisticalErrorInformation.h',U+'EqualWithinNumericalAccuracy.h',C+'Storage.h',C+'DenseMatrix.h'],
  [("element loops",C+"StatisticalErrorInformation.h")],["getMaximalDeviation, getRootMeanSquareDeviation, equal/notEqual"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
