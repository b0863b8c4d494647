import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)
I="TooN/internal/"
p("T01","Incompatible fixed sizes are rejected when the program is compiled",
 "Every operation on two vectors or matrices whose sizes are fixed and incompatible fails to compile: assignment, element-wise arithmetic, comparison, dot, cross and matrix products, diagonal products, solving and inverting non-square systems. The same operation with compatible sizes compiles.",
 ["programs"],"every program that combines two fixed-size objects through a public operation, in both operand orders and through slices, transposes, rows, columns and diagonals",
 "The tests contain only programs that compile (plus two initialiser-list ones); a lost or inverted size check accepts more programs and no test contains the bad one.",
 [I+"size_mismatch.hh",I+"operators.hh",I+"vector.hh",I+"matrix.hh",I+"vbase.hh",I+"mbase.hh",I+"diagmatrix.h",I+"slice_error.hh"],
 [("SizeMismatch_","size_mismatch.hh: incomplete primary template for unequal static sizes"),("Operator<..>::size/eval","operators.hh: each operation instantiates SizeMismatch on its operand sizes"),("TOON_BAD_SIZE","size_mismatch.hh, config.hh")])
p("T02","A run-time size mismatch stops the program before anything is touched",
 "When at least one size is known only at run time and the operands of an assignment, element-wise operation, comparison, product or solve do not fit together, the program aborts before it reads or writes any element. When the operands do fit, the operation never aborts, unless run-time checking was switched off by the documented macros.",
 ["inputs"],"every pair of run-time sizes, for every public operation, static/dynamic and dynamic/dynamic, both operand orders",
 "A mismatch aborts, so a test would have to expect death; none does. The checks matter for every pair of sizes, and a missing one only shows as silent memory corruption.",
 [I+"size_mismatch.hh",I+"operators.hh",I+"vector.hh",I+"matrix.hh",I+"diagmatrix.h","TooN/gaussian_elimination.h","TooN/LU.h","TooN/Cholesky.h","TooN/wls.h"],
 [("SizeMismatch<..>::test","size_mismatch.hh: compares the run-time sizes and aborts"),("callers of SizeMismatch::test","operators.hh, vector.hh, matrix.hh, helpers.h, decompositions")])
p("T03","Invalid slices never succeed and valid slices are never refused",
 "A slice, row, column or diagonal slice that does not lie inside its parent fails to compile when start, length and parent size are all known at compile time, and aborts otherwise. A slice that does lie inside, including an empty one or one that covers the whole parent, is accepted.",
 ["inputs","programs"],"every start, length and parent size, static or dynamic in any combination, for vectors, matrices and diagonal matrices, including slices of slices",
 "tests/slice.cc takes a few valid slices; an off-by-one in a slice check or a check on the wrong dimension accepts slices no test makes.",
 [I+"slice_error.hh",I+"vbase.hh",I+"mbase.hh",I+"diagmatrix.h"],
 [("CheckStaticSlice","slice_error.hh"),("CheckDynamicSlice","slice_error.hh"),("slice<>() and slice()","vbase.hh, mbase.hh, diagmatrix.h")])
p("T04","Bounds-checked builds abort on every out-of-range element access",
 "In a program built with bounds checking enabled, reading or writing an element, row or column whose index is negative or not smaller than the corresponding size aborts before memory is touched. An in-range access never aborts and gives the same element as an unchecked build.",
 ["inputs","configurations"],"every index value, on vectors, matrices of both layouts, rows, columns, slices, transposes and run-time sized objects",
 "The tests are built with bounds checking on but only use valid indices.",
 [I+"debug.hh",I+"vbase.hh",I+"mbase.hh",I+"vector.hh",I+"matrix.hh"],
 [("Internal::check_index","debug.hh"),("operator[] and operator()","vbase.hh, mbase.hh, matrix.hh")])
p("T05","A view denotes exactly the documented elements of its parent",
 "Element (i,j) of a row, column, slice, transpose, diagonal, row or column or diagonal matrix reinterpretation, or wrapped raw array is the documented element of the parent, for reading and for writing. Writing through a view changes that element and no other, and views of views compose.",
 ["inputs"],"every element of every kind of view (and view of view), for both storage layouts, owning and wrapped memory with arbitrary strides, static and run-time sizes",
 "The stride arithmetic has a case per layout, per size kind and per view kind; tests/slice.cc prints a few combinations.",
 [I+"vbase.hh",I+"mbase.hh",I+"vector.hh",I+"matrix.hh",I+"reference.hh",I+"diagmatrix.h",I+"allocator.hh"],
 [("VBase/SliceVBase strides","vbase.hh"),("GenericMBase: slice, T, row, column, diagonal_slice","mbase.hh"),("RowMajor, ColMajor, StrideHolder layouts","mbase.hh"),("wrapVector, wrapMatrix, Vector::Reference","reference.hh, vector.hh")])
p("T06","Read-only objects cannot be modified through the public interface",
 "A program that obtains an element, slice, row, column, transpose or diagonal from a read-only vector, matrix, diagonal matrix, decomposition or transformation and assigns through it fails to compile. The same program on a modifiable object compiles.",
 ["programs"],"every public accessor of every read-only object",
 "A lost const qualifier makes more programs compile; no test contains a program that must be rejected for this reason.",
 [I+"vbase.hh",I+"mbase.hh",I+"vector.hh",I+"matrix.hh",I+"diagmatrix.h","TooN/so3.h","TooN/se3.h","TooN/SymEigen.h"],
 [("const overloads of slice, row, T, operator[]","vbase.hh, mbase.hh, diagmatrix.h"),("const accessors of decompositions and groups","*.h")])
p("T07","Results have the promoted precision and the statically known size",
 "The result of an arithmetic expression has the precision that the built-in operator gives for the operand precisions, and a size fixed at compile time whenever an operand fixes it. In particular mixed-precision products and sums are not narrowed to the smaller precision.",
 ["programs"],"every operator over int, float, double, long double and std::complex operands, static and run-time sizes",
 "Tests use double almost everywhere; narrowing only changes low-order digits within the comparison tolerance.",
 [I+"operators.hh",I+"introspection.hh",I+"size_mismatch.hh",I+"diagmatrix.h"],
 [("AddType, SubtractType, MultiplyType, DivideType","operators.hh, introspection.hh"),("Sizer","operators.hh")])
p("M01","Owning objects copy deeply and release their memory exactly once",
 "Copying, assigning, passing by value or returning an owning vector or matrix of any size kind gives an independent object with equal elements, and the memory of each owner is released exactly once on every normal path. Assigning to a view copies elements into the viewed memory and never re-targets the view.",
 ["histories","inputs"],"every sequence of construction, copy, move-like return, assignment, swap and destruction, for static, run-time sized and resizable objects and for the temporary work buffers of the decompositions",
 "Double release or leak depends on the history of copies and on size kind; the tests run without a leak detector and copy only a few run-time sized objects.",
 [I+"allocator.hh",I+"vector.hh",I+"matrix.hh"],
 [("VectorAlloc, MatrixAlloc, StackOrHeap constructors and destructors","allocator.hh"),("Vector/Matrix copy construction and assignment","vector.hh, matrix.hh")])
p("M02","Small fixed-size objects are stored inline and never use the heap",
 "A fixed-size vector, matrix or transformation occupies exactly the storage of its elements with their natural alignment, with rows or columns contiguous as the layout says. No arithmetic, view, product, decomposition-free transformation operation on small fixed-size objects allocates heap memory.",
 ["programs","inputs"],"every fixed-size type below the documented large-object threshold and every operation on it",
 "Tests compare values; an extra member or a heap temporary changes no value.",
 [I+"allocator.hh",I+"vbase.hh",I+"mbase.hh","TooN/so2.h","TooN/so3.h","TooN/se2.h","TooN/se3.h","TooN/sl.h"],
 [("StackOrHeap","allocator.hh"),("empty StrideHolder/SizeHolder bases","vbase.hh, allocator.hh")])
p("M03","The library keeps no hidden mutable state shared between calls",
 "Operations on distinct objects share no writable state: nothing in the library writes to a global or function-static object that outlives the call. Two threads working on distinct objects therefore cannot influence each other, and a call's result depends only on its arguments.",
 ["schedules","histories"],"every interleaving of calls on distinct objects; every history of earlier calls",
 "The tests are single-threaded and mostly call each operation once.",
 ["TooN/helpers.h","TooN/SymEigen.h","TooN/so3.h","TooN/functions/derivatives.h",I+"debug.hh"],
 [("header-only templates with automatic storage only","all headers"),("TooN::Internal debug fillers","debug.hh")])
p("M04","Debug initialisation fills every element of a new object",
 "When a debug-initialisation option is chosen, every element of every default-constructed owning object of every size kind holds the documented pattern (signalling NaN, quiet NaN or the given value). An object built from an initialising expression holds that expression's values instead.",
 ["configurations","inputs"],"every option, size, precision and size kind, including elements added by resizing",
 "The tests are built with one option and never read an uninitialised element.",
 [I+"debug.hh",I+"allocator.hh"],[("debug_initialize","debug.hh"),("constructors and resize","allocator.hh")])
p("M05","Resizable vectors keep their contents and take any size",
 "Resizing a resizable vector keeps the elements common to the old and new size and afterwards reports the new size; assigning to it from a vector or expression of any size resizes it and copies every element. Only resizable vectors change size.",
 ["histories","inputs"],"every sequence of resizes and assignments, from sources of every size kind",
 "tests/vector_resize.cc runs one short sequence.",
 [I+"allocator.hh",I+"vector.hh"],[("VectorAlloc<Resizable>::resize, try_destructive_resize","allocator.hh"),("Vector<Resizable>::operator=","vector.hh")])
p("I01","Literal initialisers place values in the written order",
 "Building a vector or matrix from listed values (constructor lists, makeVector, data lists, brace lists, fill streams or a raw array with its documented order) puts the k-th value at the k-th element, row by row for matrices of either storage layout, and touches nothing else.",
 ["inputs","programs"],"every value list of every admissible length, vector, matrix of both layouts, slices and views as destinations",
 "Tests fill a few small objects; the code has one overload or generated function per length.",
 [I+"make_vector.hh",I+"data.hh",I+"data_functions.hh",I+"comma.hh",I+"vector.hh",I+"matrix.hh"],
 [("makeVector overloads","make_vector.hh"),("Data / Internal::data","data.hh, data_functions.hh"),("VectorFiller/MatrixFiller","comma.hh"),("initializer_list constructors","vector.hh, matrix.hh")])
p("I02","Filling with too many or too few values is reported",
 "Filling an object by a comma stream with more values than it has elements is rejected at compile time for fixed sizes and aborts before writing out of range for run-time sizes. Supplying fewer values aborts, and supplying exactly the right number never does.",
 ["inputs","programs"],"every number of values against every size, vectors and matrices, static and run-time sizes",
 "tests/fill.cc fills exactly; over- and underfill end the program.",
 [I+"comma.hh",I+"overfill_error.hh"],[("CheckOverFill, CheckMOverFill","overfill_error.hh"),("VectorFiller/MatrixFiller destructors","comma.hh")])
p("I03","Zeros, Ones and Identity construct and combine as documented",
 "Constructing, assigning, adding or subtracting the zero, one and identity objects (and their scalar multiples) has the effect of the corresponding dense object, for every vector or square-matrix destination including slices and rectangular cases the interface accepts. Sizes given at run time are honoured.",
 ["inputs"],"every destination kind, size kind, precision and scale",
 "tests/zeros.cc checks sizes of a few constructions.",
 [I+"objects.h"],[("Operator<Internal::Zero>, RCZero, SizedZero, Identity, Scaled..., Ones...","objects.h")])
p("I04","Text output and input visit every element in reading order",
 "Writing a vector or matrix emits every element once, in index order, one row per line for matrices; reading takes one value per element in the same order. Objects therefore keep their element order through text.",
 ["inputs"],"every size kind and both layouts, and the transformation groups",
 "Tests print objects but compare only numbers within tolerance for a few sizes; nothing reads back.",
 [I+"vbase.hh",I+"vector.hh",I+"matrix.hh",I+"operators.hh",I+"diagmatrix.h","TooN/so3.h","TooN/se3.h"],
 [("operator<<, operator>>","operators.hh and group headers")])
p("E01","Element-wise arithmetic acts on exactly corresponding elements",
 "Each element of a sum, difference, negation, scalar product or quotient of vectors or matrices, and of each compound assignment, is the scalar operation on the corresponding operand elements. Nothing else changes, whatever the layouts, strides and size kinds of the operands.",
 ["inputs"],"all element values, all mixes of layouts, slices, transposes, static and run-time sizes, float/double/int",
 "The expression code is one overload per operand kind; tests use few combinations and mostly whole double objects.",
 [I+"operators.hh",I+"vbase.hh",I+"mbase.hh",I+"vector.hh",I+"matrix.hh",I+"diagmatrix.h"],
 [("Operator<Pairwise...>, Operator<ApplyScalar...>, Negate","operators.hh"),("compound assignment","vector.hh, matrix.hh")])
p("E02","Products follow their mathematical definitions",
 "Vector dot, cross and outer products, matrix-vector, vector-matrix, matrix-matrix and diagonal-matrix products, norms and projections equal the textbook sums over the operand elements, for every layout and size kind.",
 ["inputs"],"all element values; all mixes of layouts, strides, static and run-time sizes",
 "A wrong index shows only for particular shapes or layouts; tests multiply a few shapes.",
 [I+"operators.hh",I+"diagmatrix.h","TooN/helpers.h"],
 [("MatrixMultiply, MatrixVectorMultiply, VectorMatrixMultiply, DiagMatrix operators","operators.hh, diagmatrix.h"),("operator^ cross product, as_row/as_col outer product","operators.hh, vbase.hh")])
p("E03","Updates whose operand overlaps the destination use the original values",
 "An assignment or compound assignment between an object and itself, or between objects that share elements one to one, computes every element from the values before the statement, except where the documentation warns of aliasing. Constructing from such an expression always uses the original values.",
 ["inputs"],"m *= m, v /= v[0], swap-like updates, scalar arguments that are elements of the destination, products assigned through temporaries",
 "Only an operand that shares storage shows it; the tests never alias.",
 [I+"operators.hh",I+"vbase.hh",I+"mbase.hh",I+"vector.hh",I+"matrix.hh"],
 [("by-value scalar parameters and product temporaries","operators.hh, vector.hh, matrix.hh")])
p("E04","Equality is element-wise and inequality is its negation",
 "Two vectors or matrices compare equal exactly when all corresponding elements are equal, and unequal otherwise, whatever their layouts, strides and size kinds.",
 ["inputs"],"all element values in all positions, both layouts, static and run-time sizes",
 "No test compares objects that differ in one chosen element for each position.",
 [I+"operators.hh",I+"vector.hh",I+"matrix.hh"],[("operator==, operator!=","vector.hh, matrix.hh, operators.hh")])
p("E05","Helper functions compute their documented element-wise values",
 "Norms, unit, normalisation, projection, trace, symmetrisation, cross-product matrix, sum, minimum, maximum and their positions, absolute value, predicates over all elements, and fill and normalise-last helpers return the documented function of all the elements of their argument.",
 ["inputs"],"all finite element values and sizes (at least one element), both layouts, both precisions",
 "Reductions go wrong at particular positions (first, last, ties, negative values); tests call few helpers.",
 ["TooN/helpers.h"],[("norm, norm_1, norm_inf, unit, normalize, project, unproject, trace, cross_product_matrix, sum, min_value, max_value, isfinite, isnan, Symmetrize","helpers.h")])
p("E06","Matrix exponential, logarithm and square root follow their schemes",
 "In exact arithmetic and after any number of terms, the exponential of a square matrix is the Taylor polynomial of the matrix divided by the smallest power of two not below its norm (never by less than one), squared back as many times. The square root iteration gives Newton's iterates, and the logarithm is the series at a repeated square root multiplied by the matching power of two; each stops only when a further term or step no longer changes the result.",
 ["inputs"],"all matrices and all numbers of terms, squarings and roots; both layouts, fixed and run-time sizes, views",
 "The tests never call these functions on matrices that need scaling, and a missing term or squaring shows only for norms above one.",
 ["TooN/helpers.h"],[("exp, exp_taylor, sqrt, log, log_taylor","helpers.h")])
p("D01","Decompositions read only what they document and leave inputs intact",
 "A symmetric decomposition depends only on the documented triangle of its argument, no decomposition modifies the matrix or right-hand side it is given, and repeating a solve, determinant or inverse on the same decomposition gives the same answer.",
 ["inputs","histories"],"all element values, all sequences of queries on one decomposition object",
 "Tests give symmetric matrices and query once, so a read of the wrong triangle or a query that damages state is invisible.",
 ["TooN/Cholesky.h","TooN/Lapack_Cholesky.h","TooN/LU.h","TooN/SVD.h","TooN/SymEigen.h","TooN/QR.h","TooN/gauss_jordan.h"],
 [("copies of the input in decomposition members","*.h constructors"),("const queries","*.h")])
p("D02","Direct solvers are exact whenever the arithmetic is exact",
 "On inputs where no rounding occurs, Cholesky, Gaussian elimination, Gauss-Jordan, LU, QR and the closed-form determinants give factors, solutions, inverses and determinants that satisfy their defining equations exactly, for every choice of pivots the data can force. Pivots are chosen as the largest candidate, so any non-singular system is solved.",
 ["inputs"],"all non-singular matrices of each size and every pivot order, vector and matrix right-hand sides, static and run-time sizes",
 "Tests solve random systems within a tolerance: rare pivot orders, non-square right-hand sides and run-time sizes go unexercised.",
 ["TooN/Cholesky.h","TooN/gaussian_elimination.h","TooN/gauss_jordan.h","TooN/LU.h","TooN/QR.h","TooN/determinant.h","TooN/helpers.h"],
 [("row exchange and elimination","gaussian_elimination.h, gauss_jordan.h"),("back substitution","Cholesky.h, LU.h"),("determinant cases","determinant.h")])
p("D03","Numerical-library calls are handed the right data and read back right",
 "Every call into the external linear-algebra library passes the documented dimensions, leading dimensions, layout flags and sufficiently large work space for the object at hand, and results are read back as the documented factors regardless of which layout convention the library uses. The same marshalling holds for float and double and for tall and wide matrices.",
 ["inputs","configurations"],"all sizes and shapes, both precisions, static and run-time sizes",
 "Tests check products of factors for a few square or fixed shapes; wrong work sizes or leading dimensions corrupt memory only for other shapes.",
 ["TooN/lapack.h","TooN/LU.h","TooN/SVD.h","TooN/SymEigen.h","TooN/Lapack_Cholesky.h","TooN/QR_Lapack.h"],
 [("getrf_, gesvd_, syev_, potrf_, potrs_, geqrf_/orgqr_ wrappers","lapack.h"),("compute() members","LU.h, SVD.h, SymEigen.h, Lapack_Cholesky.h, QR_Lapack.h")])
p("D04","No result depends on memory that was never written",
 "Every element of every value returned or stored by a library operation is computed from the arguments; none is left unset and none depends on indeterminate memory, on any path through the operation, including degenerate inputs such as zero matrices.",
 ["inputs"],"all inputs including degenerate ones, all library operations with by-value or output results",
 "Uninitialised elements often happen to be zero or are only produced on rare paths; the tests have no memory checker.",
 ["TooN/SymEigen.h","TooN/sim2.h","TooN/sim3.h","TooN/se3.h","TooN/irls.h","TooN/wls.h","TooN/GR_SVD.h","TooN/QR.h",I+"operators.hh"],
 [("uninitialised default construction of Vector and Matrix followed by full assignment","all headers")])
p("D05","SVD and eigen queries combine the computed factors as documented",
 "Given the factors computed by the singular-value or symmetric eigen-decomposition, the reconstructed, inverse, pseudo-inverse, square-root, rank, determinant, definiteness and solve queries combine them by their documented formulas. Values below the stated condition cut-off are treated as zero and all others are kept, for every cut-off.",
 ["inputs"],"all factor values, all condition numbers, tall, wide and square shapes, both precisions",
 "Tests query well-conditioned matrices with the default cut-off.",
 ["TooN/SVD.h","TooN/SymEigen.h","TooN/GR_SVD.h"],
 [("get_inv_diag, get_pinv, backsub, rank, determinant","SVD.h, GR_SVD.h"),("get_inv_diag, get_pinv, get_sqrtm, get_isqrtm, is_posdef, get_determinant","SymEigen.h")])
p("G01","Transformations compose, invert and act consistently",
 "For the rotation, rigid, similarity and special-linear groups in two and three dimensions, default construction is the identity, the product acts as the successive actions, the inverse undoes the transformation exactly in exact arithmetic, and the action on points, homogeneous vectors and matrices agrees with the equivalent matrix. Mixed forms (in-place products, rotation times rigid, plane and line actions) agree with the full forms.",
 ["inputs"],"all group elements and points, both precisions, static, run-time sized and sliced operands",
 "Tests exercise a few 3-D rotations and similarities numerically; most actions and mixed products are never called.",
 ["TooN/so2.h","TooN/so3.h","TooN/se2.h","TooN/se3.h","TooN/sim2.h","TooN/sim3.h","TooN/sl.h"],
 [("operator*, inverse, operator*= and action operators","group headers")])
p("G02","Generators are the derivatives of the group action",
 "Each generator matrix and generator field equals the derivative at the identity of the action along the corresponding coordinate, with the documented ordering of coordinates. Products of a generator field with a homogeneous point agree with the generator matrix.",
 ["inputs"],"all generator indices and all points, all groups",
 "Tests check no generator of the planar and similarity groups; a sign or index slip in one generator shows in one component only.",
 ["TooN/so2.h","TooN/so3.h","TooN/se2.h","TooN/se3.h","TooN/sim2.h","TooN/sim3.h","TooN/sl.h"],
 [("generator, generator_field","group headers")])
p("G03","Adjoints transfer tangent vectors and covariances between frames",
 "The adjoint of a transformation applied to a tangent vector gives the tangent vector conjugated by the transformation, the dual form preserves the pairing between tangent and dual vectors, and matrix adjoints apply it on both sides. Every component of the result is set.",
 ["inputs"],"all transformations and tangent vectors of the rigid and similarity groups",
 "Tests compute a single adjoint; components that happen to vanish for that input are untested.",
 ["TooN/so3.h","TooN/se2.h","TooN/se3.h","TooN/sim2.h","TooN/sim3.h"],
 [("adjoint, trinvadjoint","group headers")])
p("G04","Exponential and logarithm follow the group's closed forms",
 "The exponential of a tangent vector has the group's closed form (rotation by the norm about the axis, the matching translation integral, the scale exponential), switching to the series with matching leading terms only for tiny arguments, and the logarithm inverts the same closed form on each branch of the principal range. Results are valid group elements with the documented coordinate order.",
 ["inputs"],"all tangent vectors and group elements on each branch of the implementation",
 "Branches for small angles, angles near a half turn and near-zero scale are each reached only by special inputs; the tests sample a few.",
 ["TooN/so2.h","TooN/so3.h","TooN/se2.h","TooN/se3.h","TooN/sim2.h","TooN/sim3.h","TooN/sl.h"],
 [("exp, ln, rodrigues_so3_exp, compute_rodrigues_coefficients_sim3","group headers")])
p("L01","Weighted least squares accumulates and solves the normal equations",
 "After any sequence of clear, prior, single and batch measurement, sparse measurement and merge operations, the accumulated information matrix and vector equal the sums of the weighted outer products and residual terms plus the priors, and the solution is that of those equations. Single, batch, sparse and reversed forms of the same measurement are equivalent.",
 ["histories","inputs"],"every sequence of additions with arbitrary Jacobians, residuals and weights, static and run-time sizes",
 "No test covers the estimator.",
 ["TooN/wls.h"],[("add_mJ, add_mJ_rows, add_sparse_mJ, add_prior, operator+=, compute","wls.h")])
p("L02","Robust reweighting uses consistent weight and derivative functions",
 "Each iteratively-reweighted measurement enters the estimator with the documented weight of its residual, the secondary curvature term uses the derivative of the weighted residual, and the residual sum accumulates the documented objective. Merging and clearing keep all accumulated quantities consistent.",
 ["histories","inputs"],"every residual value, scale parameter, and sequence of additions, merges and clears, for each reweighting rule",
 "No test covers the estimator.",
 ["TooN/irls.h","TooN/wls.h"],[("RobustI, RobustII, RobustIII, ILinear: reweight, true_scale, objective","irls.h"),("IRLS::add_mJ, operator+=, clear","irls.h")])
p("O01","The simplex keeps each stored value equal to the function at its vertex",
 "After construction and every iteration or restart of the simplex search, each stored value is the function at the corresponding vertex, the reported best point and value are the smallest of them, and a step only ever replaces the worst vertex by a better one or shrinks towards the best.",
 ["histories","inputs"],"every function, dimension and history of steps",
 "tests/simplex.cc runs one function to convergence; a stale value only slows or misdirects other functions.",
 ["TooN/optimization/downhill_simplex.h"],[("iterate, restart, need_to_restart, get_simplex, get_best","downhill_simplex.h")])
p("O02","Line searches return a point together with the function's value there",
 "The one-dimensional searches return a pair whose second member is the function evaluated at the first, inside the bracket they were given, and never worse than the starting point. The conjugate-gradient driver keeps its point, value and gradient consistent.",
 ["inputs","histories"],"every function and every bracket; every number of iterations",
 "No test covers these searches.",
 ["TooN/optimization/brent.h","TooN/optimization/golden_section.h","TooN/optimization/conjugate_gradient.h"],
 [("brent_line_search, golden_section_search","brent.h, golden_section.h"),("ConjugateGradient::iterate, update","conjugate_gradient.h")])
p("O03","Iteration limits are honoured",
 "Every iterative search or decomposition with an iteration limit stops after at most that many iterations, whatever the function or data, and the limit passed by the caller is the one used.",
 ["inputs"],"every function or matrix, including ones on which the iteration would not converge; every limit",
 "A limit matters only when convergence fails, which the tests avoid.",
 ["TooN/optimization/brent.h","TooN/optimization/golden_section.h","TooN/optimization/conjugate_gradient.h","TooN/optimization/downhill_simplex.h","TooN/GR_SVD.h"],
 [("iteration counters","brent.h, golden_section.h, conjugate_gradient.h, downhill_simplex.h, GR_SVD.h")])
p("O04","Numerical derivatives probe only around the requested point",
 "Each probe of the numerical gradient, Hessian and cross derivatives differs from the requested point only in the coordinates being differentiated, symmetrically, and the caller's point is never modified. The finite-difference formulas are exact for polynomials of the degree they are built for.",
 ["inputs"],"every function, point and dimension",
 "Errors from displaced probes are small or cancel for low dimension or symmetric functions; no test covers this.",
 ["TooN/functions/derivatives.h"],[("numerical_gradient, numerical_hessian, SimpleCrossDifference...","derivatives.h")])
p("H01","Every public header works alone, repeatedly and in many source files",
 "Each public header can be included first, together with any other, and more than once, in any number of source files that are linked into one program, without redefinition, missing declaration or duplicate symbol.",
 ["programs","configurations"],"every public header, every order and repetition, any number of translation units",
 "Every test is one source file that includes the main header first.",
 ["TooN/TooN.h","TooN/optimization/conjugate_gradient.h","TooN/optimization/golden_section.h","TooN/helpers.h","TooN/lapack.h"],
 [("include guards and includes","all headers"),("inline or template functions only","all headers")])
p("H02","The documented interface is usable for every precision and size kind",
 "Every documented public member and free function compiles for float and double and for fixed and run-time sizes wherever its documentation does not restrict it.",
 ["programs"],"every public member and function, each precision, each size kind",
 "Members of templates are only compiled when used, and tests use few of them, nearly all in double with fixed sizes.",
 ["TooN/LU.h","TooN/SVD.h","TooN/GR_SVD.h","TooN/irls.h","TooN/wls.h","TooN/sl.h","TooN/sim3.h","TooN/optimization/brent.h","TooN/optimization/golden_section.h","TooN/optimization/conjugate_gradient.h",I+"diagmatrix.h"],
 [("template members","all headers")])
p("N01","Decompositions are numerically accurate and backward stable",
 "Solutions, factors and inverses have errors within a small multiple of the rounding unit times the condition number.",
 ["inputs"],"all well-posed inputs","Tests sample random matrices.",
 ["TooN/Cholesky.h","TooN/LU.h","TooN/SVD.h","TooN/GR_SVD.h","TooN/SymEigen.h","TooN/QR.h"],[("floating-point arithmetic","decompositions")])
p("N02","Iterative decompositions and matrix functions converge",
 "The iterative singular-value decomposition, matrix exponential, logarithm and square root terminate with a result accurate to the working precision for every input in their domain.",
 ["inputs"],"all matrices in the domain","Tests sample a few matrices.",
 ["TooN/GR_SVD.h","TooN/helpers.h","TooN/SymEigen.h"],[("QR sweeps, scaling and squaring, product-form square root","GR_SVD.h, helpers.h")])
p("N03","Optimisers reach a local minimum of smooth functions",
 "Simplex, conjugate-gradient and line searches reach a local minimum of a sufficiently smooth function within tolerance.",
 ["inputs","histories"],"all smooth functions and starts","Tests run one function.",
 ["TooN/optimization/downhill_simplex.h","TooN/optimization/conjugate_gradient.h","TooN/optimization/brent.h","TooN/optimization/golden_section.h"],[("iterations","optimization/*.h")])
p("N04","Automatic differentiation agrees with analytic derivatives",
 "Transformations and linear algebra instantiated with forward automatic-differentiation numbers give the analytic derivatives.",
 ["inputs"],"all differentiable expressions","No test; the required third-party headers are not installed.",
 ["TooN/functions/fadbad.h"],[("FADBAD traits","functions/fadbad.h")])
p("N05","Small-angle series are accurate to rounding at their thresholds",
 "At the switch between closed form and series the two agree to working precision, so results are continuous to rounding.",
 ["inputs"],"all tangent vectors near the thresholds","Tests sample a few angles.",
 ["TooN/so3.h","TooN/se3.h","TooN/sim3.h","TooN/se2.h"],[("thresholds","exp, ln")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s); assert d["statement"].count(". ")<=2,d["id"]
print(len(P))
