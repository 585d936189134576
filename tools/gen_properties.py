#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the hand-written property list lives here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["TooN/" + f for f in files],
         "mechanism": [{"name": n, "where": "TooN/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "TooN/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Vectors and matrices behave as independent values over any history",
 "Whatever sequence of construction, copying, moving, assignment, swapping, resizing and element writing a program performs on fixed-size, run-time-sized and resizable vectors and matrices (small or large enough to live on the heap), every live object holds exactly the sizes and elements that plain mathematical values would hold. Changing one object never changes another, resizing keeps the retained leading elements, a moved-from or swapped object can be destroyed safely, and every block of memory and every element is released exactly once with no access outside live storage.",
 ["histories", "programs"], "all operation histories over several live objects of every storage kind and element type",
 "vector_resize and swap run one fixed script on double; ownership bugs depend on the order of copy/move/resize/destroy and on the element type and size threshold, none of which the scripts vary.",
 ["internal/allocator.hh", "internal/vector.hh", "internal/matrix.hh", "internal/operators.hh"],
 [("storage classes for fixed/dynamic/resizable vectors", "internal/allocator.hh:VectorAlloc"), ("stack-or-heap switch", "internal/allocator.hh:StackOrHeap, StaticSizedAllocator"), ("matrix storage", "internal/allocator.hh:MatrixAlloc"), ("copy/assign/resize", "internal/vector.hh:Vector"), ("swap", "internal/operators.hh:swap")],
 [("data pointer and size", "elements owned by a run-time-sized object", "internal/allocator.hh:VectorAlloc<Dynamic>")])

prop("C02", "Every view of a vector or matrix aliases exactly the elements it names",
 "Any composition of row, column, transpose, sub-vector, sub-matrix, diagonal, row-matrix, column-matrix, diagonal-matrix and wrapped-external-memory views (fixed or run-time sized, row- or column-major) reads exactly the elements of the underlying storage that its mathematical definition names. Writing through a view in any way (element, assignment, compound assignment, fill, swap) changes exactly those elements and no other, and later changes of the underlying object are seen through the view.",
 ["programs", "inputs"], "all compositions of view operations over all small shapes, layouts and static/dynamic mixtures",
 "The slice test checks a few hand-picked slices of one matrix; composing views multiplies strides and offsets, and only exhaustive composition covers each stride/offset formula.",
 ["internal/vbase.hh", "internal/mbase.hh", "internal/vector.hh", "internal/matrix.hh", "internal/reference.hh", "internal/diagmatrix.h"],
 [("vector layout and strides", "internal/vbase.hh:GenericVBase"), ("matrix layout and strides", "internal/mbase.hh:GenericMBase"), ("external memory", "internal/reference.hh:wrapVector, wrapMatrix, Reference")],
 [("stride", "distance between consecutive elements of a view", "internal/vbase.hh:StrideHolder")])

prop("C03", "Misuse of sizes, indices and slices is always stopped, valid use never is",
 "With bounds checking enabled, an out-of-range element, row or slice request, a contradiction between a fixed and a run-time slice size, an operation or assignment between objects of different sizes, and an over- or under-filled initialiser each stop the program at the offending operation before any wrong result can be used or memory outside the object touched. Every request that is in range and of matching size, including empty objects, zero-length and full-length slices, is accepted.",
 ["inputs", "programs"], "all index, offset, length and size combinations around every boundary for every object kind",
 "Tests only exercise valid requests plus two compile-time overfills; the boundary values of each checker (0, size, size-1, negative, overflowing sums) are not enumerated.",
 ["internal/slice_error.hh", "internal/size_mismatch.hh", "internal/overfill_error.hh", "internal/debug.hh", "internal/comma.hh", "internal/vbase.hh", "internal/mbase.hh"],
 [("slice checks", "internal/slice_error.hh:CheckSlice"), ("size checks", "internal/size_mismatch.hh:SizeMismatch"), ("index checks", "internal/debug.hh:check_index"), ("fill checks", "internal/overfill_error.hh:CheckOverFill, internal/comma.hh:~VectorFiller")])

prop("C04", "Arithmetic equals its mathematical definition for every kind of operand",
 "Sum, difference, negation, scaling, division, dot product, cross product, outer products, matrix-vector, vector-matrix, matrix-matrix and element-wise products, their compound-assignment forms and (in)equality yield exactly the mathematically defined element values and shapes. The result does not depend on whether operands are fixed or run-time sized, row- or column-major, whole objects or views, or whether an operand is also the destination of a value-returning operation; mixed element types follow the language's promotion rules and operands are left unchanged.",
 ["inputs", "programs", "configurations"], "all operators over all combinations of shapes, storage kinds, layouts and element types",
 "Operators are resolved by template overloads per storage kind, so each combination is separate code; tests touch a handful of all-double square combinations.",
 ["internal/operators.hh", "internal/matrix.hh", "internal/vector.hh"],
 [("lazy operators", "internal/operators.hh:Operator"), ("promotion", "internal/operators.hh:Field, AddType"), ("compound assignment", "internal/vector.hh:operator+=, internal/matrix.hh:operator+=")])

prop("C05", "Zeros, Ones, Identity and their scaled forms act as those constants",
 "Assigning, constructing from or comparing with the constant Zeros, and assigning, constructing from, adding or subtracting (in either order, in place or not) the constants Ones and Identity, with or without an explicit size and scaled or divided by any constant, has exactly the effect of the corresponding explicit vector or matrix on every storage kind, layout, view and shape it is accepted for. The identity affects only the leading diagonal, also on views.",
 ["programs", "inputs"], "all constants, scalings, combining operators, target kinds and shapes",
 "zeros.cc prints a few fixed results; the scaled/sized/added combinations are separate template code each.",
 ["internal/objects.h"],
 [("Zero", "internal/objects.h:Operator<Internal::Zero>"), ("Identity and scaled identity", "internal/objects.h:Operator<Internal::Identity>, AddIdentity"), ("Ones and scalars", "internal/objects.h:Operator<Internal::Scalars>, AddScalars")])

prop("C06", "Diagonal matrices act as their full matrix",
 "Every operation provided for a diagonal matrix (product with vector, matrix or diagonal matrix from either side, element access, conversion to a matrix or vector, assignment, sums of diagonals and compound operations) gives the same result as the same operation on the full square matrix that has the same diagonal and zeros elsewhere. This holds for fixed and run-time sizes, for views and for differing element types.",
 ["inputs", "programs"], "all operations over all small sizes, element values and storage kinds",
 "diagonal_matrix.cc prints a few fixed products of size 3.",
 ["internal/diagmatrix.h", "internal/operators.hh"],
 [("DiagonalMatrix", "internal/diagmatrix.h:DiagonalMatrix")])

prop("C07", "List-style initialisation stores elements in order, row by row",
 "Initialising a vector or matrix from a comma-separated fill, from a brace list, from a data list or from a made vector puts the k-th given value at the k-th position, row by row for matrices, whatever the storage order, shape (single row or column and one element included), view kind and element type of the target. All given values are stored and no other element is changed.",
 ["inputs", "programs"], "all shapes, layouts, target kinds and list lengths",
 "fill.cc and initializer_list.cc use two or three fixed shapes; one-row, one-column and one-element shapes take different paths.",
 ["internal/comma.hh", "internal/data.hh", "internal/overfill_error.hh", "internal/vector.hh", "internal/matrix.hh"],
 [("Fill", "internal/comma.hh:VectorFiller, MatrixFiller"), ("Data", "internal/data.hh"), ("initializer_list", "internal/vector.hh:Vector(std::initializer_list)")])

prop("C08", "Text output read back reproduces the object; bad text is reported",
 "Writing a vector, matrix or transformation to a stream and reading the text back into an object of the same shape, at sufficient output precision, reproduces every element and leaves the stream positioned after the object. Reading text that is truncated or malformed at any point leaves the stream in a failed state, and never touches memory outside the target.",
 ["inputs", "fault_sequences"], "all shapes, element types and transformation types; all truncation points and sequences of objects on one stream",
 "Output is printed by many tests but never read back; no test reads a truncated stream.",
 ["internal/operators.hh", "so2.h", "so3.h", "se2.h", "se3.h", "sim2.h", "sim3.h", "sl.h"],
 [("vector/matrix stream operators", "internal/operators.hh:operator<<, operator>>"), ("group stream operators", "so3.h:operator>>")])

prop("C09", "Norms, projection, trace and structural helpers match their definitions",
 "The vector norms, normalisation, projection to and from homogeneous coordinates, matrix norms, trace, skew-symmetric matrix, 2x2 inverse, symmetrisation, finiteness tests and fill return exactly what their mathematical definition says for every shape, storage kind and element type they accept. They leave their inputs unchanged unless documented to work in place.",
 ["inputs", "programs"], "all small vectors/matrices over an element alphabet, all storage kinds",
 "Only a few helpers are touched, incidentally, with one value each.",
 ["helpers.h"], [("helpers", "helpers.h:norm, project, unproject, unit, norm_1, norm_inf, trace, cross_product_matrix, Symmetrize, inv")])

prop("C10", "Minimum and maximum reductions report the right value and position",
 "For every vector and matrix of comparable elements, the minimum, maximum, smallest/largest value and element-position reductions, over everything, per row or per column, return the extreme value and the position of an element that attains it (the first one on ties), for every shape, layout and view. Reducing an empty vector or matrix reads nothing and gives zero or an empty result.",
 ["inputs"], "all small shapes and all element patterns including ties and negative values",
 "No test calls the reductions.",
 ["helpers.h", "internal/operators.hh"], [("reductions", "helpers.h:Internal::accumulate, MinMax, min_value, max_element, *_horizontal, *_vertical")])

prop("C11", "Linear solvers return the solution of the given system",
 "For every non-singular square system with one or several right-hand sides, Gaussian elimination, Gauss-Jordan reduction, the LU solver and its inverse, and the 2x2 inverse all return the exact solution up to rounding proportional to the conditioning, for fixed and run-time sizes, every layout and element type, including systems that need row exchanges. The LU factors satisfy their defining equation and the inputs passed by value or const reference are not modified.",
 ["inputs", "programs"], "all small integer matrices and right-hand sides, all permutations/scalings that force pivoting, all storage kinds",
 "Tests solve a few random well-conditioned systems; row-exchange patterns and run-time-sized right-hand sides are not enumerated.",
 ["gaussian_elimination.h", "gauss_jordan.h", "LU.h", "helpers.h"],
 [("gaussian_elimination", "gaussian_elimination.h:gaussian_elimination"), ("gauss_jordan", "gauss_jordan.h:gauss_jordan"), ("LU", "LU.h:LU::backsub, get_inverse")])

prop("C12", "Determinants are exact up to rounding by every route",
 "The determinant computed directly, by elimination or by an LU factorisation equals the mathematical determinant, including its sign, for every square matrix, size, storage kind and layout, and is zero up to rounding for singular matrices of floating-point elements. All routes agree with each other.",
 ["inputs", "configurations"], "all small integer matrices, all permutation matrices up to a size, sizes around the algorithm-switch threshold",
 "determinant.cc compares random matrices of a few sizes; sign errors show only on particular row-exchange parities and singular matrices are not tried.",
 ["determinant.h", "LU.h"], [("determinant", "determinant.h:determinant, determinant_gaussian_elimination, determinant_LU"), ("LU determinant", "LU.h:LU::determinant")])

prop("C13", "Cholesky factorisations reproduce, solve and invert definite matrices",
 "For every symmetric positive definite matrix both Cholesky decompositions satisfy their factor equation, report the correct determinant and full rank, and give correct solutions, inverse and Mahalanobis distance for any right-hand side, reading only the lower half of the matrix. The LAPACK version reports every matrix that is not positive definite by a rank below its size, the native version every matrix for which an exactly zero pivot occurs, and the decomposition object can be recomputed with a new matrix.",
 ["inputs", "programs"], "all small integer symmetric matrices (definite, semi-definite and indefinite), all storage kinds",
 "Tests factor a few random definite matrices; semi-definite and indefinite inputs and the rank query are not tried.",
 ["Cholesky.h", "Lapack_Cholesky.h"], [("Cholesky", "Cholesky.h:Cholesky::compute, backsub, get_inverse, mahalanobis"), ("Lapack_Cholesky", "Lapack_Cholesky.h:Lapack_Cholesky")])

prop("C14", "QR factorisations reproduce the matrix with an orthogonal factor",
 "For every matrix with at least as many columns as rows, both QR decompositions give a Q with orthonormal columns and an upper triangular (trapezoidal) R whose product equals the input (with its columns permuted as reported when pivoting), including matrices that are already triangular, singular or contain zero columns. With pivoting, the magnitudes on the diagonal of R do not increase.",
 ["inputs"], "all small integer matrices of all shapes, all storage kinds",
 "qr.cc factors random full-rank matrices; triangular, zero-column and rank-deficient inputs are not tried.",
 ["QR.h", "QR_Lapack.h"], [("Householder QR", "QR.h:QR::compute"), ("LAPACK QR", "QR_Lapack.h:QR_Lapack")])

prop("C15", "Singular value decompositions reproduce, rank and pseudo-invert",
 "For every matrix, each singular value decomposition (including the square, run-time-sized, values-only-reordered and native versions) yields orthonormal factors and non-negative singular values whose product is the matrix, in descending order where documented. The rank is the number of singular values that are not negligible relative to the largest, and the pseudo-inverse and back-substitution satisfy the defining pseudo-inverse equations with negligible values dropped.",
 ["inputs", "programs"], "all small integer matrices of all shapes and ranks, all storage kinds",
 "gr_svd.cc covers random full-rank matrices of the native version only; the LAPACK wrapper, rank and rank-deficient pseudo-inverse are untested.",
 ["SVD.h", "GR_SVD.h"], [("SVD", "SVD.h:SVD::do_compute, rank, get_pinv, backsub"), ("SQSVD", "SVD.h:SQSVD"), ("GR_SVD", "GR_SVD.h:GR_SVD")])

prop("C16", "Symmetric eigen-decomposition is exact for every symmetric matrix",
 "For every real symmetric matrix, including zero, diagonal, repeated-eigenvalue and badly scaled ones, the decomposition returns eigenvalues in ascending order and orthonormal eigenvectors that reproduce the matrix. Its determinant, definiteness test, inverse, back-substitution, matrix square root and inverse square root agree with those of the matrix, negligible eigenvalues being dropped where documented.",
 ["inputs", "programs"], "all small integer symmetric matrices of sizes 1..4, scaled and perturbed versions, all storage kinds",
 "sym_eigen.cc uses random matrices, which never have repeated or zero eigenvalues, exactly where the closed-form branches differ.",
 ["SymEigen.h"], [("closed forms for 2x2 and 3x3", "SymEigen.h:Internal::ComputeSymEigen<2>, ComputeSymEigen<3>"), ("general", "SymEigen.h:Internal::ComputeSymEigen")])

prop("C17", "Matrix exponential, square root and logarithm are mutually consistent",
 "The matrix exponential satisfies its series definition; the principal square root squares to its argument and the logarithm exponentiates to its argument for every square matrix whose spectrum admits them. Each call terminates and leaves its argument unchanged, for every size, scale and storage kind.",
 ["inputs"], "a grid of small matrices: nilpotent, diagonal, rotation-like, scaled over several orders of magnitude",
 "No stable test calls them.",
 ["helpers.h"], [("exp", "helpers.h:exp, Internal::exp_taylor"), ("sqrt, log", "helpers.h:sqrt, log, Internal::log_taylor")])

prop("C18", "Rotations form a group and logarithm inverts exponential",
 "For 2-D and 3-D rotations every word of products and inverses is a rotation matrix that agrees with ordinary matrix algebra on vectors and matrices, exp of any rotation vector is the rotation about that axis by that angle, and ln returns the rotation vector of angle at most pi that exponentiates back, at every angle from zero through tiny up to pi. Construction from a matrix re-orthonormalises it, and the rotation built from two vectors takes the first direction to the second.",
 ["inputs", "histories"], "all words over an alphabet of rotations incl. angles 0, tiny, threshold-neighbouring, pi-neighbouring",
 "so3.cc prints results for a few angles; the series/branch switch-over angles and long products are not enumerated.",
 ["so2.h", "so3.h"], [("SO3 exp/ln", "so3.h:SO3::exp, SO3::ln, Internal rodrigues"), ("SO2", "so2.h:SO2"), ("coerce", "so3.h:SO3::coerce")])

prop("C19", "Rigid motions compose, invert, act and take logarithms correctly",
 "For 2-D and 3-D rigid motions every word of products and inverses (value, in-place and left-multiplying forms) equals the product of the corresponding homogeneous matrices, and acts so on vectors and matrices from either side; exp equals the matrix exponential of the corresponding generator combination and ln inverts it for all rotation angles below pi, including tiny ones.",
 ["inputs", "histories"], "all words over an alphabet of motions; all twist vectors on a grid with threshold-neighbouring angles",
 "No stable test exercises the 2-D motions and only prints exist for 3-D.",
 ["se2.h", "se3.h"], [("SE3", "se3.h:SE3::exp, ln, operator*"), ("SE2", "se2.h:SE2::exp, ln, operator*")])

prop("C20", "Similarity transformations compose, invert, act and take logarithms correctly",
 "For 2-D and 3-D similarity transformations every word of products and inverses equals the product of the corresponding homogeneous matrices and acts so on vectors; exp equals the matrix exponential of the corresponding generator combination and ln inverts it, for every combination of zero, tiny and ordinary rotation angle and log-scale.",
 ["inputs", "histories"], "all words over an alphabet of similarities; all tangent vectors on a grid with zero/tiny/threshold-neighbouring rotation and log-scale",
 "sim3.cc covers ordinary parameters; the degenerate branches are selected only by tiny rotation or scale.",
 ["sim2.h", "sim3.h"], [("coefficients", "sim3.h:Internal::compute_rodrigues_coefficients_sim3"), ("SIM3", "sim3.h:SIM3"), ("SIM2", "sim2.h:SIM2")])

prop("C21", "Determinant-one transformations form a group with consistent exp and ln",
 "For the determinant-one matrix group of any dimension, exp of any parameter vector equals the matrix exponential of the corresponding combination of generators and has unit determinant, products and inverses agree with matrix algebra, constructing from a matrix rescales it to unit determinant, and ln recovers the parameters for every element near enough the identity.",
 ["inputs", "histories"], "dimensions 2..4, all parameter vectors on a grid, all words over an alphabet",
 "No test touches this group.",
 ["sl.h"], [("SL", "sl.h:SL::exp, ln, generator")])

prop("C22", "Generators, generator fields and adjoints agree with the exponential map",
 "For every transformation group the i-th generator is the derivative of exp at the origin along parameter i, the generator field is the generator applied to the point, and the adjoint action maps a tangent vector so that exp(adjoint(v)) equals g exp(v) g^-1 for every group element g. The matrix and transposed-inverse adjoint forms are consistent with the vector form and its duality with the tangent space.",
 ["inputs", "histories"], "all groups, all generators, all tangent basis vectors and all elements reached by words over an alphabet",
 "No test calls the adjoint functions.",
 ["so2.h", "so3.h", "se2.h", "se3.h", "sim2.h", "sim3.h", "sl.h"],
 [("adjoint", "se3.h:SE3::adjoint, SE3::trinvadjoint, so3.h:SO3::adjoint"), ("generators", "se3.h:SE3::generator_field, so3.h:generator")])

prop("C23", "Least squares accumulates exactly the measurements it was given",
 "After any sequence of adding priors, scalar, vector and sparse measurements, merging other accumulators and clearing, solving gives the minimiser of the total weighted squared error of exactly the measurements added since the last clear, and the accumulated information matrix (its upper triangle until it is solved, the whole of it afterwards) and vector are those of that set. The order of additions, splitting into several accumulators and repeated solving do not change the answer.",
 ["histories"], "all histories of accumulate/merge/clear/solve operations up to a depth, for each decomposition back end, precision and size kind",
 "No stable test uses the least-squares class; a wrong or missing symmetric entry shows only for particular op mixes.",
 ["wls.h"], [("WLS", "wls.h:WLS::add_mJ, add_mJ_rows, add_sparse_mJ, add_prior, operator+=, compute")],
 [("information matrix/vector", "accumulated normal equations", "wls.h:WLS::my_C_inv, my_vector")])

prop("C24", "Robust reweighting applies the documented weights and sums residuals",
 "Each robust weighting scheme returns its documented weight, true scale and objective for every residual of either sign; iteratively reweighted accumulation equals the least-squares accumulation of the same measurements with those weights, its true information matrix is the sum of the outer products of the measurement Jacobians times their true scales, and its residual total is the sum of the objectives since the last clear, merges included.",
 ["histories", "inputs"], "all residuals on a grid for each scheme; all histories of add/merge/clear up to a depth",
 "No test includes this part.",
 ["irls.h"], [("reweighters", "irls.h:RobustI, RobustII, ILinear, RobustIII"), ("IRLS", "irls.h:IRLS::add_mJ, operator+=")])

prop("C25", "Simplex search never loses its best point and stops when it should",
 "For every objective function (any pattern of answers, NaN-free), each iteration of the simplex minimiser keeps every stored value equal to the objective at its stored vertex, never increases the best value, evaluates each new point where the documented reflect/expand/contract/shrink rule puts it, and never moves the simplex to a worse one except for a shrink. The finish test is true exactly when the documented relative/absolute criterion holds, restart keeps the best point, and minimisation terminates.",
 ["histories", "inputs"], "all environments: every comparison-distinct sequence of objective answers to a depth, sizes 1..3",
 "simplex.cc minimises one function; the branch taken depends on the relative order of objective answers, which one function samples sparsely.",
 ["optimization/downhill_simplex.h"], [("DownhillSimplex", "optimization/downhill_simplex.h:DownhillSimplex::iterate, iterate_once, finished, restart")])

prop("C26", "Line and conjugate-gradient minimisers only ever improve their result",
 "For every objective, bracketing returns three points whose middle one is lowest or the interval that was searched, the golden-section and Brent searches evaluate only inside the tightest bracket known so far and return the best point seen, inside the given bracket, with the objective there as its reported value; they stop when that bracket meets the tolerance or the maximum number of iterations is reached. Each conjugate-gradient step never increases the function value, its reported minimum is the objective at the reported point, and its direction update follows the documented formula.",
 ["histories", "inputs"], "all environments: families of objective answers to a depth; all bracketed piecewise functions on a grid",
 "No stable test calls these.",
 ["optimization/brent.h", "optimization/golden_section.h", "optimization/conjugate_gradient.h"], [("brent_line_search", "optimization/brent.h"), ("golden_section_search", "optimization/golden_section.h"), ("ConjugateGradient", "optimization/conjugate_gradient.h")])

prop("C27", "Numerical derivatives equal the analytic derivatives within reported error",
 "The numerical gradient, gradient with errors and Hessian of any smooth function equal the analytic derivatives at every point up to truncation and the reported error estimate; the function is evaluated only near the point, and never displaces more coordinates than are being differentiated, and the point is not modified.",
 ["inputs"], "all polynomials of low degree over a coefficient grid plus smooth test functions, all points on a grid, sizes 1..4, both size kinds",
 "derivatives.h has no stable test.",
 ["functions/derivatives.h"], [("numerical_gradient", "functions/derivatives.h:numerical_gradient, numerical_gradient_with_errors, numerical_hessian"), ("extrapolation", "functions/derivatives.h:Internal::extrapolate_to_zero")])

prop("C28", "Named-element vectors and split real/imaginary storage act as plain vectors",
 "A vector with named elements is interchangeable with a plain vector of the same length in every operation that accepts a vector of any storage kind, and its names always refer to the elements in declaration order after any copy, assignment or write. A complex vector stored as separate real and imaginary arrays behaves in every read, slice, comparison and arithmetic operation exactly as the equivalent ordinary complex vector, follows later writes to its arrays, and never modifies them.",
 ["programs", "histories"], "all operation sequences to a depth on named vectors; all views and operations on split-complex storage",
 "No stable test uses named elements; complex.cc uses ordinary complex storage.",
 ["named_elements.h", "internal/planar_complex.hh"], [("named elements", "named_elements.h:TOON_MAKE_NAMED_ELEMENT_VECTOR"), ("planar complex", "internal/planar_complex.hh:ReferencePlanarComplex")])

prop("C29", "Independent threads never interfere through the library",
 "Threads that each work on their own objects, or only read shared ones, or write disjoint parts of one, obtain under every interleaving exactly the results they would obtain alone, including on first use of anything initialised lazily; no operation writes memory reachable from another thread's objects.",
 ["schedules"], "all interleavings of two threads, for every pair of library operations in the alphabet: threads with their own objects, threads reading the same objects, and threads writing disjoint parts of one object",
 "Every test is single-threaded; a scratch buffer shared through static storage passes all of them.",
 ["TooN.h", "internal/objects.h", "so3.h", "SymEigen.h", "GR_SVD.h", "helpers.h"], [("no shared mutable state; global constants are immutable", "internal/objects.h:Zeros, Ones, Identity")],
 observe=["every load and store executed by library code"])

prop("C30", "A failed allocation never leaks or corrupts",
 "If any memory allocation fails by exception at any point of any construction, assignment, resize or arithmetic operation, the exception reaches the caller, every already-built element and block is released exactly once, objects other than the one being built or written keep their values, and all surviving objects remain destructible and assignable.",
 ["fault_sequences", "histories"], "every allocation point of every operation in the alphabet made to fail, one and two failures",
 "No test injects a failure.",
 ["internal/allocator.hh", "internal/vector.hh", "internal/matrix.hh"], [("owning storage", "internal/allocator.hh:VectorAlloc, MatrixAlloc, StackOrHeap")])

prop("C31", "Build options change checking and initialisation, never results",
 "The same valid program gives the same results whichever of the documented build options is chosen: bounds checking on or off, debug checks on or off, initialisation of new objects to nothing, NaN, a value or random bytes, optional LAPACK use on or off, and any default precision (for a program that names the precision of its objects). In particular no operation reads an element of a new object before something was stored in it, and every element of a new or grown object has the contents the initialisation option asks for.",
 ["configurations", "programs"], "all documented option settings crossed with a broad program over the whole library",
 "The suite is built with exactly one option set.",
 ["internal/debug.hh", "internal/config.hh", "determinant.h", "internal/allocator.hh"], [("debug initialisation", "internal/debug.hh:debug_initialize"), ("option macros", "TooN.h")])

prop("C32", "Repeated use of a decomposition equals fresh use",
 "Recomputing a decomposition object with a new matrix, querying it any number of times in any order, or copying it gives the same answers as a freshly built object for that matrix, and changing the input matrix afterwards does not affect it. Fixed-size, run-time-size and differing-layout instances of the same decomposition agree.",
 ["histories"], "all sequences of compute/query operations to a depth for every decomposition",
 "Each test builds one object and queries it once in one order.",
 ["LU.h", "SVD.h", "SymEigen.h", "Cholesky.h", "Lapack_Cholesky.h"], [("compute()", "SVD.h:SVD::compute, LU.h:LU::compute, SymEigen.h:SymEigen::compute, Cholesky.h:Cholesky::compute")])

prop("C33", "Automatic differentiation through the library",
 "Vectors and group elements seeded for forward automatic differentiation carry the given value and the documented derivatives (unit vectors; the generators at the identity; the generators times the element for left perturbations) at the requested positions for every start and number of derivatives, fixed or run-time; extraction returns exactly the stored values, derivatives and Jacobian, elements without derivatives counting as constant; and vector and matrix arithmetic, group products, inverses, actions, exponentials, logarithms and linear solvers over the differentiating type carry the same values as over plain numbers and the exact derivatives of the operation.",
 ["inputs", "histories"], "all seedings and extractions over storage kinds and counts; all operations and words of group operations to a depth over a set of elements and derivative patterns",
 "No test of the suite includes the automatic differentiation header.",
 ["functions/fadbad.h", "so2.h", "so3.h", "se2.h", "se3.h", "internal/operators.hh", "gaussian_elimination.h", "Cholesky.h"], [("seeding and extraction", "functions/fadbad.h:make_fad_vector, make_left_fad_se3, get_jacobian"), ("documented support", "doc/documentation.h")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
