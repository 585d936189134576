"""Which harness parts decide which property, and how they are built."""
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer", "-DTOON_CHECK_BOUNDS"]
OPT = ["-O2", "-ftrivial-auto-var-init=pattern", "-DTOON_CHECK_BOUNDS"]
LAP = ["-DTOON_USE_LAPACK"]; LIBS = ["-llapack", "-lblas"]
def parts(src, n, flags=SAN, libs=[], **kw):
    return [dict(name=f"p{i}", src=src, flags=flags + [f"-DPART={i}"], libs=libs, **kw) for i in range(1, n + 1)]
CHECKS = {}
CHECKS["C01"] = dict(level="model_checking", parts=parts("c01_histories.cc", 3),
    technique="explicit-state exploration of all operation histories on the real containers against a value model",
    bound="2 live objects; every operation history to the stated depth; sizes 0..5 and around the stack/heap threshold",
    rule="one execution = one operation history on real objects, compared with the value model after every operation; a state is (liveness, size, element-equality pattern, how each object was produced, last operation)",
    assumptions=["element values are opaque to the containers (values are renamed when states are compared)", "moved-from run-time-sized objects are only destroyed or reconstructed"],
    note="Exhaustive over operation histories to the stated depth for two objects of 29 storage/element kinds under ASan+UBSan with instrumented allocation and element lifetimes; says nothing about longer histories or more than two objects.")
NOT_APPLICABLE = {}
CHECKS["C02"] = dict(level="model_checking", parts=parts("c02_views.cc", 9, [f for f in SAN if f != "-O1"] + ["-O0", "-DDEPTH=3"])
    + [dict(p, name=p["name"] + "d4", flags=p["flags"] + ["-DDEPTH=4"], thorough_only=True) for p in parts("c02_views.cc", 8, [f for f in SAN if f != "-O1"] + ["-O0"])],
    technique="exhaustive composition of view operations on the real objects against an index-map model",
    bound="all compositions of at most 3 (thorough 4) view operations (plus the final reads and writes) with all in-range arguments over roots of up to 3x3 / 4 elements; every form of wrapping external memory for 4 element types and all shapes to 3x3",
    rule="one execution = one root object, one composition of views with concrete arguments, then every read and write form through the final view; a state is (final view type, index map)",
    note="Exhaustive over view compositions to depth 3 (thorough 4) for all root kinds under ASan+UBSan with guard zones; longer compositions and larger shapes are not covered.")
CHECKS["C03"] = dict(level="model_checking", parts=parts("c03_misuse.cc", 6, [f for f in SAN if f != "-O1"] + ["-O0"] + LAP, LIBS) + [dict(name="compile", programs="rejects")],
    technique="exhaustive enumeration of requests and operand sizes on the real objects against an accept/stop predicate",
    bound="every request with every argument in and around the object's range and at the extremes of int; all pairs of operand kinds with sizes 0..3 / shapes up to 3x3",
    rule="one execution = one kind of object, one argument or operand combination, every request form; a state is (request, object, arguments, expected verdict)",
    note="Exhaustive over the listed requests, kinds and argument values under ASan+UBSan with TOON_CHECK_BOUNDS; larger objects are not covered. Contradictions visible at compile time are checked by the accompanying compile-time grammar.")
O0 = [f for f in SAN if f != "-O1"] + ["-O0"]
CL1 = ["-O1", "-g1", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-DTOON_CHECK_BOUNDS"]
CL = ["-O0", "-g1", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-DTOON_CHECK_BOUNDS"] # built with clang++
CHECKS["C04"] = dict(level="model_checking", parts=parts("c04_arith.cc", 15, CL, cxx="clang++"),
    technique="exhaustive enumeration of operations, operand kinds, shapes and basis operands on the real library against plain loops",
    bound="9 vector kinds and 12 matrix kinds in pairs, sizes 0..12 / shapes up to 5x5, all unit-basis operand pairs plus dense integer operands, 7 element-type pairs",
    rule="one execution = one operand-kind pair, shape and basis/dense pattern pair with every operation applied; a state is that combination",
    assumptions=["products are bilinear, so agreement on all pairs of unit operands and a dense operand determines them for a given shape and kind"],
    note="Exhaustive over the listed kinds, shapes, patterns and operations with exact integer-valued comparison; shapes above 5x5 and floating-point rounding order are not covered.")
CHECKS["C05"] = dict(level="model_checking", parts=parts("c05_constants.cc", 8, CL, cxx="clang++"),
    technique="exhaustive enumeration of constants, scalings, combining operators and targets on the real library against explicit elements",
    bound="27 constant expressions, 11 combining forms, 9 vector and 12 matrix kinds, sizes 0..130 / shapes up to 12x12, every slice of a 4x5 matrix in both layouts",
    rule="one execution = one target kind and shape, one constant expression, every operator; a state is that combination",
    note="Exhaustive over the listed constants, operators, targets and slices with exact comparison; scalings other than the listed values are not covered.")
CHECKS["C06"] = dict(level="model_checking", parts=parts("c06_diagonal.cc", 7, CL, cxx="clang++"),
    technique="exhaustive enumeration of diagonal-matrix operations, kinds and basis operands on the real library against full-matrix loops",
    bound="9 kinds of diagonal matrix in pairs with 9 vector, 12 matrix and 9 diagonal kinds, sizes 0..12 and 140, all unit-basis operand pairs plus dense operands",
    rule="one execution = one pair of operand kinds, size and basis/dense pattern pair with every operation applied; a state is that combination",
    assumptions=["products are bilinear, so agreement on all pairs of unit operands and a dense operand determines them for a given shape and kind"],
    note="Exhaustive over the listed kinds, sizes and operations with exact comparison.")
CHECKS["C07"] = dict(level="model_checking", parts=parts("c07_lists.cc", 8, CL, cxx="clang++"),
    technique="exhaustive enumeration of list initialisers, lengths, shapes, layouts and views on the real library against the row-by-row order",
    bound="Fill of every vector kind (1..16 elements), matrix kind (up to 20 elements), every slice of a 5x6 matrix up to 16 elements in both layouts and transpositions; Data 1..100; makeVector and brace lists 1..30",
    rule="one execution = one initialiser form, target kind, shape and element type; a state is that combination",
    note="Exhaustive over the listed forms and lengths with pairwise different values and background checks; wrong list lengths are C03's part.")
CHECKS["C08"] = dict(level="model_checking", parts=parts("c08_stream.cc", 5, CL, cxx="clang++"),
    technique="exhaustive enumeration of written objects, of token sequences and of every truncation point and single edit of written text on the real stream operators, against reading the elements one by one; output into devices that stop at every possible character",
    bound="all storage kinds, 9 number formats, 7 element types with extreme values; token sequences over 9-13 tokens and 5 separators (at most two bad); all cuts and 4 single-character edits at every position, with skipping and exceptions on and off; all pairs (thorough triples) of 11 objects on one stream; SO2, SO3, SE2, SE3, SIM2, SIM3, SL in float and double",
    rule="one execution = one written object read back, one text read into one target, or one cut or edited text; a state is that choice",
    assumptions=["a number cut in its middle that is still a number is not an error the reader could see", "the values left in a target after a failed read are not constrained", "transformations with negative scale are outside the text format"],
    note="Exhaustive over the listed objects, texts, cut points and edits.")
CHECKS["C09"] = dict(level="model_checking", parts=parts("c09_helpers.cc", 7, CL, cxx="clang++"),
    technique="exhaustive enumeration of vectors and matrices over an element alphabet and storage kinds on the real helpers against their definitions",
    bound="all vectors of 1..4 elements over 5 values (run-time sizes to 7 over 3 values), all matrices to 6 elements over 3 values plus single-element patterns to 5x5, 9 vector and 12 matrix kinds, 4 element types, all placements of NaN/infinity",
    rule="one execution = one storage kind and one element assignment with every helper applied; a state is that combination",
    note="Exhaustive over the listed alphabets, shapes and kinds; floating-point results are compared to 40 units in the last place.")
CHECKS["C10"] = dict(level="model_checking", parts=parts("c10_reductions.cc", 6, CL, cxx="clang++"),
    technique="exhaustive enumeration of vectors and matrices over an element alphabet and storage kinds on the real reductions against a direct scan",
    bound="all vectors to 4 elements over 5 values (run-time sizes 0..7 over 3 values), all matrices to 6 elements (0x0 to 4x4 shapes at run time), all pairs of extreme positions to 6x6, 9 vector and 12 matrix kinds, int/float/double incl. infinities",
    rule="one execution = one storage kind and one element assignment with every reduction applied; a state is that combination",
    note="Exhaustive over the listed alphabets, shapes and kinds with exact comparison; NaN elements are not covered (not comparable).")
CHECKS["C11"] = dict(level="model_checking", parts=parts("c11_solvers.cc", 8, CL + LAP, LIBS, cxx="clang++"),
    technique="exhaustive enumeration of matrices over an alphabet, row-exchange patterns and storage kinds on the real solvers against quadruple-precision solutions",
    bound="all matrices to 2x2 over 5 values and 3x3 over 3 values, all permuted triangular matrices to 5x5 in 4 scalings, dense families to 12x12, every owning call form, 12 matrix and 9 vector kinds for Gauss-Jordan and LU",
    rule="one execution = one matrix with every solver and right-hand-side form; a state is the matrix and form",
    assumptions=["tolerance: 60 (n+2) epsilon times the condition number; systems for which that exceeds 5% count as singular"],
    note="Exhaustive over the listed matrices and forms; larger or continuous-valued matrices are not covered.")
CHECKS["C12"] = dict(level="model_checking", parts=parts("c12_determinant.cc", 5, CL + LAP, LIBS, cxx="clang++") + [dict(name=f"{n}-p{i}", src="c12_determinant.cc", cxx="clang++", flags=CL + f + [f"-DPART={i}"], libs=LIBS if f else []) for n, f, ps in (("switch3", LAP + ["-DTOON_DETERMINANT_LAPACK=3"], (1, 2)), ("never", LAP + ["-DTOON_DETERMINANT_LAPACK=-1"], (2,)), ("nolapack", [], (1, 2, 3))) for i in ps],
    technique="exhaustive enumeration of matrices over an alphabet, permutations and algorithm-switch settings on the real routes against the quadruple-precision determinant",
    bound="all 1x1/2x2 over 7 values, 3x3 over 3 values, binary 4x4, permuted triangular to 5x5, sizes to 40 around the LAPACK switch, 12 storage kinds, 4 build settings",
    rule="one execution = one matrix with every route; a state is the matrix and storage kind",
    assumptions=["tolerance: backward-error bound 40 n^2 2^n epsilon max|a| max|cofactor|"],
    note="Exhaustive over the listed matrices, routes and settings; with the LAPACK option only float and double matrices have determinants.")
CHECKS["C13"] = dict(level="model_checking", parts=parts("c13_cholesky.cc", 6, CL + LAP, LIBS, cxx="clang++"),
    technique="exhaustive enumeration of symmetric matrices over an alphabet, call forms and storage kinds on the real Cholesky classes against quadruple-precision references",
    bound="all symmetric 1x1/2x2/3x3 over small alphabets (definite, semi-definite and indefinite), products L D L^T with all sign/scale patterns, families to 12x12, float and double, all storage kinds and right-hand-side forms, unread half poisoned",
    rule="one execution = one matrix with every class, factor, solve, inverse, determinant and recompute form; a state is the matrix and form",
    assumptions=["tolerance proportional to the condition number; matrices for which it exceeds 5% count as singular"],
    note="Exhaustive over the listed matrices and forms; larger or continuous-valued matrices are not covered.")
CHECKS["C14"] = dict(level="model_checking", parts=parts("c14_qr.cc", 7, CL + LAP, LIBS, cxx="clang++"),
    technique="exhaustive enumeration of matrices over an alphabet, shapes and storage kinds on the real QR classes against the factorisation's definition in quadruple precision",
    bound="all matrices to 2x2, 2x3 and 3x3 over small alphabets (incl. rank-deficient), sparsity patterns and scalings, families to 12 columns, float and double, all storage kinds, with and without pivoting",
    rule="one execution = one matrix with every factor and solve; a state is the matrix and form",
    note="Exhaustive over the listed matrices and forms; larger or continuous-valued matrices are not covered.")
CHECKS["C15"] = dict(level="model_checking", parts=parts("c15_svd.cc", 10, CL + LAP, LIBS, cxx="clang++"),
    technique="exhaustive enumeration of matrices over an alphabet, shapes, conditions and storage kinds on the real SVD classes against quadruple-precision pseudo-inverses and ranks",
    bound="all matrices to 2x2, 2x3, 3x2 and 3x3 over small alphabets (incl. every rank), families to 12x12 in tall, square and wide shapes, float and double, all storage kinds and right-hand-side forms",
    rule="one execution = one matrix with every factor, rank, pseudo-inverse, solve and determinant form; a state is the matrix and form",
    note="Exhaustive over the listed matrices and forms; larger or continuous-valued matrices are not covered.")
CHECKS["C16"] = dict(level="model_checking", parts=parts("c16_symeigen.cc", 7, CL + LAP, LIBS, cxx="clang++"),
    technique="exhaustive enumeration of symmetric matrices over alphabets, eigenvalue-gap patterns, scales and storage kinds on the real decomposition against quadruple-precision functions of the matrix",
    bound="all symmetric 1x1/2x2 over 7 values, 3x3 over 4 values, binary 4x4, eigenvalue gaps 0..1e-15 in 4 bases and 5 scales for 2x2 and 3x3, families to 8x8, float and double, all storage kinds and right-hand-side forms",
    rule="one execution = one matrix with every query of fresh, recomputed and copied decompositions; a state is the matrix and form",
    note="Exhaustive over the listed matrices and forms; larger or continuous-valued matrices are not covered.")
CHECKS["C17"] = dict(level="model_checking", parts=parts("c17_matfun.cc", 8, CL, cxx="clang++"),
    technique="exhaustive enumeration of matrices over alphabets, structured families, scales and storage kinds on the real functions against quadruple-precision functions of the matrix, with a termination horizon",
    bound="all 1x1/2x2 over 7 values, 3x3 over 3 values, 8 structured families to 5x5 times 13 scales 1e-60..1e12, rotations at 61 angles times 12 scales, float/double/long double, all storage kinds",
    rule="one execution = one matrix with exp, sqrt, log and their defining equations; a state is the matrix and form",
    assumptions=["square root and logarithm are checked where the condition number of the root is below 1000"],
    note="Exhaustive over the listed matrices and forms; matrices with spectra close to the negative real axis and continuous-valued matrices are not covered.")
CHECKS["C18"] = dict(level="model_checking", parts=parts("c18_rotations.cc", 8, CL, cxx="clang++"),
    technique="exhaustive enumeration of angle and axis grids and of all words of group operations on the real classes against quadruple-precision rotation matrices",
    bound="all words of products, inverses, in-place and self-aliased operations to length 4 (thorough 5) over 7 generators; 34 angles incl. every series threshold and the neighbourhood of pi, 11 angles beyond pi, fine and logarithmic grids, 16 axes; all vector and matrix kinds for actions; 8 families of non-orthonormal matrices; 416 pairs of directions in 9 scalings; float, double and (to double accuracy) long double",
    rule="one execution = one word of group operations (the two live elements compared after every letter), or one angle/axis/form combination; a state is the word prefix or that combination",
    note="Exhaustive over the listed words, angles, axes and forms; directions within 1e-3 of opposite are excluded (documented ambiguity).")
CHECKS["C19"] = dict(level="model_checking", parts=parts("c19_motions.cc", 9, CL, cxx="clang++"),
    technique="exhaustive enumeration of twist grids and of all words of group operations on the real classes against quadruple-precision homogeneous matrices",
    bound="all words of products, in-place, left-multiplying, self-aliased and mixed operations, inverses, exp(ln) and part assignment over 6 generators to length 4 (thorough 5); 45 angles incl. every series threshold and around pi times axes and 6 translation forms, logarithmic angle grids; all vector and matrix kinds on either side; float, double and (to double accuracy) long double",
    rule="one execution = one word of group operations (both live elements compared after every letter), or one twist/form combination; a state is the word prefix or that combination",
    note="Exhaustive over the listed words, twists and forms; tolerance 3e3 epsilon for exp, 1e-11 relative for ln, which uses a truncated series below 1e-5.")
CHECKS["C20"] = dict(level="model_checking", parts=parts("c20_similarities.cc", 8, CL, cxx="clang++"),
    technique="exhaustive enumeration of tangent-vector grids and of all words of group operations on the real classes against quadruple-precision homogeneous matrices",
    bound="all words of products, in-place, left-multiplying, self-aliased and mixed operations, inverses, exp(ln) and part assignment over 6 generators to length 4 (thorough 5); 45 angles times 31 log-scales incl. zero, denormal-range and every series threshold, axes and 3 to 6 translation forms; all vector and matrix kinds on either side; float, double and (to double accuracy) long double",
    rule="one execution = one word of group operations (both live elements compared after every letter), or one tangent/form combination; a state is the word prefix or that combination",
    note="Exhaustive over the listed words, tangent vectors and forms; log-scales beyond 9 in magnitude are not covered.")
CHECKS["C21"] = dict(level="model_checking", parts=parts("c21_sl.cc", 9, CL, cxx="clang++"),
    technique="exhaustive enumeration of parameter grids and of all words of group operations on the real class against quadruple-precision matrix functions",
    bound="all pairs of parameters over 6 values each in dimensions 2 to 4, dense families in 9 scalings to dimension 5, all words of products, inverses, aliasing and re-construction to length 4 (thorough 5), 10 matrices in 5 scalings and both signs of the determinant, all vector and matrix kinds; float, double and (to double accuracy) long double",
    rule="one execution = one word of group operations (both live elements compared after every letter), or one parameter vector/form combination; a state is the word prefix or that combination",
    assumptions=["ln is compared with the parameters where the norm of the algebra element is below 1.2"],
    note="Exhaustive over the listed parameters, words and forms; matrices of even dimension with negative determinant have no such rescaling and are excluded.")
CHECKS["C22"] = dict(level="model_checking", parts=parts("c22_adjoints.cc", 8, CL, cxx="clang++"),
    technique="exhaustive enumeration of group elements by words of operations and of tangent basis vectors on the real classes against G A G^-1 in quadruple precision",
    bound="all generators of all groups (SL to dimension 4), all elements reached by words of 8 operations to length 4 (thorough 5-6), all tangent basis vectors and dense vectors and matrices, all vector and matrix kinds; float, double and (to double accuracy) long double",
    rule="one execution = one word of group operations followed by every adjoint form on every basis vector, or one generator/form combination; a state is the word prefix or that combination",
    assumptions=["adjoints are linear in the tangent vector, so agreement on the basis determines them for a given element"],
    note="Exhaustive over the listed words and basis vectors.")
CHECKS["C23"] = dict(level="model_checking", parts=parts("c23_wls.cc", 6, CL + LAP, LIBS, cxx="clang++"),
    technique="exhaustive enumeration of accumulation histories on the real classes against exact normal equations kept in rationals",
    bound="all histories of 23 operations (prior, scalar, vector, sparse measurements, merge, copy, clear, solve) on two accumulators to length 3 (thorough 4), sizes 1-3 fixed and run-time, Cholesky, SVD, eigen and LAPACK back ends, float, double and long double; single additions with every pattern of zeros (and signs for few elements) in the Jacobian at every place and size of its blocks, sizes 1-4 (thorough 5)",
    rule="one execution = one history, both accumulators compared with the exact set of measurements after every operation; a state is the history prefix",
    assumptions=["the accumulated information matrix is promised complete in its upper triangle until it is solved (compute() mirrors it)"],
    note="Exhaustive over histories to the stated length with the listed measurements.")
CHECKS["C24"] = dict(level="model_checking", parts=parts("c24_irls.cc", 4, CL, cxx="clang++"),
    technique="exhaustive enumeration of residuals, scale settings and accumulation histories on the real classes against the documented formulas and weighted normal equations",
    bound="all schemes, both signs and a ladder of magnitudes of residual from 0 to the range limits, all histories of measurement, merge, copy and clear to length 4 (thorough 5), fixed and run-time sizes; float and double",
    rule="one execution = one scheme/scale/residual or one accumulation history with everything compared after each operation; a state is that triple or the history prefix",
    note="Exhaustive over histories to the stated length with the listed residuals.")
CHECKS["C25"] = dict(level="model_checking", parts=parts("c25_simplex.cc", 4, CL, cxx="clang++"),
    technique="exhaustive exploration of the real minimiser under an adversarial objective: the explorer chooses the rank of every value returned, so all order types of answers are covered, each step compared with the documented rule",
    bound="all answer patterns for 5-6 (thorough 7-8) new objective values in 1-4 dimensions, 3 spreads, 4 coefficient sets, iterate/find_next_point/restart in any order; 225 complete runs per dimension over 9 functions; float and double",
    rule="one execution = one sequence of answers and calls; a state is the sequence of simplex values",
    assumptions=["the rule depends on the answers only through comparisons, so ranks represent all values"],
    note="Exhaustive over order types of answers to the stated number of evaluations.")
CHECKS["C26"] = dict(level="model_checking", parts=parts("c26_line.cc", 5, CL, cxx="clang++"),
    technique="exhaustive exploration of the real minimisers under an adversarial objective and gradient: the explorer chooses the rank of every value (or NaN beyond a point) and every gradient; bracketing invariants checked at every evaluation",
    bound="all answer patterns for 3-6 (thorough 5-8) evaluations followed by three kinds of tail, 8 brackets, 4 iteration limits, 3 tolerances, 3 step sizes; conjugate gradients in 1-2 dimensions with 4 gradients; complete runs over 6 line functions and 9 functions in 1-4 dimensions; float, double and long double",
    rule="one execution = one sequence of answers; a state is the sequence of evaluated points and values",
    assumptions=["objectives are valid (not NaN) on an interval around the start", "a function decreasing for ever is outside the documented assumption that a minimum exists"],
    note="Exhaustive over order types of answers to the stated number of evaluations.")
CHECKS["C27"] = dict(level="model_checking", parts=parts("c27_deriv.cc", 4, CL1, cxx="clang++"),
    technique="exhaustive enumeration of functions, points and storage kinds on the real templates, every evaluation monitored, against second-order automatic differentiation in long double",
    bound="all quadratics with coefficients -1,0,1 in 1-2 variables, all pairs of cubic monomials in 2-3 variables, 7 closed forms in 1-4 variables, 2-8 values per coordinate, 4 storage kinds; float, double and long double",
    rule="one execution = one function, point, storage kind and derivative order; that is also the state",
    assumptions=["the function is smooth at the scale of the first step (1e-3 of the coordinate)", "agreement is required within 30 times the reported error plus 4096 (Hessian 16384) rounding errors of the difference quotient at the first step"],
    note="Exhaustive over the listed functions and points.")
CHECKS["C28"] = dict(level="model_checking", parts=parts("c28_named.cc", 5, CL + LAP, LIBS, cxx="clang++"),
    technique="exhaustive enumeration of operation histories on named-element vectors against plain arrays, and of every vector operation on named and planar complex vectors against ordinary vectors",
    bound="all histories of 29 operations on two named vectors to length 2-3 (thorough 3-4), 1, 2, 3, 4 and 7 names, double, float, int; about 70 operations on all vectors over 3-4 values; planar complex of 1-3 elements, fixed and run-time sized, all slices",
    rule="one execution = one history, or one operand pair with all operations; a state is the history prefix or the operand pair",
    assumptions=["planar complex storage is read-only by construction; row, column and diagonal matrix views of it are not offered by the library"],
    note="Exhaustive over histories to the stated length and the listed operand values.")
CHECKS["C32"] = dict(level="model_checking", parts=parts("c32_recompute.cc", 6, CL + LAP, LIBS, cxx="clang++"),
    technique="exhaustive enumeration of histories of compute, copy, assign, move and query calls on two real decomposition objects, every answer compared with the one of a freshly built object",
    bound="all histories to length 2-3 (thorough 3-4) over 6-8 matrices (definite, indefinite, unsymmetric, singular, zero), 5 input layouts and every query, for LU, SVD (square, tall, wide, mixed), SQSVD, SymEigen, Cholesky, Lapack_Cholesky, QR, QR_Lapack (pivoted or not) and GR_SVD; float and double; inputs overwritten after every compute; all instances of different size kinds compared on all unique answers",
    rule="one execution = one history followed by every query of both objects in one of two orders, or one matrix/layout/query/instance combination; a state is the history prefix or that combination",
    note="Exhaustive over histories to the stated length; answers agree to 1e-9 (float 2e-4) of their largest entry.")
CHECKS["C33"] = dict(level="model_checking", parts=parts("c33_autodiff.cc", 7, CL + ["-I", __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "mc", "fadbad")], cxx="clang++"),
    technique="exhaustive enumeration of seedings, extractions, operations and words of group operations on the real library over a forward-differentiating type, against values and differentials in quadruple precision",
    bound="every start position and number of derivatives around the object's size, all storage kinds, every pattern of elements without derivatives; 8 elements of each of SO2, SO3, SE2, SE3 in pairs with 14 actions, all words of 9 operations to length 4 (thorough 5), exponentials at 22 angles incl. both sides of every series threshold times axes and translations; every arithmetic form and solver over 8-10 values times 5-6 derivative patterns; fixed and run-time numbers of derivatives, float and double",
    rule="one execution = one seeding or extraction, one operation on one choice of operands, or one word of group operations with value and all derivatives compared after every letter; a state is that choice or word prefix",
    assumptions=["fadbad::F comes from a stand-in with FADBAD++'s interface (mc/fadbad), since FADBAD++ is not installed", "logarithms of plane rotations, similarities, SL and matrix functions over a differentiating type are not claimed (they use functions FADBAD++ does not offer)"],
    note="Exhaustive over the listed seedings, operations and words; derivatives of the exponential within 0.02 of the identity agree to 1e-9 (1e-8 below 1e-4), where the library truncates its series.")
C31_OPTIONS = ["", "-DTOON_CHECK_BOUNDS", "-DTOON_NDEBUG", "-DNDEBUG", "-DTOON_INITIALIZE_QNAN", "-DTOON_INITIALIZE_SNAN -DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_VAL=7", "-DTOON_INITIALIZE_RANDOM",
    "-DTOON_NDEBUG_MISMATCH", "-DTOON_NDEBUG_SLICE", "-DTOON_NDEBUG_SIZE", "-DTOON_NDEBUG_FILL", "-DTOON_USE_LAPACK", "-DTOON_USE_LAPACK -DTOON_DETERMINANT_LAPACK=-1", "-DTOON_DETERMINANT_LAPACK=2", "-DTOON_INITIALIZE_NAN -DNDEBUG", "-DTOON_DEFAULT_PRECISION_TYPE=float"]
def c31_objects(): return [("c31_prog.cc", ["-O0", f"-DTooN=TooN_{k}", f"-Dkinds=kinds_{k}", f"-DNamed3=Named3_{k}", f"-DVARIANT={k}"] + o.split() + (["-fsanitize=address"] if "INITIALIZE" in o else [])) for k, o in enumerate(C31_OPTIONS)]
CHECKS["C31"] = dict(level="model_checking", parts=[dict(name="p1", src="c31_options.cc", flags=["-O0", "-g1", "-fsanitize=address"], libs=LIBS, cxx="clang++", objects=c31_objects())],
    technique="exhaustive enumeration of programs over the real library, each executed under all option sets in one process and compared with the execution without options",
    bound="about 3500 programs: every pair of 9 vector kinds and of 12 matrix kinds with all operators, every decomposition of 8 matrix families of sizes 1-4 in 3 storages, every transformation for 36 pairs of parameters, estimation, minimisers, stream input/output, empty and large objects, float/double/int; 17 option sets; contents of every kind of new or grown object for 5 element types",
    rule="one execution = one program under all option sets; a state is the program",
    assumptions=["determinants may differ by rounding (1e-11, float 1e-4) between the option sets that select LAPACK for them; everything else is compared exactly", "a program names the precision of its objects when it is built with another default precision"],
    note="Exhaustive over the programs and option sets; objects initialised to NaN, a value or random bytes make any read of an element that was never stored visible in the results.")
TSAN = ["-fsanitize=thread"]; C29_LIBS = LIBS + ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=pthread_once"]
CHECKS["C29"] = dict(level="model_checking", parts=[
        dict(name="p1", src="c29_threads.cc", flags=["-O1", "-g1", "-DPART=1"], libs=C29_LIBS, cxx="clang++", objects=[("c29_ops.cc", ["-O1"] + TSAN + LAP), ("c31_prog.cc", ["-O0", "-DVARIANT=0"] + TSAN + LAP)]),
        dict(name="p2", src="c29_threads.cc", flags=["-O1", "-g1", "-DPART=2"], libs=C29_LIBS, cxx="clang++", objects=[("c29_ops.cc", ["-O1", "-DTOON_INITIALIZE_RANDOM", "-DTOON_CHECK_BOUNDS"] + TSAN + LAP)])],
    technique="two real threads under a controlled scheduler: every load and store the library executes is checked for conflicts under happens-before, and all interleavings at synchronisation operations are explored up to a preemption bound",
    bound="2 threads; every pair of 60 read-only operations on shared objects of every class; every pair of 20 vector and 18 matrix writes to disjoint parts of 18 kinds of object; about 3500 programs over own objects each against itself, and all pairs of the programs that together execute every library function any of them executes; 2 (thorough 3) preemptions at synchronisation operations",
    rule="one execution = one pair of operations under one schedule; a state is the pair of operations",
    assumptions=["without a data race and without synchronisation all interleavings of two operations are equivalent, so one schedule per order decides them", "code that is not compiled from the repository (the C++ library, LAPACK) is safe to call from several threads"],
    note="Exhaustive over operation pairs and over schedules to the preemption bound; statics are returned to their initial contents before every execution, so that first uses meet.")
CHECKS["C30"] = dict(level="model_checking", parts=parts("c30_alloc.cc", 3, CL1 + LAP, LIBS, cxx="clang++"),
    technique="exhaustive exploration of allocation failures: the allocator asks the explorer at every allocation whether it fails, over all histories of operations on the real classes",
    bound="all histories of 2 (thorough 2-3) of about 100 operations over 13 live objects of every owning kind with every placement of up to 2 failures; element types double and two that own memory themselves (stack- and heap-stored static sizes); constructions, conversions, assignments, resizes, swaps, arithmetic, solvers, decompositions, WLS, minimisers",
    rule="one execution = one history with one placement of failures; a state is the history prefix with its failure points",
    note="Exhaustive over histories and failure placements to the stated bounds.")
