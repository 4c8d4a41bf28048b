#!/usr/bin/env python3
# Source of truth for properties.jsonl
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["fflas-ffpack/"+f for f in files],mechanism=[dict(name=n,where="fflas-ffpack/"+w) for n,w in mech],observe_at=observe or ["public API: arguments before the call, memory and result after it"],hook_needed=hook)))
p("C01","Matrix multiplication is exact over every supported field",
 "For every supported word-size finite field (modular and balanced, over float, double, int32, int64, up to the largest advertised modulus) and all dimensions, leading dimensions, transpositions, scalars alpha and beta, operand values and requested numbers of Strassen-Winograd levels, matrix-matrix multiplication leaves in C exactly alpha*op(A)*op(B)+beta*C, every entry in canonical reduced form. Squaring a matrix through the dedicated routine gives the same result as multiplying it by itself, and products over machine-word coefficient rings (floating point or integer) are exact whenever all intermediate values fit the word. A, B and everything outside C are left unchanged.",
 ["inputs","configurations"],"all fields x m,n,k (including 0 and 1 and sizes crossing recursion cut-offs) x lda,ldb,ldc x transposes x alpha,beta x values x Winograd levels x compile-time thresholds",
 "tests/test-fgemm draws a few random shapes per field with uniform entries; extreme values that saturate the delayed-reduction bounds, odd sizes at several recursion levels, small thresholds and tight strides are rarely or never met",
 ["fflas/fflas_fgemm.inl","fflas/fflas_fgemm/","fflas/fflas_helpers.inl","fflas/fflas_bounds.inl","field/field-traits.h","fflas/fflas_igemm/"],
 [("delayed reduction bounds and helper min/max propagation","fflas/fflas_helpers.inl"),("Winograd schedules and dynamic peeling","fflas/fflas_fgemm/"),("conversion to float/double/RNS","fflas/fflas_fgemm.inl")])
p("C02","Vector and elementwise matrix kernels are exact",
 "For every supported field and every length, shape, stride or leading dimension, alignment and scalar, the elementwise kernels (reduce, init, convert, negate, copy, move, zero, identity, scale, add, subtract, scaled add, swap, dot product, transpose, equality and zero tests, random fill) compute exactly the mathematical result, with field results in canonical reduced form, in both their in-place and out-of-place forms. Reduction maps any representable element-type integer to its canonical residue. Operands that are only read, and all memory between and around the addressed elements, are left unchanged.",
 ["inputs","configurations"],"all fields x lengths/shapes x strides/leading dimensions x alignments x scalars (0,1,-1,any) x values including unreduced ones for the reductions x SIMD levels",
 "existing tests use a handful of sizes and mostly unit stride; SIMD head/tail paths depend on length mod lane count and pointer alignment, and extreme or unreduced values exercise the reduction corrections",
 ["fflas/fflas_level1.inl","fflas/fflas_freduce.inl","fflas/fflas_freduce.h","fflas/fflas_fadd.inl","fflas/fflas_fscal.inl","fflas/fflas_faxpy.inl","fflas/fflas_fdot.inl","fflas/fflas_fassign.inl","fflas/fflas_transpose.h"],
 [("SIMD kernels with scalar head and tail","fflas/fflas_fadd.inl"),("modular reduction kernels","fflas/fflas_freduce.inl"),("delayed-reduction dot product","fflas/fflas_fdot.inl"),("cache-oblivious transpose","fflas/fflas_transpose.h")])
p("C03","Matrix-vector, rank-one and triangular-vector kernels are exact",
 "For every supported field (and, for the products, every machine-word coefficient ring while values fit) and all dimensions, leading dimensions, vector strides, transpositions, scalars and values, matrix-vector product yields exactly Y := alpha*op(A)*X+beta*Y, rank-one update yields exactly A := A+alpha*x*y^T, and triangular vector solve yields the unique X with op(T)*X = B, using only the triangle designated by the uplo/diag arguments. Results are canonical and nothing else is modified.",
 ["inputs","configurations"],"all fields x m,n x lda,incX,incY x transpose/uplo/diag x alpha,beta x values",
 "tests sample random vectors at unit stride with uniform entries; delayed-reduction limits, strides >1 and degenerate dimensions are not covered",
 ["fflas/fflas_fgemv.inl","fflas/fflas_fger.inl","fflas/fflas_ftrsv.inl","fflas/fflas_level2.inl","fflas/fflas_fgemv_mp.inl","fflas/fflas_fger_mp.inl"],
 [("delayed reduction in gemv/ger","fflas/fflas_fgemv.inl"),("conversion to BLAS types","fflas/fflas_fger.inl")])
p("C04","Triangular matrix products, solves and inverses are exact",
 "For every supported field and all shapes, leading dimensions, sides, triangles, transpositions and unit or non-unit diagonals, triangular solve leaves in B the unique X with op(T)X = alpha*B (or X*op(T) = alpha*B), triangular product leaves exactly alpha*op(T)*B (in place, or alpha*op(T)*B+beta*C out of place), triangular inversion leaves T^-1, triangular-by-triangular products and solves leave the stated product or quotient, and the symmetric triangular rank-2k solve leaves an X with the stated symmetric equation satisfied. Only the designated triangle (and diagonal, when not unit) of the triangular operands is used and, where documented as output, written; everything else is left unchanged and results are canonical.",
 ["inputs","configurations"],"all fields x m,n x leading dimensions x side/uplo/trans/diag x alpha x values (extreme included) x compile-time cut-offs",
 "tests draw random sizes of moderate dimension with uniform entries; the delayed-reduction block sizes, threshold recursion and unused triangle contents are not exercised systematically",
 ["fflas/fflas_ftrsm.inl","fflas/fflas_ftrsm_src.inl","fflas/fflas_ftrmm.inl","fflas/fflas_ftrmm_src.inl","ffpack/ffpack_ftrtr.inl","ffpack/ffpack_ftrstr.inl","ffpack/ffpack_ftrssyr2k.inl"],
 [("multi-level delayed trsm","fflas/fflas_ftrsm_src.inl"),("recursive trtri/trtrm","ffpack/ffpack_ftrtr.inl")])
p("C05","Symmetric rank-k updates and symmetric factorizations are exact",
 "For every supported field and all shapes, leading dimensions, triangles, transpositions and scalars, symmetric rank-k (plain, with diagonal or block-diagonal scaling) and rank-2k updates put in the designated triangle of C exactly the corresponding triangle of the stated product, and never touch memory outside C. Symmetric factorization of a matrix with generic rank profile reconstructs the input from the triangular factor and diagonal it returns and reports failure otherwise, and the rank-profile-revealing symmetric factorization reconstructs the input and returns its true rank.",
 ["inputs","configurations"],"all fields (characteristic not 2 where required) x n,k x leading dimensions x uplo/trans x alpha,beta x diagonal scalings x matrices of every rank and rank profile",
 "tests sample few random shapes with n mostly below the block-recursive thresholds, and only random rank profiles",
 ["fflas/fflas_fsyrk.inl","fflas/fflas_fsyrk_strassen.inl","fflas/fflas_fsyr2k.inl","ffpack/ffpack_fsytrf.inl"],
 [("divide and conquer syrk","fflas/fflas_fsyrk.inl"),("Strassen-like syrk","fflas/fflas_fsyrk_strassen.inl"),("recursive LDLT and RPM-revealing LDLT","ffpack/ffpack_fsytrf.inl")])
p("C06","PLUQ and LU factorizations reconstruct the input and reveal rank",
 "For every supported field and every matrix, shape, leading dimension and requested unit side, PLUQ returns the true rank r and in-place factors and permutations such that A = P*L*U*Q with L lower and U upper trapezoidal of rank r with the requested unit diagonal, and the positions of the pivots in P and Q form the rank profile matrix of A. The other LU variants (with row or column orientation, several algorithms) likewise reconstruct A through the permutations, rank and packed factors they return. The triangular-factor accessors extract exactly these factors.",
 ["inputs","configurations"],"all fields x m,n x lda x unit side x trans x algorithm x matrices of every rank and rank profile (zero, full, deficient, permuted) x base-case cut-offs",
 "tests use random matrices of a given rank at a few sizes; adversarial rank profiles, zero leading blocks at recursion boundaries and all size/threshold combinations cannot be sampled by them",
 ["ffpack/ffpack_pluq.inl","ffpack/ffpack_ludivine.inl","ffpack/ffpack_ludivine_mp.inl","ffpack/ffpack_pluq_mp.inl","ffpack/ffpack_ppluq.inl","ffpack/ffpack.h","ffpack/ffpack_permutation.inl"],
 [("tile recursive PLUQ and Crout base cases","ffpack/ffpack_pluq.inl"),("LUdivine recursion","ffpack/ffpack_ludivine.inl")])
p("C07","Echelon forms and their transformations are correct and canonical",
 "For every supported field, matrix, shape and algorithm choice, the row/column echelon form routines return the true rank and an echelon form of A, the reduced routines return the unique reduced echelon form, and when the transformation is requested the returned nonsingular transformation matrix applied to A gives that echelon form. The accessor routines rebuild the echelon form and the transformation from the packed in-place result consistently in all their in-place and out-of-place variants.",
 ["inputs","configurations"],"all fields x m,n x lda x algorithm tags x with/without transformation x matrices of every rank and rank profile",
 "tests use random matrices of random rank at few sizes; pivots in adversarial positions and degenerate shapes are not covered",
 ["ffpack/ffpack_echelonforms.inl","ffpack/ffpack.h"],
 [("echelon forms from PLUQ / LUdivine / Gauss-Jordan","ffpack/ffpack_echelonforms.inl")])
p("C08","Rank profiles and rank profile matrices are the true ones",
 "For every supported field, matrix and algorithm choice, the row and column rank profile routines return the lexicographically minimal sets of independent rows and columns, including for every leading submatrix when deduced from a rank-profile-revealing factorization, and the row/column submatrices extracted from a factorization are those at the profile positions with full rank. The reported rank equals the true rank.",
 ["inputs","configurations"],"all fields x m,n x lda x algorithm tag x matrices with any prescribed rank profile matrix x leading submatrix sizes",
 "tests draw random rank profiles at few sizes; lexicographic minimality is a universal statement about all row subsets",
 ["ffpack/ffpack_rankprofiles.inl","ffpack/ffpack.h"],
 [("rank profiles from echelon forms / PLUQ","ffpack/ffpack_rankprofiles.inl")])
p("C09","Rank, determinant, singularity and inverse are exact",
 "For every supported field and every matrix, shape and leading dimension, the computed rank, determinant and singularity answer are the mathematical ones, and matrix inversion either returns the exact inverse (in place or out of place) or reports the exact positive nullity. This holds equally for singular, near-singular, permuted, sparse and 0- or 1-dimensional inputs.",
 ["inputs","configurations"],"all fields x n (m,n for rank) x lda x matrices of every rank and structure",
 "tests use random nonsingular or random-rank matrices at few sizes",
 ["ffpack/ffpack.h","ffpack/ffpack.inl","ffpack/ffpack_invert.inl","ffpack/ffpack_det_mp.inl"],
 [("PLUQ-based rank and determinant with permutation sign","ffpack/ffpack.inl"),("inverse from LU","ffpack/ffpack_invert.inl")])
p("C10","System solving and nullspaces are exact and complete",
 "For every supported field and every matrix, right-hand side(s), side, shape and leading dimensions, system solving returns a true solution when and only when the system is consistent and reports inconsistency otherwise, in its one-shot, factored and overwriting forms. Nullspace routines return a basis: every vector is annihilated by the matrix, the vectors are independent and their number is the exact nullity; random-nullspace-vector routines return a vector of the (left or right) nullspace.",
 ["inputs","configurations"],"all fields x m,n,nrhs x leading dimensions x side x consistent and inconsistent right-hand sides x matrices of every rank",
 "tests draw random systems; inconsistent deficient systems at every shape ordering (m<n, m=n, m>n) are barely sampled",
 ["ffpack/ffpack_fgesv.inl","ffpack/ffpack_fgetrs.inl","ffpack/ffpack.inl","ffpack/ffpack.h"],
 [("PLUQ-based solve with consistency test","ffpack/ffpack_fgesv.inl"),("nullspace from triangular solve","ffpack/ffpack.inl")])
p("C11","Characteristic and minimal polynomials are the true ones",
 "For every supported field and every square matrix, the characteristic polynomial is the exact monic polynomial det(xI-A) of degree n, whichever of the offered algorithms is selected (those specified for generic matrices only, Keller-Gehrig's and the arithmetic progression without preconditioning, on generic matrices), and the minimal polynomial is the exact monic minimal polynomial (for the randomized variants: it always divides the true one and equals it up to the documented failure probability). The minimal polynomial of a given vector is the exact one.",
 ["inputs","configurations","histories"],"all fields x n x lda x algorithm tags x matrices (companion, nilpotent, scalar, block-diagonal, derogatory, singular, random) x random generator states",
 "tests use random dense matrices whose minimal and characteristic polynomials coincide; derogatory and structured matrices drive the recovery and block-elimination paths",
 ["ffpack/ffpack_charpoly.inl","ffpack/ffpack_charpoly_kgfast.inl","ffpack/ffpack_charpoly_kgfastgeneralized.inl","ffpack/ffpack_charpoly_kglu.inl","ffpack/ffpack_charpoly_danilevski.inl","ffpack/ffpack_charpoly_mp.inl","ffpack/ffpack_minpoly.inl","ffpack/ffpack_krylovelim.inl","ffpack/ffpack_frobenius.inl"],
 [("Krylov/LU, Danilevskii, arithmetic progression algorithms","ffpack/ffpack_charpoly.inl")])
p("C12","Permutation operations act as the permutations they represent",
 "For every size and permutation, applying a permutation given in transposition form to rows or columns of a matrix, transposed or not, on full or partial ranges and with any worker count, moves each row or column exactly where the represented permutation sends it; conversions between transposition form and image form are mutually inverse representations of the same permutation, and the cyclic-shift, monotonic and composition routines agree with the mathematical permutation they document. All other memory is unchanged.",
 ["inputs","configurations","schedules"],"all sizes x permutations (all of them for tiny sizes) x sides x transposes x index ranges x leading dimensions x fields",
 "tests use random permutations coming out of factorizations only",
 ["ffpack/ffpack_permutation.inl","ffpack/ffpack.h"],
 [("blocked transposition application","ffpack/ffpack_permutation.inl")])
p("C13","Parallel routines equal sequential ones under every schedule, race-free",
 "For every number of threads, cutting strategy, grain, task scheduling order and interleaving, the parallel variants of the library's routines (matrix product, matrix-vector product, triangular solve, elementwise kernels, dot product, PLUQ and the solvers, rank, determinant and echelon/rank-profile routines built on it) produce exactly the result the sequential specification requires. No two unordered tasks ever access the same memory location with at least one write, and every parallel call returns only after all its tasks are complete.",
 ["schedules","inputs","configurations"],"all task interleavings and thread counts x cutting strategies x shapes x fields",
 "tests run one uncontrolled schedule per case, on few sizes; a missing dependency or barrier almost never manifests",
 ["paladin/parallel.h","paladin/blockcuts.inl","paladin/pfgemm_variants.inl","paladin/pfgemv.inl","paladin/fflas_plevel1.h","fflas/fflas_pfgemm.inl","fflas/fflas_pftrsm.inl","ffpack/ffpack_ppluq.inl"],
 [("OpenMP task/wait/dependency macros","paladin/parallel.h"),("explicit task synchronisation points","fflas/fflas_pfgemm.inl")],
 ["OpenMP runtime entry points (task create, wait, barrier) replaced by a monitoring scheduler","memory accesses through ThreadSanitizer instrumentation"])
p("C14","Work partitioning covers every index exactly once",
 "For every problem size, number of workers, grain size and cutting strategy, the one- and two-dimensional work splitters terminate and enumerate a family of blocks that lie inside the index range, are pairwise disjoint, and cover every index exactly once. Parallel-for loops built on them execute each iteration exactly once.",
 ["inputs","configurations"],"all dimensions (including 0, 1, fewer than workers) x worker counts x grains x row/column/block/recursive x fixed/threads/grain strategies",
 "tests exercise only the default strategies at a few sizes; rounding at block boundaries depends on size, count and grain jointly",
 ["paladin/blockcuts.inl","paladin/parallel.h"],
 [("BlockCuts and ForStrategy iterators","paladin/blockcuts.inl")])
p("C15","Library routines are memory-safe and free of undefined behaviour",
 "For every valid call of a public routine, on matrices whose storage is exactly as large as their dimensions and leading dimensions require, the library never reads or writes outside the memory it was given or allocated, never uses freed memory, frees what it allocates with the matching deallocator, and executes no undefined behaviour such as signed overflow, invalid shifts or out-of-range conversions. It never writes to operands documented as read-only, nor to the gap between the end of a row and the leading dimension.",
 ["inputs","configurations"],"all public routines x shapes (including empty and single row/column) x leading dimensions x alignments x fields x values",
 "tests run without sanitizers on over-allocated, aligned, contiguous matrices",
 ["fflas/","ffpack/","field/","utils/fflas_memory.h","utils/align-allocator.h"],
 [("index arithmetic and allocation sizes throughout","fflas/"),("aligned allocation wrappers","utils/fflas_memory.h")],
 ["AddressSanitizer/UndefinedBehaviorSanitizer reports","row-padding canaries and copies of const operands","instrumented reference BLAS at the library boundary"])
p("C16","Multiprecision and residue-number-system arithmetic is exact",
 "Over the integers, over prime fields with moduli of any size (arbitrary precision and fixed-width multiprecision) and over residue number systems, matrix product, matrix-vector product, rank-one update, triangular solve, factorization, rank, determinant, inverse, solving and characteristic polynomial give the exact result for every shape, scalar, leading dimension, sign and magnitude of entries. Converting integers to residues and back is the identity for every value within the range of the chosen base, which always suffices for the result.",
 ["inputs","configurations"],"bit sizes of entries and moduli x signs x extreme values x shapes x scalars x residue bases",
 "tests sample few bit sizes with random entries; worst-case magnitudes that saturate the residue base and tight splits of the conversion are not reached",
 ["field/rns-double.h","field/rns-double.inl","field/rns-double-recint.inl","field/rns-integer-mod.h","field/rns-integer.h","fflas/fflas_fgemm/fgemm_classical_mp.inl","fflas/fflas_ftrsm_mp.inl","fflas/fflas_fgemv_mp.inl","fflas/fflas_fger_mp.inl","ffpack/ffpack_pluq_mp.inl","ffpack/ffpack_det_mp.inl","ffpack/ffpack_charpoly_mp.inl"],
 [("bound on result bit size and choice of residue base","fflas/fflas_fgemm/fgemm_classical_mp.inl"),("Kronecker-style conversion to and from RNS","field/rns-double.inl")])
p("C17","Sparse matrix products equal the dense products",
 "For every sparse matrix (any pattern, including empty rows and columns, duplicate-free in any density, with all-ones or arbitrary values), every storage format that has a product implementation (COO, CSR, ELL, CSR_HYB, HYB_ZO and the 0-1 variants) and field, building the format from coordinates and multiplying it by a vector or block of vectors gives exactly alpha-free y := A*x + beta*y as the dense computation would, and multiplying never modifies the matrix or the input vector.",
 ["inputs","configurations"],"formats (COO, CSR, ELL, CSR_HYB, HYB_ZO, and the all-one/minus-one variants) x fields x patterns x shapes x beta x block widths and leading dimensions",
 "the sparse tests are not part of the passing test suite; delayed reduction and format padding depend on the pattern",
 ["fflas/fflas_sparse.h","fflas/fflas_sparse.inl","fflas/fflas_sparse/"],
 [("format-specific spmv/spmm kernels","fflas/fflas_sparse/"),("delayed-reduction bound per row","fflas/fflas_sparse.inl")])
p("C18","Probabilistic verifiers accept correct results and catch wrong ones",
 "The result verifiers (for matrix product, triangular solve, PLUQ, inverse, determinant and characteristic polynomial, and the Freivalds product test) accept every correct computation, for every field, shape, scalar, side and random state, and never alter the computation. They reject an incorrect result except with the small probability their randomness allows, so that repeated verification detects any fixed error.",
 ["inputs","histories","configurations"],"all fields x shapes x scalars x correct results and corruptions of any single entry or pivot x random states",
 "tests run the checkers on correct computations at few sizes and mostly never on corrupted results",
 ["checkers/","fflas/fflas_freivalds.inl"],
 [("projection vectors saved before and compared after the computation","checkers/checker_fgemm.inl")])
p("C19","The C interface and precompiled libraries agree with the templates",
 "Every function of the C interface and every precompiled instantiation produces, for all arguments, the same results as the generic routine it wraps over the field designated by its modulus and representation flag, passing through every argument (dimensions, strides, scalars, enumerations) unchanged.",
 ["inputs","configurations"],"all exported C functions x moduli x modular/balanced flag x shapes x strides x enum values",
 "only a few C functions are called by any test; argument order or flag mix-ups in the others are invisible",
 ["interfaces/libs/fflas_c.h","interfaces/libs/ffpack_c.h","interfaces/libs/fflas_lvl1.C","interfaces/libs/fflas_lvl2.C","interfaces/libs/fflas_lvl3.C","interfaces/libs/ffpack.C"],
 [("hand-written forwarding wrappers","interfaces/libs/ffpack.C")])
p("C20","Matrices written to a stream or file are read back identically",
 "Writing any matrix over any supported field in any readable text or binary format and reading it back, from a file or stream, with an explicit format (or automatic detection, for the SMS and binary formats), gives the same dimensions and the same entries; the leading dimension padding is left alone, consecutive matrices in one stream are read one after the other, and a truncated or ill-formed SMS file never makes the reader write outside the matrix or loop forever.",
 ["inputs","configurations"],"fields x formats x shapes (including empty and single row/column) x leading dimensions x entry values up to the modulus",
 "tests only read one sample file or none; format detection and index conventions are universal over matrices",
 ["utils/fflas_io.h","utils/Matio.h"],
 [("ReadMatrix/WriteMatrix format dispatch","utils/fflas_io.h")])
p("C21","Quasiseparable generators represent and multiply matrices exactly",
 "For every left-triangular or full quasiseparable matrix, building a Bruhat or sequentially semi-separable generator and expanding it back gives the original matrix, the reported rank and quasiseparability order are the true ones, compressed forms expand to the uncompressed ones, and multiplying through the generator equals the dense product, for every size, order, block size, right-hand side width and leading dimension.",
 ["inputs","configurations"],"fields x N x order x rank x rank profile of the left-triangular part x right-hand side widths x beta x leading dimensions",
 "tests draw few random sizes where the order divides conveniently",
 ["ffpack/ffpack_bruhatgen.inl","ffpack/ffpack_sss.inl"],
 [("compact Bruhat generator","ffpack/ffpack_bruhatgen.inl"),("sequentially semi-separable generator","ffpack/ffpack_sss.inl")])
p("C22","SIMD wrappers compute the scalar operation in every lane",
 "For every element type, vector width and instruction-set level, each operation of the SIMD abstraction (load/store in aligned and unaligned forms, set, arithmetic, multiply high/low/extended, fused multiply-add, comparisons, shifts, blends, shuffles, packs and unpacks, rounding, modular reduction) returns in every lane exactly the value of the corresponding scalar operation, for all operand values including extremes and wrap-around.",
 ["inputs","configurations"],"element types x vector widths x instruction-set levels x operand values (boundary and random)",
 "tests/test-simd covers a subset of operations with few values at the configured level only; emulated operations have corner cases at sign boundaries",
 ["fflas/fflas_simd.h","fflas/fflas_simd/"],
 [("intrinsics and emulation sequences","fflas/fflas_simd/")])
p("C23","Random matrix generators deliver the promised structure",
 "For every field, shape, leading dimension and random generator state, each random matrix generator returns a matrix with exactly the promised property: canonical entries, nonzero, triangular with unit or nonzero diagonal, symmetric, prescribed rank, prescribed rank profile matrix, prescribed determinant, prescribed quasiseparability, and random permutations, index subsets and rank profile matrices are well formed. Nothing outside the target matrix is written, and equal generator states give equal matrices.",
 ["inputs","histories","configurations"],"fields (tiny to large) x shapes x rank x generator seeds",
 "tests trust the generators; they are the foundation of every other test",
 ["utils/fflas_randommatrix.h"],
 [("structured construction from random factors","utils/fflas_randommatrix.h")])
p("C24","Delayed arithmetic never rounds and never overflows",
 "For every field, modulus up to the advertised maximum, operand values and dimensions, the sums of products that products, solves and factorizations accumulate before reducing never leave the exactly representable integer range of the floating-point type (so that no summation order can round them), and integer accumulations never overflow. The modulus limits advertised for each field are themselves safe and usable.",
 ["inputs","configurations"],"fields x moduli (in particular at the advertised limit) x inner dimensions around the maximal delayed block x extreme values x scalars",
 "a rounding error that happens to vanish after reduction is invisible to a result comparison, and tests rarely use extreme values at limit moduli",
 ["fflas/fflas_bounds.inl","fflas/fflas_helpers.inl","field/field-traits.h","fflas/fflas_fgemm/"],
 [("bound computations for maximum delayed dimension","fflas/fflas_bounds.inl"),("MMHelper range tracking","fflas/fflas_helpers.inl")],
 ["operand magnitudes at every BLAS call","floating-point inexact flag around BLAS calls and kernels"])
p("C25","Memory, option-parsing and word-arithmetic utilities are exact",
 "Every buffer obtained from the library's allocation wrappers has the requested number of elements and alignment (including no alignment at all), is disjoint from every other live buffer and is released completely by the matching deletion, one or several at a time; containers using the aligned allocator behave as standard ones and stay aligned while they grow. Command-line options of every type are read exactly whatever their order, omitted options keep their defaults, list options keep their order, and the command string written for a set of integer and boolean options parses back to the same values. High products, zero counts, power-of-two divisions, parity and range tests on machine words are exact for every operand, and the field chooser returns exactly the requested modulus, or a prime of the requested size the element type supports, or nothing when there is none.",
 ["inputs","configurations"],"element types x counts x alignments x allocation and release histories; option types x values x orders x subsets; all machine words",
 "the utilities are only exercised indirectly by tests, with default alignment, few options and small values",
 ["utils/align-allocator.h","utils/fflas_memory.h","utils/args-parser.h","utils/bit_manipulation.h","utils/flimits.h","utils/debug.h","utils/test-utils.h"],
 [("aligned allocation and release","utils/fflas_memory.h"),("option parsing","utils/args-parser.h"),("high products and zero counts","utils/bit_manipulation.h"),("range tests","utils/flimits.h")],
 ["alignment, disjointness and content of live buffers","leak and bounds reports of AddressSanitizer","values received by each option"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
