#!/usr/bin/env python3
"""Writes known_findings.json: open findings (matched by run_check.py) and repaired defects (informative)."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED=[
("C01","cb861dc","fsquare over integer-represented fields went through a single dgemm and rounded for large moduli"),
("C02","b0ed53f","scalar floating point reduction rounded near the largest moduli (also C01, C24)"),
("C02","4e0c387","fscal over DoubleDomain/FloatDomain read its input with the stride of its output"),
("C02","eb581ca","fmove copied A over B and cleared it instead of moving B into A"),
("C02","ec6bf8e","strided fsub over generic fields added instead of subtracting"),
("C02","0ec6654","triangular fzero with a unit diagonal ran out of bounds on a 0x0 matrix (also C15)"),
("C02","d5670b1","fsubin over RecInt based fields was wrong on aliased operands (also C16)"),
("C03","b9a3aea","fgemv of the transpose of a matrix with no rows did not scale Y by beta"),
("C03","b71e780","fgemv over Modular<int32> modulo 2 did nothing"),
("C16","aaf2468","multiprecision fgemm did not scale C by beta when the product was zero"),
("C04","d4f5145","out-of-place ftrmm over generic fields added to C when beta is zero"),
("C04","954936e","out-of-place ftrmm divided beta by a zero alpha"),
("C05","7660e28","fsyr2k with k=0 scaled C by beta twice"),
("C04","34e33ea","ftrsm let Winograd's algorithm overflow the exact range of its delayed updates (also C24)"),
("C05","e61a6ed","block diagonal fsyrk indexed the block flags out of bounds when N>2K (also C15)"),
("C05","21488a7","Strassen fsyrk ignored the bounds of its remainder update and ran out of bounds on small dimensions"),
("C05","70f549f","max3 returned max(m,min(n,k)), so Strassen fsyrk lost track of the bounds of its result (also C24)"),
("C06","9eb243f","LUdivine/LUdivine_small ignored the transposition in their base case: wrong factors and out of bounds writes with a cutoff above 1 (also C15)"),
("C06","324b535","LUdivine over Modular<Integer> crashed with a cutoff above 1 (also C16)"),
("C02","65b3d27","fsubin over signed RecInt based fields was wrong on aliased operands"),
("C09","77b8ff4","Invert returned a wrong inverse whenever the reduced echelon form needed a column permutation (e.g. permutation matrices)"),
("C08","bf9cb0d","ColRankProfileSubmatrixIndices overran (N>M) or left uninitialised (N<M) its row index array (also C15)"),
("C10","c41c1a9","RandomNullSpaceVector permuted its output as if incX were 1"),
("C11","4ecbbcc","CharPoly with the default (ArithProgKrylovPrecond) algorithm returned wrong polynomials on derogatory matrices: unverified block structure of the Krylov basis"),
("C11","a4670a0","the arithmetic progression step of CharPoly accepted rank profiles skipping rows inside a block: wrong polynomial, e.g. 3x3 matrices over GF(5) with degree 1"),
("C08","c159314","LQUPtoInverseOfFullRankMinor left the upper factor in the inverse of the lower one, wrong inverse"),
("C14","d6d341e","2D splitting by grain or fixed size lost the end of the range when the remainder exceeded the number of blocks"),
("C14","69c6bb7","1D splitting of a range [b,e) enumerated [0,e-b) instead"),
("C13","1c7e16e","parallel fdot allocated one partial result per thread although grain and fixed splittings make more blocks"),
('C15','9b3f11f','signed overflow computing the bounds of a lazy addition over ModularBalanced<int64_t>'),
('C15','2cea104','fsytrf leaked Dinv when returning false'),
('C15','4e374b9','MonotonicApplyP leaked MathP on the identity'),
('C13','6c8fa61','recursive parallel fgemv with FflasTrans read A from a wrong column (wrong result, out of bounds)'),
('C13','f6b76bb','hybrid parallel ftrsm looped forever (n=0) or divided by zero (m=0)'),
('C15','a5d2161','MaxDelayedDim signed overflow over int64 fields'),
('C13','03c891c','parallel PLUQ did not reveal the rank profile matrix when a recursive block has one row or column; pColumnEchelonForm not echelon'),
('C16','60f0654','Det over ZRing<Integer> added the determinant to the previous content of det'),
('C16','c9e5eb2','Det over ZRing<Integer>: base without room for the sign, wrong sign or value for extreme entries'),
('C16','5c89fe0','CharPoly over ZRing<Integer> added the coefficients to the previous content of the output'),
('C16','d26756d','CharPoly over ZRing<Integer>: base without room for the sign'),
('C16','cc204df','CharPoly over ZRing<Integer> of an empty matrix (logarithm of zero cast to an integer)'),
('C16','15700c1',"rns_double_extended::init of negative integers gave the residues of their absolute value's remainder"),
('C16','bc49e2c','parallel fgemm over RNSInteger/ZRing<Integer> returned before its tasks ended: wrong results, use after free'),
('C16','06bfb46','rns_double::reduce in rns-major layout without SIMD skipped elements and used wrong moduli'),
('C22','a468c30','emulated shuffle of Simd128<int16>, Simd256<int16>, Simd256<int32> read outside the vector for every odd lane'),
('C22','cb687a2','FieldSimd::sub(a,b) tested the wrong bound; add/sub did not reduce over balanced representations'),
('C17','d84b788','sparse block products scaled and reduced y with the wrong leading dimension'),
('C17','ebf4503','sparse products by a matrix of equal non-unit entries ignored the scaling of x'),
('C17','4c8520a','sparse block products used aligned accesses with unaligned leading dimensions'),
('C17','8995d74','COO sparse vector product overflowed and left rows unreduced'),
('C17','050e364','COO sparse block product was not implemented for moduli without delayed reduction'),
('C17','7f79371','CSR_HYB stored the columns before sorting the entries'),
('C17','74af9e5','CSR_HYB vector product was not implemented for moduli without delayed reduction'),
('C17','5cf9719','CSR_HYB block product was not implemented for moduli without delayed reduction'),
('C17','690bb9c','generic CSR_ZO vector product added unreduced partial sums'),
('C17','0be2a04','sparse_delete of HYB_ZO leaked its parts'),
('C17','71914c7','sparse_delete of CSR leaked the row ends'),
('C17','4d0fcc4','HYB_ZO always delayed the reductions whatever the row length and modulus'),
('C17','636d314','building a sparse matrix without rows or without entries read out of the arrays'),
('C17','a2f9bc3','CSR_HYB block product read the vectors from y and the wrong coefficients'),
('C17','9889f22','ELL block products mixed up the leading dimensions of x and y'),
('C17','48db3ae','parallel block product by minus a 0-1 CSR matrix added the remaining columns'),
('C17','060b67a','sparse products overflowed when one product already exceeds the accumulation bound'),
('C17','c2767ff','block product by a 0-1 sparse matrix scaled by -1 used -1 as if it were a reduced scalar'),
('C17','1574255','products by long rows of 0-1 sparse matrices summed the row without any reduction'),
('C17','1435e20','CSR_HYB initialization of a matrix without rows wrote out of bounds'),
('C18','c0aa4c0','characteristic polynomial checker read an entry of the empty matrix and rejected its polynomial'),
('C20','5d87e01','binary WriteMatrix ignored the leading dimension and the column major layout'),
('C20','d9f95c1','reading a matrix from a stream rewound it to its beginning, or closed it'),
('C20','28c1de4','reading SMS files wrote out of the matrix on a zero column index and looped forever on truncated files'),
('C20','9497769','WriteMatrix kept only six digits of floating point represented elements'),
('C19','25ea69b','the C interface declared functions that its implementation did not define'),
('C19','f6e7c7f','the parallel echelon forms of the C interface were not declared and mixed up transform with the number of threads'),
('C19','1c6c44e','including the library in two files of a program gave duplicate definitions'),
('C23','b84aa90','NonZeroRandomMatrix without a generator could not be called'),
('C23','000d9d6','RandomTriangularMatrix wrote outside lower triangular matrices with more rows than columns'),
('C23','acbf69f','RandomMatrixWithRank ignored the requested rank'),
('C23','4906a44','RandomSymmetricMatrix was not symmetric when a diagonal element of its factor was zero'),
('C23','bb900bc','RandomSymmetricRankProfileMatrix could loop forever on the last pivot'),
('C23','2019531','RandomLTQSRankProfileMatrix missed the requested order after undoing a move'),
('C21','7956fd1','Bruhat generators mixed up the leading dimensions of their matrices'),
('C21','86c6e52','productSSSxTS read out of its generators when the matrix has a single partial block'),
('C21','c58c0a0','the Bruhat generator routines leaked their temporary arrays'),
('C15','0aaff5f','variables declared inside SYNCH_GROUP (OpenMP) went out of scope before the taskwait, so tasks of the parallel hybrid ftrsm used a dead helper object (ASan stack-use-after-scope)'),
('C03','289f8e1','fgemv over ZRing<int64_t> in builds without SSE4.1 computed beta*Y^2 instead of beta*Y'),
('C03','0673d40','generic fgemv divided beta by alpha in a ring: wrong over ZRing<int32_t> when alpha does not divide beta'),
("C13","57b5aec","parallel fgemm with the ThreeDAdaptive strategy swapped m and n when adding the two halves of a product split along k: wrong result and out of bounds accesses for m != n"),
("C13","59be1f0","the block tasks of parallel fgemm shared one helper, which each of them updates: a data race on its bounds and recursion level"),
("C11","7eb1c2d","CharPoly with FfpackKG left its transformation matrix uninitialised: wrong for every n>=2"),
("C11","712074d","Keller-Gehrig's fast product (KGFast, Hybrid) had the sign of a bound wrong and wrote past its vector (also C15)"),
    ("C24","e4ef712","fgemm, fgemv and fsyrk with beta=0 sized all their blocks for an empty accumulator: later blocks, which accumulate, could exceed the exact range"),
    ("C05","247a413","fsytrf_RPM scaled the rows beyond the rank by uninitialised values"),
    ("C11","2de4477","CharPoly with FfpackHybrid returned X^n for matrices whose only nonzero entry (after elimination) is the last one, and ignored the leading dimension in its test for zero"),
    ("C15","4c90b37","CharPoly with the Keller-Gehrig algorithms (KG, KGFast, KGFastG, Hybrid) leaked its result"),
("C25","2da70ab","list options of the command line were read in reverse order"),
("C25","31437c5","unsigned 64-bit options above 2^63-1 were saturated, so that a written command string did not parse back"),
("C25","a4927f8","in_range accepted any non-negative signed value for an unsigned type"),
("C25","6234897","allocating with no alignment requirement returned a null pointer"),
]
OPEN=json.load(open(here+"/tools/open_findings.json"))
fs=[dict(o,status="open") for o in OPEN]
for i,(p,c,w) in enumerate(FIXED): fs.append(dict(id="F%02d"%(i+1),property=p,status="fixed",commit=c,what="fixed: property=%s %s %s"%(p,c,w)))
json.dump(dict(findings=fs),open(here+"/known_findings.json","w"),indent=1); print(len(OPEN),"open",len(FIXED),"fixed")
