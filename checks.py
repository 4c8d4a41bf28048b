import os
"""Per-property specifications: what is built from /repo, which workloads run, what is monitored."""
HANG_LIMIT=120   # seconds granted to a single case run alone before it is called a hang
STALL_LIMIT=60   # seconds without progress after which a case is run again alone
Build=Run=None; REPO=HERE=None
SPECS={}
TINY=["-D__FFLASFFPACK_WINOTHRESHOLD=6","-D__FFLASFFPACK_WINOTHRESHOLD_FLT=7","-D__FFLASFFPACK_WINOTHRESHOLD_BAL=6","-D__FFLASFFPACK_WINOTHRESHOLD_BAL_FLT=7","-D__FFLASFFPACK_PLUQ_THRESHOLD=6","-D__FFLASFFPACK_LUDIVINE_THRESHOLD=1",
      "-D__FFLASFFPACK_CHARPOLY_LUKrylov_ArithProg_THRESHOLD=12","-D__FFLASFFPACK_CHARPOLY_Danilevskii_LUKrylov_THRESHOLD=5","-D__FFLASFFPACK_ARITHPROG_THRESHOLD=6","-D__FFLASFFPACK_FTRTRI_THRESHOLD=5","-D__FFLASFFPACK_FSYTRF_THRESHOLD=6","-D__FFLASFFPACK_FSYRK_THRESHOLD=7","-D__FFLASFFPACK_GAUSSJORDAN_BASECASE=5",
      "-DFFLASFFPACK_VERIF","-DFFLASFFPACK_VERIF_SEQPARTHRESHOLD=5","-DFFLASFFPACK_VERIF_PTRSM_THRESHOLD=6"]
O2=["-O2","-march=haswell"]; O1=["-O1","-march=haswell"]
def prop(pid):
    def d(f): SPECS[pid]=f; return f
    return d
def mk(src,fields,tag,defs=(),cflags=None,**k):
    base=src.split(".")[0]
    return [Build("%s_%s_%s"%(base,tag,f),src,["-DFIELD_ID=%d"%f,'-DVTAG="%s"'%tag]+list(defs),cflags or O2,**k) for f in fields]
def runs(builds,shards=1,scale=100,**k): return [Run(b.name,shards,scale,**k) for b in builds]
COMMON=["field arithmetic of Givaro (init/convert of multiprecision elements) and GMP are trusted","results compared with an independent oracle on the executions produced; nothing is claimed about inputs not generated"]
W8=[1,2,3,4,5,6,7,8]
def cpu_has(*fl):
    try: t=open("/proc/cpuinfo").read().split("flags",1)[1].split("\n",1)[0].split()
    except Exception: return False
    return all(f in t for f in fl)
AVX512=["avx512f","avx512dq","avx512bw","avx512vl","avx512cd"]
def marches(o="-O1",all3=True):
    r=[("sse41",[o,"-march=nehalem"]),("avx",[o,"-march=sandybridge"]),("nosimd",[o,"-march=x86-64"])]
    if cpu_has(*AVX512): r.append(("avx512",[o,"-march=skylake-avx512"]))
    return r

@prop("C01")
def c01(tier):
    b=mk("c01_fgemm.C",W8+[21,22,24],"std")
    t=mk("c01_fgemm.C",[1,2,3,4,7,8],"tiny",TINY,O1)
    return dict(builds=b+t,runs=runs(b,2,500)+runs(t,2,600),min_evals=5000,assumptions=COMMON,
      rule="random field/modulus (half of them at or near the advertised limit), dims 0..400 biased to SIMD/recursion boundaries, strides, transposes, alpha/beta in {0,1,-1,random}, Winograd depth -1..log2(min dim), extreme/sparse/uniform values; a case is non-trivial when C has at least one entry; distinct = distinct parameter tuples")

@prop("C02")
def c02(tier):
    b=mk("c02_level1.C",W8+[9,10,11,12,13,14,21,22,23,24,31],"std")
    r=runs(b)
    for tag,fl in marches():
        x=mk("c02_level1.C",[f for f in W8 if tag!="avx512" or f not in(5,7)] if tier=="thorough" else {"sse41":[1,2,3,4,8],"avx":[1,5,7],"nosimd":[1,2,7],"avx512":[1,2,3,4,6,8]}[tag],tag,(),fl); b=b+x; r+=runs(x,1,50)
    return dict(builds=b,runs=r,min_evals=50000,assumptions=COMMON,
      rule="each kernel in vector and matrix form over every field type, on SSE4.1/AVX/AVX2/AVX-512 and scalar builds; lengths 0..300 around vector widths, strides 1..9, leading dimensions, random misalignment, alpha/beta in {0,1,-1,random}, unreduced integers over the whole exactly representable range for reductions; non-trivial: at least one element")

@prop("C03")
def c03(tier):
    b=mk("c03_level2.C",W8+[21,22,23,24,9,13],"std")
    r=runs([x for x in b if x.name[-2:] not in("_9","13")],1,300)+runs([x for x in b if x.name[-2:] in("_9","13")],1,40)
    for tag,fl in marches():
        x=mk("c03_level2.C",[f for f in W8 if tag!="avx512" or f not in(5,7)] if tier=="thorough" else {"sse41":[2,4],"avx":[3],"nosimd":[1,5,24],"avx512":[1,2]}[tag],tag,(),fl); b=b+x; r+=runs(x,1,100)
    return dict(builds=b,runs=r,min_evals=10000,assumptions=COMMON,
      rule="fgemv/fger/ftrsv over every word-size field, machine-word rings and two multiprecision fields; moduli at the advertised limits half of the time; dims 0..300, vector increments, leading dimensions, transposes, triangles, unit/non-unit; the unused triangle and the implicit unit diagonal hold junk; distinct = distinct parameter tuples, non-trivial = non-empty result")

@prop("C04")
def c04(tier):
    b=mk("c04_tri.C",W8+[9,13],"std"); t=mk("c04_tri.C",[1,2,3,4,6,7],"tiny",TINY,O1)
    r=runs([x for x in b if x.name[-2:] not in("_9","13")],1,600)+runs([x for x in b if x.name[-2:] in("_9","13")],1,50)+runs(t,1,600)
    return dict(builds=b+t,runs=r,min_evals=20000,assumptions=COMMON,
      rule="ftrsm, ftrmm (in place and out of place), ftrtri, ftrtrm, ftrstr, ftrssyr2k over every word-size field and two multiprecision fields, with library recursion thresholds and with thresholds lowered so every recursive branch runs; the unused triangle/implicit diagonal hold junk; solutions are verified by multiplying back with the oracle; distinct = distinct parameter tuples")

@prop("C05")
def c05(tier):
    b=mk("c05_sym.C",W8+[9],"std"); t=mk("c05_sym.C",[1,2,3,4,6,8],"tiny",TINY,O1)
    return dict(builds=b+t,runs=runs(b,1,200)+runs(t,1,150),min_evals=15000,assumptions=COMMON,
      rule="fsyrk (classical, Strassen with 0..3 levels, diagonal and block-diagonal scaling), fsyr2k, fsytrf, fsytrf_nonunit, fsytrf_RPM over every word-size field and Modular<Integer>; factors are multiplied back, the verdict is compared with elimination without pivoting, the pivots with the rank profile matrix; symmetric inputs of generic, low, zero-diagonal and permuted-block structure; distinct = distinct parameter tuples")

@prop("C06")
def c06(tier):
    b=mk("c06_lu.C",W8+[9,12],"std"); t=mk("c06_lu.C",[1,2,3,4,6,7],"tiny",TINY,O1)
    return dict(builds=b+t,runs=runs(b[:8],2,400)+runs(b[8:],1,60)+runs(t,2,400),min_evals=20000,assumptions=COMMON,
      rule="PLUQ (default and explicit base-case thresholds), LUdivine (both orientations, cutoffs), LUdivine_small, getTriangular over every word-size field and two multiprecision fields; matrices of every rank and of hostile structure (permuted, sparse, duplicated rows/columns, zero blocks, prescribed rank profile matrices); factors are multiplied back by the oracle and pivots compared with the rank profile matrix found by an independent elimination; distinct = distinct parameter tuples")

@prop("C07")
def c07(tier):
    b=mk("c07_echelon.C",W8+[9,12],"std"); t=mk("c07_echelon.C",[1,2,3,4,6,7],"tiny",TINY,O1)
    return dict(builds=b+t,runs=runs(b[:8],1,250)+runs(b[8:],1,50)+runs(t,1,350),min_evals=20000,assumptions=COMMON,
      rule="row/column, plain/reduced, with/without transformation, every algorithm tag (slab, tile, Gauss-Jordan slab/tile where offered), accessors in out-of-place, non-zero-only and in-place forms; echelon shape and pivots, the reduced form and T*A (or A*T) compared with an independent elimination, transformation rank checked; distinct = distinct parameter tuples")

@prop("C08")
def c08(tier):
    b=mk("c08_rankprofile.C",W8+[9,12],"std"); t=mk("c08_rankprofile.C",[1,2,3,4,6,7],"tiny",TINY,O1)
    return dict(builds=b+t,runs=runs(b[:8],1,200)+runs(b[8:],1,30)+runs(t,1,200),min_evals=20000,assumptions=COMMON,
      rule="row/column rank profiles (all entry points), rank profile submatrices and their index sets, leading submatrix profiles, full rank minors, on matrices of every rank and hostile structure (permuted, sparse, duplicated, zero blocks, prescribed rank profile matrices); compared with the lexicographically first independent rows/columns found by an independent elimination; distinct = distinct parameter tuples")

@prop("C09")
def c09(tier):
    b=mk("c09_rankdet.C",W8+[9,12],"std"); t=mk("c09_rankdet.C",[1,2,3,4,6,7],"tiny",TINY,O1)
    return dict(builds=b+t,runs=runs(b[:8],1,500)+runs(b[8:],1,60)+runs(t,1,500),min_evals=20000,assumptions=COMMON,
      rule="Rank, IsSingular, Det (with and without supplied permutations), Invert in and out of place, Invert2 on matrices of every rank and hostile structure; compared with an independent elimination, inverses multiplied back by the oracle; distinct = distinct parameter tuples")

@prop("C10")
def c10(tier):
    b=mk("c10_solve.C",W8+[9,12],"std"); t=mk("c10_solve.C",[1,2,3,4,6,7],"tiny",TINY,O1)
    return dict(builds=b+t,runs=runs(b[:8],1,500)+runs(b[8:],1,60)+runs(t,1,500),min_evals=20000,assumptions=COMMON,
      rule="Solve, fgetrs/fgesv (both sides, in place and rectangular, consistent and inconsistent right-hand sides), LU-based block solves, NullSpaceBasis, RandomNullSpaceVector with increments; solutions multiplied back by the oracle, consistency verdicts and nullities compared with an independent elimination; distinct = distinct parameter tuples")

@prop("C11")
def c11(tier):
    b=mk("c11_charpoly.C",W8+[9,12],"std",["-DVH_KGKNOWN"]); t=mk("c11_charpoly.C",[1,2,4,6],"tiny",TINY,O1)
    return dict(builds=b+t,runs=runs(b[:8],2,800)+runs(b[8:],1,150)+runs(t,2,800),min_evals=10000,assumptions=COMMON,
      rule="CharPoly as a factor list and as one polynomial with each supported algorithm tag (Auto, Danilevski, LUK, ArithProgKrylovPrecond, Hybrid) and several block degrees, with ArithProg, KG, KGFast and KGFastG on random matrices over large fields, MinPoly, MatVecMinPoly, over every word-size field and two multiprecision ones; companion, block companion with repeated blocks, Jordan, scalar, triangular, few-eigenvalue and hostile matrices, half of them conjugated by a random matrix; oracle: Hessenberg characteristic polynomial, Krylov minimal polynomials; the clock seeding default random iterators is replaced by a deterministic one; distinct = distinct parameter tuples")

@prop("C12")
def c12(tier):
    b=mk("c12_perm.C",W8+[9,12],"std",cflags=O1)
    return dict(builds=b,runs=runs(b[:8],1,400)+runs(b[8:],1,40),min_evals=20000,assumptions=COMMON,
      rule="applyP on both sides, both orientations, full and partial ranges, sequential and parallel with four cutting strategies and 1..40 workers; MonotonicApplyP; LAPACK/image conversions both ways; the three compositions; cyclic shifts; S/T block permutations of matrices and arrays; compared with the image-form permutation computed by the harness, all cells outside the target compared bit for bit; non-trivial = non-empty permutation and vectors; distinct = distinct parameter tuples including the permutation")

@prop("C14")
def c14(tier):
    b=[Build("c14_omp","c14_split.C",["-DFIELD_ID=1",'-DVTAG="omp"'],O1),Build("c14_seq","c14_split.C",["-DFIELD_ID=1",'-DVTAG="seq"',"-D__FFLASFFPACK_FORCE_SEQ"],O1)]
    return dict(builds=b,runs=runs(b,2,100),min_evals=20000,assumptions=["OpenMP runtime libgomp is trusted"],
      rule="ForStrategy1D (four index types, six strategies, ranges from 0 and from an offset) and ForStrategy2D (ten strategies) with sizes 0..100000 and 1..2000 workers or grains, every size below 70 with every worker count below 70; each index is marked when a block enumerates it; FORBLOCK1D/FOR1D/PARFOR1D/FORBLOCK2D/FOR2D loops count the executions of each iteration with atomics, in the OpenMP and the sequential flavour; distinct = distinct (strategy, range, workers), non-trivial = non-empty range")

@prop("C13")
def c13(tier):
    th=tier=="thorough"
    t=mk("c13_par.C",W8 if th else [1,4,6,7],"shim",TINY+["-DVH_SHIM"],O1,extra=["naiveblas.C"],libs=["-lgivaro","-lgmpxx","-lgmp"],shim=True)
    b=mk("c13_par.C",W8 if th else [1,2,3,5,6,8],"omp",cflags=O1); u=mk("c13_par.C",[1,2,6],"omptiny",TINY,O1)
    return dict(builds=t+b+u,runs=runs(t,2,600)+runs(b+u,1,150,env={"OMP_NUM_THREADS":"4"}),min_evals=30000,assumptions=COMMON+["the schedule controller implements the OpenMP task, taskgroup, taskwait, parallel, single, loop, critical and depend constructs as specified; libgomp is used in the second half of the runs"],
      rule="parallel fgemm (every cutting strategy and parameter), fgemv, ftrsm (iterative, recursive, hybrid), fdot, fsyrk, fsytrf, permutations, level-1 and random fill, PLUQ, Rank, Det, Solve, echelon forms, rank profiles with 1..30 workers; half of the runs on a deterministic scheduler replacing the OpenMP runtime which runs tasks as fibers in a seeded order (eager, deferred, random, adversarial policies, preemption at memory accesses) and checks every instrumented memory access against the happens-before order of the task graph, the other half on libgomp; results compared with sequential oracles; distinct = distinct parameter tuples including the schedule")

SAN=["-O1","-march=haswell","-fsanitize=address,undefined,float-cast-overflow","-fsanitize-recover=undefined,float-cast-overflow","-fno-sanitize=vptr","-DVH_UBSAN","-fno-omit-frame-pointer"]
SANENV={"ASAN_OPTIONS":"detect_leaks=1:exitcode=23:allocator_may_return_null=1:detect_stack_use_after_return=0","LSAN_OPTIONS":"exitcode=0:print_suppressions=0","UBSAN_OPTIONS":"print_stacktrace=0:silence_unsigned_overflow=1","MALLOC_PERTURB_":"0","OMP_NUM_THREADS":"1"}
SANLIBS=["-lgivaro","-lgmpxx","-lgmp"]
def memkind(v): return v["kind"].startswith(("sanitizer","crash","frame","const-operand"))
@prop("C15")
def c15(tier):
    th=tier=="thorough"
    plan=[("c01_fgemm.C",[1,2,7,8] if not th else W8+[21,22,24],150),("c02_level1.C",[1,2,5,12,31] if not th else W8+[9,10,11,12,13,14,31],30),("c03_level2.C",[1,4,6] if not th else W8+[9,13],60),
      ("c04_tri.C",[2,3,9] if not th else W8+[9,13],100),("c05_sym.C",[1,2] if not th else W8+[9],50),("c06_lu.C",[1,9] if not th else W8+[9,12],60),("c07_echelon.C",[2] if not th else W8+[9],40),
      ("c08_rankprofile.C",[1] if not th else W8+[9],40),("c09_rankdet.C",[3] if not th else W8+[9],50),("c10_solve.C",[1] if not th else W8+[9],40),("c11_charpoly.C",[2] if not th else W8+[9],40),("c12_perm.C",[1] if not th else [1,5,9],40)]
    b=[];r=[];alt=0
    for src,fs,sc in plan:
        for f in fs:
            alt+=1; D=["-DVH_MAXDIM=40","-DVH_CAPDIM=60"]
            x=[]
            if th or alt%2: x+=mk(src,[f],"asan",TINY+D,SAN,extra=["naiveblas.C"],libs=SANLIBS)
            if th or not alt%2: x+=mk(src,[f],"asandef",D,SAN,extra=["naiveblas.C"],libs=SANLIBS)
            b+=x; r+=runs(x,1,sc*4 if f<9 else max(8,sc//4),env=SANENV)
    NL=dict(SANENV,ASAN_OPTIONS=SANENV["ASAN_OPTIONS"].replace("detect_leaks=1","detect_leaks=0"))
    for src,fs,sc,ev in [("c13_par.C",[1,6] if not th else [1,2,3,6,7],25,dict(NL,OMP_NUM_THREADS="3")),("c16_rns.C",[10],40,SANENV),("c18_check.C",[2] if not th else W8,30,SANENV),("c20_io.C",[3] if not th else W8+[9],60,NL),("c21_qs.C",[4] if not th else W8+[9],60,SANENV),("c23_random.C",[8] if not th else W8+[9],60,SANENV)]:
        x=mk(src,fs,"asan",TINY+["-DVH_MAXDIM=40","-DVH_CAPDIM=60"],SAN,extra=["naiveblas.C"],libs=SANLIBS); b+=x; r+=runs(x,1,sc,env=ev)
    x=[Build("c17_%s_%d_asan"%(f,i),"c17_sparse.C",["-DSPF=%s"%f,"-DSPOP=3","-DFIELD_ID=%d"%i,'-DVTAG="asan"'],SAN,extra=["naiveblas.C"],libs=SANLIBS) for f,i in ([(f,i) for f in("CSR","CSR_ZO","COO","COO_ZO","ELL","ELL_ZO","CSR_HYB","HYB_ZO") for i in(1,2,5)] if th else [("CSR",2),("COO_ZO",1),("ELL",1),("HYB_ZO",3)])]; b+=x; r+=runs(x,1,40,env=SANENV)
    return dict(builds=b,runs=r,min_evals=5000,assumptions=COMMON,filter=memkind,rule="the workloads of the kernel, factorization, solver, polynomial, permutation, parallel, residue number system, sparse, verifier, input/output, quasiseparable and random generator checks rebuilt with AddressSanitizer, UndefinedBehaviorSanitizer and leak detection (every internal recursion threshold lowered so that small inputs reach the deep code paths; BLAS replaced by a memory-checked reference implementation); monitors: sanitizer reports located in the library, red zones, guard cells around and inside every operand, bit comparison of constant operands, crashes; distinct = distinct parameter tuples")

@prop("C25")
def c25(tier):
    b=[Build("c25_std","c25_util.C",["-DFIELD_ID=1",'-DVTAG="std"'],O1)]; r=runs(b,4,400)
    x=[Build("c25_asan","c25_util.C",["-DFIELD_ID=1",'-DVTAG="asan"'],SAN,extra=["naiveblas.C"],libs=SANLIBS)]; b+=x; r+=runs(x,4,200,env=SANENV)
    return dict(builds=b,runs=r,min_evals=20000,assumptions=COMMON+["counts of leading and trailing zeros are claimed for non-zero words; list options hold non-negative integers; range tests are claimed for integer values"],
      rule="families of live buffers of ten element types obtained from fflas_new with every alignment, filled, checked for alignment and disjointness and released one, two or three at a time, and vectors, lists and maps on the aligned allocator driven with random operations against std::vector, on the plain allocator and under AddressSanitizer with leak detection; command lines built from random values of every option type in random order with any subset omitted, parsed by the library and compared, the command string written back and parsed again; word arithmetic and range tests on random and extreme words against 128-bit arithmetic; fields chosen for random moduli and bit sizes; distinct = distinct allocation families, command lines and operands")

@prop("C23")
def c23(tier):
    th=tier=="thorough"; b=mk("c23_random.C",W8+[9,12],"std",(),O1); r=runs(b,1,150)
    x=mk("c23_random.C",[1,3,6,7] if th else [1,6],"asan",(),SAN,extra=["naiveblas.C"],libs=SANLIBS); b+=x; r+=runs(x,1,80,env=SANENV)
    return dict(builds=b,runs=r,min_evals=15000,assumptions=COMMON+["equal generator states: for word-size fields the state is (rand() seed, field iterator seed); multiprecision iterators share a global generator and are not replayed","RandomMatrixWithDet is claimed for n>=1, RandomLTQS* for 1<=t<=r and r+t<=n"],
      rule="every random generator over every field, moduli from 2 up, shapes 0..50 (90) including empty, wide and tall, padded leading dimension, all ranks, all orders, random generator states; rank, rank profile matrix, determinant, symmetry, triangular shape, diagonal, quasiseparability order and index well-formedness recomputed independently; padding and surroundings untouched; two runs from the same state equal; outcome counts of the index generators within 9 standard deviations of uniform, every symmetric placement and every element of a small field reachable; distinct = distinct parameter tuples")

@prop("C24")
def c24(tier):
    th=tier=="thorough"; X=["-DNB_EXACT","-DVH_DELAYP","-DVH_CAPDIM=100"]; b=[];r=[]
    plan=[("c01_fgemm.C",[1,4],W8[:4],800),("c03_level2.C",[2,3],[1,4],300),("c04_tri.C",[1,4],[2,3],300),("c05_sym.C",[1],[4],200),("c06_lu.C",[1],[2,3],200),("c10_solve.C",[],[2],200),("c11_charpoly.C",[],[1],100),("c24_lazy.C",[1,2,3,4],[],300)]
    for src,fs,ft,sc in plan:
        if th: fs=ft=[1,2,3,4]
        x=mk(src,fs,"exact",X,O1,extra=["naiveblas.C"],libs=SANLIBS); y=mk(src,ft,"exacttiny",X+TINY,O1,extra=["naiveblas.C"],libs=SANLIBS); b+=x+y; r+=runs(x+y,1,sc,env={"OMP_NUM_THREADS":"1"})
    UB=["-O1","-march=x86-64","-fsanitize=signed-integer-overflow,shift,float-cast-overflow,integer-divide-by-zero","-fsanitize-recover=all","-DVH_UBSAN"]
    for src,fs,sc in [("c01_fgemm.C",[5,6,7,8],400),("c02_level1.C",[5,8],30),("c03_level2.C",[6,7],30),("c04_tri.C",[8],60),("c05_sym.C",[6],40),("c06_lu.C",[7],40),("c24_lazy.C",[5,6,8],200)]:
        x=mk(src,[5,6,7,8] if th else fs,"ub",["-DVH_DELAYP","-DVH_CAPDIM=100"]+TINY,UB,extra=["naiveblas.C"],libs=SANLIBS); b+=x; r+=runs(x,1,sc,env={"OMP_NUM_THREADS":"1","UBSAN_OPTIONS":"print_stacktrace=0"})
    return dict(builds=b,runs=r,min_evals=20000,assumptions=COMMON,filter=lambda v:v["kind"].startswith(("inexact","sanitizer","wrong-result","non-canonical","noncanonical")),
      rule="products, matrix-vector and rank-one kernels, triangular, symmetric, factorization, solving and characteristic polynomial workloads, and fgemm/fgemv/fsyrk on unreduced operands with declared bounds (the result must be congruent, exact and inside the bounds reported back), over moduli chosen so that only 1..80 products fit the exact range or at the advertised maximum, extreme operand values; floating point: every BLAS call goes to a reference BLAS which bounds each accumulation (sum of positive and of negative terms separately, so for every summation order) against 2^53 or 2^24 and requires integer results; integer fields: compiled without SIMD under signed-overflow/shift/cast instrumentation; results compared with the oracle; distinct = distinct parameter tuples")

MP=[9,10,11,12,13,14]
@prop("C16")
def c16(tier):
    th=tier=="thorough"; E={"OMP_NUM_THREADS":"2"}
    b=[Build("c16_rns_std","c16_rns.C",["-DFIELD_ID=10",'-DVTAG="std"'],O1)]
    for tag,fl in marches():
        if th or tag in("nosimd","avx512"): b.append(Build("c16_rns_"+tag,"c16_rns.C",["-DFIELD_ID=10",'-DVTAG="%s"'%tag],fl))
    r=runs(b,2,200,env=E)
    for src,fs,sc in [("c01_fgemm.C",MP,150),("c02_level1.C",[9,10,12],30),("c03_level2.C",MP,200),("c04_tri.C",[9,11,12,13],60),("c05_sym.C",[9],100),("c06_lu.C",[9,12],120),("c07_echelon.C",[9,12],60),("c09_rankdet.C",[9,11],60),("c10_solve.C",[9,12],100),("c11_charpoly.C",[9,12],100)]:
        x=mk(src,fs,"mp",(),O1); b+=x; r+=runs(x,1,sc,env={"OMP_NUM_THREADS":"1"})
    return dict(builds=b,runs=r,min_evals=20000,assumptions=COMMON,
      rule="residue number systems: bases for bounds of 1..300 bits and prime sizes 14..49 (primality, distinctness, product), splitting and recombination of integers at the limits of the range, both layouts, transposed, scaled accumulation, fixed-width integers, reduction modulo p inside the base, products over RNSInteger (sequential, per modulus, recursive parallel) and Z; integer determinant and characteristic polynomial against fraction-free elimination and Faddeev-LeVerrier; the kernel, factorization, solving and polynomial workloads over Modular<Integer>, ZRing<Integer>, Modular<ruint>, Modular<rint>; SSE-less and AVX-512 builds; distinct = distinct parameter tuples")

@prop("C17")
def c17(tier):
    th=tier=="thorough"; b=[]; r=[]; E={"OMP_NUM_THREADS":"2"}
    ALL=["CSR","CSR_ZO","COO","COO_ZO","ELL","ELL_ZO","CSR_HYB","HYB_ZO"]
    fl={"CSR":[1,2,5,8,9,10],"CSR_ZO":[1,2,7],"COO":[3,4,6],"COO_ZO":[2,3],"ELL":[1,4,5],"ELL_ZO":[2,6],"CSR_HYB":[1,2,8],"HYB_ZO":[1,2,5,7]}
    for f in ALL:
        for i in ([1,2,3,4,5,6,7,8,9,10,12,21,23,24] if th else fl[f]):
            b.append(Build("c17_%s_%d"%(f,i),"c17_sparse.C",["-DSPF=%s"%f,"-DSPOP=%d"%(11 if f in("CSR","CSR_ZO","HYB_ZO") and i<9 else 3),"-DFIELD_ID=%d"%i,'-DVTAG=""'],O1))
    r=runs(b,1,150,env=E); x=[]
    for tag,fg in marches():
        if th or tag in("nosimd","avx512"):
            for f,i in [("CSR",1),("ELL",2),("CSR_ZO",2)]: x.append(Build("c17_%s_%d_%s"%(f,i,tag),"c17_sparse.C",["-DSPF=%s"%f,"-DSPOP=%d"%(1 if (f,tag)==("CSR_ZO","nosimd") else 3),"-DFIELD_ID=%d"%i,'-DVTAG="%s"'%tag],fg))
    b+=x; r+=runs(x,1,100,env=E)
    x=[Build("c17_%s_%d_asan"%(f,i),"c17_sparse.C",["-DSPF=%s"%f,"-DSPOP=3","-DFIELD_ID=%d"%i,'-DVTAG="asan"'],SAN,extra=["naiveblas.C"],libs=SANLIBS) for f,i in ([(f,i) for f in ALL for i in(1,2,5)] if th else [("CSR",1),("COO",3),("ELL",5),("CSR_HYB",1),("HYB_ZO",2)])]
    b+=x; r+=runs(x,1,40,env=dict(SANENV,OMP_NUM_THREADS="1"))
    return dict(builds=b,runs=r,min_evals=10000,assumptions=COMMON+["coordinates are given sorted by row, without duplicates; y is addressed through the permutation CSR_HYB exposes"],
      rule="each sparse format (CSR, COO, ELL, their 0-1 variants with constants 1, -1 and arbitrary, CSR_HYB, HYB_ZO) x fields: pattern families (dense, sparse, empty rows, full rows, diagonal and first column, trailing empty rows, mixtures of dense and sparse rows), shapes from empty to rows of thousands of entries, values 1/-1/extreme/random, beta classes, block widths with padded leading dimensions, two successive products of the same matrix; sequential vector and block products everywhere and parallel block products where they exist; result, frame of y, x, coordinates and values compared; SIMD-less and AVX-512 builds; AddressSanitizer with leak detection; distinct = distinct parameter tuples")

@prop("C18")
def c18(tier):
    th=tier=="thorough"; b=mk("c18_check.C",W8+[9,12],"std",(),O1); r=runs(b[:8],1,500)+runs(b[8:],1,100)
    for tag,fl in marches():
        if th or tag=="nosimd": x=mk("c18_check.C",[1,6],tag,(),fl); b+=x; r+=runs(x,1,150)
    x=mk("c18_check.C",W8 if th else [1,5],"asan",(),SAN,extra=["naiveblas.C"],libs=SANLIBS); b+=x; r+=runs(x,1,60,env=SANENV)
    # the verifiers as the library itself calls them: the ordinary workloads, where a rejection would be an uncaught exception
    for src,fs,sc in [("c01_fgemm.C",W8 if th else [1,4,6],60),("c04_tri.C",W8 if th else [2,8],40),("c06_lu.C",W8 if th else [1,5],50),("c10_solve.C",W8 if th else [3],50),("c11_charpoly.C",W8 if th else [1,7],40)]:
        x=mk(src,fs,"checked",["-DENABLE_ALL_CHECKINGS=1"],O1); b+=x; r+=runs(x,1,sc,env={"OMP_NUM_THREADS":"1"})
    return dict(builds=b,runs=r,min_evals=20000,assumptions=COMMON+["random iterators of successive verifications are independent (not so over Modular<Integer>, whose products reseed the global generator with the time of day: only large moduli there)","a wrong result is one accepted by all of so many verifications that an honest verifier would miss it with probability below 2^-50"],
      rule="each verifier (fgemm, ftrsm, PLUQ, invert, Det, charpoly, Freivalds) on correct results computed or confirmed by the oracle (must accept, three random states each) and on wrong ones (single entry, two cancelling entries in a row or column, last entry, dense error, wrong pivot order, wrong rank, wrong determinant, wrong coefficient), repeated until an honest verifier would have missed with probability 2^-50; operands, permutations and surrounding memory unchanged; both constructors; fields from p=2 to the largest moduli; and the ordinary product, triangular, factorization, solving and polynomial workloads with all verifiers compiled into the library; distinct = distinct parameter tuples")

@prop("C19")
def c19(tier):
    th=tier=="thorough"; L=lambda *n:[os.path.join(REPO,"fflas-ffpack","interfaces","libs",x) for x in n]
    inst=L("fflas_L1_inst.C","fflas_L2_inst.C","fflas_L3_inst.C","ffpack_inst.C"); cw=L("fflas_lvl1.C","fflas_lvl2.C","fflas_lvl3.C","ffpack.C"); CO=["-DFFLAS_COMPILED=1","-DFFPACK_COMPILED=1"]
    b=mk("c19_cif.C",[0],"std",(),O1,extra=cw+inst); r=runs(b,8,300)
    # the precompiled instantiations under the ordinary oracles
    for src,fs,sc in [("c01_fgemm.C",[1,3,4,8] if th else [3],150),("c02_level1.C",[1,2,6,8] if th else [8],60),("c06_lu.C",[1,2,3,6] if th else [1],100),("c04_tri.C",[1,4,6] if th else [],100)]:
        for f in fs: x=mk(src,[f],"precompiled",CO,O1,extra=inst); b+=x; r+=runs(x,2,sc)
    return dict(builds=b,runs=r,min_evals=20000,assumptions=COMMON+["LUdivine_small, LUdivine_gauss, REF and ReducedRowEchelonForm2 are declared in ffpack_c.h but have no implementation: not claimed"],
      rule="each of the C functions with an implementation, called with random moduli, representation flag, dimensions 0..17, pairwise distinct leading dimensions and increments, every enumeration value, and inputs prepared by the factorization the function expects; every buffer, its padding and every returned value or array must equal what the template routine produces from the same inputs; the C01, C02, C04 and C06 workloads and oracles linked with the precompiled instantiations; distinct = distinct (function, parameters)")

@prop("C20")
def c20(tier):
    th=tier=="thorough"; b=mk("c20_io.C",W8+[9,10,12,21,22,23,24],"std",(),O1); r=runs(b,1,150)
    x=mk("c20_io.C",W8+[9,21] if th else [1,6,9],"asan",(),SAN,extra=["naiveblas.C"],libs=SANLIBS); b+=x; r+=runs(x,1,60,env=dict(SANENV,ASAN_OPTIONS=SANENV["ASAN_OPTIONS"].replace("detect_leaks=1","detect_leaks=0")))
    return dict(builds=b,runs=r,min_evals=15000,assumptions=COMMON+["files are written and read in a private scratch directory"],
      rule="matrices over every field (values 0, -1, extremes, random; empty, single row/column, padded leading dimension, row and column major) written through stream and file in dense, SMS and binary form and read back with the explicit or detected format, alone, after comments, and in sequences in one stream; Maple, SageMath and plain text and permutations parsed back by an independent parser; SMS text with indices outside the matrix or truncated must be refused; AddressSanitizer builds; distinct = distinct parameter tuples")

@prop("C21")
def c21(tier):
    th=tier=="thorough"; b=mk("c21_qs.C",W8+[9,12],"std",(),O1); r=runs(b,1,300)
    x=mk("c21_qs.C",[1,4,6] if th else [1,8],"tiny",TINY,O1); b+=x; r+=runs(x,1,200)
    x=mk("c21_qs.C",[1,3,6,7,9] if th else [1,6],"asan",(),SAN,extra=["naiveblas.C"],libs=SANLIBS); b+=x; r+=runs(x,1,100,env=SANENV)
    return dict(builds=b,runs=r,min_evals=25000,assumptions=COMMON+["matrices of order >= 1; compressed forms and products for at least one pivot (order 0 has no blocks)","sequentially semi-separable compression is claimed for matrices whose off-diagonal blocks at the block boundaries have rank at most the block size"],
      rule="left-triangular matrices of order 1..50 (100) with chosen pivots (few, many, on the anti-diagonal boundary), hostile and random content: pivots, rank and order against an independent elimination, Left(L R^T U) against the matrix, compression and expansion of both factors, product through the compressed form with every beta and width; random semi-separable generators with every block size (dividing, not dividing, equal to, larger than the order): expansion, product with alpha and beta, and compression judged by an independent expansion; meaningless parts of partial blocks filled with junk; padded leading dimensions, guards, const operands, AddressSanitizer and leak detection; distinct = distinct parameter tuples")

@prop("C22")
def c22(tier):
    th=tier=="thorough"; b=[]; r=[]
    for tag,fl in [("avx2o1",O1+["-fconcepts"]),("avx2o2",O2+["-fconcepts"])]+[(t,f+["-fconcepts"]) for t,f in marches() if t!="nosimd"]:
        b.append(Build("c22_simd_"+tag,"c22_simd.C",["-DFIELD_ID=1",'-DVTAG="%s"'%tag],fl))
    r=runs(b,2,400)
    s=Build("c22_simd_asan","c22_simd.C",["-DFIELD_ID=1",'-DVTAG="asan"'],SAN+["-fno-sanitize=signed-integer-overflow","-fconcepts"],libs=SANLIBS); r+=runs([s],1,40,env=SANENV); b.append(s)
    if cpu_has(*AVX512):
        s=Build("c22_simd_asan512","c22_simd.C",["-DFIELD_ID=1",'-DVTAG="asan512"'],[x if x!="-march=haswell" else "-march=skylake-avx512" for x in SAN]+["-fno-sanitize=signed-integer-overflow","-fconcepts"],libs=SANLIBS); r+=runs([s],1,40,env=SANENV); b.append(s)
    return dict(builds=b,runs=r,min_evals=200000,assumptions=["the scalar C++ operation is the reference; fused multiply-add may round once or twice","lane behaviour for selector or shift immediates outside the vector is not claimed"],
      rule="every operation of Simd128/256/512 over float, double and 16/32/64-bit signed and unsigned integers, at the SSE4.1, AVX, AVX2 and AVX-512 levels: operands mixing 0, -1, extremes, powers of two, half-word boundaries, half-integers and large magnitudes per lane; every shift count, blend and shuffle immediates (all for small widths, single bits/all/random otherwise), aliasing outputs, aligned/unaligned/streaming stores with guard bytes; reductions modulo p at the advertised limits; FieldSimd; a case is one operation on one operand tuple; distinct = distinct tuples")
