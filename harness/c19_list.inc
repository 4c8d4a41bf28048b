#define RRRR size_t r1=r.below(4),r2=r.below(4),r3=r.below(4),r4=r.below(4)
#define PT(t,x) t x[2]={0,0}
// ---- level 1
T(freducein_1, D X("X",SZ,rawel), CI::freducein_1_modular_double(P,N,X[0],ia,pos), FFLAS::freduce(F,N,X[1],ia))
T(freduce_1, D X("X",SZ,rawel);DB(Y), CI::freduce_1_modular_double(P,N,X[0],ia,Y[0],ib,pos), FFLAS::freduce(F,N,X[1],ia,Y[1],ib))
T(fnegin_1, DB(X), CI::fnegin_1_modular_double(P,N,X[0],ia,pos), FFLAS::fnegin(F,N,X[1],ia))
T(fneg_1, DB(X);DB(Y), CI::fneg_1_modular_double(P,N,X[0],ia,Y[0],ib,pos), FFLAS::fneg(F,N,X[1],ia,Y[1],ib))
T(fzero_1, DB(X), CI::fzero_1_modular_double(P,N,X[0],ia,pos), FFLAS::fzero(F,N,X[1],ia))
T(fiszero_1, DB(X);if(oz)for(size_t i=0;i<N;++i)X[0][i*ia]=X[1][i*ia]=0;if(oz&&tf&&N){size_t j=r.below(N)*ia;X[0][j]=X[1][j]=1;}, ret[0]=CI::fiszero_1_modular_double(P,N,X[0],ia,pos), ret[1]=FFLAS::fiszero(F,N,X[1],ia))
T(fequal_1, DB(X);DB(Y);for(size_t i=0;i<N;++i)Y[0][i*ib]=Y[1][i*ib]=X[0][i*ia];if(tf&&N){size_t j=r.below(N)*ib;Y[0][j]=Y[1][j]=el();}, ret[0]=CI::fequal_1_modular_double(P,N,X[0],ia,Y[0],ib,pos), ret[1]=FFLAS::fequal(F,N,X[1],ia,Y[1],ib))
T(fassign_1, DB(X);DB(Y), CI::fassign_1_modular_double(P,N,X[0],ia,Y[0],ib,pos), FFLAS::fassign(F,N,X[1],ia,Y[1],ib))
T(fscalin_1, DB(X), CI::fscalin_1_modular_double(P,N,al,X[0],ia,pos), FFLAS::fscalin(F,N,al,X[1],ia))
T(fscal_1, DB(X);DB(Y), CI::fscal_1_modular_double(P,N,al,X[0],ia,Y[0],ib,pos), FFLAS::fscal(F,N,al,X[1],ia,Y[1],ib))
T(faxpy_1, DB(X);DB(Y), CI::faxpy_1_modular_double(P,N,al,X[0],ia,Y[0],ib,pos), FFLAS::faxpy(F,N,al,X[1],ia,Y[1],ib))
T(fdot_1, DB(X);DB(Y), ret[0]=CI::fdot_1_modular_double(P,N,X[0],ia,Y[0],ib,pos), ret[1]=FFLAS::fdot(F,N,X[1],ia,Y[1],ib))
T(fswap_1, DB(X);DB(Y), CI::fswap_1_modular_double(P,N,X[0],ia,Y[0],ib,pos), FFLAS::fswap(F,N,X[1],ia,Y[1],ib))
T(fadd_1, DB(X);DB(Y);DB(W), CI::fadd_1_modular_double(P,N,X[0],ia,Y[0],ib,W[0],ic,pos), FFLAS::fadd(F,N,X[1],ia,Y[1],ib,W[1],ic))
T(fsub_1, DB(X);DB(Y);DB(W), CI::fsub_1_modular_double(P,N,X[0],ia,Y[0],ib,W[0],ic,pos), FFLAS::fsub(F,N,X[1],ia,Y[1],ib,W[1],ic))
T(faddin_1, DB(X);DB(Y), CI::faddin_1_modular_double(P,N,X[0],ia,Y[0],ib,pos), FFLAS::faddin(F,N,X[1],ia,Y[1],ib))
T(fsubin_1, DB(X);DB(Y), CI::fsubin_1_modular_double(P,N,X[0],ia,Y[0],ib,pos), FFLAS::fsubin(F,N,X[1],ia,Y[1],ib))
// ---- level 2
T(fassign_2, DB(A);DB(B), CI::fassign_2_modular_double(P,M,N,A[0],lda,B[0],ldb,pos), FFLAS::fassign(F,M,N,A[1],lda,B[1],ldb))
T(fzero_2, DB(A), CI::fzero_2_modular_double(P,M,N,A[0],lda,pos), FFLAS::fzero(F,M,N,A[1],lda))
T(fequal_2, DB(A);DB(B);for(size_t i=0;i<M;++i)for(size_t j=0;j<N;++j)B[0][i*ldb+j]=B[1][i*ldb+j]=A[0][i*lda+j];if(tf&&N&&M){size_t j=r.below(N)+ldb*r.below(M);B[0][j]=B[1][j]=el();}, ret[0]=CI::fequal_2_modular_double(P,M,N,A[0],lda,B[0],ldb,pos), ret[1]=FFLAS::fequal(F,M,N,A[1],lda,B[1],ldb))
T(fiszero_2, DB(A);if(oz)for(size_t i=0;i<M;++i)for(size_t j=0;j<N;++j)A[0][i*lda+j]=A[1][i*lda+j]=0;if(oz&&tf&&M&&N){size_t j=r.below(N)+lda*r.below(M);A[0][j]=A[1][j]=1;}, ret[0]=CI::fiszero_2_modular_double(P,M,N,A[0],lda,pos), ret[1]=FFLAS::fiszero(F,M,N,A[1],lda))
T(fidentity_2, DB(A), CI::fidentity_2_modular_double(P,M,N,A[0],lda,al,pos), FFLAS::fidentity(F,M,N,A[1],lda,al))
T(freducein_2, D A("A",SZ,rawel), CI::freducein_2_modular_double(P,M,N,A[0],lda,pos), FFLAS::freduce(F,M,N,A[1],lda))
T(freduce_2, D A("A",SZ,rawel);DB(B), CI::freduce_2_modular_double(P,M,N,A[0],lda,B[0],ldb,pos), FFLAS::freduce(F,M,N,A[1],lda,B[1],ldb))
T(fnegin_2, DB(A), CI::fnegin_2_modular_double(P,M,N,A[0],lda,pos), FFLAS::fnegin(F,M,N,A[1],lda))
T(fneg_2, DB(A);DB(B), CI::fneg_2_modular_double(P,M,N,A[0],lda,B[0],ldb,pos), FFLAS::fneg(F,M,N,A[1],lda,B[1],ldb))
T(fscalin_2, DB(A), CI::fscalin_2_modular_double(P,M,N,al,A[0],lda,pos), FFLAS::fscalin(F,M,N,al,A[1],lda))
T(fscal_2, DB(A);DB(B), CI::fscal_2_modular_double(P,M,N,al,A[0],lda,B[0],ldb,pos), FFLAS::fscal(F,M,N,al,A[1],lda,B[1],ldb))
T(faxpy_2, DB(A);DB(B), CI::faxpy_2_modular_double(P,M,N,al,A[0],lda,B[0],ldb,pos), FFLAS::faxpy(F,M,N,al,A[1],lda,B[1],ldb))
T(fmove_2, DB(A);DB(B), CI::fmove_2_modular_double(P,M,N,A[0],lda,B[0],ldb,pos), FFLAS::fmove(F,M,N,A[1],lda,B[1],ldb))
T(fadd_2, DB(A);DB(B);DB(C), CI::fadd_2_modular_double(P,M,N,A[0],lda,B[0],ldb,C[0],ldc,pos), FFLAS::fadd(F,M,N,A[1],lda,B[1],ldb,C[1],ldc))
T(fsub_2, DB(A);DB(B);DB(C), CI::fsub_2_modular_double(P,M,N,A[0],lda,B[0],ldb,C[0],ldc,pos), FFLAS::fsub(F,M,N,A[1],lda,B[1],ldb,C[1],ldc))
T(fsubin_2, DB(B);DB(C), CI::fsubin_2_modular_double(P,M,N,B[0],ldb,C[0],ldc,pos), FFLAS::fsubin(F,M,N,B[1],ldb,C[1],ldc))
T(faddin_2, DB(B);DB(C), CI::faddin_2_modular_double(P,M,N,B[0],ldb,C[0],ldc,pos), FFLAS::faddin(F,M,N,B[1],ldb,C[1],ldc))
T(fgemv_2, DB(A);DB(X);DB(Y), ret[0]=CI::fgemv_2_modular_double(P,CT tA,M,N,al,A[0],lda,X[0],ia,be,Y[0],ib,pos)==Y[0], ret[1]=FFLAS::fgemv(F,tA,M,N,al,A[1],lda,X[1],ia,be,Y[1],ib)==Y[1])
T(fger_2, DB(A);DB(X);DB(Y), CI::fger_2_modular_double(P,M,N,al,X[0],ia,Y[0],ib,A[0],lda,pos), FFLAS::fger(F,M,N,al,X[1],ia,Y[1],ib,A[1],lda))
T(ftrsv_2, DB(A);DB(X);nzdiag(A,N,lda), CI::ftrsv_2_modular_double(P,CU up,CT tA,CD di,N,A[0],lda,X[0],(int)ia,pos), FFLAS::ftrsv(F,up,tA,di,N,A[1],lda,X[1],(int)ia))
// ---- level 3
T(ftrsm_3, DB(A);DB(B);nzdiag(A,mx,lda), CI::ftrsm_3_modular_double(P,CS side,CU up,CT tA,CD di,M,N,al,A[0],lda,B[0],ldb,pos), FFLAS::ftrsm(F,side,up,tA,di,M,N,al,A[1],lda,B[1],ldb))
T(ftrmm_3, DB(A);DB(B), CI::ftrmm_3_modular_double(P,CS side,CU up,CT tA,CD di,M,N,al,A[0],lda,B[0],ldb,pos), FFLAS::ftrmm(F,side,up,tA,di,M,N,al,A[1],lda,B[1],ldb))
T(fgemm_3, DB(A);DB(B);DB(C), ret[0]=CI::fgemm_3_modular_double(P,CT tA,CT tB,M,N,K,al,A[0],lda,B[0],ldb,be,C[0],ldc,pos)==C[0], ret[1]=FFLAS::fgemm(F,tA,tB,M,N,K,al,A[1],lda,B[1],ldb,be,C[1],ldc)==C[1])
T(fsquare_3, DB(A);DB(C), ret[0]=CI::fsquare_3_modular_double(P,CT tA,N,al,A[0],lda,be,C[0],ldc,pos)==C[0], ret[1]=FFLAS::fsquare(F,tA,N,al,A[1],lda,be,C[1],ldc)==C[1])
// ---- permutations
T(LAPACKPerm2MathPerm, ZB(p);ZB(o);perm(p[0],p[1],N), CI::LAPACKPerm2MathPerm(o[0],p[0],N), (void)F;FFPACK::LAPACKPerm2MathPerm(o[1],p[1],N))
T(MathPerm2LAPACKPerm, ZB(p);ZB(o);mperm(p[0],p[1],N), CI::MathPerm2LAPACKPerm(o[0],p[0],N), (void)F;FFPACK::MathPerm2LAPACKPerm(o[1],p[1],N))
T(MatrixApplyS, DB(A);RRRR;size_t m2=r1+r2+r.below(3), CI::MatrixApplyS_modular_double(P,A[0],lda,N,m2,r1,r2,r3,r4,pos), FFPACK::MatrixApplyS(F,A[1],lda,N,m2,r1,r2,r3,r4))
T(PermApplyS, DB(A);RRRR;size_t m2=r1+r2+r.below(3), CI::PermApplyS_double(A[0],lda,1,m2,r1,r2,r3,r4), (void)F;FFPACK::PermApplyS<double>(A[1],lda,1,m2,r1,r2,r3,r4))
T(MatrixApplyT, DB(A);RRRR;size_t n2=r1+r3+r.below(3);lda=30, CI::MatrixApplyT_modular_double(P,A[0],lda,M,n2,r1,r2,r3,r4,pos), FFPACK::MatrixApplyT(F,A[1],lda,M,n2,r1,r2,r3,r4))
T(PermApplyT, DB(A);RRRR;size_t n2=r1+r3+r.below(3), CI::PermApplyT_double(A[0],lda,1,n2,r1,r2,r3,r4), (void)F;FFPACK::PermApplyT<double>(A[1],lda,1,n2,r1,r2,r3,r4))
T(composePermutationsLLM, ZB(o);ZB(p);ZB(s);size_t R=r.below(N+1);perm(p[0],p[1],N);perm(s[0],s[1],N-R), CI::composePermutationsLLM(o[0],p[0],s[0],R,N), (void)F;FFPACK::composePermutationsLLM(o[1],p[1],s[1],R,N))
T(composePermutationsLLL, ZB(p);ZB(s);size_t R=r.below(N+1);perm(p[0],p[1],N);perm(s[0],s[1],N-R), CI::composePermutationsLLL(p[0],s[0],R,N), (void)F;FFPACK::composePermutationsLLL(p[1],s[1],R,N))
T(composePermutationsMLM, ZB(p);ZB(s);size_t R=r.below(N+1);mperm(p[0],p[1],N);perm(s[0],s[1],N-R), CI::composePermutationsMLM(p[0],s[0],R,N), (void)F;FFPACK::composePermutationsMLM(p[1],s[1],R,N))
T(cyclic_shift_mathPerm, ZB(p);if(!N)N=1;mperm(p[0],p[1],N), CI::cyclic_shift_mathPerm(p[0],N), (void)F;FFPACK::cyclic_shift_mathPerm(p[1],N))
T(cyclic_shift_row, DB(A);if(!M)M=1, CI::cyclic_shift_row_modular_double(P,A[0],M,N,lda,pos), FFPACK::cyclic_shift_row(F,A[1],M,N,lda))
T(cyclic_shift_col, DB(A);if(!N)N=1, CI::cyclic_shift_col_modular_double(P,A[0],M,N,lda,pos), FFPACK::cyclic_shift_col(F,A[1],M,N,lda))
T(applyP, DB(A);ZB(p);size_t n=side==FFLAS::FflasLeft?M:N;size_t w=side==FFLAS::FflasLeft?N:M;size_t ib0=r.below(n+1);size_t ie0=ib0+r.below(n-ib0+1);perm(p[0],p[1],n), CI::applyP_modular_double(P,CS side,CT tA,w,ib0,ie0,A[0],lda,p[0],pos), FFPACK::applyP(F,side,tA,w,ib0,ie0,A[1],lda,p[1]))
// ---- systems: factor once, then solve through both
#define LUF size_t R=0; if(!M)M=1; if(!N)N=1; lowrank(A[0],A[1],M,N,lda); for(size_t i=0;i<64;++i)p[0][i]=p[1][i]=s[0][i]=s[1][i]=i; { if(pos){ Modular<double> F(P); R=FFPACK::PLUQ(F,FFLAS::FflasNonUnit,M,N,A[0],lda,p[0],s[0]); FFPACK::PLUQ(F,FFLAS::FflasNonUnit,M,N,A[1],lda,p[1],s[1]); } else { ModularBalanced<double> F(P); R=FFPACK::PLUQ(F,FFLAS::FflasNonUnit,M,N,A[0],lda,p[0],s[0]); FFPACK::PLUQ(F,FFLAS::FflasNonUnit,M,N,A[1],lda,p[1],s[1]); } }

T(fgetrsin, DB(A);DB(B);ZB(p);ZB(s);IN info("info",1,[]{return 77;});M=N?N:1;N=M;LUF;(void)R, CI::fgetrsin_modular_double(P,CS side,M,side==FFLAS::FflasLeft?K:N,R,A[0],lda,p[0],s[0],B[0],ldb,info[0],pos), FFPACK::fgetrs(F,side,M,side==FFLAS::FflasLeft?K:N,R,A[1],lda,p[1],s[1],B[1],ldb,info[1]))
T(fgetrs, DB(A);DB(B);DB(X);ZB(p);ZB(s);IN info("info",1,[]{return 77;});LUF, ret[0]=CI::fgetrs_modular_double(P,CS side,M,N,K,R,A[0],lda,p[0],s[0],X[0],ldc,B[0],ldb,info[0],pos)==X[0], ret[1]=FFPACK::fgetrs(F,side,M,N,K,R,A[1],lda,p[1],s[1],X[1],ldc,B[1],ldb,info[1])==X[1])
T(fgesvin, DB(A);DB(B);IN info("info",1,[]{return 77;});if(!N)N=1;lowrank(A[0],A[1],N,N,lda);if(!K)K=1, ret[0]=CI::fgesvin_modular_double(P,CS side,side==FFLAS::FflasLeft?N:K,side==FFLAS::FflasLeft?K:N,A[0],lda,B[0],ldb,info[0],pos), ret[1]=FFPACK::fgesv(F,side,side==FFLAS::FflasLeft?N:K,side==FFLAS::FflasLeft?K:N,A[1],lda,B[1],ldb,info[1]))
T(fgesv, DB(A);DB(B);DB(X);IN info("info",1,[]{return 77;});if(!N)N=1;if(!M)M=1;if(!K)K=1;lowrank(A[0],A[1],M,N,lda), ret[0]=CI::fgesv_modular_double(P,CS side,M,N,K,A[0],lda,X[0],ldc,B[0],ldb,info[0],pos), ret[1]=FFPACK::fgesv(F,side,M,N,K,A[1],lda,X[1],ldc,B[1],ldb,info[1]))
T(ftrtri, DB(A);nzdiag(A,N,lda), CI::ftrtri_modular_double(P,CU up,CD di,N,A[0],lda,pos), FFPACK::ftrtri(F,up,di,N,A[1],lda))
T(trinv_left, DB(A);DB(X), CI::trinv_left_modular_double(P,N,A[0],lda,X[0],ldb,pos), FFPACK::trinv_left(F,N,A[1],lda,X[1],ldb))
T(ftrtrm, DB(A);nzdiag(A,N,lda), CI::ftrtrm_modular_double(P,CS side,CD di,N,A[0],lda,pos), FFPACK::ftrtrm(F,side,di,N,A[1],lda))
// ---- factorizations and echelon forms
T(PLUQ, DB(A);ZB(p);ZB(s);lowrank(A[0],A[1],M,N,lda), ret[0]=CI::PLUQ_modular_double(P,CD di,M,N,A[0],lda,p[0],s[0],pos), ret[1]=FFPACK::PLUQ(F,di,M,N,A[1],lda,p[1],s[1]))
T(LUdivine, DB(A);ZB(p);ZB(s);lowrank(A[0],A[1],M,N,lda);size_t cut=r.below(3)?60:1+r.below(5), ret[0]=CI::LUdivine_modular_double(P,CD di,CT tA,M,N,A[0],lda,p[0],s[0],CL lt,cut,pos), ret[1]=FFPACK::LUdivine(F,di,tA,M,N,A[1],lda,p[1],s[1],lt,cut))
#define ECH(FN) T(FN, DB(A);ZB(p);ZB(s);lowrank(A[0],A[1],M,N,lda), ret[0]=CI::FN##_modular_double(P,M,N,A[0],lda,p[0],s[0],tf,CL lt,pos), ret[1]=FFPACK::FN(F,M,N,A[1],lda,p[1],s[1],tf,lt))
#define ECHf(FN) TT(FN##_float, float, P=r.pick({3.,5.,101.,2039.});Fl A("A",SZ,[]{return (float)el();});ZB(p);ZB(s);lowrank(A[0],A[1],M,N,lda), ret[0]=CI::FN##_modular_float((float)P,M,N,A[0],lda,p[0],s[0],tf,CL lt,pos), ret[1]=FFPACK::FN(F,M,N,A[1],lda,p[1],s[1],tf,lt))
#define ECHi(FN) TT(FN##_int32_t, int32_t, P=r.pick({3.,5.,101.,32749.});I32 A("A",SZ,[]{return (int32_t)el();});ZB(p);ZB(s);lowrank(A[0],A[1],M,N,lda), ret[0]=CI::FN##_modular_int32_t((int32_t)P,M,N,A[0],lda,p[0],s[0],tf,CL lt,pos), ret[1]=FFPACK::FN(F,M,N,A[1],lda,p[1],s[1],tf,lt))
ECH(ColumnEchelonForm) ECH(RowEchelonForm) ECH(ReducedColumnEchelonForm) ECH(ReducedRowEchelonForm)
ECHf(ColumnEchelonForm) ECHf(RowEchelonForm) ECHf(ReducedColumnEchelonForm) ECHf(ReducedRowEchelonForm)
ECHi(ColumnEchelonForm) ECHi(RowEchelonForm) ECHi(ReducedColumnEchelonForm) ECHi(ReducedRowEchelonForm)
#define pECH(FN) T(FN, lt=FFPACK::FfpackTileRecursive;DB(A);ZB(p);ZB(s);lowrank(A[0],A[1],M,N,lda), ret[0]=CI::FN##_modular_double(P,M,N,A[0],lda,p[0],s[0],tf,CL lt,pos), ret[1]=FFPACK::FN(F,M,N,A[1],lda,p[1],s[1],tf,0,lt))
#define pECHf(FN) TT(FN##_float, float, lt=FFPACK::FfpackTileRecursive;P=r.pick({3.,5.,101.,2039.});Fl A("A",SZ,[]{return (float)el();});ZB(p);ZB(s);lowrank(A[0],A[1],M,N,lda), ret[0]=CI::FN##_modular_float((float)P,M,N,A[0],lda,p[0],s[0],tf,CL lt,pos), ret[1]=FFPACK::FN(F,M,N,A[1],lda,p[1],s[1],tf,0,lt))
#define pECHi(FN) TT(FN##_int32_t, int32_t, lt=FFPACK::FfpackTileRecursive;P=r.pick({3.,5.,101.,32749.});I32 A("A",SZ,[]{return (int32_t)el();});ZB(p);ZB(s);lowrank(A[0],A[1],M,N,lda), ret[0]=CI::FN##_modular_int32_t((int32_t)P,M,N,A[0],lda,p[0],s[0],tf,CL lt,pos), ret[1]=FFPACK::FN(F,M,N,A[1],lda,p[1],s[1],tf,0,lt))
pECH(pColumnEchelonForm) pECH(pRowEchelonForm) pECH(pReducedColumnEchelonForm) pECH(pReducedRowEchelonForm)
pECHf(pColumnEchelonForm) pECHf(pRowEchelonForm) pECHf(pReducedColumnEchelonForm) pECHf(pReducedRowEchelonForm)
pECHi(pColumnEchelonForm) pECHi(pRowEchelonForm) pECHi(pReducedColumnEchelonForm) pECHi(pReducedRowEchelonForm)
// ---- inverse, rank, determinant, systems
T(Invertin, IN nl("nullity",1,[]{return 77;});DB(A);lowrank(A[0],A[1],N,N,lda), ret[0]=CI::Invertin_modular_double(P,N,A[0],lda,nl[0],pos)==A[0], ret[1]=FFPACK::Invert(F,N,A[1],lda,*nl[1])==A[1])
T(Invert, IN nl("nullity",1,[]{return 77;});DB(A);DB(X);lowrank(A[0],A[1],N,N,lda), ret[0]=CI::Invert_modular_double(P,N,A[0],lda,X[0],ldb,nl[0],pos)==X[0], ret[1]=FFPACK::Invert(F,N,A[1],lda,X[1],ldb,*nl[1])==X[1])
T(Invert2, IN nl("nullity",1,[]{return 77;});DB(A);DB(X);lowrank(A[0],A[1],N,N,lda), ret[0]=CI::Invert2_modular_double(P,N,A[0],lda,X[0],ldb,nl[0],pos)==X[0], ret[1]=FFPACK::Invert2(F,N,A[1],lda,X[1],ldb,*nl[1])==X[1])
T(SpecRankProfile, DB(A);ZB(p);if(!N)N=1;size_t c=1+r.below(N);size_t mm=(N+c-1)/c, try{ret[0]=CI::SpecRankProfile_modular_double(P,mm,N,A[0],lda,c,p[0],pos);}catch(FFPACK::CharpolyFailed&){ret[0]=-1;}, try{ret[1]=FFPACK::SpecRankProfile(F,mm,N,A[1],lda,c,p[1]);}catch(FFPACK::CharpolyFailed&){ret[1]=-1;})
T(KrylovElim, DB(A);ZB(p);ZB(s);ZB(it);ZB(iv);if(!N)N=1;size_t c=1+r.below(N);size_t mm=(N+c-1)/c;for(size_t i=0;i<N;++i)iv[0][i+1]=iv[1][i+1]=it[0][i]=it[1][i]=i+1, ret[0]=CI::KrylovElim_modular_double(P,mm,N,A[0],lda,p[0],s[0],c,it[0],iv[0],N,0,pos), ret[1]=FFPACK::KrylovElim(F,mm,N,A[1],lda,p[1],s[1],c,it[1],iv[1],N,0))
T(Rank, DB(A);lowrank(A[0],A[1],M,N,lda), ret[0]=CI::Rank_modular_double(P,M,N,A[0],lda,pos), ret[1]=FFPACK::Rank(F,M,N,A[1],lda))
T(IsSingular, DB(A);lowrank(A[0],A[1],M,N,lda), ret[0]=CI::IsSingular_modular_double(P,M,N,A[0],lda,pos), ret[1]=FFPACK::IsSingular(F,M,N,A[1],lda))
T(Det, DB(A);lowrank(A[0],A[1],N,N,lda);double d=0;(void)d, ret[0]=CI::Det_modular_double(P,N,A[0],lda,pos), ret[1]=FFPACK::Det(F,d,N,A[1],lda))
T(Solve, DB(A);DB(X);DB(B), ret[0]=CI::Solve_modular_double(P,N,A[0],lda,X[0],(int)ia,B[0],(int)ib,pos)==X[0], ret[1]=FFPACK::Solve(F,N,A[1],lda,X[1],(int)ia,B[1],(int)ib)==X[1])
#define LDF size_t R=0; size_t d=side==FFLAS::FflasLeft?M:N; lowrank(A[0],A[1],d,d,lda); for(size_t i=0;i<64;++i)p[0][i]=p[1][i]=s[0][i]=s[1][i]=i; for(int q=0;q<2;++q){ if(pos){ Modular<double> F(P); R=FFPACK::LUdivine(F,FFLAS::FflasNonUnit,side==FFLAS::FflasLeft?FFLAS::FflasNoTrans:FFLAS::FflasTrans,d,d,A[q],lda,p[q],s[q]); } else { ModularBalanced<double> F(P); R=FFPACK::LUdivine(F,FFLAS::FflasNonUnit,side==FFLAS::FflasLeft?FFLAS::FflasNoTrans:FFLAS::FflasTrans,d,d,A[q],lda,p[q],s[q]); } }
T(solveLB, if(!M)M=1;if(!N)N=1;DB(A);DB(B);ZB(p);ZB(s);LDF, CI::solveLB_modular_double(P,CS side,M,N,R,A[0],lda,s[0],B[0],ldb,pos), FFPACK::solveLB(F,side,M,N,R,A[1],lda,s[1],B[1],ldb))
T(solveLB2, if(!M)M=1;if(!N)N=1;DB(A);DB(B);ZB(p);ZB(s);LDF, CI::solveLB2_modular_double(P,CS side,M,N,R,A[0],lda,s[0],B[0],ldb,pos), FFPACK::solveLB2(F,side,M,N,R,A[1],lda,s[1],B[1],ldb))
// ---- null spaces and rank profiles: returned arrays are compared too
T(NullSpaceBasis, DB(A);lowrank(A[0],A[1],M,N,lda);PT(double*,ns);PT(size_t,ld);Z nd("NSdim",2,[]{return 7;}), ret[0]=CI::NullSpaceBasis_modular_double(P,CS side,M,N,A[0],lda,&ns[0],&ld[0],nd[0],pos), ret[1]=FFPACK::NullSpaceBasis(F,side,M,N,A[1],lda,ns[1],ld[1],*nd[1]);
  if(nd[0][0]==nd[1][0]&&nd[0][0]){ size_t rr=side==FFLAS::FflasRight?N:nd[0][0];size_t cc=side==FFLAS::FflasRight?nd[0][0]:M; if(ld[0]!=ld[1]) fail("differs","leading dimension of the null space basis"); else for(size_t i=0;i<rr;++i)for(size_t j=0;j<cc;++j)if(ns[0][i*ld[0]+j]!=ns[1][i*ld[1]+j]){ fail("differs","null space basis"); i=rr; break; } FFLAS::fflas_delete(ns[0]);FFLAS::fflas_delete(ns[1]); })
T(RandomNullSpaceVector, DB(A);DB(X);if(!M)M=1;if(!N)N=1;lowrank(A[0],A[1],M,N,lda);if(side==FFLAS::FflasLeft){for(size_t j=0;j<N;++j)A[0][j]=A[1][j]=0;}else for(size_t i=0;i<M;++i)A[0][i*lda]=A[1][i*lda]=0;u64 clk=fakeClock(), fakeClock()=clk;CI::RandomNullSpaceVector_modular_double(P,CS side,M,N,A[0],lda,X[0],ia,pos), fakeClock()=clk;FFPACK::RandomNullSpaceVector(F,side,M,N,A[1],lda,X[1],ia))
#define VECEQ(a,b,n,w) do{ for(size_t i=0;i<(n);++i)if((a)[i]!=(b)[i]){ fail("differs",w); break; } }while(0)
T(RowRankProfile, DB(A);lowrank(A[0],A[1],M,N,lda);PT(size_t*,rp), ret[0]=CI::RowRankProfile_modular_double(P,M,N,A[0],lda,&rp[0],CL lt,pos), ret[1]=FFPACK::RowRankProfile(F,M,N,A[1],lda,rp[1],lt);if(ret[0]==ret[1])VECEQ(rp[0],rp[1],(size_t)ret[0],"rank profile");FFLAS::fflas_delete(rp[0]);FFLAS::fflas_delete(rp[1]))
T(ColumnRankProfile, DB(A);lowrank(A[0],A[1],M,N,lda);PT(size_t*,rp), ret[0]=CI::ColumnRankProfile_modular_double(P,M,N,A[0],lda,&rp[0],CL lt,pos), ret[1]=FFPACK::ColumnRankProfile(F,M,N,A[1],lda,rp[1],lt);if(ret[0]==ret[1])VECEQ(rp[0],rp[1],(size_t)ret[0],"rank profile");FFLAS::fflas_delete(rp[0]);FFLAS::fflas_delete(rp[1]))
T(RankProfileFromLU, DB(A);ZB(p);ZB(s);ZB(o);LUF, CI::RankProfileFromLU(p[0],M,R,o[0],CL FFPACK::FfpackTileRecursive), (void)F;FFPACK::RankProfileFromLU(p[1],M,R,o[1],FFPACK::FfpackTileRecursive))
T(LeadingSubmatrixRankProfiles, DB(A);ZB(p);ZB(s);ZB(o);ZB(o2);LUF;size_t lm=1+r.below(M);size_t ln=1+r.below(N), ret[0]=CI::LeadingSubmatrixRankProfiles(M,N,R,lm,ln,p[0],s[0],o[0],o2[0]), (void)F;ret[1]=FFPACK::LeadingSubmatrixRankProfiles(M,N,R,lm,ln,p[1],s[1],o[1],o2[1]))
#define SUBI(FN) T(FN, DB(A);if(!M)M=1;if(!N)N=1;lowrank(A[0],A[1],M,N,lda);PT(size_t*,ri);PT(size_t*,ci);Z R("R",1,[]{return 77;}), ret[0]=CI::FN##_modular_double(P,M,N,A[0],lda,&ri[0],&ci[0],R[0],pos), ret[1]=FFPACK::FN(F,M,N,A[1],lda,ri[1],ci[1],*R[1]);if(ret[0]==ret[1]){VECEQ(ri[0],ri[1],(size_t)ret[0],"row indices");VECEQ(ci[0],ci[1],(size_t)ret[0],"column indices");}FFLAS::fflas_delete(ri[0],ri[1],ci[0],ci[1]))
SUBI(RowRankProfileSubmatrixIndices) SUBI(ColRankProfileSubmatrixIndices)
#define SUBM(FN) T(FN, DB(A);if(!M)M=1;if(!N)N=1;lowrank(A[0],A[1],M,N,lda);PT(double*,X);Z R("R",1,[]{return 77;}), ret[0]=CI::FN##_modular_double(P,M,N,A[0],lda,&X[0],R[0],pos), ret[1]=FFPACK::FN(F,M,N,A[1],lda,X[1],*R[1]);if(ret[0]==ret[1]&&R[0][0]==R[1][0])VECEQ(X[0],X[1],R[0][0]*R[0][0],"submatrix");FFLAS::fflas_delete(X[0]);FFLAS::fflas_delete(X[1]))
SUBM(RowRankProfileSubmatrix) SUBM(ColRankProfileSubmatrix)
// ---- accessors
#define FACT(CALL) size_t R=0; if(!M)M=1; if(!N)N=1; lowrank(A[0],A[1],M,N,lda); for(int q=0;q<2;++q){ if(pos){ Modular<double> F(P); R=CALL; } else { ModularBalanced<double> F(P); R=CALL; } }
T(getTriangular, DB(A);DB(B);ZB(p);ZB(s);FACT(FFPACK::PLUQ(F,di,M,N,A[q],lda,p[q],s[q])), CI::getTriangular_modular_double(P,CU up,CD di,M,N,R,A[0],lda,B[0],ldb,oz,pos), FFPACK::getTriangular(F,up,di,M,N,R,A[1],lda,B[1],ldb,oz))
T(getTriangularin, DB(A);ZB(p);ZB(s);FACT(FFPACK::PLUQ(F,di,M,N,A[q],lda,p[q],s[q])), CI::getTriangularin_modular_double(P,CU up,CD di,M,N,R,A[0],lda,pos), FFPACK::getTriangular(F,up,di,M,N,R,A[1],lda))
#define EF up==FFLAS::FflasUpper?FFPACK::RowEchelonForm(F,M,N,A[q],lda,p[q],s[q],true,lt):FFPACK::ColumnEchelonForm(F,M,N,A[q],lda,p[q],s[q],true,lt)
#define RF up==FFLAS::FflasUpper?FFPACK::ReducedRowEchelonForm(F,M,N,A[q],lda,p[q],s[q],true,lt):FFPACK::ReducedColumnEchelonForm(F,M,N,A[q],lda,p[q],s[q],true,lt)
T(getEchelonForm, DB(A);DB(B);ZB(p);ZB(s);FACT((EF)), CI::getEchelonForm_modular_double(P,CU up,CD di,M,N,R,s[0],A[0],lda,B[0],ldb,oz,CL lt,pos), FFPACK::getEchelonForm(F,up,di,M,N,R,s[1],A[1],lda,B[1],ldb,oz,lt))
T(getEchelonFormin, DB(A);ZB(p);ZB(s);FACT((EF)), CI::getEchelonFormin_modular_double(P,CU up,CD di,M,N,R,s[0],A[0],lda,CL lt,pos), FFPACK::getEchelonForm(F,up,di,M,N,R,s[1],A[1],lda,lt))
T(getEchelonTransform, DB(A);DB(B);ZB(p);ZB(s);FACT((EF)), CI::getEchelonTransform_modular_double(P,CU up,CD di,M,N,R,p[0],s[0],A[0],lda,B[0],ldb,CL lt,pos), FFPACK::getEchelonTransform(F,up,di,M,N,R,p[1],s[1],A[1],lda,B[1],ldb,lt))
T(getReducedEchelonForm, DB(A);DB(B);ZB(p);ZB(s);FACT((RF)), CI::getReducedEchelonForm_modular_double(P,CU up,M,N,R,s[0],A[0],lda,B[0],ldb,oz,CL lt,pos), FFPACK::getReducedEchelonForm(F,up,M,N,R,s[1],A[1],lda,B[1],ldb,oz,lt))
T(getReducedEchelonFormin, DB(A);ZB(p);ZB(s);FACT((RF)), CI::getReducedEchelonFormin_modular_double(P,CU up,M,N,R,s[0],A[0],lda,CL lt,pos), FFPACK::getReducedEchelonForm(F,up,M,N,R,s[1],A[1],lda,lt))
T(getReducedEchelonTransform, DB(A);DB(B);ZB(p);ZB(s);FACT((RF)), CI::getReducedEchelonTransform_modular_double(P,CU up,M,N,R,p[0],s[0],A[0],lda,B[0],ldb,CL lt,pos), FFPACK::getReducedEchelonTransform(F,up,M,N,R,p[1],s[1],A[1],lda,B[1],ldb,lt))
T(PLUQtoEchelonPermutation, DB(A);ZB(p);ZB(s);ZB(o);LUF, CI::PLUQtoEchelonPermutation(M,R,p[0],o[0]), (void)F;FFPACK::PLUQtoEchelonPermutation(M,R,p[1],o[1]))
