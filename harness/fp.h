// helpers for the FFPACK checks: hostile matrices, guarded permutation arrays, transposition-form permutations
#ifndef VH_FP_H
#define VH_FP_H
#include "tri.h"
#include "fflas-ffpack/ffpack/ffpack.h"
namespace VH {
template<class R> OMat<R> hostile(const R&ring,Rng&r,size_t m,size_t n,bool bal,std::string*tag=nullptr){
    size_t mn=std::min(m,n); OMat<R> A(m,n); int st=(int)r.below(12); const char*nm="";
    auto nz=[&]{ typename R::Val d; do d=ring.rnd(r); while(ring.isz(d)); return d; };
    switch(st){
    case 0: nm="dense"; ofill(ring,A,r,pickKind(r),bal); break;
    case 1: case 2: case 3: { int s=(int)r.below(5); size_t rk=r.coin(1,4)?mn:r.below(mn+1); nm="rankmat"; A=orankmat(ring,r,m,n,rk,s); break; }
    case 4: { nm="perm"; std::vector<size_t> a(m),b(n); for(size_t i=0;i<m;i++)a[i]=i; for(size_t i=0;i<n;i++)b[i]=i; for(size_t i=m;i>1;i--)std::swap(a[i-1],a[r.below(i)]); for(size_t i=n;i>1;i--)std::swap(b[i-1],b[r.below(i)]); size_t k=r.coin()?mn:r.below(mn+1); for(size_t i=0;i<k;i++)A(a[i],b[i])=nz(); break; }
    case 5: { nm="sparse"; u64 den=r.pick({2,4,8,20}); for(auto&x:A.a)if(r.coin(1,den))x=nz(); break; }
    case 6: { nm="duprows"; ofill(ring,A,r,0,bal); for(size_t i=1;i<m;i++)if(r.coin()){ size_t q=r.below(i); auto f=ring.rnd(r); for(size_t j=0;j<n;j++)A(i,j)=ring.mul(f,A(q,j)); } break; }
    case 7: { nm="dupcols"; ofill(ring,A,r,0,bal); for(size_t j=1;j<n;j++)if(r.coin()){ size_t q=r.below(j); auto f=ring.rnd(r); for(size_t i=0;i<m;i++)A(i,j)=ring.mul(f,A(i,q)); } break; }
    case 8: { nm="zeroblock"; ofill(ring,A,r,r.pick({0,1,6}),bal); size_t a=r.below(m+1),b=r.below(n+1); bool ti=r.coin(),tj=r.coin(); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++)if((ti?i<a:i>=a)&&(tj?j<b:j>=b))A(i,j)=ring.zero(); break; }
    case 9: { nm="fullrank"; A=orankmat(ring,r,m,n,mn,(int)r.below(5)); break; }
    case 10: { nm="nearfull"; A=orankmat(ring,r,m,n,mn?mn-1:0,(int)r.below(5)); break; }
    default: { nm="few"; if(r.coin(1,3))break; size_t c=r.below(3)+1; auto pos=[&](size_t k){ return r.coin()?r.below(k):r.coin()?k-1:(size_t)0; }; for(size_t q=0;q<c&&m&&n;q++){ size_t i=pos(m),j=pos(n); A(i,j)=nz(); } break; } }
    if(tag)*tag=nm; return A; }
// size_t array with canaries on both sides and junk inside
struct PArr { std::vector<size_t> v; size_t n; size_t*p; explicit PArr(size_t k):v(k+16,(size_t)0xC0FFEE0DDBA11ull),n(k){ p=v.data()+8; }
    bool ok(const char*nm){ for(size_t i=0;i<8;i++)if(v[i]!=(size_t)0xC0FFEE0DDBA11ull||v[n+8+i]!=(size_t)0xC0FFEE0DDBA11ull){ fail("frame",fmt("memory around permutation array %s (size %zu) was written",nm,n)); return false; } return true; }
    size_t operator[](size_t i)const{return p[i];} };
// image of the identity under the transpositions i<->P[i], i<cnt, in increasing order; false if ill-formed
inline bool permOf(const PArr&P,size_t n,size_t cnt,std::vector<size_t>&q,const char*nm){ q.resize(n); for(size_t i=0;i<n;i++)q[i]=i; for(size_t i=0;i<cnt;i++){ if(P[i]>=n||P[i]<i){ fail("bad-permutation",fmt("%s[%zu]=%zu is not a transposition with a later index (size %zu)",nm,i,P[i],n)); return false; } std::swap(q[i],q[P[i]]); } return true; }
template<class Field> struct GIn { // input matrix held in a guarded buffer with a copy of its oracle value
    };
}
#endif
