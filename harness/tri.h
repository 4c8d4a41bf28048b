// helpers for triangular operands
#ifndef VH_TRI_H
#define VH_TRI_H
#include "gen.h"
#include "fflas-ffpack/fflas/fflas.h"
namespace VH {
inline bool inTri(bool up,bool unit,size_t i,size_t j){ return unit?(up?j>i:j<i):(up?j>=i:j<=i); }
// random triangular oracle matrix; with unit: ones on the diagonal; nonsing: nonzero diagonal
template<class R> OMat<R> otri(const R&ring,Rng&r,size_t n,bool up,bool unit,bool nonsing,int kind,bool bal,unsigned bits=0){
    OMat<R> T(n,n); ofill(ring,T,r,kind,bal,bits);
    for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++){ if(i==j){ if(unit)T(i,j)=ring.one(); else if(nonsing) while(ring.isz(T(i,j)))T(i,j)=ring.rnd(r); } else if(!inTri(up,false,i,j))T(i,j)=ring.zero(); }
    return T; }
// store T in G: the designated cells get T, all others get values that must not matter (garbage, or random canonical values)
template<class Field> void setTri(GM<Field>&G,const OMat<typename FT<Field>::Ring>&T,bool up,bool unit,Rng&r){
    bool junk=r.coin();
#ifdef VH_ASAN
    junk=false;
#endif
    for(size_t i=0;i<G.m;i++)for(size_t j=0;j<G.n;j++){ if(inTri(up,unit,i,j))G.set(i,j,T(i,j)); else if(junk)G.garbage(i,j); else G.set(i,j,G.en->R.rnd(r)); } }
}
#endif
