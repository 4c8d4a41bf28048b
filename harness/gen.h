// environment construction for any supported field
#ifndef VH_GEN_H
#define VH_GEN_H
#include "common.h"
namespace VH {
template<class Field,class En=void> struct MkAny;
template<class Field> struct MkAny<Field,typename std::enable_if<FT<Field>::word>::type>{ static Env<Field> mk(Rng&r,int mode=0,u64 minp=2){ return mkEnv<Field>(r,mode,minp);} };
template<class E> struct MkAny<Givaro::ZRing<E>,void>{ static Env<Givaro::ZRing<E>> mk(Rng&,int=0,u64=2){ return Env<Givaro::ZRing<E>>(Givaro::ZRing<E>(),typename FT<Givaro::ZRing<E>>::Ring(0)); } };
template<> struct MkAny<ModInteger,void>{ static Env<ModInteger> mk(Rng&r,int mode=0,u64=2){ unsigned bits=r.pick({2u,5u,20u,31u,53u,60u,64u,65u,100u,128u,200u,300u,512u}); if(mode==1)bits=r.pick({2u,5u,20u}); if(mode==2)bits=r.pick({128u,256u,512u}); Integer p=bigPrime(r,bits); return Env<ModInteger>(ModInteger(p),RingZ(p)); } };
template<class RF> Env<RF> mkRec(Rng&r,int mode,unsigned maxbits){ unsigned bits=mode==2?maxbits:mode==1?r.pick({3u,8u,20u}):(r.coin(1,3)?maxbits:(unsigned)r.range(2,maxbits)); Integer p=bigPrime(r,bits); typename RF::Residu_t q(p); RF f(q); return Env<RF>(f,RingZ(p)); }
// fixed-width multiprecision: modulus limits from the library's own advertised maxCardinality (2^63 for ruint<7>, 2^127 with ruint<8> compute)
template<> struct MkAny<ModR7,void>{ static Env<ModR7> mk(Rng&r,int mode=0,u64=2){ return mkRec<ModR7>(r,mode,62);} };
template<> struct MkAny<ModR7_8,void>{ static Env<ModR7_8> mk(Rng&r,int mode=0,u64=2){ return mkRec<ModR7_8>(r,mode,126);} };
template<> struct MkAny<ModSR7,void>{ static Env<ModSR7> mk(Rng&r,int mode=0,u64=2){ return mkRec<ModSR7>(r,mode,62);} };
template<> struct MkAny<ModSR8,void>{ static Env<ModSR8> mk(Rng&r,int mode=0,u64=2){ return mkRec<ModSR8>(r,mode,126);} };
inline const GFq* gfq(unsigned p,unsigned k){ static auto*c=new std::map<std::pair<unsigned,unsigned>,GFq*>; auto&x=(*c)[{p,k}]; if(!x)x=new GFq(p,k); return x; }
template<> struct MkAny<GFq,void>{ static Env<GFq> mk(Rng&r,int=0,u64=2){ static const unsigned t[][2]={{2,2},{2,3},{2,8},{3,2},{3,5},{5,3},{7,2},{11,3},{101,2},{251,1},{2,1}}; auto&q=t[r.below(11)]; const GFq*f=gfq(q[0],q[1]); return Env<GFq>(*f,RingG(f)); } };
template<class F> Env<F> mkAny(Rng&r,int mode=0,u64 minp=2){ return MkAny<F>::mk(r,mode,minp); }
template<class R> std::string pstr(const R&r){ std::string s=R::str(r.p); return s.size()>40?fmt("%zu-digit",s.size()):s; }
// rare sizes beyond every default recursion threshold of the library (256), never under the slow builds
#if defined(VH_MAXDIM)
inline bool hugeCase(){ u64 h=(S().k+1)*0x9E3779B97F4A7C15ull^S().opt.seed*0xD1B54A32D192ED03ull; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; return h%150==0; }
#endif
inline size_t hugeCap(Rng&r,size_t cap,u64 den,bool word=true,size_t top=430){
#if defined(VH_MAXDIM)
    if(word&&hugeCase()) return std::min<size_t>(300,top);
#elif !defined(VH_CAPDIM)
    if(word&&r.coin(1,den)) return r.pick({270ul,340ul,430ul})*top/430;
#endif
    return cap; }
// hostile dimension
inline size_t pickDim(Rng&r,size_t big=60){
#ifdef VH_MAXDIM
    if(!hugeCase()||big<200) big=std::min<size_t>(big,VH_MAXDIM);
#endif
    if(tinyCase()) return std::min<size_t>(big,r.coin(1,30)?0:r.range(1,4));
    if(big>=250&&r.coin(2,3)) return r.range(big*6/10,big);
    switch(r.below(8)){case 0:return r.below(3);case 1:return r.range(1,9);case 2:return r.pick({7ul,8ul,9ul,15ul,16ul,17ul,31ul,32ul,33ul,63ul,64ul,65ul});default:return r.range(1,big);} }
}
#endif
