// Runtime-monitoring harness: workload engine, guarded operands, independent oracle arithmetic, reporting.
// Everything here is independent of the code under test except for field element <-> integer conversion
// (raw representation for arithmetic element types, Givaro for multiprecision ones).
#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <type_traits>
#include <unistd.h>
#include <sys/time.h>
#include <time.h>
#include <fcntl.h>
#include <gmp.h>
#include <gmpxx.h>
#include "fflas-ffpack/fflas-ffpack-config.h"
#include <givaro/givinteger.h>
#include <givaro/modular.h>
#include <givaro/modular-balanced.h>
#include <givaro/zring.h>
#include <givaro/modular-integer.h>
#include <givaro/gfq.h>
#include <recint/recint.h>

#if defined(__SANITIZE_ADDRESS__) || defined(VH_EXACT_ALLOC)
#define VH_ASAN 1
#endif

namespace VH {
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

// ------------------------------------------------------------------ RNG
struct Rng {
    u64 s;
    explicit Rng(u64 x=1):s(x){}
    u64 next(){ u64 z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
    u64 below(u64 n){ return n? (u64)(((u128)next()*n)>>64):0; }
    u64 range(u64 a,u64 b){ return a+below(b-a+1); }
    bool coin(unsigned num=1,unsigned den=2){ return below(den)<num; }
    template<class T> const T& pick(const std::vector<T>&v){ return v[below(v.size())]; }
    template<class T> T pick(std::initializer_list<T> v){ return *(v.begin()+below(v.size())); }
};
inline u64 hash64(const std::string&s,u64 h=1469598103934665603ull){ for(unsigned char c:s){h^=c;h*=1099511628211ull;} return h; }

// ------------------------------------------------------------------ primes
inline u64 mulmod(u64 a,u64 b,u64 m){return (u128)a*b%m;}
inline u64 powmod(u64 a,u64 e,u64 m){u64 r=1%m;a%=m;while(e){if(e&1)r=mulmod(r,a,m);a=mulmod(a,a,m);e>>=1;}return r;}
inline bool isprime(u64 n){
    if(n<2)return false; for(u64 p:{2,3,5,7,11,13,17,19,23,29,31,37}){if(n%p==0)return n==p;}
    u64 d=n-1;int s=0;while(!(d&1)){d>>=1;s++;}
    for(u64 a:{2,3,5,7,11,13,17,19,23,29,31,37}){u64 x=powmod(a,d,n);if(x==1||x==n-1)continue;bool c=true;for(int i=1;i<s&&c;i++){x=mulmod(x,x,n);if(x==n-1)c=false;}if(c)return false;}
    return true;}
inline u64 prevprime(u64 n){ while(n>2&&!isprime(n))n--; return n<2?2:n; }

// ------------------------------------------------------------------ reporting
struct Options { u64 seed=1; u64 start=0, end=0; u64 shard=0,nshards=1; std::string out,progress; bool verbose=false; std::string tier="quick"; int maxviol=60; u64 scale=100;};
struct State {
    Options opt;
    std::string name, field, desc, routine; u64 k=0; bool nontrivial=true;
    std::map<std::string,u64> cov; std::unordered_set<u64> sigs; u64 evals=0,nviol=0; std::map<std::string,u64> mon;
    std::vector<std::string> samples; FILE*f=nullptr; int pfd=-1; std::map<std::string,int> perSig; std::string regime;
};
inline State& S(){ static State s; return s; }
inline std::string jesc(const std::string&s){std::string r;for(unsigned char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c=='\n')r+="\\n";else if(c<32)r+=' ';else r+=c;}return r;}
inline std::string fmt(const char*f,...){char b[2048];va_list a;va_start(a,f);vsnprintf(b,sizeof b,f,a);va_end(a);return b;}
inline void progress(){ State&s=S(); if(s.pfd<0)return; std::string l=fmt("%llu\t%s\t%s\t%s\n",(unsigned long long)s.k,s.routine.c_str(),s.field.c_str(),s.desc.substr(0,900).c_str()); l.resize(1200,' '); if(pwrite(s.pfd,l.data(),l.size(),0)<0){} }
// Announce the case about to be executed. desc must contain all discrete parameters.
inline void CASE(const std::string&routine,const std::string&field,const std::string&desc,bool nontrivial=true){
    State&s=S(); s.routine=routine;s.field=field;s.desc=desc;s.nontrivial=nontrivial; s.evals++; s.cov[routine+"|"+field]++;
    if(nontrivial) s.sigs.insert(hash64(routine+"|"+field+"|"+desc));
    if(s.samples.size()<3 && nontrivial && (s.evals%7==1)) s.samples.push_back(routine+" over "+field+": "+desc);
    progress(); if(s.opt.verbose) fprintf(stderr,"[%llu] %s %s %s\n",(unsigned long long)s.k,routine.c_str(),field.c_str(),desc.c_str());
}
inline void monitor(const char*what,u64 n){ S().mon[what]+=n; }
inline void fail(const std::string&kind,const std::string&msg){
    State&s=S(); s.nviol++; std::string sig=s.routine+"|"+kind; 
    if(++s.perSig[sig]>5) return;
    std::string l=fmt("{\"t\":\"viol\",\"kind\":\"%s\",\"routine\":\"%s\",\"field\":\"%s\",\"case\":%llu,\"desc\":\"",jesc(kind).c_str(),jesc(s.routine).c_str(),jesc(s.field).c_str(),(unsigned long long)s.k)+jesc(s.desc)+"\",\"msg\":\""+jesc(msg)+"\"}\n";
    if(s.f){fputs(l.c_str(),s.f);fflush(s.f);} 
    if(!s.f||s.opt.verbose){fputs(l.c_str(),stderr);}
}
// deterministic clock: default-seeded random iterators of the library become functions of the case
inline u64& fakeClock(){ static u64 c=0; return c; }
struct CaseAbort{}; // thrown by harness code to end a case after a failure
inline u64 caseSeed(u64 k){ State&s=S(); Rng r(hash64(s.name)^(s.opt.seed*0x9E3779B97F4A7C15ull)); r.s+=k*0xD1B54A32D192ED03ull; r.next(); return r.next(); }
inline int run(int argc,char**argv,const char*name,u64 quickCases,u64 thoroughCases,std::function<void(u64,Rng&)> body){
    State&s=S(); s.name=name; Options&o=s.opt; bool endset=false;
    for(int i=1;i<argc;i++){std::string a=argv[i];auto v=[&](){return std::string(i+1<argc?argv[++i]:"");};
        if(a=="--seed")o.seed=strtoull(v().c_str(),0,10);else if(a=="--start")o.start=strtoull(v().c_str(),0,10);
        else if(a=="--end"){o.end=strtoull(v().c_str(),0,10);endset=true;} else if(a=="--only"){o.start=strtoull(v().c_str(),0,10);o.end=o.start+1;endset=true;o.shard=0;o.nshards=1;}
        else if(a=="--shard"){std::string x=v();sscanf(x.c_str(),"%lu/%lu",&o.shard,&o.nshards);} else if(a=="--out")o.out=v();else if(a=="--progress")o.progress=v();
        else if(a=="--tier")o.tier=v();else if(a=="--scale")o.scale=strtoull(v().c_str(),0,10);else if(a=="-v")o.verbose=true;else{fprintf(stderr,"bad arg %s\n",a.c_str());return 3;}}
    if(!endset){o.end=(o.tier=="thorough"?thoroughCases:quickCases)*o.scale/100; if(o.end==0)o.end=1;}
    if(!o.out.empty()){s.f=fopen(o.out.c_str(),"a");if(!s.f)return 3;}
    if(!o.progress.empty())s.pfd=open(o.progress.c_str(),O_CREAT|O_RDWR,0644);
    srand48((long)o.seed); srand((unsigned)o.seed);
    for(u64 k=o.start;k<o.end;k++){ if(o.nshards>1 && k%o.nshards!=o.shard)continue; s.k=k; Rng r(caseSeed(k)); fakeClock()=r.s; s.routine="";s.desc="";
        srand48((long)(r.s&0x7fffffff)); srand((unsigned)(r.s&0x7fffffff));
        try{ body(k,r);}catch(CaseAbort&){}catch(std::exception&e){fail("exception",std::string("std::exception: ")+e.what());}catch(...){fail("exception","exception escaped the routine");}
        if(s.nviol>1000){break;}
    }
    std::string l=fmt("{\"t\":\"done\",\"evals\":%llu,\"nviol\":%llu,\"cov\":{",(unsigned long long)s.evals,(unsigned long long)s.nviol);
    bool first=true;for(auto&c:s.cov){l+=(first?"":",");first=false;l+="\""+jesc(c.first)+"\":"+std::to_string(c.second);}
    l+="},\"mon\":{";first=true;for(auto&c:s.mon){l+=(first?"":",");first=false;l+="\""+jesc(c.first)+"\":"+std::to_string(c.second);}
    l+="},\"samples\":[";first=true;for(auto&c:s.samples){l+=(first?"":",");first=false;l+="\""+jesc(c)+"\"";}
    l+="],\"sigs\":[";first=true;for(auto c:s.sigs){l+=(first?"":",");first=false;l+="\""+fmt("%llx",(unsigned long long)c)+"\"";}
    l+="]}\n"; if(s.f){fputs(l.c_str(),s.f);fclose(s.f);}
    if(s.opt.verbose||!s.f)fprintf(stderr,"evals=%llu viol=%llu distinct=%zu\n",(unsigned long long)s.evals,(unsigned long long)s.nviol,s.sigs.size());
    return 0;
}

} // VH
extern "C" inline __attribute__((used)) void vh_fail_hook(const char*k,const char*m){ VH::fail(k,m); }
extern "C" inline __attribute__((used)) void vh_monitor_hook(const char*w,unsigned long n){ VH::monitor(w,n); }
#ifdef VH_UBSAN
// undefined-behaviour monitor: every report of the UBSan runtime whose source location is not in a third-party header becomes a violation of the running case
extern "C" void __ubsan_get_current_report_data(const char**,const char**,const char**,unsigned*,unsigned*,char**);
extern "C" inline __attribute__((used)) void __ubsan_on_report(){ const char*k="",*m="",*f="";unsigned l=0,c=0;char*a=0; __ubsan_get_current_report_data(&k,&m,&f,&l,&c,&a); std::string F=f?f:""; bool third=F.find("/usr/include/givaro")!=std::string::npos||F.find("/usr/include/recint")!=std::string::npos||F.find("gmpxx")!=std::string::npos; VH::monitor(third?"ub_reports_in_third_party_headers":"ub_reports",1); if(third)return; size_t q=F.rfind("fflas-ffpack/"); std::string loc=q==std::string::npos?F:F.substr(q+13); VH::fail(std::string("sanitizer: ")+k+" @ "+loc,F+":"+std::to_string(l)+": "+m); }
#endif
inline void vhTick(VH::u64&a,VH::u64&b){ VH::Rng q(VH::fakeClock()); VH::fakeClock()=q.next()|1; a=q.next()>>34; b=q.next(); }
extern "C" inline __attribute__((used)) int gettimeofday(struct timeval*tv,void*) noexcept { VH::u64 a,b; vhTick(a,b); tv->tv_sec=(time_t)a; tv->tv_usec=(long)(b%1000000); return 0; }
extern "C" inline __attribute__((used)) int timespec_get(struct timespec*ts,int base) noexcept { VH::u64 a,b; vhTick(a,b); ts->tv_sec=(time_t)a; ts->tv_nsec=(long)(b%1000000000); return base; }
namespace VH {
// ------------------------------------------------------------------ oracle rings
typedef Givaro::Integer Integer;
struct RingU { // Z/pZ, p < 2^34
    typedef u64 Val; typedef u128 Acc; u64 p;
    explicit RingU(u64 q=2):p(q){}
    Val zero()const{return 0;} Val one()const{return 1%p;}
    Val add(Val a,Val b)const{u64 c=a+b;return c>=p?c-p:c;} Val sub(Val a,Val b)const{return a>=b?a-b:a+p-b;}
    Val mul(Val a,Val b)const{return (u128)a*b%p;} Val neg(Val a)const{return a?p-a:0;}
    Val inv(Val a)const{ i64 r0=(i64)p,r1=(i64)a,t0=0,t1=1; while(r1){i64 q=r0/r1;i64 t=r0-q*r1;r0=r1;r1=t;t=t0-q*t1;t0=t1;t1=t;} return t0<0?(u64)(t0+(i64)p):(u64)t0; }
    void acc0(Acc&x)const{x=0;} void axpy(Acc&x,Val a,Val b)const{x+=(u128)a*b;} Val red(const Acc&x)const{return (u64)(x%p);}
    bool isz(Val a)const{return a==0;} static std::string str(Val a){return std::to_string(a);}
    Val fromI(i64 v)const{ i64 r=v%(i64)p; return r<0?(u64)(r+(i64)p):(u64)r; }
    Val rnd(Rng&r)const{return r.below(p);}
};
struct RingZ { // Z/pZ for any p, or Z when p==0
    typedef Integer Val; typedef Integer Acc; Integer p;
    explicit RingZ(const Integer&q=0):p(q){}
    Val nrm(Val a)const{ if(p!=0){ a%=p; if(a<0)a+=p; } return a; }
    Val zero()const{return 0;} Val one()const{return nrm(1);}
    Val add(const Val&a,const Val&b)const{return nrm(a+b);} Val sub(const Val&a,const Val&b)const{return nrm(a-b);} Val mul(const Val&a,const Val&b)const{return nrm(a*b);} Val neg(const Val&a)const{return nrm(-a);}
    Val inv(const Val&a)const{ mpz_class r; mpz_class A(a.get_mpz_const()),P(p.get_mpz_const()); mpz_invert(r.get_mpz_t(),A.get_mpz_t(),P.get_mpz_t()); Integer x; mpz_set((mpz_ptr)x.get_mpz(),r.get_mpz_t()); return x; }
    void acc0(Acc&x)const{x=0;} void axpy(Acc&x,const Val&a,const Val&b)const{Integer::axpyin(x,a,b);} Val red(const Acc&x)const{return nrm(x);}
    bool isz(const Val&a)const{return a==0;} static std::string str(const Val&a){return std::string(a);}
    Val fromI(i64 v)const{return nrm(Integer((int64_t)v));}
    Val rnd(Rng&r)const{ return rndbits(r,p==0?Integer(1)<<64:p); }
    static Integer rndbits(Rng&r,const Integer&b){ Integer x=0; size_t w=b.size_in_base(2)/64+2; for(size_t i=0;i<w;i++){x<<=64; x+=Integer((uint64_t)r.next());} return x%b; }
};
struct RingW { // machine-word integers, exact as long as values fit (arithmetic modulo 2^64)
    typedef i64 Val; typedef u64 Acc; i64 p=0;
    explicit RingW(i64=0){}
    Val zero()const{return 0;} Val one()const{return 1;}
    Val add(Val a,Val b)const{return (i64)((u64)a+(u64)b);} Val sub(Val a,Val b)const{return (i64)((u64)a-(u64)b);} Val mul(Val a,Val b)const{return (i64)((u64)a*(u64)b);} Val neg(Val a)const{return (i64)(0-(u64)a);}
    Val inv(Val a)const{return a;}
    void acc0(Acc&x)const{x=0;} void axpy(Acc&x,Val a,Val b)const{x+=(u64)a*(u64)b;} Val red(const Acc&x)const{return (i64)x;}
    bool isz(Val a)const{return a==0;} static std::string str(Val a){return std::to_string(a);}
    Val fromI(i64 v)const{return v;} Val rnd(Rng&r)const{return (i64)r.below(8)-4;}
};
typedef Givaro::GFqDom<int64_t> GFq;
struct RingG { // GF(q) through Givaro's scalar operations
    typedef i64 Val; typedef i64 Acc; u64 p; const GFq*f; explicit RingG(const GFq*g=nullptr):p(g?(u64)g->cardinality():0),f(g){}
    Val zero()const{return f->zero;} Val one()const{return f->one;} Val add(Val a,Val b)const{i64 c;f->add(c,a,b);return c;} Val sub(Val a,Val b)const{i64 c;f->sub(c,a,b);return c;} Val mul(Val a,Val b)const{i64 c;f->mul(c,a,b);return c;} Val neg(Val a)const{i64 c;f->neg(c,a);return c;} Val inv(Val a)const{i64 c;f->inv(c,a);return c;}
    void acc0(Acc&x)const{x=f->zero;} void axpy(Acc&x,Val a,Val b)const{ x=add(x,mul(a,b)); } Val red(const Acc&x)const{return x;} bool isz(Val a)const{return a==f->zero;} static std::string str(Val a){return std::to_string(a);}
    Val fromI(i64 v)const{ i64 c; i64 ch=(i64)f->characteristic(); v%=ch; if(v<0)v+=ch; f->init(c,(int64_t)v); return c; } Val rnd(Rng&r)const{ return (i64)r.below(p); }
};
template<class R> struct OMat { size_t m=0,n=0; std::vector<typename R::Val> a; OMat(){} OMat(size_t M,size_t N):m(M),n(N),a(M*N,typename R::Val(0)){} 
    typename R::Val& operator()(size_t i,size_t j){return a[i*n+j];} const typename R::Val& operator()(size_t i,size_t j)const{return a[i*n+j];} };
template<class R> OMat<R> otrans(const OMat<R>&A){OMat<R> B(A.n,A.m);for(size_t i=0;i<A.m;i++)for(size_t j=0;j<A.n;j++)B(j,i)=A(i,j);return B;}
template<class R> OMat<R> oid(const R&r,size_t n){OMat<R> I(n,n);for(size_t i=0;i<n;i++)I(i,i)=r.one();return I;}
template<class R> OMat<R> omul(const R&r,const OMat<R>&A,const OMat<R>&B){
    OMat<R> C(A.m,B.n); std::vector<typename R::Acc> acc(B.n);
    for(size_t i=0;i<A.m;i++){ for(auto&x:acc)r.acc0(x); for(size_t l=0;l<A.n;l++){ const auto&v=A(i,l); if(r.isz(v))continue; const typename R::Val*b=B.a.data()+l*B.n; for(size_t j=0;j<B.n;j++)r.axpy(acc[j],v,b[j]); } for(size_t j=0;j<B.n;j++)C(i,j)=r.red(acc[j]); }
    return C;}
#ifdef __GNUC__
__attribute__((optimize("O3"))) __attribute__((noinline))
#endif
inline OMat<RingU> omul(const RingU&r,const OMat<RingU>&A,const OMat<RingU>&B){ // fast path: 64-bit blocked accumulation
    OMat<RingU> C(A.m,B.n); u64 q=r.p-1; bool fast=r.p<(1ull<<31); size_t blk= fast&&q? (size_t)std::min<u64>((~0ull-r.p)/(q*q?q*q:1),1u<<20):0; std::vector<u64> acc(B.n); std::vector<u128> wac(fast?0:B.n);
    for(size_t i=0;i<A.m;i++){ if(fast){ std::fill(acc.begin(),acc.end(),0); size_t c=0; for(size_t l=0;l<A.n;l++){ u64 v=A(i,l); if(!v)continue; const u64*b=B.a.data()+l*B.n; u64*w=acc.data(); for(size_t j=0;j<B.n;j++)w[j]+=(u64)(uint32_t)v*(u64)(uint32_t)b[j]; if(++c==blk){c=0;for(auto&x:acc)x%=r.p;} } for(size_t j=0;j<B.n;j++)C(i,j)=acc[j]%r.p; }
        else { std::fill(wac.begin(),wac.end(),0); for(size_t l=0;l<A.n;l++){ u64 v=A(i,l); if(!v)continue; const u64*b=B.a.data()+l*B.n; for(size_t j=0;j<B.n;j++)wac[j]+=(u128)v*b[j]; } for(size_t j=0;j<B.n;j++)C(i,j)=(u64)(wac[j]%r.p); } }
    return C;}
template<class R> OMat<R> oadd(const R&r,OMat<R> A,const OMat<R>&B){for(size_t i=0;i<A.a.size();i++)A.a[i]=r.add(A.a[i],B.a[i]);return A;}
template<class R> OMat<R> osub(const R&r,OMat<R> A,const OMat<R>&B){for(size_t i=0;i<A.a.size();i++)A.a[i]=r.sub(A.a[i],B.a[i]);return A;}
template<class R> OMat<R> oscal(const R&r,const typename R::Val&s,OMat<R> A){for(auto&x:A.a)x=r.mul(s,x);return A;}
// Rank profile matrix by row elimination in order: each row is reduced left to right by earlier pivot rows, its pivot is the first
// surviving column. This is an L*R*U decomposition, hence (Bruhat uniqueness) R is the rank profile matrix.
template<class R> struct Gauss { size_t rank=0; std::vector<size_t> prow,pcol; };
template<class R> Gauss<R> ogauss(const R&r,OMat<R> A){
    Gauss<R> g; const size_t NO=(size_t)-1; std::vector<size_t> cp(A.n,NO);
    for(size_t i=0;i<A.m;i++) for(size_t j=0;j<A.n;j++){ if(r.isz(A(i,j)))continue;
        if(cp[j]!=NO){ auto c=r.neg(A(i,j)); size_t q=cp[j]; for(size_t k=j;k<A.n;k++)A(i,k)=r.add(A(i,k),r.mul(c,A(q,k))); }
        else { auto iv=r.inv(A(i,j)); for(size_t k=j;k<A.n;k++)A(i,k)=r.mul(iv,A(i,k)); cp[j]=i; g.prow.push_back(i); g.pcol.push_back(j); break; } }
    g.rank=g.prow.size(); return g;}
template<class R> size_t orank(const R&r,OMat<R> A){ size_t k=0; for(size_t j=0;j<A.n&&k<A.m;j++){ size_t i=k;while(i<A.m&&r.isz(A(i,j)))i++; if(i==A.m)continue; if(i!=k)for(size_t c=0;c<A.n;c++)std::swap(A(i,c),A(k,c)); auto iv=r.inv(A(k,j)); for(size_t q=k+1;q<A.m;q++){ if(r.isz(A(q,j)))continue; auto f=r.neg(r.mul(A(q,j),iv)); for(size_t c=j;c<A.n;c++)A(q,c)=r.add(A(q,c),r.mul(f,A(k,c))); } k++; } return k; }
// reduced row echelon form; returns rank and fills pivots
template<class R> size_t orref(const R&r,OMat<R>&A,std::vector<size_t>*piv=nullptr){ size_t k=0; for(size_t j=0;j<A.n&&k<A.m;j++){ size_t i=k;while(i<A.m&&r.isz(A(i,j)))i++; if(i==A.m)continue; if(i!=k)for(size_t c=0;c<A.n;c++)std::swap(A(i,c),A(k,c)); auto iv=r.inv(A(k,j)); for(size_t c=j;c<A.n;c++)A(k,c)=r.mul(iv,A(k,c)); for(size_t q=0;q<A.m;q++){ if(q==k||r.isz(A(q,j)))continue; auto f=r.neg(A(q,j)); for(size_t c=j;c<A.n;c++)A(q,c)=r.add(A(q,c),r.mul(f,A(k,c))); } if(piv)piv->push_back(j); k++; } return k; }
template<class R> typename R::Val odet(const R&r,OMat<R> A){ typename R::Val d=r.one(); size_t n=A.n; for(size_t j=0;j<n;j++){ size_t i=j;while(i<n&&r.isz(A(i,j)))i++; if(i==n)return r.zero(); if(i!=j){for(size_t c=0;c<n;c++)std::swap(A(i,c),A(j,c));d=r.neg(d);} d=r.mul(d,A(j,j)); auto iv=r.inv(A(j,j)); for(size_t q=j+1;q<n;q++){ if(r.isz(A(q,j)))continue; auto f=r.neg(r.mul(A(q,j),iv)); for(size_t c=j;c<n;c++)A(q,c)=r.add(A(q,c),r.mul(f,A(j,c))); } } return d; }
// characteristic polynomial via Hessenberg reduction (any field); coefficients low to high, monic
template<class R> std::vector<typename R::Val> ocharpoly(const R&r,OMat<R> A){
    typedef typename R::Val V; size_t n=A.n;
    for(size_t k=1;k+1<n;k++){ size_t i=k;while(i<n&&r.isz(A(i,k-1)))i++; if(i==n)continue; if(i!=k){for(size_t c=0;c<n;c++)std::swap(A(i,c),A(k,c));for(size_t c=0;c<n;c++)std::swap(A(c,i),A(c,k));}
        V iv=r.inv(A(k,k-1)); for(size_t q=k+1;q<n;q++){ if(r.isz(A(q,k-1)))continue; V f=r.mul(A(q,k-1),iv),nf=r.neg(f); for(size_t c=0;c<n;c++)A(q,c)=r.add(A(q,c),r.mul(nf,A(k,c))); for(size_t c=0;c<n;c++)A(c,k)=r.add(A(c,k),r.mul(f,A(c,q))); } }
    std::vector<std::vector<V>> P(n+1); P[0]={r.one()};
    for(size_t k=1;k<=n;k++){ std::vector<V> q(k+1,r.zero()); for(size_t i=0;i<k;i++){ q[i+1]=r.add(q[i+1],P[k-1][i]); q[i]=r.sub(q[i],r.mul(A(k-1,k-1),P[k-1][i])); }
        V t=r.one(); for(size_t i=1;i<k;i++){ t=r.mul(t,A(k-i,k-i-1)); V c=r.mul(t,A(k-i-1,k-1)); if(r.isz(c))continue; for(size_t j=0;j<P[k-i-1].size();j++)q[j]=r.sub(q[j],r.mul(c,P[k-i-1][j])); }
        P[k]=q; }
    return P[n]; }

// ------------------------------------------------------------------ fields
template<class F> struct FT; // Ring, name, setup
template<class E> struct isArith: std::integral_constant<bool,std::is_arithmetic<E>::value>{};
template<class F,bool W> struct FTbase;
template<class F> inline bool balanced(){return false;}
#define VH_WORD(FIELD,NAME,BAL) template<> struct FT<FIELD>{ typedef RingU Ring; static const char*name(){return NAME;} static constexpr bool bal=BAL; static constexpr bool word=true;};
VH_WORD(Givaro::Modular<double>,"Modular<double>",false)
VH_WORD(Givaro::Modular<float>,"Modular<float>",false)
VH_WORD(Givaro::ModularBalanced<double>,"ModularBalanced<double>",true)
VH_WORD(Givaro::ModularBalanced<float>,"ModularBalanced<float>",true)
VH_WORD(Givaro::Modular<int32_t>,"Modular<int32>",false)
VH_WORD(Givaro::Modular<int64_t>,"Modular<int64>",false)
VH_WORD(Givaro::ModularBalanced<int32_t>,"ModularBalanced<int32>",true)
VH_WORD(Givaro::ModularBalanced<int64_t>,"ModularBalanced<int64>",true)
#define VH_BIG(FIELD,NAME) template<> struct FT<FIELD>{ typedef RingZ Ring; static const char*name(){return NAME;} static constexpr bool bal=false; static constexpr bool word=false;};
typedef Givaro::Modular<Givaro::Integer> ModInteger;
typedef Givaro::ZRing<Givaro::Integer> ZInteger;
typedef Givaro::Modular<RecInt::ruint<7>,RecInt::ruint<8>> ModR7_8;
typedef Givaro::Modular<RecInt::ruint<7>> ModR7;
typedef Givaro::Modular<RecInt::rint<7>> ModSR7;
typedef Givaro::Modular<RecInt::rint<8>> ModSR8;
VH_BIG(ModInteger,"Modular<Integer>") VH_BIG(ZInteger,"ZRing<Integer>")
VH_BIG(ModR7_8,"Modular<ruint7,ruint8>") VH_BIG(ModR7,"Modular<ruint7>") VH_BIG(ModSR7,"Modular<rint7>") VH_BIG(ModSR8,"Modular<rint8>")
#define VH_ZW(FIELD,NAME) template<> struct FT<FIELD>{ typedef RingW Ring; static const char*name(){return NAME;} static constexpr bool bal=false; static constexpr bool word=false;};
template<> struct FT<GFq>{ typedef RingG Ring; static const char*name(){return "GFqDom<int64>";} static constexpr bool bal=false; static constexpr bool word=false;};
VH_ZW(Givaro::ZRing<double>,"ZRing<double>") VH_ZW(Givaro::ZRing<float>,"ZRing<float>") VH_ZW(Givaro::ZRing<int32_t>,"ZRing<int32>") VH_ZW(Givaro::ZRing<int64_t>,"ZRing<int64>")

#ifndef VTAG
#define VTAG ""
#endif
#ifndef FIELD_ID
#define FIELD_ID 1
#endif
#if FIELD_ID==1
typedef Givaro::Modular<double> TheField;
#elif FIELD_ID==2
typedef Givaro::Modular<float> TheField;
#elif FIELD_ID==3
typedef Givaro::ModularBalanced<double> TheField;
#elif FIELD_ID==4
typedef Givaro::ModularBalanced<float> TheField;
#elif FIELD_ID==5
typedef Givaro::Modular<int32_t> TheField;
#elif FIELD_ID==6
typedef Givaro::Modular<int64_t> TheField;
#elif FIELD_ID==7
typedef Givaro::ModularBalanced<int32_t> TheField;
#elif FIELD_ID==8
typedef Givaro::ModularBalanced<int64_t> TheField;
#elif FIELD_ID==9
typedef ModInteger TheField;
#elif FIELD_ID==10
typedef ZInteger TheField;
#elif FIELD_ID==11
typedef ModR7_8 TheField;
#elif FIELD_ID==12
typedef ModR7 TheField;
#elif FIELD_ID==13
typedef ModSR7 TheField;
#elif FIELD_ID==14
typedef ModSR8 TheField;
#elif FIELD_ID==31
typedef GFq TheField;
#elif FIELD_ID==21
typedef Givaro::ZRing<double> TheField;
#elif FIELD_ID==22
typedef Givaro::ZRing<float> TheField;
#elif FIELD_ID==23
typedef Givaro::ZRing<int32_t> TheField;
#elif FIELD_ID==24
typedef Givaro::ZRing<int64_t> TheField;
#endif

// element -> oracle value, checking canonical representation for word fields
template<class Ring,class Field> struct Conv {
    // multiprecision
    static typename Ring::Val to(const Field&F,const Ring&R,const typename Field::Element&x,bool&canon){ Integer z; F.convert(z,x); canon = (R.p==0)||(z>=0&&z<R.p); return R.nrm(z); }
    static void from(const Field&F,const Ring&,const typename Ring::Val&v,typename Field::Element&x){ F.init(x,v); }
};
template<class Field> struct Conv<RingU,Field> {
    typedef typename Field::Element E;
    static u64 to(const Field&F,const RingU&R,const E&x,bool&canon){
        if(std::is_floating_point<E>::value){ if(!std::isfinite((double)x)||(double)x!=std::floor((double)x)||std::fabs((double)x)>9.0e18){canon=false;return 0;} }
        i64 v=(i64)x; i64 p=(i64)R.p;
        if(FT<Field>::bal){ i64 hi=p/2, lo=hi+1-p; canon=(v>=lo&&v<=hi);} else canon=(v>=0&&v<p);
        return R.fromI(v);
    }
    static void from(const Field&F,const RingU&R,u64 v,E&x){ if(FT<Field>::bal){ i64 hi=(i64)R.p/2; i64 w=(i64)v; if(w>hi)w-=(i64)R.p; x=(E)w; } else x=(E)v; }
};
// ZRing<Integer>
template<> struct Conv<RingZ,Givaro::ZRing<Integer>> { typedef Givaro::ZRing<Integer> Field;
    static Integer to(const Field&,const RingZ&,const Integer&x,bool&canon){ canon=true; return x; }
    static void from(const Field&,const RingZ&,const Integer&v,Integer&x){ x=v; } };
// ZRing over machine words
template<class E> struct Conv<RingW,Givaro::ZRing<E>> { typedef Givaro::ZRing<E> Field;
    static i64 to(const Field&,const RingW&,const E&x,bool&canon){ canon=true; if(std::is_floating_point<E>::value&&(!std::isfinite((double)x)||(double)x!=std::floor((double)x)||std::fabs((double)x)>9e18)){canon=false;return 0;} return (i64)x; }
    static void from(const Field&,const RingW&,i64 v,E&x){ x=(E)v; } };

template<> struct Conv<RingG,GFq> { static i64 to(const GFq&F,const RingG&R,const i64&x,bool&canon){ canon=(x>=0&&(u64)x<R.p); return canon?x:0; } static void from(const GFq&,const RingG&,i64 v,i64&x){x=v;} };
template<class Field> struct Env { // a field instance + oracle ring
    typedef typename FT<Field>::Ring Ring; typedef typename Ring::Val Val; typedef typename Field::Element E;
    Field F; Ring R; std::string nm;
    Env(const Field&f,const Ring&r):F(f),R(r){ nm=FT<Field>::name(); }
    Val to(const E&x,bool&canon)const{ return Conv<Ring,Field>::to(F,R,x,canon);} 
    Val to(const E&x)const{ bool c; return to(x,c);} 
    void from(const Val&v,E&x)const{ Conv<Ring,Field>::from(F,R,v,x);} 
    E el(const Val&v)const{ E x; F.init(x); from(v,x); return x; }
};
// advertised limits of each word-size field
template<class Field> inline u64 maxCard(){ return (u64)Field::maxCardinality(); }
template<> inline u64 maxCard<Givaro::Modular<int64_t>>(){return 3037000500ull;}
template<> inline u64 maxCard<Givaro::Modular<int32_t>>(){return 46341;}
// one case in 16 is tiny throughout: dimensions up to 4 over the smallest fields, where whole input spaces get visited
inline bool tinyCase(){
#ifdef VH_DELAYP
    return false;
#else
    u64 h=(S().k+1)*0xA24BAED4963EE407ull^S().opt.seed*0x9FB21C651E98DF25ull; h^=h>>31; h*=0xD6E8FEB86659FD93ull; h^=h>>32; return h%16==3;
#endif
}
// characteristic selection. mode: 0 any mix; 1 small; 2 limit
template<class Field> u64 pickPrime(Rng&r,int mode=0,u64 minp=2){
    u64 mx=maxCard<Field>(); u64 lo=FT<Field>::bal?3:2; if(minp>lo)lo=minp; u64 p;
    if(mode==0&&lo<=3&&tinyCase()) return lo==2&&r.coin(2,3)?2:r.coin(2,3)?3:5;
    unsigned w=mode==1?r.below(3):mode==2?9:r.below(10);
#ifdef VH_DELAYP
    // moduli for which k products fit the exact range exactly, with no room for one more representable value
    if(mode!=1&&r.coin(1,6)){ typedef typename Field::Element E; static std::vector<u64>*tl=nullptr; if(!tl){ tl=new std::vector<u64>; for(int h=0;h<2;h++){ if(h&&(std::is_integral<E>::value||sizeof(E)<8))break; long double L=std::is_integral<E>::value?ldexpl(1,8*sizeof(E)-1)-1:(h||sizeof(E)<8)?16777216.0L:9007199254740992.0L; for(u64 q=1;q<=100;q++){ u64 c=(u64)sqrtl((L+1)/q); while((long double)q*c*c>L+1)c--; while((long double)q*(c+1)*(c+1)<=L+1)c++; u64 x=FT<Field>::bal?2*c+1:c+1; if((long double)q*c*c+c>L&&x<=mx&&x>2&&prevprime(x)==x)tl->push_back(x); } } }
        if(!tl->empty()){ u64 x=(*tl)[r.below(tl->size())]; if(x>=lo)return x; } }
    // moduli for which about k products fit the exact range, k small: the delayed kernels reduce every k terms
    if(mode!=1&&r.coin(3,4)){ typedef typename Field::Element E; double rng=std::is_integral<E>::value?ldexp(1.0,8*sizeof(E)-1):sizeof(E)==8?9007199254740992.0:16777216.0; if(sizeof(E)==8&&!std::is_integral<E>::value&&r.coin(1,6))rng=16777216.0; double k=r.coin()?r.range(1,8):r.range(1,80); double q=sqrt(rng/k)*(FT<Field>::bal?2:1)+(r.coin(1,2)?0:(r.coin()?-1.0:1.0)*r.below(40)); if(q<3)q=3; u64 x=prevprime(std::min<u64>(mx,(u64)q)); if(x>=lo)return x; }
#endif
    do {
        if(w==0)p=r.pick({2,3,5,7}); else if(w<=1)p=prevprime(r.range(7,40)); else if(w<=2)p=prevprime(r.range(40,1000)); else if(w<=3)p=prevprime(std::min<u64>(mx,r.range(1000,70000)));
        else if(w<=5){ unsigned lb=64-__builtin_clzll(mx); u64 bits=r.range(2,lb); u64 h=std::min<u64>(mx,(1ull<<bits)-1); p=prevprime(std::max<u64>(3,h-r.below(h/2))); }
        else if(w<=6){ p=prevprime(r.coin()?mx/2:mx/4);} else { p=prevprime(mx); if(w==7&&p>100)p=prevprime(p-1); }
        if(p>mx)p=prevprime(mx);
        if(p<lo)w=r.below(10);
    } while(p<lo);
    return p; }
template<class Field> typename std::enable_if<FT<Field>::word,Env<Field>>::type mkEnv(Rng&r,int mode=0,u64 minp=2){ u64 p=pickPrime<Field>(r,mode,minp); typedef typename Field::Residu_t T; return Env<Field>(Field((T)p),RingU(p)); }
template<class Field> Env<Field> mkEnvP(u64 p){ typedef typename Field::Residu_t T; return Env<Field>(Field((T)p),RingU(p)); }
inline Integer bigPrime(Rng&r,unsigned bits){ Integer x=RingZ::rndbits(r,Integer(1)<<(bits-1))+(Integer(1)<<(bits-1)); mpz_class z(x.get_mpz_const()),y; mpz_class half=(mpz_class(1)<<bits); mpz_nextprime(y.get_mpz_t(),z.get_mpz_t()); while(y>=half){ z=y-1; // search downwards
        do{ z-=1; }while(!mpz_probab_prime_p(z.get_mpz_t(),25)); y=z; } Integer p; mpz_set((mpz_ptr)p.get_mpz(),y.get_mpz_t()); return p; }

// ------------------------------------------------------------------ guarded matrices
// Storage exactly as large as dimensions+ld require; when not under ASan there are extra guard cells before and after.
template<class Field> struct GM {
    typedef typename Field::Element E; typedef Env<Field> En; typedef OMat<typename FT<Field>::Ring> O;
    const En*en; size_t m,n,ld,off,tot; E*raw=nullptr; E*p=nullptr; std::vector<E> snap; std::string nm; void*mem=nullptr; bool al64=false;
    GM(const GM&)=delete; GM&operator=(const GM&)=delete;
    // align: -1 random misalignment allowed by the element type; otherwise aligned on 64 bytes
    GM(const En&e,const char*name,size_t M,size_t N,size_t LD,Rng&r,bool align64=false):en(&e),m(M),n(N),ld(LD),nm(name){
        size_t core=(m&&n)?(m-1)*ld+n:0;
#ifdef VH_ASAN
        size_t g0=0,g1=0;
#else
        size_t g0=16,g1=16; if(!align64) g0+=r.below(8);
#endif
        off=g0; tot=g0+core+g1; al64=align64;
        alloc(tot,r);
        p=raw+off; for(size_t i=0;i<tot;i++)canary(raw[i],i);
    }
    template<class T=E> typename std::enable_if<isArith<T>::value>::type alloc(size_t t,Rng&){
#ifdef VH_ASAN
        if(al64){ if(posix_memalign(&mem,64,(t?t:1)*sizeof(E)))abort(); raw=(E*)mem; } else { raw=(E*)malloc(t?t*sizeof(E):1); mem=raw; }
#else
        if(posix_memalign(&mem,64,(t?t:1)*sizeof(E)))abort(); raw=(E*)mem;
#endif
    }
    template<class T=E> typename std::enable_if<!isArith<T>::value>::type alloc(size_t t,Rng&){ raw=new E[t?t:1]; }
    ~GM(){ dealloc(); }
    template<class T=E> typename std::enable_if<isArith<T>::value>::type dealloc(){ free(mem);} 
    template<class T=E> typename std::enable_if<!isArith<T>::value>::type dealloc(){ delete[] raw; }
    static void canary(double&x,size_t i){ u64 b=0x7ff8dead00000000ull|(i&0xffff); memcpy(&x,&b,8);} static void canary(float&x,size_t i){ uint32_t b=0x7fc00000u|(i&0xfff)|0x1000; memcpy(&x,&b,4);} 
    static void canary(int32_t&x,size_t i){ x=(int32_t)(0x5a5a0000u+(i&0xffff)); } static void canary(int64_t&x,size_t i){ x=(int64_t)(0x5a5a5a5a00000000ull+(i&0xffff)); }
    template<class T> static void canary(T&x,size_t i){ x=T((uint64_t)(0x5a5a5a0000ull+(i&0xffff))); }
    static bool same(const E&a,const E&b){ return same_(a,b,typename isArith<E>::type()); }
    static bool same_(const E&a,const E&b,std::true_type){ return memcmp(&a,&b,sizeof(E))==0; } static bool same_(const E&a,const E&b,std::false_type){ return a==b; }
    E&at(size_t i,size_t j){return p[i*ld+j];} const E&at(size_t i,size_t j)const{return p[i*ld+j];}
    void set(const O&o){ for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++)en->from(o(i,j),at(i,j)); }
    void set(size_t i,size_t j,const typename En::Val&v){ en->from(v,at(i,j)); }
    void garbage(){ for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++)canary(at(i,j),i*131+j*7); }
    void garbage(size_t i,size_t j){ canary(at(i,j),i*131+j*7); }
    void freeze(){ snap.assign(raw,raw+tot); }
    // every cell outside allowed(i,j) must be bitwise what it was at freeze()
    template<class P> bool frame(P allowed,const char*what="frame"){
        size_t chk=0; for(size_t x=0;x<tot;x++){ bool in=false; size_t i=0,j=0; if(x>=off&&m&&n){ size_t y=x-off; i=y/ld; j=y%ld; in=(i<m&&j<n); } if(in&&allowed(i,j))continue; chk++;
            if(!same(raw[x],snap[x])){ fail(what,fmt("%s: cell %s(%ld) row %zu col %zu (dims %zux%zu ld %zu) modified although it must not be",nm.c_str(),in?"matrix":"padding",(long)x-(long)off,i,j,m,n,ld)); monitor("frame_cells",chk); return false; } }
        monitor("frame_cells",chk); return true; }
    bool frameAll(){ return frame([](size_t,size_t){return true;}); }
    bool unchanged(){ return frame([](size_t,size_t){return false;},"const-operand"); }
    // extract, requiring canonical entries where need(i,j)
    template<class P> O get(P need,bool report=true){ O o(m,n); size_t c=0; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ if(!need(i,j))continue; bool can=true; o(i,j)=en->to(at(i,j),can); c++; if(!can&&report){ fail("non-canonical",fmt("%s(%zu,%zu) = %s is not a canonical element (p=%s)",nm.c_str(),i,j,show(at(i,j)).c_str(),FT<Field>::Ring::str(en->R.p).c_str())); throw CaseAbort(); } } monitor("entries_read",c); return o; }
    O get(bool report=true){ return get([](size_t,size_t){return true;},report);} 
    static std::string show(const E&x){ return show_(x,typename isArith<E>::type()); }
    static std::string show_(const E&x,std::true_type){ return fmt("%.17g",(double)x);} static std::string show_(const E&x,std::false_type){ return "<big>"; }
};
template<class R,class P> bool ocompare(const R&r,const OMat<R>&got,const OMat<R>&want,P care,const char*what){ u64 c=0; for(size_t i=0;i<want.m;i++)for(size_t j=0;j<want.n;j++){ if(!care(i,j))continue; c++; if(got(i,j)!=want(i,j)){ fail(what,fmt("entry (%zu,%zu) is %s, expected %s (mod %s)",i,j,R::str(got(i,j)).c_str(),R::str(want(i,j)).c_str(),R::str(r.p).c_str())); monitor("entries_compared",c); return false; } } monitor("entries_compared",c); return true; }
template<class R> bool ocompare(const R&r,const OMat<R>&got,const OMat<R>&want,const char*what="wrong-result"){ if(got.m!=want.m||got.n!=want.n){fail(what,"shape");return false;} return ocompare(r,got,want,[](size_t,size_t){return true;},what); }

// ------------------------------------------------------------------ value generators
// kinds: 0 uniform, 1 all-max (extreme magnitude), 2 random extremes, 3 sparse, 4 small, 5 zero, 6 mixed
inline typename RingU::Val xval(const RingU&R,Rng&r,int kind,bool bal){ u64 p=R.p; switch(kind){ case 0: return r.below(p); case 1: return bal?p/2:p-1; case 2:{ if(bal) return r.pick({p/2,(p/2+1)%p}); return r.coin(1,16)?(p>1?p-2:0)%p:p-1; } case 3: return r.coin(1,8)?r.below(p):0; case 4: return r.below(std::min<u64>(p,3)); case 5: return 0; default: return r.pick({(u64)0,1%p,p-1,p/2,(p/2+1)%p,r.below(p)}); } }
inline Integer xval(const RingZ&R,Rng&r,int kind,bool bal,unsigned bits=0){ Integer p=R.p; bool zz=(p==0); if(zz)p=Integer(1)<<(bits?bits:20); auto sgn=[&](Integer x){ if(zz&&r.coin())return Integer(-x); return x; }; switch(kind){ case 0: return sgn(RingZ::rndbits(r,p)); case 1: return p-1; case 2: return zz?sgn(p-1):(r.coin(1,16)?Integer(p-2):Integer(p-1)); case 3: return r.coin(1,8)?sgn(RingZ::rndbits(r,p)):Integer(0); case 4: return sgn(RingZ::rndbits(r,p<3?p:Integer(3))); case 5: return 0; default: { switch(r.below(5)){case 0:return 0;case 1:return sgn(1);case 2:return sgn(p-1);case 3:return sgn(p/2);default:return sgn(RingZ::rndbits(r,p));} } } }
template<class R> void ofill(const R&ring,OMat<R>&A,Rng&r,int kind,bool bal,unsigned bits=0);
// kind 7: blocks (halves or quarters in each direction) of constant extreme or zero values, the pattern that makes block differences and sums extremal
inline void blockFill(const RingU&R,OMat<RingU>&A,Rng&r,bool bal,const std::vector<u64>&vals){ typedef u64 V; size_t q=r.pick({2ul,2ul,4ul}); std::vector<V> t(q*q); for(auto&x:t)x=vals[r.below(vals.size())]; size_t hm=A.m/q,hn=A.n/q; for(size_t i=0;i<A.m;i++)for(size_t j=0;j<A.n;j++){ size_t a=hm?std::min(i/hm,q-1):0,b=hn?std::min(j/hn,q-1):0; u64 v=t[a*q+b]; if(v&&R.p>7&&r.coin(1,4)){ if(bal&&v>R.p/2)v++; else v--; } /* odd sums: rounding must show */ A(i,j)=v; } }
template<> inline void ofill<RingU>(const RingU&R,OMat<RingU>&A,Rng&r,int kind,bool bal,unsigned){ if(kind==8){ /* extreme values of one sign, a few entries aside: long sums reach their bound from every residue */ u64 p=R.p,v=bal?(r.coin()?p/2:(p/2+1)%p):p-1; u64 den=r.pick({6,20,60}); for(auto&x:A.a)x=r.coin(1,den)?r.below(p):v; return; } if(kind==7){ u64 p=R.p; blockFill(R,A,r,bal,bal?std::vector<u64>{p/2,(p/2+1)%p,0,p/2,(p/2+1)%p}:std::vector<u64>{p-1,p-1,0}); return; } for(auto&x:A.a)x=xval(R,r,kind,bal); }
inline i64 xval(const RingW&,Rng&r,int kind,bool,unsigned bits=0){ i64 h=((i64)1<<(bits?bits:8))-1; auto u=[&](){ return (i64)r.below(2*(u64)h+1)-h; }; switch(kind){case 0:return u();case 1:return h;case 2:return r.coin()?h:-h;case 3:return r.coin(1,8)?u():0;case 4:return (i64)r.below(3)-1;case 5:return 0;default:return r.pick({(i64)0,(i64)1,(i64)-1,h,-h,u()});} }
template<> inline void ofill<RingW>(const RingW&R,OMat<RingW>&A,Rng&r,int kind,bool bal,unsigned bits){ for(auto&x:A.a)x=xval(R,r,kind,bal,bits); }
template<> inline void ofill<RingZ>(const RingZ&R,OMat<RingZ>&A,Rng&r,int kind,bool bal,unsigned bits){ for(auto&x:A.a)x=xval(R,r,kind,bal,bits); }
inline i64 xval(const RingG&R,Rng&r,int kind,bool){ switch(kind){case 0:return R.rnd(r);case 1:return (i64)R.p-1;case 2:return r.coin()?(i64)R.p-1:R.one();case 3:return r.coin(1,8)?R.rnd(r):R.zero();case 4:return r.pick({R.zero(),R.one(),R.neg(R.one())});case 5:return R.zero();default:return r.pick({R.zero(),R.one(),R.neg(R.one()),R.rnd(r)});} }
template<> inline void ofill<RingG>(const RingG&R,OMat<RingG>&A,Rng&r,int kind,bool bal,unsigned){ for(auto&x:A.a)x=xval(R,r,kind,bal); }
inline int pickKind(Rng&r){ return r.pick({0,0,0,1,1,2,2,3,4,6,6,7,7,7,8,8}); }
template<class Field> typename Env<Field>::Val scalarVal(const Env<Field>&e,Rng&r,bool nonzero=false){ typedef typename Env<Field>::Val V; for(;;){ V v; switch(r.below(6)){case 0:v=e.R.one();break;case 1:v=e.R.neg(e.R.one());break;case 2:v=e.R.zero();break;default:v=e.R.rnd(r);} if(nonzero&&e.R.isz(v))continue; return v; } }
// matrix with given rank and given rank profile matrix: L * RPM * U with L unit lower, U unit upper
template<class R> OMat<R> orankmat(const R&ring,Rng&r,size_t m,size_t n,size_t rk,int style,std::vector<size_t>*rows=nullptr,std::vector<size_t>*cols=nullptr){
    std::vector<size_t> ri(m),ci(n); for(size_t i=0;i<m;i++)ri[i]=i; for(size_t i=0;i<n;i++)ci[i]=i;
    auto shuffle=[&](std::vector<size_t>&v){ for(size_t i=v.size();i>1;i--)std::swap(v[i-1],v[r.below(i)]); };
    // style 0: random; 1: trailing pivots; 2: leading diagonal; 3: anti-diagonal; 4: random rows with sorted cols; 
    switch(style){ case 0: shuffle(ri);shuffle(ci);break; case 1: std::reverse(ri.begin(),ri.end());std::reverse(ci.begin(),ci.end());break; case 2: break; case 3: std::reverse(ci.begin(),ci.end()); break; default: shuffle(ri);shuffle(ci); std::sort(ri.begin(),ri.begin()+rk);std::sort(ci.begin(),ci.begin()+rk); }
    // A = L(:,ri[t]) * U(ci[t],:) summed
    OMat<R> L(m,rk),U(rk,n); for(size_t t=0;t<rk;t++){ L(ri[t],t)=ring.one(); for(size_t i=ri[t]+1;i<m;i++)L(i,t)=ring.rnd(r); typename R::Val d; do d=ring.rnd(r); while(ring.isz(d)); U(t,ci[t])=d; for(size_t j=ci[t]+1;j<n;j++)U(t,j)=ring.rnd(r); }
    if(rows)rows->assign(ri.begin(),ri.begin()+rk); if(cols)cols->assign(ci.begin(),ci.begin()+rk);
    return omul(ring,L,U);
}
// leading dimension choice
inline size_t pickLd(Rng&r,size_t n){ switch(r.below(4)){case 0:case 1:return std::max<size_t>(n,1);case 2:return std::max<size_t>(n,1)+r.range(1,7);default:return std::max<size_t>(n,1)+r.range(1,40);} }
} // namespace VH
#endif
