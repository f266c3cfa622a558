// Concrete replay / bounded stand-in harness support. Compares the real library with a naive reference.
#ifndef HX_H
#define HX_H
#include "fflas-ffpack/fflas-ffpack-config.h"
#include <givaro/modular.h>
#include <givaro/modular-balanced.h>
#include <givaro/zring.h>
#include "fflas-ffpack/fflas-ffpack.h"
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <random>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <set>
#include <unistd.h>
#include <signal.h>
typedef long long ll; typedef __int128 LL;
#ifndef FIELD
#define FIELD 0
#endif
#if FIELD==0
typedef Givaro::Modular<double> Fd; static const char*FNAME="Modular<double>";
#elif FIELD==1
typedef Givaro::Modular<float> Fd; static const char*FNAME="Modular<float>";
#elif FIELD==2
typedef Givaro::Modular<int64_t> Fd; static const char*FNAME="Modular<int64_t>";
#elif FIELD==3
typedef Givaro::ModularBalanced<double> Fd; static const char*FNAME="ModularBalanced<double>";
#elif FIELD==4
typedef Givaro::ModularBalanced<int64_t> Fd; static const char*FNAME="ModularBalanced<int64_t>";
#elif FIELD==5
typedef Givaro::Modular<int32_t> Fd; static const char*FNAME="Modular<int32_t>";
#elif FIELD==6
typedef Givaro::ModularBalanced<float> Fd; static const char*FNAME="ModularBalanced<float>";
#elif FIELD==7
typedef Givaro::ModularBalanced<int32_t> Fd; static const char*FNAME="ModularBalanced<int32_t>";
#endif
typedef Fd::Element El;
using namespace FFLAS;
struct Rng{ uint64_t s; uint64_t next(){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);} 
 ll below(ll n){ return n<=0?0:(ll)(next()%(uint64_t)n);} ll in(ll a,ll b){return a+below(b-a+1);} template<class T> const T& pick(const std::vector<T>&v){return v[below(v.size())];} };
static Rng R;
static double T0=0; static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static ll NEVAL=0, NNONTRIV=0; static std::vector<std::string> SAMPLES; static std::string CUR;
static bool HAVEFAIL=false;
static char**ARGV=0; static double now(); static double BUDGET_LEFT();
[[noreturn]] static void fail(const std::string&why){
 // frame mode (C02): a wrong value is another property's business, go on with the next seed
 if(getenv("HX_ONLYFRAME")&&why.find("write outside")==std::string::npos&&why.find("odified")==std::string::npos&&why.find("changed")==std::string::npos&&why.find("guard")==std::string::npos){
  const char*s=getenv("VERIF_SEED"); setenv("VERIF_SEED",std::to_string((s?strtoull(s,0,10):1)*31+NEVAL+7).c_str(),1); double l=BUDGET_LEFT(); if(l<0.5||!ARGV){ std::cout<<"DONE "<<NEVAL<<" "<<NNONTRIV<<std::endl; std::_Exit(0);} setenv("HX_BUDGET",std::to_string(l).c_str(),1); std::cout<<std::flush; execv("/proc/self/exe",ARGV); }
 std::cout<<"FAIL "<<FNAME<<" "<<CUR<<" :: "<<why<<std::endl; std::_Exit(1); }
static void begin_case(const std::string&d,bool nontriv=true){ CUR=d; NEVAL++; if(nontriv)NNONTRIV++; if(SAMPLES.size()<3||(NEVAL%997==0&&SAMPLES.size()<6))SAMPLES.push_back(std::string(FNAME)+" "+d); }
static int finish(){ std::cout<<"DONE "<<NEVAL<<" "<<NNONTRIV<<std::endl; for(auto&s:SAMPLES) std::cout<<"SAMPLE "<<s<<std::endl; return 0; }
static double BUDGET=30; static double BUDGET_LEFT(){ return BUDGET-(now()-T0); } static uint64_t SEED=1; static int TIER=0;
static void hx_init(int argc,char**argv){ ARGV=argv; const char*e=getenv("VERIF_SEED"); if(e)SEED=strtoull(e,0,10); e=getenv("HX_BUDGET"); if(e)BUDGET=atof(e); e=getenv("VERIF_TIER"); if(e&&!strcmp(e,"thorough"))TIER=1; R.s=SEED*7919+FIELD*131; T0=now();
 alarm((unsigned)(BUDGET*4+120)); }
static bool time_left(double frac=1.0){ return now()-T0<BUDGET*frac; }
static void on_alarm(int){ std::cout<<"FAIL "<<FNAME<<" "<<CUR<<" :: does not terminate (time limit)"<<std::endl; std::_Exit(1);} 
#include <signal.h>
static void on_crash(int sig){ const char*m="FAIL "; (void)!write(1,m,5); (void)!write(1,FNAME,strlen(FNAME)); (void)!write(1," ",1); (void)!write(1,CUR.c_str(),CUR.size()); const char*m2=" :: crashed with signal\n"; (void)!write(1,m2,strlen(m2)); _Exit(1); }
#if defined(__SANITIZE_ADDRESS__)
#define HX_EXACT 1
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:abort_on_error=0:handle_segv=1:detect_odr_violation=0:allocator_may_return_null=1"; }
extern "C" void __asan_on_error(){ std::cout<<"FAIL "<<FNAME<<" "<<CUR<<" :: access outside an operand or temporary (guard, AddressSanitizer)"<<std::endl; std::_Exit(1); }
#endif
struct SigInit{ SigInit(){ for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL}) signal(s,on_crash); signal(SIGALRM,on_alarm);} } siginit;
// ---- residues
struct Ctx{ const Fd*F; ll p; };
static ll mod(LL x,ll p){ ll r=(ll)(x%p); return r<0?r+p:r; }
static ll mulm(ll a,ll b,ll p){ return (ll)((LL)a*b%p); }
static ll powm(ll a,ll e,ll p){ ll r=1%p; a%=p; while(e){ if(e&1)r=mulm(r,a,p); a=mulm(a,a,p); e>>=1;} return r; }
static ll invm(ll a,ll p){ return powm(a,p-2,p); }
static ll toll(El x){ return (ll)x; }
static ll res(const Fd&F,El x){ ll p=(ll)F.characteristic(); return mod((LL)toll(x),p); }
static El mk(const Fd&F,ll r){ El x; F.init(x,(int64_t)r); return x; }
static bool canonical(const Fd&F,El x){ El y; F.init(y,(int64_t)toll(x)); return (x==y)&&((double)x==(double)toll(x)); }
static ll mxcard(){ ll mx; Givaro::Integer m(FFLAS::maxCardinality<Fd>()); mx=(ll)(int64_t)m; if(m<0||mx<=0) mx=(1LL<<50); return mx; }
static std::vector<ll> primes(){
 std::vector<ll> all={2,3,5,7,11,13,17,101,251,257,1021,2039,4093,8191,32749,46337,65521,131071,524287,1048573,2097143,4194301,8388593,16777213,33554393,67108859,94906249,134217689,536870909,1073741789,2147483647LL,3037000493LL,4294967291LL,1099511627689LL,1125899906842597LL};
 ll mx=mxcard();
 std::vector<ll> v; for(ll p:all) if(p<=mx) v.push_back(p);
 auto isp=[](ll n){ if(n<2)return false; for(ll b:{2,3,5,7,11,13,17,19,23,29,31,37}){ if(n%b==0) return n==b; } ll d=n-1; int r=0; while(d%2==0){d/=2;r++;} for(ll b:{2,3,5,7,11,13,17,19,23,29,31,37}){ ll x=powm(b%n,d,n); if(x==1||x==n-1)continue; bool c=true; for(int i=1;i<r&&c;i++){ x=mulm(x,x,n); if(x==n-1)c=false;} if(c)return false;} return true;};
 for(ll q=mx;q>mx-2000&&q>2;--q) if(isp(q)){ v.push_back(q); v.push_back(q); break; }
 // balanced rings need odd p
#if FIELD==3||FIELD==4||FIELD==6||FIELD==7
 std::vector<ll> w; for(ll p:v) if(p>2) w.push_back(p); v=w;
#endif
 return v; }
static std::vector<ll> PR;
static ll pick_prime(){ if(PR.empty())PR=primes(); int t=R.below(4); if(t==0) return PR[R.below(PR.size())]; if(t==1) return PR.back(); if(t==2) return PR[R.below(std::min<size_t>(PR.size(),6))]; return PR[PR.size()-1-R.below(std::min<size_t>(PR.size(),8))]; }
// ---- matrices with guard padding
struct Mat{ size_t m,n,ld; std::vector<El> buf; size_t off; std::vector<El> save; 
 Mat():m(0),n(0),ld(1),off(0){}
 Mat(size_t m_,size_t n_,size_t pad):m(m_),n(n_),ld(std::max<size_t>(1,n_+pad)){ 
#ifdef HX_EXACT
  off=0; buf.assign(m&&n?(m-1)*ld+n:0,El(0)); buf.shrink_to_fit(); }
#else
  size_t g=17; off=g; buf.assign(m*ld+2*g+8,El(0)); }
#endif

 El* p(){ return buf.data()+off; } const El*p()const{ return buf.data()+off; }
 El& at(size_t i,size_t j){ return buf[off+i*ld+j]; } El at(size_t i,size_t j)const{ return buf[off+i*ld+j]; }
 };
static int FILLMODE=0;
static void fill(const Fd&F,Mat&A,int mode=-1){ ll p=(ll)F.characteristic(); if(mode<0) mode=R.below(6);
 for(auto&x:A.buf) x=mk(F,R.below(p));
 if(mode==0) for(auto&x:A.buf) x=mk(F,p-1);
 if(mode==1) for(auto&x:A.buf) x=mk(F,(p-1)/2);
 if(mode==2) for(auto&x:A.buf) x= R.below(3)? F.zero: mk(F,R.below(p));
 if(mode==3) for(auto&x:A.buf) x= R.below(2)? mk(F,p-1): mk(F,(p+1)/2);
 A.save=A.buf; }
// nothing but the window may change
static void check_frame(const Fd&F,const Mat&A,const char*nm,std::function<bool(size_t,size_t)> mayChange){
 for(size_t t=0;t<A.buf.size();++t){ if(A.buf[t]==A.save[t]) continue; bool in=false; if(t>=A.off){ size_t r=t-A.off; size_t i=r/A.ld,j=r%A.ld; if(i<A.m&&j<A.n&&mayChange(i,j)) in=true; }
  if(!in){ std::ostringstream o; o<<"write outside the output window: "<<nm<<" flat offset "<<(ll)t-(ll)A.off<<" (ld "<<A.ld<<", "<<A.m<<"x"<<A.n<<")"; fail(o.str()); } } }
static void check_const(const Fd&F,const Mat&A,const char*nm){ check_frame(F,A,nm,[](size_t,size_t){return false;}); }
// read-only operand whose entries may be replaced by another representative of the same residue
static void check_const_res(const Fd&F,const Mat&A,const char*nm){ for(size_t t=0;t<A.buf.size();++t) if(!(A.buf[t]==A.save[t])&&res(F,A.buf[t])!=res(F,A.save[t])){ std::ostringstream o; o<<"input operand "<<nm<<" changed at flat offset "<<(ll)t-(ll)A.off; fail(o.str()); } }
typedef std::vector<std::vector<ll>> RM;
static RM toR(const Fd&F,const Mat&A){ RM r(A.m,std::vector<ll>(A.n)); for(size_t i=0;i<A.m;i++)for(size_t j=0;j<A.n;j++) r[i][j]=res(F,A.at(i,j)); return r; }
static RM toRsave(const Fd&F,const Mat&A){ RM r(A.m,std::vector<ll>(A.n)); for(size_t i=0;i<A.m;i++)for(size_t j=0;j<A.n;j++) r[i][j]=res(F,A.save[A.off+i*A.ld+j]); return r; }
static RM tr(const RM&a,size_t n){ RM r(n,std::vector<ll>(a.size())); for(size_t i=0;i<a.size();i++)for(size_t j=0;j<n;j++) r[j][i]=a[i][j]; return r; }
static RM mul(const RM&a,const RM&b,size_t m,size_t k,size_t n,ll p){ RM r(m,std::vector<ll>(n,0)); 
 for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ LL s=0; for(size_t l=0;l<k;l++){ s+=(LL)a[i][l]*b[l][j]; if(s>((LL)1<<124)) s%=p; } r[i][j]=mod(s,p);} return r; }
static void expect(const Fd&F,const Mat&C,const RM&E,const char*what,bool canon=true){ for(size_t i=0;i<C.m;i++)for(size_t j=0;j<C.n;j++){ if(res(F,C.at(i,j))!=E[i][j]||(canon&&!canonical(F,C.at(i,j)))){ std::ostringstream o; o.precision(20); o<<what<<"("<<i<<","<<j<<") = "<<C.at(i,j)<<" expected residue "<<E[i][j]; fail(o.str()); } } }
static size_t dim(int big=40){ int t=R.below(10); if(t==0) return 0; if(t<4) return 1+R.below(4); if(t<7) return 1+R.below(12); if(t<9) return 1+R.below(big); return (size_t[]){1,2,3,4,7,8,9,15,16,17,31,32,33}[R.below(13)]; }
static size_t padd(){ int t=R.below(3); return t==0?0: t==1? 1+R.below(3): R.below(11); }
static El coef(const Fd&F,ll&r){ ll p=(ll)F.characteristic(); int t=R.below(6); r= t==0?0: t==1?1: t==2?p-1: t==3? 2%p: R.below(p); r%=p; return mk(F,r); }
static const char* onoff(int t){ return t?"T":"N"; }
#endif
