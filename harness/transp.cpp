// C19: ftranspose against the definition, every element type and SIMD width, in and out of place
#include "hx.h"
#include "fflas-ffpack/fflas/fflas_transpose.h"
template<class T> T val(){ return (T)(ll)(R.below(2)? R.below(120)-60 : R.next()%30000); }
template<class F,class S> void run(const char*nm,size_t m,size_t n,size_t pa,size_t pb,int inplace){
 typedef typename F::Element T; F f; std::ostringstream o; size_t lda=n+pa,ldb=m+pb;
 if(inplace){ if(m==n) ldb=lda; else { lda=n; ldb=m; } }
 o<<"ftranspose<"<<nm<<"> m="<<m<<" n="<<n<<" lda="<<lda<<" ldb="<<ldb<<(inplace?" in place":""); begin_case(o.str(),m*n>0);
 size_t g=19; std::vector<T> A(m*lda+2*g),B(inplace? 1: n*ldb+2*g); for(auto&x:A)x=val<T>(); for(auto&x:B)x=val<T>(); std::vector<T> A0=A,B0=B;
 std::vector<T>&Bo=inplace?A:B; const std::vector<T>&Bi=inplace?A0:B0;
 ftranspose<F,S>(f,m,n,A.data()+g,lda,Bo.data()+g,ldb);
 std::vector<T> E=Bi; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) E[g+j*ldb+i]=A0[g+i*lda+j];
 for(size_t t=0;t<E.size();t++) if(!(E[t]==Bo[t])){ ll r=(ll)t-(ll)g; std::ostringstream w; if(r>=0&&(size_t)r/ldb<n&&(size_t)r%ldb<m) w<<"B["<<r/ldb<<"]["<<r%ldb<<"] is not A["<<r%ldb<<"]["<<r/ldb<<"]"; else w<<"write outside the window at flat offset "<<r; fail(w.str()); }
 if(!inplace) for(size_t t=0;t<A.size();t++) if(!(A[t]==A0[t])) fail("source modified"); }
#define ONE(T,S) run<Givaro::ZRing<T>,S<T>>(#S "<" #T ">",m,n,pa,pb,ip);
int main(int c,char**v){ hx_init(c,v);
 std::vector<size_t> D={0,1,2,3,4,5,7,8,9,15,16,17,24,31,32,33,34,36,37,40,47,48,63,64,65,66,72,95,96,97,100,128,131};
 size_t it=0; size_t n2=D.size()*D.size();
 while(time_left()){ size_t m,n; if(it<n2){ size_t q=(it*17)%n2; m=D[q/D.size()]; n=D[q%D.size()]; } else { m=R.below(140); n=R.below(3)?R.below(140):m; }
  if(it%3==0) n=m; it++;
  size_t pa=padd(),pb=padd(); int ip=R.below(2); if(n==0&&pa==0)pa=1; if(m==0&&pb==0)pb=1; if(ip&&m!=n&&(m==0||n==0)) ip=0;
#if FIELD==0
  ONE(double,Simd256) ONE(double,Simd128) ONE(double,NoSimd) run<Givaro::ZRing<double>,Simd<double>>("Simd<double>",m,n,pa,pb,ip);
#elif FIELD==1
  ONE(float,Simd256) ONE(float,Simd128) ONE(float,NoSimd)
#elif FIELD==2
  ONE(int64_t,Simd256) ONE(int64_t,Simd128) ONE(int64_t,NoSimd)
#elif FIELD==5
  ONE(int32_t,Simd256) ONE(int32_t,Simd128) ONE(int32_t,NoSimd)
#elif FIELD==3
  ONE(int16_t,Simd256) ONE(int16_t,Simd128) ONE(int16_t,NoSimd)
#else
  ONE(uint64_t,Simd256) ONE(uint32_t,Simd256) ONE(uint16_t,Simd256) ONE(uint32_t,Simd128)
#endif
 }
 return finish(); }
