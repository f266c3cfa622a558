#include "hx.h"
static void vecfill(const Fd&F,Mat&X,int fm){ fill(F,X,fm); }
static RM TM(const Fd&F,const Mat&A,bool up,bool un,bool t){ ll p=(ll)F.characteristic(); size_t n=A.m; RM as=toRsave(F,A),tm(n,std::vector<ll>(n,0)); for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++){ if(up?j>i:j<i) tm[i][j]=as[i][j]; if(i==j) tm[i][j]=un?1%p:as[i][j]; } return t?tr(tm,n):tm; }
static void one_l2(const std::string&w){
  ll p=pick_prime(); Fd F(p); size_t m=dim(),n=dim(); int fm=R.below(6); if(R.below(8)==0){ (R.below(2)?m:n)=60+R.below(500);} auto yes=[](size_t,size_t){return true;};
  if(w=="fgemv"){ int ta=R.below(2); ll ra,rb; El a=coef(F,ra),b=coef(F,rb); size_t lx=ta?m:n,ly=ta?n:m; Mat A(m,n,padd()),X(lx,1,R.below(4)),Y(ly,1,R.below(4)); fill(F,A,fm); fill(F,X,R.below(2)?fm:-1); fill(F,Y);
    std::ostringstream d; d<<"fgemv p="<<p<<" "<<onoff(ta)<<" m="<<m<<" n="<<n<<" alpha="<<ra<<" beta="<<rb<<" lda="<<A.ld<<" incx="<<X.ld<<" incy="<<Y.ld<<" fill="<<fm; begin_case(d.str(),m&&n);
    fgemv(F,ta?FflasTrans:FflasNoTrans,m,n,a,A.p(),A.ld,X.p(),X.ld,b,Y.p(),Y.ld);
    RM ar=toRsave(F,A),x=toRsave(F,X),y=toRsave(F,Y); if(ta)ar=tr(ar,n); RM e=mul(ar,x,ly,lx,1,p); for(size_t i=0;i<ly;i++) e[i][0]=mod((LL)mulm(ra,e[i][0],p)+mulm(rb,y[i][0],p),p);
    expect(F,Y,e,"y"); check_frame(F,Y,"y",yes); check_const_res(F,A,"A"); check_frame(F,A,"A",yes); check_const_res(F,X,"x"); check_frame(F,X,"x",yes); }
  else if(w=="fger"){ ll ra; El a=coef(F,ra); Mat A(m,n,padd()),X(m,1,R.below(4)),Y(n,1,R.below(4)); fill(F,A); fill(F,X,fm); fill(F,Y,R.below(2)?fm:-1);
    std::ostringstream d; d<<"fger p="<<p<<" m="<<m<<" n="<<n<<" alpha="<<ra<<" lda="<<A.ld<<" incx="<<X.ld<<" incy="<<Y.ld<<" fill="<<fm; begin_case(d.str(),m&&n);
    fger(F,m,n,a,X.p(),X.ld,Y.p(),Y.ld,A.p(),A.ld);
    RM e=toRsave(F,A),x=toRsave(F,X),y=toRsave(F,Y); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) e[i][j]=mod((LL)e[i][j]+mulm(ra,mulm(x[i][0],y[j][0],p),p),p);
    expect(F,A,e,"A"); check_frame(F,A,"A",yes); check_const_res(F,X,"x"); check_const_res(F,Y,"y"); check_frame(F,X,"x",yes); check_frame(F,Y,"y",yes); }
  else if(w=="fdot"){ n=R.below(3)?dim(80):200+R.below(3000); Mat X(n,1,R.below(4)),Y(n,1,R.below(4)); fill(F,X,fm); fill(F,Y,R.below(2)?fm:-1);
    std::ostringstream d; d<<"fdot p="<<p<<" n="<<n<<" incx="<<X.ld<<" incy="<<Y.ld<<" fill="<<fm; begin_case(d.str(),n);
    El r=fdot(F,n,X.p(),X.ld,Y.p(),Y.ld); RM x=toRsave(F,X),y=toRsave(F,Y); ll e=0; for(size_t i=0;i<n;i++) e=mod((LL)e+mulm(x[i][0],y[i][0],p),p);
    if(res(F,r)!=e||!canonical(F,r)){ std::ostringstream o; o<<"got "<<r<<" expected "<<e; fail(o.str()); } check_const(F,X,"x"); check_const(F,Y,"y"); }
  else { bool solve=w=="ftrsv"; size_t N=n; int up=R.below(2),t=R.below(2),un=R.below(2); Mat A(N,N,padd()),X(N,1,R.below(4)); fill(F,A,fm); for(size_t i=0;i<N;i++) if(F.isZero(A.at(i,i))) A.at(i,i)=mk(F,p==2?1:1+R.below(p-1)); A.save=A.buf; fill(F,X);
    std::ostringstream d; d<<w<<" p="<<p<<" "<<(up?"Upper ":"Lower ")<<(t?"Trans ":"NoTrans ")<<(un?"Unit":"NonUnit")<<" N="<<N<<" lda="<<A.ld<<" incx="<<X.ld<<" fill="<<fm; begin_case(d.str(),N);
    FFLAS_UPLO U=up?FflasUpper:FflasLower; FFLAS_TRANSPOSE T=t?FflasTrans:FflasNoTrans; FFLAS_DIAG D=un?FflasUnit:FflasNonUnit;
    if(solve) ftrsv(F,U,T,D,N,A.p(),A.ld,X.p(),(int)X.ld); else ftrmv(F,U,T,D,N,A.p(),A.ld,X.p(),(int)X.ld);
    RM tm=TM(F,A,up,un,t),x0=toRsave(F,X),x1=toR(F,X); RM e=mul(tm,solve?x1:x0,N,N,1,p);
    if(!solve) expect(F,X,e,"x"); else { expect(F,X,x1,"x"); for(size_t i=0;i<N;i++) if(e[i][0]!=x0[i][0]) fail("op(A)x differs from the right hand side at "+std::to_string(i)); }
    check_frame(F,X,"x",yes); check_const_res(F,A,"A"); check_frame(F,A,"A",yes); }
}
int main(int argc,char**argv){ hx_init(argc,argv); std::vector<std::string> ws={"fgemv","fger","fdot","ftrsv","ftrmv"}; int i=0; while(time_left()){ one_l2(argc>1?argv[1]:ws[i%5]); i++; } return finish(); }
