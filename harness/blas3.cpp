#include "hx.h"
#include "fflas-ffpack/fflas/fflas.h"
// usage: blas3 fgemm|ftrsm|ftrmm|fsyrk [seed case filters]
static void one_fgemm(bool big,int forceLevels=-2){
  ll p=pick_prime(); Fd F(p); 
  size_t m=dim(),n=dim(),k=dim();
  if(big){ int t=R.below(3); if(t==0){ m=1+R.below(5);n=1+R.below(5);k=200+R.below(1200);} else if(t==1){ m=20+R.below(60);n=20+R.below(60);k=20+R.below(60);} else {m=1+R.below(90);n=1+R.below(20);k=1+R.below(90);} }
  int ta=R.below(2),tb=R.below(2); ll ra,rb; El a=coef(F,ra),b=coef(F,rb);
  Mat A(ta?k:m,ta?m:k,padd()),B(tb?n:k,tb?k:n,padd()),C(m,n,padd()); int fm=R.below(6); fill(F,A,fm); fill(F,B,R.below(2)?fm:-1); fill(F,C,-1);
  int lev=forceLevels; if(lev==-2) lev=R.below(4)==0? (int)R.below(4):-1;
  std::ostringstream d; d<<"fgemm p="<<p<<" "<<onoff(ta)<<onoff(tb)<<" m="<<m<<" n="<<n<<" k="<<k<<" alpha="<<ra<<" beta="<<rb<<" lda="<<A.ld<<" ldb="<<B.ld<<" ldc="<<C.ld<<" fill="<<fm<<" levels="<<lev; begin_case(d.str(),m&&n&&k);
  FFLAS_TRANSPOSE TA=ta?FflasTrans:FflasNoTrans,TB=tb?FflasTrans:FflasNoTrans;
  if(lev<0) fgemm(F,TA,TB,m,n,k,a,A.p(),A.ld,B.p(),B.ld,b,C.p(),C.ld);
  else { MMHelper<Fd,MMHelperAlgo::Winograd> H(F,lev,ParSeqHelper::Sequential()); fgemm(F,TA,TB,m,n,k,a,A.p(),A.ld,B.p(),B.ld,b,C.p(),C.ld,H); }
  check_const_res(F,A,"A"); check_const_res(F,B,"B"); check_frame(F,A,"A",[](size_t,size_t){return true;}); check_frame(F,B,"B",[](size_t,size_t){return true;}); check_frame(F,C,"C",[](size_t,size_t){return true;});
  RM ar=toRsave(F,A),br=toRsave(F,B),cr=toRsave(F,C); if(ta)ar=tr(ar,A.n); if(tb)br=tr(br,B.n);
  RM e=mul(ar,br,m,k,n,p); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) e[i][j]=mod((LL)mulm(ra,e[i][j],p)+mulm(rb,cr[i][j],p),p);
  expect(F,C,e,"C");
}
static void mktri(const Fd&F,Mat&A){ ll p=(ll)F.characteristic(); for(size_t i=0;i<A.m;i++) if(F.isZero(A.at(i,i))) A.at(i,i)=mk(F,p==2?1:1+R.below(p-1)); A.save=A.buf; }
static void one_tr(bool solve,bool big){
  ll p=pick_prime(); Fd F(p); size_t M=dim(big?130:40),N=dim(30); int side=R.below(2),up=R.below(2),t=R.below(2),un=R.below(2); ll ra; El a=coef(F,ra);
  if(side){ std::swap(M,N);} 
  size_t na=side?N:M; Mat A(na,na,padd()),B(M,N,padd()); int fm=R.below(6); fill(F,A,fm); fill(F,B); mktri(F,A);
  std::ostringstream d; d<<(solve?"ftrsm":"ftrmm")<<" p="<<p<<" "<<(side?"Right ":"Left ")<<(up?"Upper ":"Lower ")<<(t?"Trans ":"NoTrans ")<<(un?"Unit":"NonUnit")<<" M="<<M<<" N="<<N<<" alpha="<<ra<<" lda="<<A.ld<<" ldb="<<B.ld<<" fill="<<fm; begin_case(d.str(),M&&N);
  FFLAS_SIDE S=side?FflasRight:FflasLeft; FFLAS_UPLO U=up?FflasUpper:FflasLower; FFLAS_TRANSPOSE T=t?FflasTrans:FflasNoTrans; FFLAS_DIAG D=un?FflasUnit:FflasNonUnit;
  if(solve) ftrsm(F,S,U,T,D,M,N,a,A.p(),A.ld,B.p(),B.ld); else ftrmm(F,S,U,T,D,M,N,a,A.p(),A.ld,B.p(),B.ld);
  check_const_res(F,A,"A"); check_frame(F,A,"A",[](size_t,size_t){return true;}); check_frame(F,B,"B",[](size_t,size_t){return true;});
  RM tm(na,std::vector<ll>(na,0)); RM as=toRsave(F,A),bs=toRsave(F,B),x=toR(F,B);
  for(size_t i=0;i<na;i++)for(size_t j=0;j<na;j++){ bool in= up? j>i: j<i; if(in) tm[i][j]=as[i][j]; if(i==j) tm[i][j]= un?1%p:as[i][j]; }
  if(t) tm=tr(tm,na);
  if(!solve){ RM e= side? mul(bs,tm,M,N,N,p): mul(tm,bs,M,M,N,p); for(auto&r:e)for(auto&v:r) v=mulm(v,ra,p); expect(F,B,e,"B"); }
  else { RM e= side? mul(x,tm,M,N,N,p): mul(tm,x,M,M,N,p); for(size_t i=0;i<M;i++)for(size_t j=0;j<N;j++) if(e[i][j]!=mulm(ra,bs[i][j],p)||!canonical(F,B.at(i,j))){ std::ostringstream o; o<<"op(A)*X differs from alpha*B at ("<<i<<","<<j<<"): "<<e[i][j]<<" expected "<<mulm(ra,bs[i][j],p)<<" X="<<B.at(i,j); fail(o.str()); } }
}

static RM trimat(const RM&as,size_t na,bool up,bool un,bool t,ll p){ RM tm(na,std::vector<ll>(na,0)); for(size_t i=0;i<na;i++)for(size_t j=0;j<na;j++){ bool in= up? j>i: j<i; if(in) tm[i][j]=as[i][j]; if(i==j) tm[i][j]= un?1%p:as[i][j]; } return t?tr(tm,na):tm; }
static void one_tr3(bool big){
  ll p=pick_prime(); Fd F(p); size_t M=dim(big?90:30),N=dim(30); int side=R.below(2),up=R.below(2),t=R.below(2),un=R.below(2); ll ra,rb; El a=coef(F,ra),b=coef(F,rb); if(side) std::swap(M,N);
  size_t na=side?N:M; Mat A(na,na,padd()),B(M,N,padd()),C(M,N,padd()); int fm=R.below(6); fill(F,A,fm); fill(F,B); fill(F,C);
  std::ostringstream d; d<<"ftrmm(3 operands) p="<<p<<" "<<(side?"Right ":"Left ")<<(up?"Upper ":"Lower ")<<(t?"Trans ":"NoTrans ")<<(un?"Unit":"NonUnit")<<" M="<<M<<" N="<<N<<" alpha="<<ra<<" beta="<<rb<<" lda="<<A.ld<<" ldb="<<B.ld<<" ldc="<<C.ld<<" fill="<<fm; begin_case(d.str(),M&&N);
  ftrmm(F,side?FflasRight:FflasLeft,up?FflasUpper:FflasLower,t?FflasTrans:FflasNoTrans,un?FflasUnit:FflasNonUnit,M,N,a,A.p(),A.ld,B.p(),B.ld,b,C.p(),C.ld);
  check_const_res(F,A,"A"); check_const_res(F,B,"B"); check_frame(F,A,"A",[](size_t,size_t){return true;}); check_frame(F,B,"B",[](size_t,size_t){return true;}); check_frame(F,C,"C",[](size_t,size_t){return true;});
  RM tm=trimat(toRsave(F,A),na,up,un,t,p),bs=toRsave(F,B),cs=toRsave(F,C); RM e= side? mul(bs,tm,M,N,N,p): mul(tm,bs,M,M,N,p);
  for(size_t i=0;i<M;i++)for(size_t j=0;j<N;j++) e[i][j]=mod((LL)mulm(ra,e[i][j],p)+mulm(rb,cs[i][j],p),p);
  expect(F,C,e,"C");
}
#if FIELD!=5 && FIELD!=7 // fsyrk does not compile for the int32 fields
#ifdef SYRK_WINO
static const bool WINO=true;
#else
static const bool WINO=false;
#endif
// symmetric updates: only the designated triangle of C is specified
static void expect_tri(const Fd&F,const Mat&C,const RM&E,bool up,const char*what){ for(size_t i=0;i<C.m;i++)for(size_t j=0;j<C.n;j++){ if(up? j<i: j>i) continue; if(res(F,C.at(i,j))!=E[i][j]||!canonical(F,C.at(i,j))){ std::ostringstream o; o.precision(20); o<<what<<"("<<i<<","<<j<<") = "<<C.at(i,j)<<" expected residue "<<E[i][j]; fail(o.str()); } } }
struct Fix{ ll p; size_t N,K; int up,t; ll ra,rb; int fm,lev; };
static void one_syrk(const Fix*fx=nullptr){
  size_t N=dim(50),K=dim(50); if(R.below(12)==0){ N=1+R.below(4); K=100+R.below(900);}
  ll p=pick_prime(); if(WINO){ static const ll q[]={3,5,7,11,13,17,101,251}; LL mx=std::is_same<El,float>::value?(1<<24):(1LL<<53); do p=q[R.below(8)]; while(p>3&&(LL)p*p*p*(K+2)*16>mx); } // larger moduli: known finding
  if(fx) p=fx->p;
  Fd F(p); int up=R.below(2),t=R.below(2); ll ra,rb; El a=coef(F,ra),b=coef(F,rb);
  int kind=WINO?4:R.below(5); // 0 plain 1 diagonal 2 block diagonal 3 rank-2k 4 plain with explicit helper
  if(F.isZero(a)){ a=F.one; ra=1%p; }
  if(fx){ N=fx->N;K=fx->K;up=fx->up;t=fx->t;ra=fx->ra;rb=fx->rb; a=mk(F,ra); b=mk(F,rb); kind=4; }
  Mat A(t?K:N,t?N:K,padd()),B(t?K:N,t?N:K,padd()),C(N,N,padd()); int fm=fx?fx->fm:R.below(6); fill(F,A,fm); fill(F,B,R.below(2)?fm:-1); fill(F,C);
  size_t incD=1+R.below(3); std::vector<El> D(K*incD+4,F.zero); std::vector<bool> tb(K,false);
  for(size_t i=0;i<K;i++) D[i*incD]=mk(F,R.below(p));
  if(kind==2) for(size_t i=0;i+1<K;i++) if(R.below(3)==0){ tb[i]=true; D[(i+1)*incD]=D[i*incD]; i++; }
  size_t thr=(size_t[]){1,2,3,5,8,13,64}[R.below(7)]; int lev=fx?fx->lev:R.below(3);
  const char*kn[]={"fsyrk","fsyrk with diagonal","fsyrk with block diagonal","fsyr2k",WINO?"fsyrk Winograd helper":"fsyrk DivideAndConquer helper"};
  std::ostringstream d; d<<kn[kind]<<" p="<<p<<(up?" Upper":" Lower")<<(t?" Trans":" NoTrans")<<" N="<<N<<" K="<<K<<" alpha="<<ra<<" beta="<<rb<<" lda="<<A.ld<<" ldb="<<B.ld<<" ldc="<<C.ld<<" incD="<<incD<<" threshold="<<thr<<" fill="<<fm<<" lev="<<lev; begin_case(d.str(),N&&K);
  FFLAS_UPLO U=up?FflasUpper:FflasLower; FFLAS_TRANSPOSE T=t?FflasTrans:FflasNoTrans;
  std::vector<El> Ds=D;
  if(kind==0) fsyrk(F,U,T,N,K,a,A.p(),A.ld,b,C.p(),C.ld);
  else if(kind==1) fsyrk(F,U,T,N,K,a,A.p(),A.ld,D.data(),incD,b,C.p(),C.ld,thr);
  else if(kind==2) fsyrk(F,U,T,N,K,a,A.p(),A.ld,D.data(),incD,tb,b,C.p(),C.ld,thr);
  else if(kind==3) fsyr2k(F,U,T,N,K,a,A.p(),A.ld,B.p(),B.ld,b,C.p(),C.ld);
  else {
#ifdef SYRK_WINO
   MMHelper<Fd,MMHelperAlgo::Winograd> H(F,lev,ParSeqHelper::Sequential()); fsyrk(F,U,T,N,K,a,A.p(),A.ld,b,C.p(),C.ld,H);
#else
   MMHelper<Fd,MMHelperAlgo::DivideAndConquer> H(F,lev,ParSeqHelper::Sequential()); fsyrk(F,U,T,N,K,a,A.p(),A.ld,b,C.p(),C.ld,H);
#endif
  }
  if(!(D==Ds)) fail("D changed");
  check_const_res(F,B,"B"); check_frame(F,C,"C",[](size_t,size_t){return true;}); check_frame(F,A,"A",[](size_t,size_t){return true;});
  RM as=toRsave(F,A),bs=toRsave(F,B),cs=toRsave(F,C); if(t){as=tr(as,A.n);bs=tr(bs,B.n);} // N x K
  RM e;
  if(kind==0||kind==4){ check_const_res(F,A,"A"); e=mul(as,tr(as,K),N,K,N,p); }
  else if(kind==3){ check_const_res(F,A,"A"); RM x=mul(as,tr(bs,K),N,K,N,p); e=x; for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++) e[i][j]=mod((LL)x[i][j]+x[j][i],p); }
  else { RM ad=as; for(size_t j=0;j<K;j++){ if(tb[j]){ ll dj=res(F,Ds[j*incD]); for(size_t i=0;i<N;i++){ ad[i][j]=mulm(dj,as[i][j+1],p); ad[i][j+1]=mulm(dj,as[i][j],p);} j++; } else { ll dj=res(F,Ds[j*incD]); for(size_t i=0;i<N;i++) ad[i][j]=mulm(dj,as[i][j],p);} }
    e=mul(ad,tr(as,K),N,K,N,p); if(t) ad=tr(ad,K); expect(F,A,ad,"A (updated to A.D)"); }
  for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++) e[i][j]=mod((LL)mulm(ra,e[i][j],p)+mulm(rb,cs[i][j],p),p);
  expect_tri(F,C,e,up,"C");
}
#endif
int main(int argc,char**argv){ hx_init(argc,argv); std::string w=argc>1?argv[1]:"fgemm";
 if(w=="fgemm"){ for(int lv=0;lv<4;lv++)for(int i=0;i<60;i++) one_fgemm(i%3==0,lv); while(time_left()) one_fgemm(R.below(5)==0); }
 else if(w=="ftrsm"||w=="ftrmm") while(time_left()) one_tr(w=="ftrsm",R.below(6)==0);
 else if(w=="ftrmm3") while(time_left()) one_tr3(R.below(6)==0);
#if FIELD!=5 && FIELD!=7
 else if(w=="fsyrk") while(time_left()) one_syrk();
 else if(w=="fsyrk_known"){ Fix f{131071,14,6,1,1,120391,131070,0,1}; for(int i=0;i<20;i++) one_syrk(&f); }
#endif
 return finish(); }
