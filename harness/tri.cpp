#include "hx.h"
#include "fflas-ffpack/ffpack/ffpack.h"
static RM TM(const RM&as,size_t n,bool up,bool un,ll p){ RM tm(n,std::vector<ll>(n,0)); for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++){ if(up?j>i:j<i) tm[i][j]=as[i][j]; if(i==j) tm[i][j]=un?1%p:as[i][j]; } return tm; }
static void one_tri(const std::string&w){
  ll p=pick_prime(); Fd F(p); size_t N=R.below(12)?dim(40):60+R.below(90); int fm=R.below(6); auto yes=[](size_t,size_t){return true;};
  FFLAS_UPLO U; int up=R.below(2),un=R.below(2); U=up?FflasUpper:FflasLower; FFLAS_DIAG D=un?FflasUnit:FflasNonUnit;
  Mat A(N,N,padd()); fill(F,A,fm); for(size_t i=0;i<N;i++) if(F.isZero(A.at(i,i))) A.at(i,i)=mk(F,p==2?1:1+R.below(p-1)); A.save=A.buf;
  RM a0=toRsave(F,A); std::ostringstream d;
  if(w=="ftrtri"){ size_t th=(size_t[]){1,2,3,5,8,64,1000}[R.below(7)]; bool def=R.below(3)==0;
    d<<"ftrtri p="<<p<<(up?" Upper":" Lower")<<(un?" Unit":" NonUnit")<<" N="<<N<<" lda="<<A.ld<<" threshold="<<(def?-1:(int)th)<<" fill="<<fm; begin_case(d.str(),N>1);
    if(def) FFPACK::ftrtri(F,U,D,N,A.p(),A.ld); else FFPACK::ftrtri(F,U,D,N,A.p(),A.ld,th);
    RM x=toR(F,A); expect(F,A,x,"A"); RM t=TM(a0,N,up,un,p),ti=TM(x,N,up,un,p),e=mul(t,ti,N,N,N,p); for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++) if(e[i][j]!=(i==j?1%p:0)) fail("T*T^-1 is not the identity at "+std::to_string(i)+","+std::to_string(j));
    check_frame(F,A,"A",[&](size_t i,size_t j){ return up?(un?j>i:j>=i):(un?j<i:j<=i); }); }
  else if(w=="ftrtrm"){ int left=R.below(2); d<<"ftrtrm p="<<p<<(left?" Left":" Right")<<(un?" Unit":" NonUnit")<<" N="<<N<<" lda="<<A.ld<<" fill="<<fm; begin_case(d.str(),N>1);
    FFPACK::ftrtrm(F,left?FflasLeft:FflasRight,D,N,A.p(),A.ld); RM u=TM(a0,N,true,un,p),l=TM(a0,N,false,!un,p); expect(F,A,left?mul(u,l,N,N,N,p):mul(l,u,N,N,N,p),"A"); check_frame(F,A,"A",yes); }
  else if(w=="ftrstr"){ int left=R.below(2),ub=R.below(2); Mat B(N,N,padd()); fill(F,B); RM b0=toRsave(F,B);
    d<<"ftrstr p="<<p<<(left?" Left":" Right")<<(up?" Upper":" Lower")<<(un?" Unit":" NonUnit")<<(ub?" Unit":" NonUnit")<<" N="<<N<<" lda="<<A.ld<<" ldb="<<B.ld<<" fill="<<fm; begin_case(d.str(),N>1);
    FFPACK::ftrstr(F,left?FflasLeft:FflasRight,U,D,ub?FflasUnit:FflasNonUnit,N,A.p(),A.ld,B.p(),B.ld); bool ux=un&&ub; RM x=TM(toR(F,B),N,up,ux,p),t=TM(a0,N,up,un,p),tb=TM(b0,N,up,ub,p); expect(F,B,toR(F,B),"B");
    RM e=left?mul(t,x,N,N,N,p):mul(x,t,N,N,N,p); for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++) if(e[i][j]!=tb[i][j]) fail("A*X differs from B at "+std::to_string(i)+","+std::to_string(j));
    check_frame(F,B,"B",[&](size_t i,size_t j){ return up?(ux?j>i:j>=i):(ux?j<i:j<=i); }); check_const_res(F,A,"A"); check_frame(F,A,"A",yes); }
  else { Mat X(N,N,padd()); fill(F,X); d<<"trinv_left p="<<p<<" N="<<N<<" ldl="<<A.ld<<" ldx="<<X.ld; begin_case(d.str(),N>1);
    FFPACK::trinv_left(F,N,A.p(),A.ld,X.p(),X.ld); RM t=TM(a0,N,false,true,p),x=TM(toR(F,X),N,false,true,p),e=mul(t,x,N,N,N,p); for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++) if(e[i][j]!=(i==j?1%p:0)) fail("L*X is not the identity");
    check_const(F,A,"L"); check_frame(F,X,"X",yes); }
}
int main(int argc,char**argv){ hx_init(argc,argv); std::vector<std::string> ws={"ftrtri","ftrtrm","ftrstr","ftrtri","trinv"}; int i=0; while(time_left()){ one_tri(argc>1?argv[1]:ws[i%5]); i++; } return finish(); }
