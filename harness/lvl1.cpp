#include "hx.h"
// vectors as n x 1 windows of stride ld; matrices m x n
struct Op{ const char*nm; int nin; };
typedef std::function<ll(ll,ll,ll,ll,ll,ll)> Ref; // (x,y,z,alpha,beta,p)
static void run_case(int op){
  ll p=pick_prime(); Fd F(p); bool two=R.below(2); size_t m=two?dim():dim(80), n=two?dim(80):1; if(R.below(4)==0){ if(two) n=60+R.below(300); else m=60+R.below(400);} 
  ll ra,rb; El a=coef(F,ra),b=coef(F,rb); int fm=R.below(6);
  // column vectors: m entries with stride ld
  size_t px=two?padd():R.below(4), py=two?padd():R.below(4), pz=two?padd():R.below(4);
  if(!two&&R.below(2)) px=py=pz=0;
  Mat X(m,n,px),Y(m,n,py),Z(m,n,pz); fill(F,X,fm); fill(F,Y,R.below(2)?fm:-1); fill(F,Z,-1);
  int al=R.below(3); // aliasing of the output for the three operand forms
  const char*nms[]={"fadd","fsub","faddin","fsubin","fadd_alpha","fneg","fnegin","fzero","fassign","fscal","fscalin","faxpy","freduce","freduce2","fswap","finit","fconvert","fequal","fiszero","faxpby","fmove","fidentity","frandom-free"};
  std::ostringstream d; d<<nms[op]<<(two?" matrix ":" vector ")<<"p="<<p<<" m="<<m<<" n="<<n<<" ldx="<<X.ld<<" ldy="<<Y.ld<<" ldz="<<Z.ld<<" alpha="<<ra<<" beta="<<rb<<" fill="<<fm<<" alias="<<al; begin_case(d.str(),m&&n);
  RM x=toRsave(F,X),y=toRsave(F,Y),z=toRsave(F,Z);
  auto yes=[](size_t,size_t){return true;};
  auto E=[&](std::function<ll(size_t,size_t)> f){ RM e(m,std::vector<ll>(n)); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) e[i][j]=f(i,j); return e; };
  auto outZ=[&](const RM&e){ expect(F,Z,e,"Z"); check_frame(F,Z,"Z",yes); check_const(F,X,"X"); check_const(F,Y,"Y"); };
  auto outY=[&](const RM&e,bool cx=true){ expect(F,Y,e,"Y"); check_frame(F,Y,"Y",yes); if(cx)check_const(F,X,"X"); };
  auto outX=[&](const RM&e){ expect(F,X,e,"X"); check_frame(F,X,"X",yes); };
  size_t v=m; // vector length
  switch(op){
   case 0: case 1: case 4: { El*Cp=Z.p(); size_t ldc=Z.ld; if(al==1){Cp=X.p();ldc=X.ld;} if(al==2){Cp=Y.p();ldc=Y.ld;}
      if(op==0){ if(two) fadd(F,m,n,X.p(),X.ld,Y.p(),Y.ld,Cp,ldc); else fadd(F,v,X.p(),X.ld,Y.p(),Y.ld,Cp,ldc);} 
      else if(op==1){ if(two) fsub(F,m,n,X.p(),X.ld,Y.p(),Y.ld,Cp,ldc); else fsub(F,v,X.p(),X.ld,Y.p(),Y.ld,Cp,ldc);} 
      else { if(two) fadd(F,m,n,X.p(),X.ld,a,Y.p(),Y.ld,Cp,ldc); else fadd(F,v,X.p(),X.ld,a,Y.p(),Y.ld,Cp,ldc);} 
      RM e=E([&](size_t i,size_t j){ return op==0? (x[i][j]+y[i][j])%p: op==1? mod((LL)x[i][j]-y[i][j],p): mod((LL)x[i][j]+mulm(ra,y[i][j],p),p);} );
      if(al==0) outZ(e); else if(al==1){ outX(e); check_const(F,Y,"Y"); check_const(F,Z,"Z"); } else { outY(e); check_const(F,Z,"Z"); } break; }
   case 2: if(two) faddin(F,m,n,X.p(),X.ld,Y.p(),Y.ld); else faddin(F,v,X.p(),X.ld,Y.p(),Y.ld); outY(E([&](size_t i,size_t j){return (x[i][j]+y[i][j])%p;})); break;
   case 3: if(two) fsubin(F,m,n,X.p(),X.ld,Y.p(),Y.ld); else fsubin(F,v,X.p(),X.ld,Y.p(),Y.ld); outY(E([&](size_t i,size_t j){return mod((LL)y[i][j]-x[i][j],p);})); break;
   case 5: if(two) fneg(F,m,n,X.p(),X.ld,Y.p(),Y.ld); else fneg(F,v,X.p(),X.ld,Y.p(),Y.ld); outY(E([&](size_t i,size_t j){return mod(-(LL)x[i][j],p);})); break;
   case 6: if(two) fnegin(F,m,n,X.p(),X.ld); else fnegin(F,v,X.p(),X.ld); outX(E([&](size_t i,size_t j){return mod(-(LL)x[i][j],p);})); break;
   case 7: if(two) fzero(F,m,n,X.p(),X.ld); else fzero(F,v,X.p(),X.ld); outX(E([&](size_t i,size_t j){return 0;})); break;
   case 8: if(two) fassign(F,m,n,X.p(),X.ld,Y.p(),Y.ld); else fassign(F,v,X.p(),X.ld,Y.p(),Y.ld); outY(x); break;
   case 9: if(two) fscal(F,m,n,a,X.p(),X.ld,Y.p(),Y.ld); else fscal(F,v,a,X.p(),X.ld,Y.p(),Y.ld); outY(E([&](size_t i,size_t j){return mulm(ra,x[i][j],p);})); break;
   case 10: if(two) fscalin(F,m,n,a,X.p(),X.ld); else fscalin(F,v,a,X.p(),X.ld); outX(E([&](size_t i,size_t j){return mulm(ra,x[i][j],p);})); break;
   case 11: if(two) faxpy(F,m,n,a,X.p(),X.ld,Y.p(),Y.ld); else faxpy(F,v,a,X.p(),X.ld,Y.p(),Y.ld); outY(E([&](size_t i,size_t j){return mod((LL)y[i][j]+mulm(ra,x[i][j],p),p);})); break;
   case 12: case 13: { // unreduced input within the representable range
      ll lim; if(std::is_same<El,float>::value) lim=(1<<24)-1; else if(std::is_same<El,double>::value) lim=(1LL<<53)-1; else if(sizeof(El)==4) lim=2147483647LL; else lim=(std::is_same<El,int64_t>::value)? 9223372036854775807LL:0;
      for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ int t=R.below(8); ll u; if(t==0)u=lim; else if(t==1)u=-lim; else if(t==2)u=p; else if(t==3) u=-p; else if(t==4) u=(ll)(R.next()%(uint64_t)(4*(uint64_t)p))-2*p; else { u=(ll)(R.next()>>1); u%=lim; if(R.below(2)) u=-u; } if(u>lim)u=lim; if(u<-lim)u=-lim; X.at(i,j)=(El)u; x[i][j]=mod((LL)u,p);} X.save=X.buf;
      if(op==12){ if(two) freduce(F,m,n,X.p(),X.ld); else freduce(F,v,X.p(),X.ld); outX(x);} 
      else { if(two) freduce(F,m,n,X.p(),X.ld,Y.p(),Y.ld); else freduce(F,v,X.p(),X.ld,Y.p(),Y.ld); outY(x);} break; }
   case 14: if(two) return; fswap(F,v,X.p(),X.ld,Y.p(),Y.ld); expect(F,Y,x,"Y"); expect(F,X,y,"X"); check_frame(F,X,"X",yes); check_frame(F,Y,"Y",yes); break;
   case 15: { std::vector<double> D(m*n+1); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ ll u=(ll)R.below(1LL<<23)-(1LL<<22); D[i*n+j]=(double)u; x[i][j]=mod((LL)u,p);} if(two) finit(F,m,n,(const double*)D.data(),n,Y.p(),Y.ld); else finit(F,v,(const double*)D.data(),1,Y.p(),Y.ld); outY(x); break; }
   case 16: { std::vector<double> D((m+1)*(n+3),-7.5); size_t ldd=n+2; if(two) fconvert(F,m,n,D.data(),ldd,(const El*)X.p(),X.ld); else fconvert(F,v,D.data(),ldd,(const El*)X.p(),X.ld); if((p>(1LL<<52))) break; for(size_t i=0;i<m;i++)for(size_t j=0;j<ldd;j++){ double w=D[i*ldd+j]; if(j<n){ if(mod((LL)(ll)w,p)!=x[i][j]) fail("fconvert value");} else if(w!=-7.5) fail("fconvert wrote outside its window"); } break; }
   case 17: { bool same=R.below(2); if(same){ for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) Y.at(i,j)=X.at(i,j); if(m&&n&&R.below(2)){ size_t i=R.below(m),j=R.below(n); Y.at(i,j)=mk(F,(res(F,X.at(i,j))+1)%p);} } bool e=true; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) if(res(F,X.at(i,j))!=res(F,Y.at(i,j))) e=false; bool g= two? fequal(F,m,n,X.p(),X.ld,Y.p(),Y.ld): fequal(F,v,X.p(),X.ld,Y.p(),Y.ld); if(g!=e) fail("fequal wrong answer"); break; }
   case 18: { if(R.below(2)){ for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) X.at(i,j)=F.zero; if(m&&n&&R.below(2)) X.at(R.below(m),R.below(n))=F.one; } bool e=true; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) if(res(F,X.at(i,j))) e=false; bool g=two? fiszero(F,m,n,X.p(),X.ld): fiszero(F,v,X.p(),X.ld); if(g!=e) fail("fiszero wrong answer"); break; }
   case 19: return;
   case 20: if(!two) return; fmove(F,m,n,X.p(),X.ld,Y.p(),Y.ld); expect(F,Y,E([](size_t,size_t){return 0;}),"Y"); return;
   case 21: if(!two) return; fidentity(F,m,n,X.p(),X.ld); outX(E([](size_t i,size_t j){return i==j?1:0;})); break;
   case 22: { // triangular zeroing, addition and reduction
      size_t N=dim(20); Mat T(N,N,padd()),U(N,N,padd()); fill(F,T); fill(F,U); int up=R.below(2),un=R.below(2); FFLAS_UPLO UL=up?FflasUpper:FflasLower; begin_case(d.str()+" tri N="+std::to_string(N)+(up?" Upper":" Lower")+(un?" Unit":" NonUnit")+" ldt="+std::to_string(T.ld),N); RM t=toRsave(F,T),u=toRsave(F,U);
      auto in=[&](size_t i,size_t j){ return up? j>=i: j<=i; };
      int w=R.below(3); if(w==0){ if(!N) break; fzero(F,UL,un?FflasUnit:FflasNonUnit,N,T.p(),T.ld); for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++){ bool z=in(i,j)&&(i!=j||!un); if(res(F,T.at(i,j))!=(z?0:t[i][j])) fail("triangular fzero"); } check_frame(F,T,"T",in); }
      else if(w==1){ faddin(F,UL,N,T.p(),T.ld,U.p(),U.ld); 
        for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++){ bool q=in(i,j); if(res(F,U.at(i,j))!=(q?(t[i][j]+u[i][j])%p:u[i][j])) fail("triangular faddin"); } check_const(F,T,"T"); check_frame(F,U,"U",in); }
      else { for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++) if(in(i,j)) { T.at(i,j)=T.at(i,j)+(El)p; } T.save=T.buf; freduce(F,UL,N,T.p(),T.ld); for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++) if(in(i,j)&&(res(F,T.at(i,j))!=t[i][j]||!canonical(F,T.at(i,j)))) fail("triangular freduce"); check_frame(F,T,"T",in); }
      break; }
  }
}
int main(int argc,char**argv){ hx_init(argc,argv); int i=0; while(time_left()){ run_case(i%23); i++; } return finish(); }
