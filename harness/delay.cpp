// C03: products at the edge of the exactly representable range. Extreme operands, inner dimensions around the number of
// products that fit before a reduction, explicit helpers with announced bounds.
#include "hx.h"
static bool isp(ll n){ if(n<2)return false; for(ll b:{2,3,5,7,11,13,17,19,23,29,31,37}) if(n%b==0) return n==b; ll d=n-1; int r=0; while(d%2==0){d/=2;r++;} for(ll b:{2,3,5,7,11,13,17,19,23,29,31,37}){ ll x=powm(b%n,d,n); if(x==1||x==n-1)continue; bool c=true; for(int i=1;i<r&&c;i++){ x=mulm(x,x,n); if(x==n-1)c=false;} if(c)return false;} return true;}
#if FIELD==3||FIELD==4||FIELD==6||FIELD==7
static const bool BAL=true;
#else
static const bool BAL=false;
#endif
#if FIELD==1||FIELD==6
static const double MAXD=16777216.0;
#elif FIELD==2||FIELD==4
static const double MAXD=9223372036854775807.0;
#else
static const double MAXD=9007199254740992.0;
#endif
static ll rprime(){ ll mx=mxcard(); if(mx>(1LL<<31)+(1LL<<30)) mx=3037000493LL;
 for(;;){ ll p; if(R.below(8)==0) p=mx-R.below(std::min<ll>(mx,400)); else { double l=1.6+(log((double)mx)-1.6)*(R.below(100000)/100000.0); if(R.below(2)) l=log((double)mx)-(R.below(100000)/100000.0)*6; p=(ll)exp(l); } if(p>mx)p=mx; if(p<3)p=3; p|=1; while(p>2&&!isp(p)) p-=2; if(p<3||p>mx) continue; return p; } }
// number of extreme products that fit, for the field itself or the fields it converts to
static std::vector<ll> kcrit(ll p){ std::vector<ll> v; double e=BAL?(p-1)/2:(p-1), h=(p-1)/2; for(double b:{e,h}) for(double M:{MAXD,16777216.0,9007199254740992.0,9223372036854775807.0}){ for(double c:{0.,1.}) { double k=(M-c*b)/(b*b); if(k>=1&&k<2600) v.push_back((ll)k);} } return v; }
static size_t pickk(ll p,size_t cap=2600){ auto v=kcrit(p); ll k; if(v.empty()||R.below(6)==0) k=1+R.below(60); else { k=R.pick(v); int t=R.below(8); k= t==0?k: t==1?k+1: t==2?2*k: t==3? 2*k+1: t==4? k-1: t==5? k+2: t==6? 3*k+1: k+R.below(k+2); } if(k<1)k=1; if((size_t)k>cap)k=1+R.below(cap); return k; }
// extreme entries, a few moved by one
static void xfill(const Fd&F,Mat&A,int mode){ ll p=(ll)F.characteristic(); El hi=mk(F,BAL?(p-1)/2:p-1), lo=BAL?mk(F,(p+1)/2):F.zero;
 for(auto&x:A.buf){ x= mode==0?hi: mode==1?lo: mode==2? (R.below(2)?hi:lo): mode==3? mk(F,R.below(p)): (R.below(6)?hi:lo); if(mode<3&&R.below(5)==0) x=mk(F,res(F,x)+(mode==1?1:p-1)); }
 if(mode==5){ ll q=R.below(p); for(auto&x:A.buf) x=hi; for(size_t i=0;i<A.m;i++) if(A.n) A.at(i,A.n-1)=mk(F,q); if(A.m) for(size_t j=0;j<A.n;j++) if(R.below(2)) A.at(A.m-1,j)=mk(F,1+R.below(3)); }
 A.save=A.buf; }
static int lev=-9;
static void one_fgemm(){ ll p=rprime(); Fd F((El)p); int ta=R.below(2),tb=R.below(2); lev=-9; size_t m=1+R.below(5),n=1+R.below(5),k=pickk(p);
 bool helper=R.below(2); if(helper){ lev=R.below(3); size_t g=(size_t)1<<lev; m=g*(1+R.below(2))+R.below(3); n=g*(1+R.below(2))+R.below(3); if(k<g) k=g+R.below(3); }
 ll ra,rb; El a=coef(F,ra),b=coef(F,rb); if(R.below(2)){ ra=1; a=F.one; } if(R.below(3)==0){ rb=R.below(2); b=mk(F,rb); }
 Mat A(ta?k:m,ta?m:k,0),B(tb?n:k,tb?k:n,0),C(m,n,R.below(3)); int fa=R.below(6),fb=R.below(6),fc=R.below(5); xfill(F,A,fa); xfill(F,B,fb); xfill(F,C,fc);
 std::ostringstream o; o<<"fgemm p="<<p<<" "<<onoff(ta)<<onoff(tb)<<" m="<<m<<" n="<<n<<" k="<<k<<" alpha="<<ra<<" beta="<<rb<<" fill="<<fa<<fb<<fc<<" lev="<<lev<<" seed="<<SEED; begin_case(o.str());
 RM a0=toR(F,A),b0=toR(F,B),c0=toR(F,C); RM E=mul(ta?tr(a0,m):a0,tb?tr(b0,k):b0,m,k,n,p);
 for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) E[i][j]=mod((LL)mulm(ra,E[i][j],p)+mulm(rb,c0[i][j],p),p);
 auto TA=ta?FflasTrans:FflasNoTrans,TB=tb?FflasTrans:FflasNoTrans;
 if(helper){ MMHelper<Fd,MMHelperAlgo::Winograd> H(F,lev,ParSeqHelper::Sequential()); fgemm(F,TA,TB,m,n,k,a,A.p(),A.ld,B.p(),B.ld,b,C.p(),C.ld,H); }
 else fgemm(F,TA,TB,m,n,k,a,A.p(),A.ld,B.p(),B.ld,b,C.p(),C.ld);
 expect(F,C,E,"C"); }
static void one_fgemv(){ ll p=rprime(); Fd F((El)p); int ta=R.below(2); size_t y=1+R.below(4),k=pickk(p); size_t M=ta?k:y,N=ta?y:k; ll ra,rb; El a=coef(F,ra),b=coef(F,rb); if(R.below(2)){ ra=1; a=F.one; } if(R.below(3)==0){ rb=R.below(2); b=mk(F,rb); }
 Mat A(M,N,R.below(3)),X(k,1,R.below(3)),Y(y,1,R.below(3)); int fa=R.below(6),fb=R.below(6),fc=R.below(5); xfill(F,A,fa); xfill(F,X,fb); xfill(F,Y,fc);
 std::ostringstream o; o<<"fgemv p="<<p<<" "<<onoff(ta)<<" M="<<M<<" N="<<N<<" alpha="<<ra<<" beta="<<rb<<" fill="<<fa<<fb<<fc<<" seed="<<SEED; begin_case(o.str());
 RM a0=toR(F,A),E=mul(ta?tr(a0,N):a0,toR(F,X),y,k,1,p),y0=toR(F,Y); for(size_t i=0;i<y;i++) E[i][0]=mod((LL)mulm(ra,E[i][0],p)+mulm(rb,y0[i][0],p),p);
 fgemv(F,ta?FflasTrans:FflasNoTrans,M,N,a,A.p(),A.ld,X.p(),X.ld,b,Y.p(),Y.ld); expect(F,Y,E,"Y"); }
static void one_fger(){ ll p=rprime(); Fd F((El)p); size_t M=1+R.below(6),N=1+R.below(6); ll ra; El a=coef(F,ra); Mat A(M,N,R.below(3)),X(M,1,R.below(3)),Y(N,1,R.below(3)); int fa=R.below(5),fb=R.below(5),fc=R.below(5); xfill(F,A,fa); xfill(F,X,fb); xfill(F,Y,fc);
 std::ostringstream o; o<<"fger p="<<p<<" M="<<M<<" N="<<N<<" alpha="<<ra<<" fill="<<fa<<fb<<fc<<" seed="<<SEED; begin_case(o.str()); RM E=toR(F,A),x=toR(F,X),y=toR(F,Y); for(size_t i=0;i<M;i++)for(size_t j=0;j<N;j++) E[i][j]=mod((LL)E[i][j]+mulm(ra,mulm(x[i][0],y[j][0],p),p),p);
 fger(F,M,N,a,X.p(),X.ld,Y.p(),Y.ld,A.p(),A.ld); expect(F,A,E,"A"); }
static void one_fdot(){ ll p=rprime(); Fd F((El)p); size_t k=pickk(p); Mat X(k,1,R.below(3)),Y(k,1,R.below(3)); int fa=R.below(5),fb=R.below(5); xfill(F,X,fa); xfill(F,Y,fb);
 std::ostringstream o; o<<"fdot p="<<p<<" N="<<k<<" fill="<<fa<<fb<<" seed="<<SEED; begin_case(o.str()); LL s=0; for(size_t i=0;i<k;i++) s=(s+(LL)res(F,X.at(i,0))*res(F,Y.at(i,0)))%p; El d=fdot(F,k,X.p(),X.ld,Y.p(),Y.ld);
 if(res(F,d)!=mod(s,p)||!canonical(F,d)){ std::ostringstream q; q.precision(20); q<<"dot = "<<d<<" expected residue "<<mod(s,p); fail(q.str()); } }
// X = A^-1 B with unit triangular A of extreme entries: check A X = B
static void one_ftrsm(){ ll p=rprime(); Fd F((El)p); size_t k=pickk(p,150); size_t n=1+R.below(3); int up=R.below(2),ta=R.below(2),ud=R.below(2); bool left=R.below(2);
 Mat A(k,k,R.below(2)),B(left?k:n,left?n:k,R.below(2)); int fa=R.below(5),fb=R.below(5); xfill(F,A,fa); xfill(F,B,fb); for(size_t i=0;i<k;i++) if(!ud&&F.isZero(A.at(i,i))) A.at(i,i)=F.one; A.save=A.buf;
 std::ostringstream o; o<<"ftrsm p="<<p<<" "<<(left?"Left":"Right")<<(up?" Upper ":" Lower ")<<onoff(ta)<<(ud?" Unit":" NonUnit")<<" k="<<k<<" n="<<n<<" fill="<<fa<<fb<<" seed="<<SEED; begin_case(o.str());
 RM T=toR(F,A); for(size_t i=0;i<k;i++)for(size_t j=0;j<k;j++){ if(i==j&&ud) T[i][j]=1; if(up?i>j:i<j) T[i][j]=0; } if(ta) T=tr(T,k); RM B0=toR(F,B);
 ftrsm(F,left?FflasLeft:FflasRight,up?FflasUpper:FflasLower,ta?FflasTrans:FflasNoTrans,ud?FflasUnit:FflasNonUnit,B.m,B.n,F.one,A.p(),A.ld,B.p(),B.ld);
 RM X=toR(F,B); RM Y=left?mul(T,X,k,k,n,p):mul(X,T,n,k,k,p); if(Y!=B0) fail("op(A)X differs from B");
 for(size_t i=0;i<B.m;i++)for(size_t j=0;j<B.n;j++) if(!canonical(F,B.at(i,j))) fail("solution entry not reduced"); }
#if FIELD==0||FIELD==1||FIELD==2||FIELD==3||FIELD==4||FIELD==6
// delayed product with announced operand bounds: congruent result inside the reported bounds
template<class Al> static void lazy_gemm(const char*nm,bool wino){ ll p=rprime(); Fd F((El)p); MMHelper<Fd,Al,ModeCategories::LazyTag> H(F,0,ParSeqHelper::Sequential()); lev= wino?1+R.below(2):0; H.recLevel=lev; size_t g=(size_t)1<<lev;
 double MX=(double)H.MaxStorableValue,fl=(double)H.FieldMin,fh=(double)H.FieldMax; 
#if FIELD==2||FIELD==4
 MX=9223372036854774784.0;
#endif
 double lim=MX/(double)(1LL<<(2*lev)); auto bnd=[&](double&lo,double&hi,bool wide){ int t=R.below(4); double c= t==0?1: t==1? 2+R.below(4): t==2? 1+R.below(1000): 1e18; lo=fl*c; hi=fh*c; if(R.below(2)) lo=-hi; if(hi>lim)hi=lim; if(-lo>lim)lo=-lim; hi=floor(hi); lo=ceil(lo); if(hi<fh)hi=fh; if(lo>fl)lo=fl; if(wide&&R.below(3)==0){ hi=MX; lo=R.below(2)?-MX:0; } };
 double al,ah,bl,bh,cl,ch; bnd(al,ah,false); bnd(bl,bh,false); bnd(cl,ch,true); bool odd=wino&&R.below(3)==0; if(odd){ al=bl=fl; ah=bh=fh; }
 size_t m=g*(1+R.below(2)),n=g*(1+R.below(2)),k=g*(1+R.below(3)); { auto v=kcrit(p); if(v.size()&&R.below(2)) { k=std::min<ll>(R.pick(v),600)+R.below(3); k=std::max<size_t>(g,k/g*g);} } if(odd){ m+=R.below(2); n+=R.below(2); k+=R.below(3); }
 H.Amin=(El)al; H.Amax=(El)ah; H.Bmin=(El)bl; H.Bmax=(El)bh; H.Cmin=(El)cl; H.Cmax=(El)ch;
 ll ra,rb; El a=coef(F,ra),b=coef(F,rb); while(ra==0) a=coef(F,ra); if(R.below(2)){ ra=1; a=F.one; } if(R.below(2)){ rb=1; b=F.one; }
 Mat A(m,k,0),B(k,n,0),C(m,n,0); auto put=[&](Mat&X,double lo,double hi,int md){ for(auto&x:X.buf){ double v= md==0?hi: md==1?lo: md==2?(R.below(2)?hi:lo): lo+floor((hi-lo)*(R.below(1000)/1000.0)); if(R.below(4)==0){ if(v>0)v-=R.below(3); } if(v>hi)v=hi; if(v<lo)v=lo; x=(El)(ll)v; } X.save=X.buf; };
 int fa=R.below(4),fb=R.below(4),fc=R.below(4); put(A,al,ah,fa); put(B,bl,bh,fb); put(C,cl,ch,fc);
 std::ostringstream o; o.precision(20); o<<"fgemm Lazy "<<nm<<" p="<<p<<" m="<<m<<" n="<<n<<" k="<<k<<" lev="<<lev<<" alpha="<<ra<<" beta="<<rb<<" A in ["<<al<<","<<ah<<"] B in ["<<bl<<","<<bh<<"] C in ["<<cl<<","<<ch<<"] fill="<<fa<<fb<<fc<<" seed="<<SEED; begin_case(o.str());
 RM E=mul(toR(F,A),toR(F,B),m,k,n,p),c0=toR(F,C); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) E[i][j]=mod((LL)mulm(ra,E[i][j],p)+mulm(rb,c0[i][j],p),p);
 fgemm(F,FflasNoTrans,FflasNoTrans,m,n,k,a,A.p(),A.ld,B.p(),B.ld,b,C.p(),C.ld,H);
 expect(F,C,E,"C",false); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) if(C.at(i,j)<H.Outmin||C.at(i,j)>H.Outmax){ std::ostringstream q; q.precision(20); q<<"C("<<i<<","<<j<<")="<<C.at(i,j)<<" outside the reported bounds ["<<H.Outmin<<","<<H.Outmax<<"]"; fail(q.str()); }
 check_const_res(F,A,"A"); check_const_res(F,B,"B"); }
static void one_lazy(){ if(R.below(2)) lazy_gemm<MMHelperAlgo::Classic>("Classic",false); else lazy_gemm<MMHelperAlgo::Winograd>("Winograd",true); }
#else
static void one_lazy(){ one_fgemm(); }
#endif
int main(int argc,char**argv){ hx_init(argc,argv); std::vector<std::string> ws={"fgemm","lazy","fgemv","fgemm","fger","fdot","ftrsm","lazy"}; int i=0;
 while(time_left()){ std::string w=argc>1?argv[1]:ws[i%ws.size()]; i++; if(w=="fgemm") one_fgemm(); else if(w=="fgemv") one_fgemv(); else if(w=="fger") one_fger(); else if(w=="fdot") one_fdot(); else if(w=="ftrsm") one_ftrsm(); else one_lazy(); }
 return finish(); }
