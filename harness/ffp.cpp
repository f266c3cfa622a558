// C10/C11/C12/C22: permutations, factorisations and what is computed from them, against naive elimination
#include "hx.h"
#include "fflas-ffpack/ffpack/ffpack.h"
using namespace FFPACK;
typedef std::vector<size_t> Pm;
static Pm randLapack(size_t n){ Pm P(n); int t=R.below(4); for(size_t i=0;i<n;i++) P[i]= t==0? i : t==1? i+R.below(n-i) : t==2? (R.below(4)?i:i+R.below(n-i)) : std::min<size_t>(n-1,i+R.below(3)); return P; }
// lapack: product of transpositions (i,P[i]), ascending: T[k] = source index of position k
static Pm mathOf(const size_t*P,size_t n){ Pm T(n); for(size_t i=0;i<n;i++)T[i]=i; for(size_t i=0;i<n;i++){ if(P[i]>=n) fail("permutation entry out of range at "+std::to_string(i)); std::swap(T[i],T[P[i]]);} return T; }
static Pm mathOf(const Pm&P){ return mathOf(P.data(),P.size()); }
static RM ID(size_t n,ll p){ RM r(n,std::vector<ll>(n,0)); for(size_t i=0;i<n;i++) r[i][i]=1%p; return r; }
struct Ref{ size_t r; std::vector<size_t> rrp,crp; ll det; RM rref; };
// reduced row echelon form; rank profiles
static Ref ref(RM a,size_t m,size_t n,ll p){ Ref o; o.det=1%p; RM b=a; size_t r=0; for(size_t j=0;j<n&&r<m;j++){ size_t i=r; while(i<m&&!b[i][j]) i++; if(i==m){ continue; } if(i!=r){ std::swap(b[i],b[r]); o.det=mod(-(LL)o.det,p);} o.crp.push_back(j); o.det=mulm(o.det,b[r][j],p); ll v=invm(b[r][j],p); for(size_t k=0;k<n;k++) b[r][k]=mulm(b[r][k],v,p); for(size_t q=0;q<m;q++) if(q!=r&&b[q][j]){ ll c=b[q][j]; for(size_t k=0;k<n;k++) b[q][k]=mod((LL)b[q][k]-(LL)c*b[r][k]%p,p);} r++; } o.r=r; o.rref=b; if(r<n||r<m) if(m!=n||r<n) o.det=0;
 // row rank profile = column rank profile of the transpose
 RM t=tr(a,n); size_t rr=0; for(size_t j=0;j<m&&rr<n;j++){ size_t i=rr; while(i<n&&!t[i][j]) i++; if(i==n) continue; std::swap(t[i],t[rr]); o.rrp.push_back(j); ll v=invm(t[rr][j],p); for(size_t q=rr+1;q<n;q++) if(t[q][j]){ ll c=mulm(t[q][j],v,p); for(size_t k=j;k<m;k++) t[q][k]=mod((LL)t[q][k]-(LL)c*t[rr][k]%p,p);} rr++; } return o; }
static void structured(const Fd&F,Mat&A,std::ostringstream&d){ ll p=(ll)F.characteristic(); size_t m=A.m,n=A.n,q=std::min(m,n); fill(F,A,-1); int k=R.below(7); d<<" kind="<<k; RM a(m,std::vector<ll>(n,0));
 if(k==0||!q){ return; }
 if(k==1){ // full generic
  for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) A.at(i,j)=mk(F,R.below(p)); A.save=A.buf; return; }
 size_t r= k==2? q : k==3? q/2 : R.below(q+1); 
 RM l(m,std::vector<ll>(r,0)),u(r,std::vector<ll>(n,0)); 
 if(k<=4){ for(auto&x:l)for(auto&y:x) y=R.below(p); for(auto&x:u)for(auto&y:x) y=R.below(p); }
 else { // random rank profile matrix: rook placement times random unit triangular
  std::vector<size_t> ri(m),cj(n); for(size_t i=0;i<m;i++)ri[i]=i; for(size_t j=0;j<n;j++)cj[j]=j; for(size_t i=m;i>1;i--) std::swap(ri[i-1],ri[R.below(i)]); for(size_t i=n;i>1;i--) std::swap(cj[i-1],cj[R.below(i)]);
  if(k==6&&r<m) { std::sort(ri.begin(),ri.begin()+r); }
  for(size_t t=0;t<r;t++){ size_t i0=ri[t],j0=cj[t]; l[i0][t]=1%p; u[t][j0]= p==2?1:1+R.below(p-1); for(size_t i=i0+1;i<m;i++) l[i][t]= R.below(3)?R.below(p):0; for(size_t j=j0+1;j<n;j++) u[t][j]=R.below(3)?R.below(p):0; } }
 RM e=mul(l,u,m,r,n,p); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) A.at(i,j)=mk(F,e[i][j]);
 if(R.below(6)==0&&n>1){ size_t c=R.below(n),w=1+R.below(n-c); for(size_t i=0;i<m;i++)for(size_t j=c;j<c+w;j++) A.at(i,j)=F.zero; }
 if(R.below(6)==0&&m>1){ size_t c=R.below(m),w=1+R.below(m-c); for(size_t i=c;i<c+w;i++)for(size_t j=0;j<n;j++) A.at(i,j)=F.zero; }
 A.save=A.buf; }
static ll smallp(){ int t=R.below(3); if(PR.empty())PR=primes(); return t==0?PR[R.below(std::min<size_t>(PR.size(),3))]:pick_prime(); }
static size_t fdim(){ return R.below(10)?dim(40):40+R.below(TIER?260:110); }
static auto yes=[](size_t,size_t){return true;};
// ------------------------------------------------------------------ permutations
static void one_perm(){ std::ostringstream d; int w=R.below(9);
 if(w<2){ size_t n=dim(40); Pm P=randLapack(n); d<<"LAPACK/Math conversion n="<<n<<" P="; for(auto x:P)d<<x<<","; begin_case(d.str(),n>1); Pm T(n),B(n); Pm P0=P; LAPACKPerm2MathPerm(T.data(),P.data(),n); if(P!=P0) fail("input permutation modified"); Pm E=mathOf(P); if(T!=E) fail("LAPACKPerm2MathPerm differs from the product of transpositions"); MathPerm2LAPACKPerm(B.data(),T.data(),n); if(T!=E) fail("MathPerm2LAPACKPerm modified its input"); for(size_t i=0;i<n;i++) if(B[i]<i||B[i]>=n) fail("MathPerm2LAPACKPerm entry out of range"); if(mathOf(B)!=E) fail("MathPerm2LAPACKPerm does not describe the same permutation"); 
  // every math permutation (random shuffle)
  for(size_t i=n;i>1;i--) std::swap(T[i-1],T[R.below(i)]); MathPerm2LAPACKPerm(B.data(),T.data(),n); if(mathOf(B)!=T) fail("MathPerm2LAPACKPerm does not describe the same permutation (shuffle)"); Pm S(n); LAPACKPerm2MathPerm(S.data(),B.data(),n); if(S!=T) fail("round trip"); return; }
 if(w==2){ size_t n=1+dim(30),r=R.below(n+1); Pm P1=randLapack(n),P2=randLapack(n-r); d<<"composePermutations n="<<n<<" R="<<r; begin_case(d.str(),n>1); Pm T1=mathOf(P1),T2=mathOf(P2),E(n); for(size_t i=0;i<n;i++) E[i]= i<r? T1[i]:T1[r+T2[i-r]]; Pm X(n); composePermutationsLLM(X.data(),P1.data(),P2.data(),r,n); if(X!=E) fail("composePermutationsLLM"); Pm Y=T1; composePermutationsMLM(Y.data(),P2.data(),r,n); if(Y!=E) fail("composePermutationsMLM"); Pm Z=P1; composePermutationsLLL(Z.data(),P2.data(),r,n); if(mathOf(Z)!=E) fail("composePermutationsLLL"); Pm S=T1; size_t s=1+R.below(n); cyclic_shift_mathPerm(S.data(),s); for(size_t i=0;i<n;i++){ size_t e= i==0?T1[s-1]: i<s?T1[i-1]:T1[i]; if(S[i]!=e) fail("cyclic_shift_mathPerm"); } return; }
 ll p=pick_prime(); Fd F(p);
 if(w<6){ int left=R.below(2),trn=R.below(2); size_t n=dim(30),M=R.below(4)?dim(40):R.below(300); size_t ibeg=R.below(3)?0:R.below(n+1),iend=R.below(3)?n:ibeg+R.below(n-ibeg+1); if(iend<ibeg) iend=ibeg; Pm P=randLapack(n); int par=R.below(4)==0; Mat A(left?n:M,left?M:n,padd()); fill(F,A); RM a0=toRsave(F,A);
  d<<(par?"parallel ":"")<<"applyP p="<<p<<(left?" Left":" Right")<<(trn?" Trans":" NoTrans")<<" M="<<M<<" ibeg="<<ibeg<<" iend="<<iend<<" n="<<n<<" lda="<<A.ld<<" P="; for(auto x:P)d<<x<<","; begin_case(d.str(),n>1&&M);
  auto S=left?FflasLeft:FflasRight; auto T=trn?FflasTrans:FflasNoTrans; if(par){ ParSeqHelper::Parallel<CuttingStrategy::Block,StrategyParameter::Threads> H(1+R.below(5)); PAR_BLOCK{ applyP(F,S,T,M,ibeg,iend,A.p(),A.ld,P.data(),H);} } else applyP(F,S,T,M,ibeg,iend,A.p(),A.ld,P.data());
  Pm q(n); for(size_t i=0;i<n;i++)q[i]=i; bool asc=(left!=0)==(trn==0); // transpositions ascending for Left/NoTrans and Right/Trans
  if(asc) for(size_t i=ibeg;i<iend;i++) std::swap(q[i],q[P[i]]); else for(size_t i=iend;i-->ibeg;) std::swap(q[i],q[P[i]]);
  RM e=a0; for(size_t i=0;i<A.m;i++)for(size_t j=0;j<A.n;j++) e[i][j]= left? a0[q[i]][j]:a0[i][q[j]]; expect(F,A,e,"A"); check_frame(F,A,"A",yes); return; }
 if(w==6){ // monotonic
  int left=R.below(2),trn=R.below(2); size_t n=1+dim(30),M=R.below(4)?dim(40):R.below(300),r=1+R.below(n); std::vector<size_t> idx(n); for(size_t i=0;i<n;i++) idx[i]=i; for(size_t i=n;i>1;i--) std::swap(idx[i-1],idx[R.below(i)]); std::vector<size_t> piv(idx.begin(),idx.begin()+r); if(R.below(2)) std::sort(piv.begin(),piv.end()); std::vector<char> is(n,0); for(auto x:piv) is[x]=1; Pm T=Pm(piv.begin(),piv.end()); for(size_t i=0;i<n;i++) if(!is[i]) T.push_back(i); Pm P(n); MathPerm2LAPACKPerm(P.data(),T.data(),n);
  Mat A(left?n:M,left?M:n,padd()); fill(F,A); RM a0=toRsave(F,A); d<<"MonotonicApplyP p="<<p<<(left?" Left":" Right")<<(trn?" Trans":" NoTrans")<<" M="<<M<<" n="<<n<<" R="<<r<<" lda="<<A.ld<<" T="; for(auto x:T)d<<x<<","; begin_case(d.str(),n>1&&M);
  MonotonicApplyP(F,left?FflasLeft:FflasRight,trn?FflasTrans:FflasNoTrans,M,0,n,A.p(),A.ld,P.data(),r); RM e=a0; bool fw=(left!=0)==(trn==0); for(size_t i=0;i<A.m;i++)for(size_t j=0;j<A.n;j++){ if(left){ if(fw) e[i][j]=a0[T[i]][j]; else e[T[i]][j]=a0[i][j]; } else { if(fw) e[i][j]=a0[i][T[j]]; else e[i][T[j]]=a0[i][j]; } } expect(F,A,e,"A"); check_frame(F,A,"A",yes); return; }
 if(w==7){ // S and T block permutations of PLUQ
  size_t r1=R.below(6),r2=R.below(6),r3=R.below(6),r4=R.below(6),x=R.below(6),y=R.below(6),width=dim(30); int S=R.below(2),par=R.below(3)==0;
  if(S){ size_t M2=r1+r2+x, M=M2+r3+r4+y; Mat A(M,width,padd()); fill(F,A); RM a0=toRsave(F,A); d<<"MatrixApplyS p="<<p<<" width="<<width<<" M="<<M<<" M2="<<M2<<" R="<<r1<<","<<r2<<","<<r3<<","<<r4<<" lda="<<A.ld; begin_case(d.str(),width&&x);
   if(par){ ParSeqHelper::Parallel<CuttingStrategy::Row,StrategyParameter::Threads> H(1+R.below(4)); PAR_BLOCK{ MatrixApplyS(F,A.p(),A.ld,width,M2,r1,r2,r3,r4,H);} } else MatrixApplyS(F,A.p(),A.ld,width,M2,r1,r2,r3,r4);
   Pm q; for(size_t i=0;i<r1+r2;i++)q.push_back(i); for(size_t i=0;i<r3+r4;i++)q.push_back(M2+i); for(size_t i=r1+r2;i<M2;i++)q.push_back(i); for(size_t i=M2+r3+r4;i<M;i++)q.push_back(i); RM e=a0; for(size_t i=0;i<M;i++) e[i]=a0[q[i]]; expect(F,A,e,"A"); check_frame(F,A,"A",yes); std::vector<size_t> V(M); for(size_t i=0;i<M;i++)V[i]=100+i; PermApplyS(V.data(),1,1,M2,r1,r2,r3,r4); for(size_t i=0;i<M;i++) if(V[i]!=100+q[i]) fail("PermApplyS"); }
  else { size_t N2=r1+r3+x, N=N2+r2+r4+y; Mat A(width,N,padd()); fill(F,A); RM a0=toRsave(F,A); d<<"MatrixApplyT p="<<p<<" width="<<width<<" N="<<N<<" N2="<<N2<<" R="<<r1<<","<<r2<<","<<r3<<","<<r4<<" lda="<<A.ld; begin_case(d.str(),width&&x);
   if(par){ ParSeqHelper::Parallel<CuttingStrategy::Row,StrategyParameter::Threads> H(1+R.below(4)); PAR_BLOCK{ MatrixApplyT(F,A.p(),A.ld,width,N2,r1,r2,r3,r4,H);} } else MatrixApplyT(F,A.p(),A.ld,width,N2,r1,r2,r3,r4);
   Pm q; for(size_t i=0;i<r1;i++)q.push_back(i); for(size_t i=0;i<r2;i++)q.push_back(N2+i); for(size_t i=0;i<r3;i++)q.push_back(r1+i); for(size_t i=0;i<r4;i++)q.push_back(N2+r2+i); for(size_t i=r1+r3;i<N2;i++)q.push_back(i); for(size_t i=N2+r2+r4;i<N;i++)q.push_back(i); RM e=a0; for(size_t i=0;i<width;i++)for(size_t j=0;j<N;j++) e[i][j]=a0[i][q[j]]; expect(F,A,e,"A"); check_frame(F,A,"A",yes); std::vector<size_t> V(N); for(size_t i=0;i<N;i++)V[i]=100+i; PermApplyT(V.data(),1,1,N2,r1,r2,r3,r4); for(size_t i=0;i<N;i++) if(V[i]!=100+q[i]) fail("PermApplyT"); }
  return; }
 { size_t m=dim(20),n=dim(20); int k=R.below(2); Mat A(m,n,padd()); fill(F,A); RM a0=toRsave(F,A),e=a0; d<<(k?"cyclic_shift_row":"cyclic_shift_col")<<" p="<<p<<" m="<<m<<" n="<<n<<" lda="<<A.ld; begin_case(d.str(),m>1&&n>1);
  if(k){ cyclic_shift_row(F,A.p(),m,n,A.ld); for(size_t i=0;i<m;i++)e[i]=a0[(i+m-1)%m]; } else { cyclic_shift_col(F,A.p(),m,n,A.ld); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++)e[i][j]=a0[i][(j+n-1)%n]; } expect(F,A,e,"A"); check_frame(F,A,"A",yes); }
}
// ------------------------------------------------------------------ factorisations
static void one_pluq(){ ll p=smallp(); Fd F(p); size_t m=fdim(),n=fdim(); Mat A(m,n,padd()); std::ostringstream d; int un=R.below(2),w=R.below(4); d<<(w==3?"LUdivine":"PLUQ")<<" p="<<p<<" m="<<m<<" n="<<n<<" lda="<<A.ld<<(un?" Unit":" NonUnit"); structured(F,A,d); RM a0=toRsave(F,A); auto D=un?FflasUnit:FflasNonUnit;
 if(w<3){ Pm P(m,77777),Q(n,77777); size_t th=(size_t[]){2,3,4,6,9,16,40,256}[R.below(8)]; d<<" threshold="<<(w==0?0:th); begin_case(d.str(),m&&n); size_t r; ParSeqHelper::Sequential seq; if(w==0) r=PLUQ(F,D,m,n,A.p(),A.ld,P.data(),Q.data()); else r=PLUQ(F,D,m,n,A.p(),A.ld,P.data(),Q.data(),seq,th);
  size_t rk=ref(a0,m,n,p).r; if(r!=rk) fail("rank "+std::to_string(r)+" instead of "+std::to_string(rk)); check_frame(F,A,"A",yes);
  if(!m||!n){ return; } Pm TP=mathOf(P),TQ=mathOf(Q); RM l(m,std::vector<ll>(r,0)),u(r,std::vector<ll>(n,0)); for(size_t i=0;i<m;i++)for(size_t j=0;j<r;j++){ if(j<i) l[i][j]=res(F,A.at(i,j)); if(i==j) l[i][j]= un? res(F,A.at(i,j)):1%p; } for(size_t i=0;i<r;i++)for(size_t j=i;j<n;j++) u[i][j]= i==j&&un? 1%p: res(F,A.at(i,j));
  for(size_t i=0;i<r;i++){ if(!l[i][i]||!u[i][i]) fail("zero pivot on the diagonal"); } for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) if((j<r||i<r)&&!canonical(F,A.at(i,j))) fail("non canonical factor entry");
  RM x=mul(l,u,m,r,n,p); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) if(x[i][j]!=a0[TP[i]][TQ[j]]) fail("PLUQ differs from the input at row "+std::to_string(TP[i])+" column "+std::to_string(TQ[j]));
 } else { int trn=R.below(2); size_t mp=trn?m:n,mq=trn?n:m; Pm P(mp,77777),Q(mq,77777); size_t cut=(size_t[]){1,2,4,9,60}[R.below(5)]; d<<(trn?" Trans":" NoTrans")<<" cutoff="<<cut; begin_case(d.str(),m&&n); for(size_t i=0;i<mp;i++)P[i]=i; for(size_t i=0;i<mq;i++)Q[i]=i; size_t r=LUdivine(F,D,trn?FflasTrans:FflasNoTrans,m,n,A.p(),A.ld,P.data(),Q.data(),FfpackSlabRecursive,cut); Ref o=ref(a0,m,n,p); if(r!=o.r) fail("rank "+std::to_string(r)+" instead of "+std::to_string(o.r)); check_frame(F,A,"A",yes); if(!m||!n||!r) return;
  Mat L(m,r,0),U(r,n,0); auto DD=un?FflasNonUnit:FflasUnit;
  if(!trn){ getTriangular(F,FflasUpper,D,m,n,r,A.p(),A.ld,U.p(),U.ld,true); getEchelonForm(F,FflasLower,DD,m,n,r,Q.data(),A.p(),A.ld,L.p(),L.ld,true); applyP(F,FflasRight,FflasNoTrans,r,0,r,U.p(),U.ld,P.data()); for(size_t i=0;i<r;i++) if(Q[i]!=o.rrp[i]) fail("row rank profile from CUP"); }
  else { getTriangular(F,FflasLower,D,m,n,r,A.p(),A.ld,L.p(),L.ld,true); getEchelonForm(F,FflasUpper,DD,m,n,r,Q.data(),A.p(),A.ld,U.p(),U.ld,true); applyP(F,FflasLeft,FflasTrans,r,0,r,L.p(),L.ld,P.data()); for(size_t i=0;i<r;i++) if(Q[i]!=o.crp[i]) fail("column rank profile from PLE"); }
  RM x=mul(toR(F,L),toR(F,U),m,r,n,p); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) if(x[i][j]!=a0[i][j]) fail("product of the factors differs from the input at "+std::to_string(i)+","+std::to_string(j)); }
}
// ------------------------------------------------------------------ echelon forms, rank profiles
static bool isech(const RM&e,size_t m,size_t n,size_t r,const std::vector<size_t>&crp){ for(size_t i=0;i<m;i++){ size_t j=0; while(j<n&&!e[i][j]) j++; if(i<r){ if(j!=crp[i]) return false; } else if(j!=n) return false; } return true; }
static void one_ech(){ ll p=smallp(); Fd F(p); size_t m=1+fdim(),n=1+fdim(); Mat A(m,n,padd()); std::ostringstream d; int w=R.below(8); FFPACK_LU_TAG tag= R.below(2)?FfpackSlabRecursive:FfpackTileRecursive; bool row=R.below(2),red=R.below(2);
 if(w<5){ if(red&&row&&R.below(3)==0) tag=R.below(2)?FfpackGaussJordanTile:FfpackGaussJordanSlab; }
 d<<(w<5?(row?(red?"ReducedRowEchelonForm":"RowEchelonForm"):(red?"ReducedColumnEchelonForm":"ColumnEchelonForm")):w==5?"RankProfile":w==6?"RankProfileFromLU/LeadingSubmatrix":"RankProfileSubmatrix")<<(row?" row":" col")<<" tag="<<(int)tag<<" p="<<p<<" m="<<m<<" n="<<n<<" lda="<<A.ld; structured(F,A,d); RM a0=toRsave(F,A); 
 if(w<5){ bool tf=true; begin_case(d.str()); Ref o=row?ref(a0,m,n,p):ref(tr(a0,n),n,m,p); size_t np=row?m:n,nq=row?n:m; Pm P(np,0),Q(nq,0); size_t r; auto ul=row?FflasUpper:FflasLower;
  if(row) r=red?ReducedRowEchelonForm(F,m,n,A.p(),A.ld,P.data(),Q.data(),tf,tag):RowEchelonForm(F,m,n,A.p(),A.ld,P.data(),Q.data(),tf,tag); else r=red?ReducedColumnEchelonForm(F,m,n,A.p(),A.ld,P.data(),Q.data(),tf,tag):ColumnEchelonForm(F,m,n,A.p(),A.ld,P.data(),Q.data(),tf,tag);
  if(r!=o.r) fail("rank "+std::to_string(r)+" instead of "+std::to_string(o.r)); check_frame(F,A,"A",yes); FFPACK_LU_TAG gt=tag;
  Mat T(np,np,padd()),E(m,n,padd()); fill(F,T); fill(F,E);
  if(red){ getReducedEchelonTransform(F,ul,m,n,r,P.data(),Q.data(),A.p(),A.ld,T.p(),T.ld,gt); getReducedEchelonForm(F,ul,m,n,r,Q.data(),A.p(),A.ld,E.p(),E.ld,false,gt); } else { getEchelonTransform(F,ul,FflasUnit,m,n,r,P.data(),Q.data(),A.p(),A.ld,T.p(),T.ld,gt); getEchelonForm(F,ul,FflasUnit,m,n,r,Q.data(),A.p(),A.ld,E.p(),E.ld,false,gt); }
  check_frame(F,T,"T",yes); check_frame(F,E,"E",yes); RM e=toR(F,E),t=toR(F,T); RM x=row?mul(t,a0,m,m,n,p):mul(a0,t,m,n,n,p); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) if(x[i][j]!=e[i][j]) fail("transform times A differs from the echelon form at "+std::to_string(i)+","+std::to_string(j));
  RM es=row?e:tr(e,n); size_t mm=row?m:n,nn=row?n:m; if(!isech(es,mm,nn,r,o.crp)) fail("not in echelon form with pivots at the rank profile"); if(red&&es!=o.rref) fail("not the reduced echelon form"); if(ref(t,np,np,p).r!=np) fail("singular transform");
 } else if(w==5){ begin_case(d.str()); Ref o=ref(a0,m,n,p); size_t*rp=nullptr; size_t r=row?RowRankProfile(F,m,n,A.p(),A.ld,rp,tag):ColumnRankProfile(F,m,n,A.p(),A.ld,rp,tag); if(r!=o.r) fail("rank"); for(size_t i=0;i<r;i++) if(rp[i]!=(row?o.rrp:o.crp)[i]) fail("rank profile entry "+std::to_string(i)); if(rp) fflas_delete(rp); check_frame(F,A,"A",yes);
 } else if(w==6){ begin_case(d.str()); Ref o=ref(a0,m,n,p); Pm P(m),Q(n); size_t r=PLUQ(F,FflasNonUnit,m,n,A.p(),A.ld,P.data(),Q.data()); if(r!=o.r) fail("rank"); Pm rp(r+1),cp(r+1); RankProfileFromLU(P.data(),m,r,rp.data(),FfpackTileRecursive); RankProfileFromLU(Q.data(),n,r,cp.data(),FfpackTileRecursive); for(size_t i=0;i<r;i++) if(rp[i]!=o.rrp[i]||cp[i]!=o.crp[i]) fail("RankProfileFromLU");
  size_t lm=1+R.below(m),ln=1+R.below(n); RM s(lm,std::vector<ll>(ln)); for(size_t i=0;i<lm;i++)for(size_t j=0;j<ln;j++)s[i][j]=a0[i][j]; Ref q=ref(s,lm,ln,p); Pm rr(std::max(r,(size_t)1)+m),cc(std::max(r,(size_t)1)+n); size_t lr=LeadingSubmatrixRankProfiles(m,n,r,lm,ln,P.data(),Q.data(),rr.data(),cc.data()); if(lr!=q.r) fail("leading submatrix rank"); for(size_t i=0;i<lr;i++) if(rr[i]!=q.rrp[i]||cc[i]!=q.crp[i]) fail("leading submatrix rank profile");
 } else { begin_case(d.str()); Ref o=ref(a0,m,n,p); size_t r; El*X=nullptr; Mat B(m,n,0); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++)B.at(i,j)=A.at(i,j); B.save=B.buf; size_t*ri=nullptr,*ci=nullptr; size_t q=row?RowRankProfileSubmatrixIndices(F,m,n,B.p(),B.ld,ri,ci,r):ColRankProfileSubmatrixIndices(F,m,n,B.p(),B.ld,ri,ci,r); if(q!=o.r||r!=o.r) fail("rank"); for(size_t i=0;i<r;i++){ if(row&&ri[i]!=o.rrp[i]) fail("row indices"); if(!row&&ci[i]!=o.crp[i]) fail("col indices"); if(ri[i]>=m||ci[i]>=n) fail("index out of range"); } RM s(r,std::vector<ll>(r)); for(size_t i=0;i<r;i++)for(size_t j=0;j<r;j++) s[i][j]=a0[ri[i]][ci[j]]; if(ref(s,r,r,p).r!=r) fail("singular submatrix"); if(ri)fflas_delete(ri); if(ci)fflas_delete(ci);
  size_t r2; row?RowRankProfileSubmatrix(F,m,n,A.p(),A.ld,X,r2):ColRankProfileSubmatrix(F,m,n,A.p(),A.ld,X,r2); if(r2!=o.r) fail("rank (submatrix)"); RM y(r2,std::vector<ll>(r2)); for(size_t i=0;i<r2;i++)for(size_t j=0;j<r2;j++) y[i][j]=res(F,X[i*r2+j]); if(ref(y,r2,r2,p).r!=r2) fail("singular extracted submatrix"); if(y!=s) fail("extracted submatrix differs from the indices"); check_const_res(F,A,"A"); if(X)fflas_delete(X); }
}
// ------------------------------------------------------------------ solve, inverse, det, rank, nullspace
static void one_solve(){ ll p=smallp(); Fd F(p); std::ostringstream d; int w=R.below(10);
 if(w<3){ // square fgetrs / fgesv in place
  int left=R.below(2); size_t N=fdim(),k=dim(20); Mat A(N,N,padd()); d<<(w==0?"fgetrs":"fgesv")<<" square p="<<p<<(left?" Left":" Right")<<" N="<<N<<" nrhs="<<k<<" lda="<<A.ld; structured(F,A,d); RM a0=toRsave(F,A); size_t bm=left?N:k,bn=left?k:N; Mat B(bm,bn,padd()); fill(F,B); bool cons=R.below(3)>0; if(cons){ RM x(bm,std::vector<ll>(bn)); for(auto&v:x)for(auto&y:v) y=R.below(p); RM b=left?mul(a0,x,N,N,k,p):mul(x,a0,k,N,N,p); for(size_t i=0;i<bm;i++)for(size_t j=0;j<bn;j++)B.at(i,j)=mk(F,b[i][j]); B.save=B.buf; } d<<" ldb="<<B.ld; begin_case(d.str(),N>1&&k); RM b0=toRsave(F,B); int info=-5; size_t rk=ref(a0,N,N,p).r; auto S=left?FflasLeft:FflasRight;
  if(w==0){ Pm P(N),Q(N); size_t r=PLUQ(F,FflasNonUnit,N,N,A.p(),A.ld,P.data(),Q.data()); A.save=A.buf; info=0; fgetrs(F,S,bm,bn,r,A.p(),A.ld,P.data(),Q.data(),B.p(),B.ld,&info); check_const_res(F,A,"LU"); } else { info=0; size_t r=fgesv(F,S,bm,bn,A.p(),A.ld,B.p(),B.ld,&info); if(r!=rk) fail("rank returned"); check_frame(F,A,"A",yes); }
  check_frame(F,B,"B",yes); if(!k||!N) return; // consistency
  RM aug; size_t rr; if(left){ aug=a0; for(size_t i=0;i<N;i++)aug[i].insert(aug[i].end(),b0[i].begin(),b0[i].end()); rr=ref(aug,N,N+k,p).r; } else { aug=a0; for(auto&v:b0) aug.push_back(v); rr=ref(aug,N+k,N,p).r; } bool ok=rr==rk; if(ok!=(info==0)) fail(std::string("consistency reported ")+(info==0?"consistent":"inconsistent")); if(info==0){ RM x=toR(F,B); RM e=left?mul(a0,x,N,N,k,p):mul(x,a0,k,N,N,p); if(e!=b0) fail("A*X differs from B"); expect(F,B,x,"X"); }
 } else if(w<5){ // rectangular
  int left=R.below(2); size_t M=fdim(),N=fdim(),k=dim(20); Mat A(M,N,padd()); d<<(w==3?"fgetrs":"fgesv")<<" rectangular p="<<p<<(left?" Left":" Right")<<" M="<<M<<" N="<<N<<" nrhs="<<k<<" lda="<<A.ld; structured(F,A,d); RM a0=toRsave(F,A); Mat B(left?M:k,left?k:N,padd()),X(left?N:k,left?k:M,padd()); fill(F,B); fill(F,X); if(R.below(3)){ RM x(X.m,std::vector<ll>(X.n)); for(auto&v:x)for(auto&y:v) y=R.below(p); RM b=left?mul(a0,x,M,N,k,p):mul(x,a0,k,M,N,p); for(size_t i=0;i<B.m;i++)for(size_t j=0;j<B.n;j++)B.at(i,j)=mk(F,b[i][j]); B.save=B.buf; } d<<" ldb="<<B.ld<<" ldx="<<X.ld; begin_case(d.str(),M>1&&N>1&&k); RM b0=toRsave(F,B); int info=0; size_t rk=ref(a0,M,N,p).r; auto S=left?FflasLeft:FflasRight;
  if(w==3){ Pm P(M),Q(N); size_t r=PLUQ(F,FflasNonUnit,M,N,A.p(),A.ld,P.data(),Q.data()); A.save=A.buf; fgetrs(F,S,M,N,k,r,A.p(),A.ld,P.data(),Q.data(),X.p(),X.ld,B.p(),B.ld,&info); check_const_res(F,A,"LU"); } else { size_t r=fgesv(F,S,M,N,k,A.p(),A.ld,X.p(),X.ld,B.p(),B.ld,&info); if(r!=rk) fail("rank returned"); check_frame(F,A,"A",yes); }
  check_frame(F,X,"X",yes); check_const_res(F,B,"B"); check_frame(F,B,"B",[](size_t,size_t){return false;}); if(!k||!N||!M) return; RM aug=a0; size_t rr; if(left){ for(size_t i=0;i<M;i++)aug[i].insert(aug[i].end(),b0[i].begin(),b0[i].end()); rr=ref(aug,M,N+k,p).r; } else { for(auto&v:b0) aug.push_back(v); rr=ref(aug,M+k,N,p).r; } bool ok=rr==rk; if(ok!=(info==0)) fail(std::string("consistency reported ")+(info==0?"consistent":"inconsistent")); if(info==0){ RM x=toR(F,X); RM e=left?mul(a0,x,M,N,k,p):mul(x,a0,k,M,N,p); if(e!=b0) fail("A*X differs from B"); }
 } else if(w==5||w==6){ size_t N=fdim(); int v=R.below(3); Mat A(N,N,padd()),X(N,N,padd()); d<<"Invert variant="<<v<<" p="<<p<<" N="<<N<<" lda="<<A.ld<<" ldx="<<X.ld; structured(F,A,d); fill(F,X); begin_case(d.str(),N>1); RM a0=toRsave(F,A); int nul=-9; size_t rk=ref(a0,N,N,p).r; if(v==0) Invert(F,N,A.p(),A.ld,nul); else if(v==1){ Invert(F,N,(Fd::ConstElement_ptr)A.p(),A.ld,X.p(),X.ld,nul); check_const_res(F,A,"A"); } else Invert2(F,N,A.p(),A.ld,X.p(),X.ld,nul); if(N==0) return; if(nul!=(int)(N-rk)) fail("nullity "+std::to_string(nul)+" instead of "+std::to_string(N-rk)); if(v) check_frame(F,X,"X",yes); check_frame(F,A,"A",yes); if(!nul){ Mat&I=v?X:A; RM x=toR(F,I); expect(F,I,x,"inverse"); RM e=mul(a0,x,N,N,N,p); if(e!=ID(N,p)) fail("A*A^-1 is not the identity"); }
 } else if(w==7){ size_t N=fdim(); Mat A(N,N,padd()); d<<"Det p="<<p<<" N="<<N<<" lda="<<A.ld; structured(F,A,d); begin_case(d.str(),N>1); RM a0=toRsave(F,A); El det; F.init(det); Ref o=ref(a0,N,N,p); if(R.below(4)==0){ Pm P(N+1),Q(N+1); Det(F,det,N,A.p(),A.ld,P.data(),Q.data()); } else Det(F,det,N,A.p(),A.ld); check_frame(F,A,"A",yes); ll e=o.r==N?o.det:0; if(res(F,det)!=e||!canonical(F,det)) fail("determinant "+std::to_string(res(F,det))+" instead of "+std::to_string(e)); Mat B(N,N,padd()); d.str(""); d<<"IsSingular p="<<p<<" N="<<N; fill(F,B); for(size_t i=0;i<N;i++)for(size_t j=0;j<N;j++) B.at(i,j)=mk(F,a0[i][j]); B.save=B.buf; begin_case(d.str(),N>1); if(N&&IsSingular(F,N,N,B.p(),B.ld)!=(o.r<N)) fail("IsSingular"); 
  size_t M2=1+fdim(),N2=1+fdim(); Mat C(M2,N2,padd()); d.str(""); d<<"Rank p="<<p<<" M="<<M2<<" N="<<N2; structured(F,C,d); begin_case(d.str()); RM c0=toRsave(F,C); size_t rk=Rank(F,M2,N2,C.p(),C.ld); if(rk!=ref(c0,M2,N2,p).r) fail("rank "+std::to_string(rk)); check_frame(F,C,"A",yes);
 } else if(w==8){ size_t M=1+fdim(),N=1+fdim(); int left=R.below(2); Mat A(M,N,padd()); d<<"NullSpaceBasis p="<<p<<(left?" Left":" Right")<<" M="<<M<<" N="<<N<<" lda="<<A.ld; structured(F,A,d); begin_case(d.str()); RM a0=toRsave(F,A); size_t rk=ref(a0,M,N,p).r; El*NS=nullptr; size_t ldn=0,nd=0; size_t q=NullSpaceBasis(F,left?FflasLeft:FflasRight,M,N,A.p(),A.ld,NS,ldn,nd); size_t ex=(left?M:N)-rk; if(q!=nd||nd!=ex) fail("nullspace dimension "+std::to_string(nd)+" instead of "+std::to_string(ex)); check_frame(F,A,"A",yes); if(nd){ size_t a=left?nd:N,b=left?M:nd; RM x(a,std::vector<ll>(b)); for(size_t i=0;i<a;i++)for(size_t j=0;j<b;j++) x[i][j]=res(F,NS[i*ldn+j]); if(ref(x,a,b,p).r!=nd) fail("dependent nullspace vectors"); RM e=left?mul(x,a0,nd,M,N,p):mul(a0,x,M,N,nd,p); for(auto&v:e)for(auto y:v) if(y) fail("A*NS is not zero"); } if(NS) fflas_delete(NS);
  Mat B(M,N,padd()); fill(F,B); for(size_t i=0;i<M;i++)for(size_t j=0;j<N;j++)B.at(i,j)=mk(F,a0[i][j]); B.save=B.buf; size_t len=left?M:N,inc=1+R.below(3); Mat v(len,1,inc-1); fill(F,v); d.str(""); d<<"RandomNullSpaceVector p="<<p<<(left?" Left":" Right")<<" M="<<M<<" N="<<N<<" incX="<<v.ld; begin_case(d.str()); if(ex){ RandomNullSpaceVector(F,left?FflasLeft:FflasRight,M,N,B.p(),B.ld,v.p(),v.ld); check_frame(F,v,"X",yes); RM x=toR(F,v); RM e=left?mul(tr(x,1),a0,1,M,N,p):mul(a0,x,M,N,1,p); for(auto&u:e)for(auto y:u) if(y) fail("A*x is not zero"); }
 } else { size_t N=fdim(); Mat A(N,N,padd()); d<<"Solve p="<<p<<" N="<<N<<" lda="<<A.ld; fill(F,A); if(p>3||N<6) structured(F,A,d); RM a0=toRsave(F,A); if(!N||ref(a0,N,N,p).r!=N){ for(size_t i=0;i<N;i++)for(size_t j=0;j<=i;j++) A.at(i,j)= i==j?mk(F,1+R.below(p-1>0?p-1:1)):F.zero; A.save=A.buf; a0=toRsave(F,A); if(N&&ref(a0,N,N,p).r!=N) return; } Mat x(N,1,R.below(3)),b(N,1,R.below(3)); fill(F,x); fill(F,b); begin_case(d.str(),N>1); RM b0=toRsave(F,b); Solve(F,N,A.p(),A.ld,x.p(),(int)x.ld,(Fd::ConstElement_ptr)b.p(),(int)b.ld); check_frame(F,x,"x",yes); check_const_res(F,b,"b"); check_frame(F,A,"A",yes); if(N&&mul(a0,toR(F,x),N,N,1,p)!=b0) fail("A*x differs from b"); }
}
int main(int argc,char**argv){ hx_init(argc,argv); std::string w=argc>1?argv[1]:"pluq"; while(time_left()){ if(w=="perm") one_perm(); else if(w=="pluq") one_pluq(); else if(w=="ech") one_ech(); else one_solve(); } return finish(); }
