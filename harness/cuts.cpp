// C13: every splitter / parallel loop macro covers each index exactly once
#include "hx.h"
#include "fflas-ffpack/paladin/parallel.h"
typedef CuttingStrategy::Row CRow; typedef CuttingStrategy::Column CCol; typedef CuttingStrategy::Block CBlk; typedef CuttingStrategy::Single CSing;
typedef StrategyParameter::Threads PThr; typedef StrategyParameter::Grain PGr; typedef StrategyParameter::Fixed PFix;
static std::string S(const char*w,size_t m,size_t n,size_t t){ std::ostringstream o; o<<w<<" m="<<m<<" n="<<n<<" t="<<t; return o.str(); }
template<class B,class C,class P> void d1(const char*w,size_t n,size_t t){ begin_case(S(w,1,n,t),n>0); ParSeqHelper::Parallel<C,P> H(t); ForStrategy1D<B,C,P> it((B)n,H); size_t e=0,k=0,nb=it.numblocks();
 for(it.initialize(); !it.isTerminated(); ++it){ if((size_t)it.begin()!=e||(size_t)it.end()<e||(size_t)it.end()>n||(size_t)it.blockindex()!=k) fail("block "+std::to_string(k)+" = ["+std::to_string(it.begin())+","+std::to_string(it.end())+") after "+std::to_string(e)); e=it.end(); if(++k>n+1) fail("more blocks than indices"); }
 if(e!=n) fail("blocks cover [0,"+std::to_string(e)+")"); if(k!=nb) fail("numblocks"); if(n&&!nb) fail("no block");
 ForStrategy1D<B,C,P> it2((B)5,(B)(n+5),H); size_t tot=0; for(it2.initialize(); !it2.isTerminated(); ++it2) tot+=it2.end()-it2.begin(); if(tot!=n) fail("range constructor covers "+std::to_string(tot)); }
template<class B,class C,class P> void d2(const char*w,size_t m,size_t n,size_t t){ begin_case(S(w,m,n,t),m*n>0); ParSeqHelper::Parallel<C,P> H(t); ForStrategy2D<B,C,P> it((B)m,(B)n,H); std::vector<char> c(m*n,0); size_t k=0;
 for(it.initialize(); !it.isTerminated(); ++it){ size_t a=it.ibegin(),b=it.iend(),x=it.jbegin(),y=it.jend(); if(a>b||x>y||b>m||y>n){ std::ostringstream o; o<<"block ["<<a<<","<<b<<")x["<<x<<","<<y<<") out of the matrix"; fail(o.str()); } for(size_t i=a;i<b;i++)for(size_t j=x;j<y;j++) if(c[i*n+j]++) fail("index covered twice: "+std::to_string(i)+","+std::to_string(j)); if(++k>m*n+1) fail("more blocks than indices"); }
 for(size_t i=0;i<m*n;i++) if(!c[i]) fail("index never covered: "+std::to_string(i/n)+","+std::to_string(i%n)); if((size_t)(it.rownumblocks()*it.colnumblocks())!=k) fail("number of blocks"); }
template<class C,class P> void loops(const char*w,size_t m,size_t n,size_t t){ begin_case(S(w,m,n,t),m*n>0); ParSeqHelper::Parallel<C,P> H(t);
 std::vector<int> c(n,0); int*cp=c.data(); FOR1D(i,n,H,{ __atomic_fetch_add(&cp[i],1,__ATOMIC_RELAXED); }); for(size_t i=0;i<n;i++) if(c[i]!=1) fail("FOR1D index "+std::to_string(i)+" visited "+std::to_string(c[i])+" times");
 std::fill(c.begin(),c.end(),0); FORBLOCK1D(it,n,H,{ for(size_t i=it.begin();i<it.end();i++) __atomic_fetch_add(&cp[i],1,__ATOMIC_RELAXED); }); for(size_t i=0;i<n;i++) if(c[i]!=1) fail("FORBLOCK1D index "+std::to_string(i));
 std::fill(c.begin(),c.end(),0); PARFOR1D(i,n,H,{ __atomic_fetch_add(&cp[i],1,__ATOMIC_RELAXED); }); for(size_t i=0;i<n;i++) if(c[i]!=1) fail("PARFOR1D index "+std::to_string(i)+" visited "+std::to_string(c[i])+" times");
 std::vector<int> q(m*n,0); int*qp=q.data(); FORBLOCK2D(it,m,n,H,{ for(size_t i=it.ibegin();i<it.iend();i++)for(size_t j=it.jbegin();j<it.jend();j++) __atomic_fetch_add(&qp[i*n+j],1,__ATOMIC_RELAXED); }); for(size_t i=0;i<m*n;i++) if(q[i]!=1) fail("FORBLOCK2D index "+std::to_string(i/n)+","+std::to_string(i%n)+" visited "+std::to_string(q[i])+" times"); }
template<class B> void all(size_t m,size_t n,size_t t){
 if(m<2){ d1<B,CRow,PThr>("1D Row/Threads",n,t); d1<B,CRow,PGr>("1D Row/Grain",n,t); d1<B,CRow,PFix>("1D Row/Fixed",n,t); d1<B,CBlk,PThr>("1D Block/Threads",n,t); d1<B,CCol,PThr>("1D Column/Threads",n,t); d1<B,CCol,PGr>("1D Column/Grain",n,t); if(t==1) d1<B,CSing,PThr>("1D Single",n,t); } }
static void all2(size_t m,size_t n,size_t t){ typedef size_t B;
 d2<B,CRow,PThr>("2D Row/Threads",m,n,t); d2<B,CRow,PGr>("2D Row/Grain",m,n,t); d2<B,CRow,PFix>("2D Row/Fixed",m,n,t); d2<B,CCol,PThr>("2D Column/Threads",m,n,t); d2<B,CCol,PGr>("2D Column/Grain",m,n,t); d2<B,CCol,PFix>("2D Column/Fixed",m,n,t);
 d2<B,CBlk,PThr>("2D Block/Threads",m,n,t); d2<B,CBlk,PGr>("2D Block/Grain",m,n,t); d2<B,CBlk,PFix>("2D Block/Fixed",m,n,t); if(t==1) d2<B,CSing,PThr>("2D Single",m,n,t); }
int main(int argc,char**argv){ hx_init(argc,argv);
 for(size_t n=0;n<=40;n++)for(size_t t=1;t<=42;t++){ all<size_t>(0,n,t); all<int>(0,n,t); }
 for(size_t m=0;m<=9;m++)for(size_t n=0;n<=9;n++)for(size_t t=1;t<=12;t++) all2(m,n,t);
 while(time_left()){ size_t b=R.below(4)?100:1500; size_t m=R.below(b),n=R.below(b),t=1+R.below(R.below(3)?20:300); if(m*n>400000) m=1+m%200; all<size_t>(0,n*7+m,t); all2(m,n,t);
  if(R.below(4)==0){ size_t tt=1+t%12; loops<CRow,PThr>("loops Row/Threads",m,n,tt); loops<CRow,PGr>("loops Row/Grain",m,n,1+t%50); loops<CCol,PThr>("loops Column/Threads",m,n,tt); loops<CBlk,PThr>("loops Block/Threads",m,n,tt); loops<CBlk,PGr>("loops Block/Grain",m%300,n%300,1+t%50); loops<CRow,PFix>("loops Row/Fixed",m,n,tt); } }
 return finish(); }
