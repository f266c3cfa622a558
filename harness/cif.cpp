// C17: every C entry point against the template routine it is documented to forward to, on the same input (differential).
// The table below was produced once from the declarations in interfaces/libs/*_c.h and is kept as source.
#include "hx.h"
#include "fflas-ffpack/ffpack/ffpack.h"
#include "fflas-ffpack/interfaces/libs/fflas_lvl1.C"
#include "fflas-ffpack/interfaces/libs/fflas_lvl2.C"
#include "fflas-ffpack/interfaces/libs/fflas_lvl3.C"
#include "fflas-ffpack/interfaces/libs/ffpack.C"
struct K{ size_t m,n,k,r; int side,tr0,tr1,up,di,lu; bool bo; ll al,be; };
template<class T> struct St{ std::vector<T> b[4]; std::vector<size_t> lp[6],mp[6],id[6]; size_t o[6]; size_t*pp[6]; T*dp[6]; int info; };
template<class T> struct Ent{ const char*name; double(*c)(St<T>&,const K&,ll,bool); double(*t)(St<T>&,const K&,ll,bool); };
static const Ent<double> TD[]={
 {"freducein_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::freducein_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::freduce(F,(size_t)k.n,s.b[0].data(),(size_t)3); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::freduce(F,(size_t)k.n,s.b[0].data(),(size_t)3); return 0.0; } }},
 {"freduce_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::freduce_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::freduce(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::freduce(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } }},
 {"fnegin_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fnegin_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fnegin(F,(size_t)k.n,s.b[0].data(),(size_t)3); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fnegin(F,(size_t)k.n,s.b[0].data(),(size_t)3); return 0.0; } }},
 {"fneg_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fneg_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fneg(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fneg(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } }},
 {"fzero_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fzero_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fzero(F,(size_t)k.n,s.b[0].data(),(size_t)3); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fzero(F,(size_t)k.n,s.b[0].data(),(size_t)3); return 0.0; } }},
 {"fiszero_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::fiszero_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFLAS::fiszero(F,(size_t)k.n,s.b[0].data(),(size_t)3); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFLAS::fiszero(F,(size_t)k.n,s.b[0].data(),(size_t)3); } }},
 {"fequal_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::fequal_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFLAS::fequal(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFLAS::fequal(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); } }},
 {"fassign_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fassign_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fassign(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fassign(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } }},
 {"fscalin_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fscalin_1_modular_double((double)p,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fscalin(F,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fscalin(F,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3); return 0.0; } }},
 {"fscal_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fscal_1_modular_double((double)p,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fscal(F,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fscal(F,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } }},
 {"faxpy_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::faxpy_1_modular_double((double)p,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::faxpy(F,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::faxpy(F,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } }},
 {"fdot_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::fdot_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFLAS::fdot(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFLAS::fdot(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); } }},
 {"fswap_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fswap_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fswap(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fswap(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } }},
 {"fadd_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fadd_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,s.b[2].data(),(size_t)2,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fadd(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,s.b[2].data(),(size_t)2); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fadd(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,s.b[2].data(),(size_t)2); return 0.0; } }},
 {"fsub_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fsub_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,s.b[2].data(),(size_t)2,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fsub(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,s.b[2].data(),(size_t)2); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fsub(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,s.b[2].data(),(size_t)2); return 0.0; } }},
 {"faddin_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::faddin_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::faddin(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::faddin(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } }},
 {"fsubin_1_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fsubin_1_modular_double((double)p,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fsubin(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fsubin(F,(size_t)k.n,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1); return 0.0; } }},
 {"fassign_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fassign_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fassign(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fassign(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"fzero_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fzero_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fzero(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fzero(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } }},
 {"fequal_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::fequal_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFLAS::fequal(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFLAS::fequal(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); } }},
 {"fiszero_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::fiszero_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFLAS::fiszero(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFLAS::fiszero(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); } }},
 {"fidentity_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fidentity_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,(double)k.al,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fidentity(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,(double)k.al); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fidentity(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,(double)k.al); return 0.0; } }},
 {"freducein_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::freducein_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::freduce(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::freduce(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } }},
 {"freduce_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::freduce_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::freduce(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::freduce(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"fnegin_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fnegin_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fnegin(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fnegin(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } }},
 {"fneg_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fneg_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fneg(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fneg(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"fscalin_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fscalin_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fscalin(F,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fscalin(F,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25); return 0.0; } }},
 {"fscal_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fscal_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fscal(F,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fscal(F,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"faxpy_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::faxpy_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::faxpy(F,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::faxpy(F,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"fmove_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fmove_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fmove(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fmove(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"fadd_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fadd_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fadd(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fadd(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27); return 0.0; } }},
 {"fsub_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fsub_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fsub(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fsub(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27); return 0.0; } }},
 {"fsubin_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fsubin_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fsubin(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fsubin(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"faddin_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::faddin_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::faddin(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::faddin(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"fgemv_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fgemv_2_modular_double((double)p,(enum FFLAS_C_TRANSPOSE)k.tr0,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)1,(double)k.be,s.b[2].data(),(size_t)2,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fgemv(F,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)1,(double)k.be,s.b[2].data(),(size_t)2); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fgemv(F,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)1,(double)k.be,s.b[2].data(),(size_t)2); return 0.0; } }},
 {"fger_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fger_2_modular_double((double)p,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,s.b[2].data(),(size_t)27,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fger(F,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,s.b[2].data(),(size_t)27); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fger(F,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)3,s.b[1].data(),(size_t)1,s.b[2].data(),(size_t)27); return 0.0; } }},
 {"ftrsv_2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::ftrsv_2_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(enum FFLAS_C_TRANSPOSE)k.tr0,(enum FFLAS_C_DIAG)k.di,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(int)1,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::ftrsv(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(int)1); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::ftrsv(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.n,s.b[0].data(),(size_t)25,s.b[1].data(),(int)1); return 0.0; } }},
 {"ftrsm_3_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::ftrsm_3_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(enum FFLAS_C_UPLO)k.up,(enum FFLAS_C_TRANSPOSE)k.tr0,(enum FFLAS_C_DIAG)k.di,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::ftrsm(F,(FFLAS::FFLAS_SIDE)k.side,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::ftrsm(F,(FFLAS::FFLAS_SIDE)k.side,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"ftrmm_3_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::ftrmm_3_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(enum FFLAS_C_UPLO)k.up,(enum FFLAS_C_TRANSPOSE)k.tr0,(enum FFLAS_C_DIAG)k.di,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::ftrmm(F,(FFLAS::FFLAS_SIDE)k.side,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::ftrmm(F,(FFLAS::FFLAS_SIDE)k.side,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"fgemm_3_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fgemm_3_modular_double((double)p,(enum FFLAS_C_TRANSPOSE)k.tr0,(enum FFLAS_C_TRANSPOSE)k.tr1,(size_t)k.m,(size_t)k.n,(size_t)k.k,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,(double)k.be,s.b[2].data(),(size_t)27,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fgemm(F,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(FFLAS::FFLAS_TRANSPOSE)k.tr1,(size_t)k.m,(size_t)k.n,(size_t)k.k,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,(double)k.be,s.b[2].data(),(size_t)27); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fgemm(F,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(FFLAS::FFLAS_TRANSPOSE)k.tr1,(size_t)k.m,(size_t)k.n,(size_t)k.k,(double)k.al,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,(double)k.be,s.b[2].data(),(size_t)27); return 0.0; } }},
 {"fsquare_3_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fsquare_3_modular_double((double)p,(enum FFLAS_C_TRANSPOSE)k.tr0,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,(double)k.be,s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFLAS::fsquare(F,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,(double)k.be,s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFLAS::fsquare(F,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(size_t)k.n,(double)k.al,s.b[0].data(),(size_t)25,(double)k.be,s.b[1].data(),(size_t)26); return 0.0; } }},
 {"LAPACKPerm2MathPerm",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::LAPACKPerm2MathPerm(s.mp[0].data(),s.lp[1].data(),(size_t)k.n); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::LAPACKPerm2MathPerm(s.mp[0].data(),s.lp[1].data(),(size_t)k.n); return 0.0; }},
 {"MathPerm2LAPACKPerm",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::MathPerm2LAPACKPerm(s.lp[0].data(),s.mp[1].data(),(size_t)k.n); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::MathPerm2LAPACKPerm(s.lp[0].data(),s.mp[1].data(),(size_t)k.n); return 0.0; }},
 {"MatrixApplyS_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::MatrixApplyS_modular_double((double)p,s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::MatrixApplyS(F,s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::MatrixApplyS(F,s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2); return 0.0; } }},
 {"PermApplyS_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::PermApplyS_double(s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::PermApplyS(s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2); return 0.0; }},
 {"MatrixApplyT_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::MatrixApplyT_modular_double((double)p,s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::MatrixApplyT(F,s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::MatrixApplyT(F,s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2); return 0.0; } }},
 {"PermApplyT_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::PermApplyT_double(s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::PermApplyT(s.b[0].data(),(size_t)25,(size_t)k.k,(size_t)5,(size_t)2,(size_t)1,(size_t)3,(size_t)2); return 0.0; }},
 {"composePermutationsLLM",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::composePermutationsLLM(s.mp[0].data(),s.lp[1].data(),s.id[2].data(),(size_t)k.r,(size_t)k.n); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::composePermutationsLLM(s.mp[0].data(),s.lp[1].data(),s.id[2].data(),(size_t)k.r,(size_t)k.n); return 0.0; }},
 {"composePermutationsLLL",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::composePermutationsLLL(s.lp[0].data(),s.id[1].data(),(size_t)k.r,(size_t)k.n); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::composePermutationsLLL(s.lp[0].data(),s.id[1].data(),(size_t)k.r,(size_t)k.n); return 0.0; }},
 {"composePermutationsMLM",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::composePermutationsMLM(s.mp[0].data(),s.id[1].data(),(size_t)k.r,(size_t)k.n); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::composePermutationsMLM(s.mp[0].data(),s.id[1].data(),(size_t)k.r,(size_t)k.n); return 0.0; }},
 {"cyclic_shift_mathPerm",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::cyclic_shift_mathPerm(s.mp[0].data(),(size_t)k.n); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::cyclic_shift_mathPerm(s.mp[0].data(),(size_t)k.n); return 0.0; }},
 {"cyclic_shift_row_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::cyclic_shift_row_modular_double((double)p,s.b[0].data(),(size_t)k.m,(size_t)k.n,(size_t)25,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::cyclic_shift_row(F,s.b[0].data(),(size_t)k.m,(size_t)k.n,(size_t)25); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::cyclic_shift_row(F,s.b[0].data(),(size_t)k.m,(size_t)k.n,(size_t)25); return 0.0; } }},
 {"cyclic_shift_col_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::cyclic_shift_col_modular_double((double)p,s.b[0].data(),(size_t)k.m,(size_t)k.n,(size_t)25,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::cyclic_shift_col(F,s.b[0].data(),(size_t)k.m,(size_t)k.n,(size_t)25); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::cyclic_shift_col(F,s.b[0].data(),(size_t)k.m,(size_t)k.n,(size_t)25); return 0.0; } }},
 {"applyP_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::applyP_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(enum FFLAS_C_TRANSPOSE)k.tr0,(size_t)k.m,(size_t)0,(size_t)k.r,s.b[0].data(),(size_t)25,s.lp[0].data(),pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::applyP(F,(FFLAS::FFLAS_SIDE)k.side,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(size_t)k.m,(size_t)0,(size_t)k.r,s.b[0].data(),(size_t)25,s.lp[0].data()); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::applyP(F,(FFLAS::FFLAS_SIDE)k.side,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(size_t)k.m,(size_t)0,(size_t)k.r,s.b[0].data(),(size_t)25,s.lp[0].data()); return 0.0; } }},
 {"fgetrsin_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fgetrsin_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),s.b[1].data(),(size_t)26,&s.info,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::fgetrs(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),s.b[1].data(),(size_t)26,&s.info); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::fgetrs(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),s.b[1].data(),(size_t)26,&s.info); return 0.0; } }},
 {"fgetrs_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::fgetrs_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.k,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27,&s.info,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::fgetrs(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.k,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27,&s.info); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::fgetrs(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.k,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27,&s.info); return 0.0; } }},
 {"fgesvin_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::fgesvin_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,&s.info,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::fgesv(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,&s.info); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::fgesv(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,&s.info); } }},
 {"fgesv_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::fgesv_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.k,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27,&s.info,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::fgesv(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.k,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27,&s.info); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::fgesv(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.k,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.b[2].data(),(size_t)27,&s.info); } }},
 {"ftrtri_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::ftrtri_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(enum FFLAS_C_DIAG)k.di,(size_t)k.n,s.b[0].data(),(size_t)25,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::ftrtri(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::ftrtri(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } }},
 {"ftrtrm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::ftrtrm_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(enum FFLAS_C_DIAG)k.di,(size_t)k.n,s.b[0].data(),(size_t)25,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::ftrtrm(F,(FFLAS::FFLAS_SIDE)k.side,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::ftrtrm(F,(FFLAS::FFLAS_SIDE)k.side,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.n,s.b[0].data(),(size_t)25); return 0.0; } }},
 {"PLUQ_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::PLUQ_modular_double((double)p,(enum FFLAS_C_DIAG)k.di,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::PLUQ(F,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data()); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::PLUQ(F,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data()); } }},
 {"LUdivine_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::LUdivine_modular_double((double)p,(enum FFLAS_C_DIAG)k.di,(enum FFLAS_C_TRANSPOSE)k.tr0,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),(enum FFPACK_C_LU_TAG)k.lu,(size_t)3,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::LUdivine(F,(FFLAS::FFLAS_DIAG)k.di,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),(FFPACK::FFPACK_LU_TAG)k.lu,(size_t)3); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::LUdivine(F,(FFLAS::FFLAS_DIAG)k.di,(FFLAS::FFLAS_TRANSPOSE)k.tr0,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),(FFPACK::FFPACK_LU_TAG)k.lu,(size_t)3); } }},
 {"ColumnEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::ColumnEchelonForm_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::ColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::ColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"RowEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::RowEchelonForm_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::RowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::RowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"ReducedColumnEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::ReducedColumnEchelonForm_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::ReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::ReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"ReducedRowEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::ReducedRowEchelonForm_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::ReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::ReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"Invertin_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::Invertin_modular_double((double)p,(size_t)k.m,s.b[0].data(),(size_t)25,&s.info,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::Invert(F,(size_t)k.m,s.b[0].data(),(size_t)25,s.info); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::Invert(F,(size_t)k.m,s.b[0].data(),(size_t)25,s.info); return 0.0; } }},
 {"Invert_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::Invert_modular_double((double)p,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,&s.info,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::Invert(F,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.info); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::Invert(F,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.info); return 0.0; } }},
 {"Invert2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::Invert2_modular_double((double)p,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,&s.info,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::Invert2(F,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.info); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::Invert2(F,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,s.info); return 0.0; } }},
 {"Rank_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::Rank_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::Rank(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::Rank(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25); } }},
 {"IsSingular_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::IsSingular_modular_double((double)p,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::IsSingular(F,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::IsSingular(F,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25); } }},
 {"Det_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::Det_modular_double((double)p,(size_t)k.m,s.b[0].data(),(size_t)25,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); typename F_::Element d; return (double)FFPACK::Det(F,d,(size_t)k.m,s.b[0].data(),(size_t)25); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); typename F_::Element d; return (double)FFPACK::Det(F,d,(size_t)k.m,s.b[0].data(),(size_t)25); } }},
 {"Solve_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::Solve_modular_double((double)p,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(int)1,s.b[2].data(),(int)2,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::Solve(F,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(int)1,s.b[2].data(),(int)2); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::Solve(F,(size_t)k.m,s.b[0].data(),(size_t)25,s.b[1].data(),(int)1,s.b[2].data(),(int)2); return 0.0; } }},
 {"solveLB_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::solveLB_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::solveLB(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::solveLB(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.b[1].data(),(size_t)26); return 0.0; } }},
 {"solveLB2_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::solveLB2_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.b[1].data(),(size_t)26,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::solveLB2(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.b[1].data(),(size_t)26); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::solveLB2(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.m,(size_t)k.m,s.b[0].data(),(size_t)25,s.lp[0].data(),s.b[1].data(),(size_t)26); return 0.0; } }},
 {"NullSpaceBasis_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::NullSpaceBasis_modular_double((double)p,(enum FFLAS_C_SIDE)k.side,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,&s.dp[0],&s.o[1],&s.o[2],pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::NullSpaceBasis(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.dp[0],s.o[1],s.o[2]); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::NullSpaceBasis(F,(FFLAS::FFLAS_SIDE)k.side,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.dp[0],s.o[1],s.o[2]); } }},
 {"RowRankProfile_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::RowRankProfile_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,&s.pp[0],(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::RowRankProfile(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.pp[0],(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::RowRankProfile(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.pp[0],(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"ColumnRankProfile_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::ColumnRankProfile_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,&s.pp[0],(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::ColumnRankProfile(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.pp[0],(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::ColumnRankProfile(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.pp[0],(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"RankProfileFromLU",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::RankProfileFromLU(s.lp[0].data(),(size_t)k.n,(size_t)k.r,s.lp[1].data(),(enum FFPACK_C_LU_TAG)k.lu); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::RankProfileFromLU(s.lp[0].data(),(size_t)k.n,(size_t)k.r,s.lp[1].data(),(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; }},
 {"LeadingSubmatrixRankProfiles",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::LeadingSubmatrixRankProfiles((size_t)k.m,(size_t)k.n,(size_t)k.r,(size_t)k.m,(size_t)k.n,s.lp[0].data(),s.lp[1].data(),s.lp[2].data(),s.lp[3].data()); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)FFPACK::LeadingSubmatrixRankProfiles((size_t)k.m,(size_t)k.n,(size_t)k.r,(size_t)k.m,(size_t)k.n,s.lp[0].data(),s.lp[1].data(),s.lp[2].data(),s.lp[3].data()); }},
 {"RowRankProfileSubmatrixIndices_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::RowRankProfileSubmatrixIndices_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,&s.pp[0],&s.pp[1],&s.o[2],pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::RowRankProfileSubmatrixIndices(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.pp[0],s.pp[1],s.o[2]); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::RowRankProfileSubmatrixIndices(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.pp[0],s.pp[1],s.o[2]); } }},
 {"ColRankProfileSubmatrixIndices_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::ColRankProfileSubmatrixIndices_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,&s.pp[0],&s.pp[1],&s.o[2],pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::ColRankProfileSubmatrixIndices(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.pp[0],s.pp[1],s.o[2]); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::ColRankProfileSubmatrixIndices(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.pp[0],s.pp[1],s.o[2]); } }},
 {"RowRankProfileSubmatrix_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::RowRankProfileSubmatrix_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,&s.dp[0],&s.o[1],pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::RowRankProfileSubmatrix(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.dp[0],s.o[1]); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::RowRankProfileSubmatrix(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.dp[0],s.o[1]); } }},
 {"ColRankProfileSubmatrix_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::ColRankProfileSubmatrix_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,&s.dp[0],&s.o[1],pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::ColRankProfileSubmatrix(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.dp[0],s.o[1]); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::ColRankProfileSubmatrix(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.dp[0],s.o[1]); } }},
 {"getTriangular_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::getTriangular_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(enum FFLAS_C_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,k.bo,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::getTriangular(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,k.bo); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::getTriangular(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,k.bo); return 0.0; } }},
 {"getTriangularin_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::getTriangularin_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(enum FFLAS_C_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.b[0].data(),(size_t)25,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::getTriangular(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.b[0].data(),(size_t)25); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::getTriangular(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.b[0].data(),(size_t)25); return 0.0; } }},
 {"getEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::getEchelonForm_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(enum FFLAS_C_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::getEchelonForm(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::getEchelonForm(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } }},
 {"getEchelonFormin_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::getEchelonFormin_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(enum FFLAS_C_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,(enum FFPACK_C_LU_TAG)k.lu,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::getEchelonForm(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::getEchelonForm(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } }},
 {"getEchelonTransform_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::getEchelonTransform_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(enum FFLAS_C_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.lp[1].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,(enum FFPACK_C_LU_TAG)k.lu,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::getEchelonTransform(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.lp[1].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::getEchelonTransform(F,(FFLAS::FFLAS_UPLO)k.up,(FFLAS::FFLAS_DIAG)k.di,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.lp[1].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } }},
 {"getReducedEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::getReducedEchelonForm_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::getReducedEchelonForm(F,(FFLAS::FFLAS_UPLO)k.up,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::getReducedEchelonForm(F,(FFLAS::FFLAS_UPLO)k.up,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } }},
 {"getReducedEchelonFormin_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::getReducedEchelonFormin_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,(enum FFPACK_C_LU_TAG)k.lu,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::getReducedEchelonForm(F,(FFLAS::FFLAS_UPLO)k.up,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::getReducedEchelonForm(F,(FFLAS::FFLAS_UPLO)k.up,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.lp[0].data(),s.b[0].data(),(size_t)25,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } }},
 {"getReducedEchelonTransform_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::getReducedEchelonTransform_modular_double((double)p,(enum FFLAS_C_UPLO)k.up,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.id[0].data(),s.id[1].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,(enum FFPACK_C_LU_TAG)k.lu,pos); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); FFPACK::getReducedEchelonTransform(F,(FFLAS::FFLAS_UPLO)k.up,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.id[0].data(),s.id[1].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); FFPACK::getReducedEchelonTransform(F,(FFLAS::FFLAS_UPLO)k.up,(size_t)k.m,(size_t)k.n,(size_t)k.r,s.id[0].data(),s.id[1].data(),s.b[0].data(),(size_t)25,s.b[1].data(),(size_t)26,(FFPACK::FFPACK_LU_TAG)k.lu); return 0.0; } }},
 {"PLUQtoEchelonPermutation",[](St<double>&s,const K&k,ll p,bool pos)->double{ ::PLUQtoEchelonPermutation((size_t)k.n,(size_t)k.r,s.lp[0].data(),s.lp[1].data()); return 0.0; },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ FFPACK::PLUQtoEchelonPermutation((size_t)k.n,(size_t)k.r,s.lp[0].data(),s.lp[1].data()); return 0.0; }},
 {"pColumnEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::pColumnEchelonForm_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::pColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::pColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pRowEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::pRowEchelonForm_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::pRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::pRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pReducedColumnEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::pReducedColumnEchelonForm_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::pReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::pReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pReducedRowEchelonForm_modular_double",[](St<double>&s,const K&k,ll p,bool pos)->double{ return (double)::pReducedRowEchelonForm_modular_double((double)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<double>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<double> F_; F_ F(p); return (double)FFPACK::pReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<double> F_; F_ F(p); return (double)FFPACK::pReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
};
static const Ent<float> TF[]={
 {"ColumnEchelonForm_modular_float",[](St<float>&s,const K&k,ll p,bool pos)->double{ return (double)::ColumnEchelonForm_modular_float((float)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<float>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<float> F_; F_ F(p); return (double)FFPACK::ColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<float> F_; F_ F(p); return (double)FFPACK::ColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"RowEchelonForm_modular_float",[](St<float>&s,const K&k,ll p,bool pos)->double{ return (double)::RowEchelonForm_modular_float((float)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<float>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<float> F_; F_ F(p); return (double)FFPACK::RowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<float> F_; F_ F(p); return (double)FFPACK::RowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"ReducedColumnEchelonForm_modular_float",[](St<float>&s,const K&k,ll p,bool pos)->double{ return (double)::ReducedColumnEchelonForm_modular_float((float)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<float>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<float> F_; F_ F(p); return (double)FFPACK::ReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<float> F_; F_ F(p); return (double)FFPACK::ReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"ReducedRowEchelonForm_modular_float",[](St<float>&s,const K&k,ll p,bool pos)->double{ return (double)::ReducedRowEchelonForm_modular_float((float)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<float>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<float> F_; F_ F(p); return (double)FFPACK::ReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<float> F_; F_ F(p); return (double)FFPACK::ReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pColumnEchelonForm_modular_float",[](St<float>&s,const K&k,ll p,bool pos)->double{ return (double)::pColumnEchelonForm_modular_float((float)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<float>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<float> F_; F_ F(p); return (double)FFPACK::pColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<float> F_; F_ F(p); return (double)FFPACK::pColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pRowEchelonForm_modular_float",[](St<float>&s,const K&k,ll p,bool pos)->double{ return (double)::pRowEchelonForm_modular_float((float)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<float>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<float> F_; F_ F(p); return (double)FFPACK::pRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<float> F_; F_ F(p); return (double)FFPACK::pRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pReducedColumnEchelonForm_modular_float",[](St<float>&s,const K&k,ll p,bool pos)->double{ return (double)::pReducedColumnEchelonForm_modular_float((float)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<float>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<float> F_; F_ F(p); return (double)FFPACK::pReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<float> F_; F_ F(p); return (double)FFPACK::pReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pReducedRowEchelonForm_modular_float",[](St<float>&s,const K&k,ll p,bool pos)->double{ return (double)::pReducedRowEchelonForm_modular_float((float)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<float>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<float> F_; F_ F(p); return (double)FFPACK::pReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<float> F_; F_ F(p); return (double)FFPACK::pReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
};
static const Ent<int32_t> TI[]={
 {"ColumnEchelonForm_modular_int32_t",[](St<int32_t>&s,const K&k,ll p,bool pos)->double{ return (double)::ColumnEchelonForm_modular_int32_t((int32_t)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<int32_t>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<int32_t> F_; F_ F(p); return (double)FFPACK::ColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<int32_t> F_; F_ F(p); return (double)FFPACK::ColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"RowEchelonForm_modular_int32_t",[](St<int32_t>&s,const K&k,ll p,bool pos)->double{ return (double)::RowEchelonForm_modular_int32_t((int32_t)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<int32_t>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<int32_t> F_; F_ F(p); return (double)FFPACK::RowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<int32_t> F_; F_ F(p); return (double)FFPACK::RowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"ReducedColumnEchelonForm_modular_int32_t",[](St<int32_t>&s,const K&k,ll p,bool pos)->double{ return (double)::ReducedColumnEchelonForm_modular_int32_t((int32_t)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<int32_t>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<int32_t> F_; F_ F(p); return (double)FFPACK::ReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<int32_t> F_; F_ F(p); return (double)FFPACK::ReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"ReducedRowEchelonForm_modular_int32_t",[](St<int32_t>&s,const K&k,ll p,bool pos)->double{ return (double)::ReducedRowEchelonForm_modular_int32_t((int32_t)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<int32_t>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<int32_t> F_; F_ F(p); return (double)FFPACK::ReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<int32_t> F_; F_ F(p); return (double)FFPACK::ReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pColumnEchelonForm_modular_int32_t",[](St<int32_t>&s,const K&k,ll p,bool pos)->double{ return (double)::pColumnEchelonForm_modular_int32_t((int32_t)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<int32_t>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<int32_t> F_; F_ F(p); return (double)FFPACK::pColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<int32_t> F_; F_ F(p); return (double)FFPACK::pColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pRowEchelonForm_modular_int32_t",[](St<int32_t>&s,const K&k,ll p,bool pos)->double{ return (double)::pRowEchelonForm_modular_int32_t((int32_t)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<int32_t>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<int32_t> F_; F_ F(p); return (double)FFPACK::pRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<int32_t> F_; F_ F(p); return (double)FFPACK::pRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pReducedColumnEchelonForm_modular_int32_t",[](St<int32_t>&s,const K&k,ll p,bool pos)->double{ return (double)::pReducedColumnEchelonForm_modular_int32_t((int32_t)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<int32_t>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<int32_t> F_; F_ F(p); return (double)FFPACK::pReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<int32_t> F_; F_ F(p); return (double)FFPACK::pReducedColumnEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
 {"pReducedRowEchelonForm_modular_int32_t",[](St<int32_t>&s,const K&k,ll p,bool pos)->double{ return (double)::pReducedRowEchelonForm_modular_int32_t((int32_t)p,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(enum FFPACK_C_LU_TAG)k.lu,pos); },
  [](St<int32_t>&s,const K&k,ll p,bool pos)->double{ if(pos){ typedef Givaro::Modular<int32_t> F_; F_ F(p); return (double)FFPACK::pReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } else { typedef Givaro::ModularBalanced<int32_t> F_; F_ F(p); return (double)FFPACK::pReducedRowEchelonForm(F,(size_t)k.m,(size_t)k.n,s.b[0].data(),(size_t)25,s.lp[0].data(),s.lp[1].data(),k.bo,(size_t)0,(FFPACK::FFPACK_LU_TAG)k.lu); } }},
};

template<class T> static void run1(const Ent<T>&e){
 bool pos=R.below(2); std::vector<ll> ps={3,5,7,101,997}; ll p=ps[R.below(ps.size())]; K k; k.m=1+R.below(10);k.n=1+R.below(10);k.k=1+R.below(8); k.r=R.below(4)?std::min(k.m,k.n):1+R.below(std::min(k.m,k.n));
 k.side=R.below(2)?FFLAS::FflasLeft:FFLAS::FflasRight; k.tr0=R.below(2)?FFLAS::FflasTrans:FFLAS::FflasNoTrans; k.tr1=R.below(2)?FFLAS::FflasTrans:FFLAS::FflasNoTrans; k.up=R.below(2)?FFLAS::FflasUpper:FFLAS::FflasLower; k.di=R.below(2)?FFLAS::FflasUnit:FFLAS::FflasNonUnit;
 std::string nm=e.name; k.lu=(R.below(2)&&nm[0]!='p'&&nm.find("LUdivine")==std::string::npos&&nm.find("getReduced")==std::string::npos)?FFPACK::FfpackTileRecursive:FFPACK::FfpackSlabRecursive; if(nm.find("getReduced")!=std::string::npos||nm[0]=='p') k.lu=FFPACK::FfpackTileRecursive;
 k.bo=R.below(2);
 auto rep=[&](ll x){ x%=p; if(!pos&&x>(p-1)/2) x-=p; return x; };
 k.al=rep(1+R.below(p-1)); k.be=rep(R.below(p));
 if(nm.find("ReducedEchelonTransform")!=std::string::npos) k.r=std::min(k.m,k.n);
 St<T> s; for(auto&v:s.b){ v.resize(24*40); for(auto&x:v) x=(T)rep(R.below(p)); }
 // non zero diagonals for every leading dimension in use (triangular operands)
 for(int i=0;i<4;i++) for(int ld=24;ld<=28;ld++) if(ld==25+i) for(int j=0;j<12;j++) s.b[i][j*ld+j]=(T)rep(1+R.below(p-1));
 if(nm.find("Solve")==0||nm.find("fgesv")==0||nm.find("Invert")==0){ // regular systems: unit lower triangular times a nonzero diagonal
  for(int i=0;i<1;i++){ int ld=25+i; for(int a=0;a<24;a++)for(int c=a+1;c<24;c++) s.b[i][a*ld+c]=0; } }
 for(int q=0;q<6;q++){ s.lp[q].resize(40);s.mp[q].resize(40);s.id[q].resize(40); for(size_t i=0;i<40;i++){ s.id[q][i]=s.mp[q][i]=i; s.lp[q][i]=(i+1<std::min(k.m,k.n)&&i<k.r)?i+R.below(2):i; } if(k.n>1) std::swap(s.mp[q][0],s.mp[q][k.n-1]); s.o[q]=0; s.pp[q]=nullptr; s.dp[q]=nullptr; }
 s.info=0;
 if(nm=="MathPerm2LAPACKPerm"){}
 std::ostringstream d; d<<e.name<<" p="<<p<<" positive="<<pos<<" m="<<k.m<<" n="<<k.n<<" k="<<k.k<<" r="<<k.r<<" side="<<k.side<<" tr="<<k.tr0<<","<<k.tr1<<" uplo="<<k.up<<" diag="<<k.di<<" lu="<<k.lu<<" flag="<<k.bo<<" alpha="<<k.al<<" beta="<<k.be; begin_case(d.str());
 St<T> s1=s,s2=s; double r1=e.c(s1,k,p,pos),r2=e.t(s2,k,p,pos);
 if(!(r1==r2)){ std::ostringstream o; o<<"the C entry point returns "<<r1<<", the template "<<r2; fail(o.str()); }
 if(s1.info!=s2.info) fail("status output differs from the template's");
 for(int i=0;i<4;i++) for(size_t j=0;j<s1.b[i].size();j++) if(!(s1.b[i][j]==s2.b[i][j])){ std::ostringstream o; o<<"operand "<<i<<" offset "<<j<<": the C entry point leaves "<<(double)s1.b[i][j]<<", the template "<<(double)s2.b[i][j]; fail(o.str()); }
 for(int q=0;q<6;q++){ if(s1.lp[q]!=s2.lp[q]||s1.mp[q]!=s2.mp[q]||s1.id[q]!=s2.id[q]) fail("permutation output differs from the template's"); if(s1.o[q]!=s2.o[q]) fail("size output differs from the template's");
  for(int w=0;w<2;w++){ St<T>&z=w?s2:s1; if(z.pp[q]) FFLAS::fflas_delete(z.pp[q]); if(z.dp[q]) FFLAS::fflas_delete(z.dp[q]); } } }
int main(int argc,char**argv){ hx_init(argc,argv);
 do{ for(auto&e:TD) run1(e); for(auto&e:TF) run1(e); for(auto&e:TI) run1(e); }while(time_left());
 return finish(); }
