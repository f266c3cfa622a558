// Driver support: only instantiates templates of /repo; contains no library code.
#ifndef VP_H
#define VP_H
#include "fflas-ffpack/fflas-ffpack-config.h"
#include <givaro/modular.h>
#include <givaro/modular-balanced.h>
#include <givaro/zring.h>
#include "fflas-ffpack/fflas-ffpack.h"
// probes: tell the engine where a field class keeps its constants 0, 1 and -1
template<class F> const void* vp_probe_zero(const F&f){return &f.zero;}
template<class F> const void* vp_probe_one(const F&f){return &f.one;}
template<class F> const void* vp_probe_mOne(const F&f){return &f.mOne;}
#define VP_PROBE(F) template const void* vp_probe_zero(const F&); template const void* vp_probe_one(const F&); template const void* vp_probe_mOne(const F&);
typedef Givaro::Modular<double> FD; typedef Givaro::Modular<float> FF; typedef Givaro::Modular<int64_t> FI; typedef Givaro::Modular<int32_t> FI32;
typedef Givaro::ModularBalanced<double> BD; typedef Givaro::ModularBalanced<int64_t> BI; typedef Givaro::ModularBalanced<float> BF;
typedef Givaro::ZRing<double> ZD; typedef Givaro::ZRing<float> ZF; typedef Givaro::ZRing<int64_t> ZI;
VP_PROBE(FD) VP_PROBE(FF) VP_PROBE(FI) VP_PROBE(FI32) VP_PROBE(BD) VP_PROBE(BI) VP_PROBE(BF) VP_PROBE(ZD) VP_PROBE(ZF) VP_PROBE(ZI)
using namespace FFLAS;
#define FP typename F::Element_ptr
#define FCP typename F::ConstElement_ptr
#define FE typename F::Element
#endif
