// C19 (proved part): sizes of levels.
#include "fields.h"
#include <boost/shared_ptr.hpp>
#include "MIPField.h"
#include "MIPUtil.h"
VC_HARNESS(level_resolution) {
  int l = (int)vc_case("level",0,16); V3i r, add; for (int i=0;i<3;i++) { r[i] = (int)vc_intn("r",1,1<<24,1,5000); add[i] = (int)vc_int("add",-1,1); }
  V3i n = detail::mipResolution(r,l,add);
  for (int i=0;i<3;i++) { long m = (long)n[i]-add[i], h = vc_name(m << l); vc_assert(m >= 1, "no level is empty"); vc_assert(h >= r[i], "a level covers its base"); vc_assert(h - (1L << l) < r[i], "a level has no voxel beyond its base"); }
}
// filtering of a target block is left out only if every source voxel under its filter reads zero
template <class T> static void empty_input() {
  int order = (int)vc_casen("order",0,4,0,3), dim = (int)vc_case("dim",0,2); V3i r; for (int i=0;i<3;i++) r[i] = (int)vc_intn("r",1,1024<<order,1,40);
  SparseField<T> src, tgt; src.setBlockOrder(order); src.setSize(r);
  Box3i box; for (int i=0;i<3;i++) { box.min[i] = (int)vc_intn("b0",0,1<<16,0,i==dim?20:8); box.max[i] = box.min[i] + (int)vc_intn("bn",0,64,0,8); }
  float sup = (float)vc_real("support",0.0,5.0); int add = (int)vc_int("add",0,1), t = (int)vc_int("t",box.min[dim],box.max[dim]);
  double c = 2.0*t+0.5-add; V3i p; for (int i=0;i<3;i++) { int lo = std::max(0,i == dim ? (int)std::ceil(c-2*sup) : box.min[i]), hi = std::min(r[i]-1,i == dim ? (int)std::floor(c+2*sup) : box.max[i]); vc_assume(lo <= hi); p[i] = (int)vc_int("p",lo,hi); }
  if (vc_symbolic()) havSparse(src); else { src.clear(T(0)); if (vc_bool("empty")) { V3i b = p/(1<<order); src.setBlockEmptyValue(b.x,b.y,b.z,T(1)); } else src.fastLValue(p.x,p.y,p.z) = T(1); }
  bool skip = detail::checkInputEmpty(src,tgt,box,sup,(size_t)dim);
  if (skip) vc_assert(src.fastValue(p.x,p.y,p.z) == T(0), "no filtered value is left out where a source voxel under the filter is not zero");
}
VC_HARNESS(empty_input_f) { empty_input<float>(); }
VC_HARNESS(empty_input_v3f) { empty_input<V3f>(); }
// a field of its own level: where a voxel-space point lies in a level
VC_HARNESS(level_coordinates) {
  int l = (int)vc_case("level",0,12); MIPDenseField<float> mf, *m = &mf; V3i off; for (int i=0;i<3;i++) off[i] = (int)vc_int("off",-1000,1000); m->m_mipOffset = off;
  V3f p((float)vc_real("x",-100.0,100.0),(float)vc_real("y",-100.0,100.0),(float)vc_real("z",-100.0,100.0)), q; m->getVsMIPCoord(p,l,q);
  for (int i=0;i<3;i++) { long s = ((long)off[i] >> l) * (1L << l); vc_assert_close((double)q[i]*(1<<l),(double)p[i]-(double)(s-off[i]),2e-3*(1<<l),"a point maps to the level's own grid, shifted by what the offset lost"); }
}
