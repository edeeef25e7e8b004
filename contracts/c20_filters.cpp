// C20 (proved part): which source voxels a filter sees, with what distance and what weight.
#include "fields.h"
#include "Resample.h"
#include <boost/shared_ptr.hpp>
static bool holds(long a, long b) { return a <= b; }
// every source voxel whose distance is within the support lies in the interval that is visited
VC_HARNESS(interval_covers) {
  long r = vc_intn("r",1,1<<20,1,40), n = vc_intn("n",1,1<<20,1,40), t = vc_intn("t",0,(1<<20)-1,0,39), s = vc_intn("s",0,(1<<20)-1,0,39); vc_assume((t < n) & (s < r));
  float sup = (float)vc_real("support",0.0,4.0); bool up = n > r;
  float srcSize = (float)(1.0/(double)(float)r), tgtSize = (float)(1.0/(double)(float)n), tgtP = discToCont((int)t), srcP = discToCont((int)s);
  vc_nonzero((double)r); vc_nonzero((double)n);
  float d = detail::getDist(up,srcP,tgtP,srcSize,tgtSize); vc_assert(d >= 0, "a distance is not negative");
  double D = up ? std::abs(((double)t+0.5)*(double)r/(double)n-((double)s+0.5)) : std::abs(((double)s+0.5)*(double)n/(double)r-((double)t+0.5));
  vc_assert_close(d,D,1e-3*(1+D),"the distance is measured in voxels of the coarser field");
  std::pair<int,int> iv = detail::srcSupportBBox(tgtP,sup,up,srcSize,tgtSize);
  if (!vc_symbolic()) vc_assume(std::abs(d-sup) > 1e-4);
  if (d <= sup) { vc_assert(holds(iv.first,s), "no voxel under the filter lies before the visited interval"); vc_assert(holds(s,iv.second), "no voxel under the filter lies behind the visited interval"); }
}
// the three-dimensional forms agree with the one-dimensional ones
VC_HARNESS(interval_3d) {
  V3f p,a,b,q; V3i up; for (int i=0;i<3;i++) { p[i] = (float)vc_real("p",0.0,100.0); q[i] = (float)vc_real("q",0.0,100.0); a[i] = (float)vc_real("a",0.01,1.0); b[i] = (float)vc_real("b",0.01,1.0); up[i] = vc_bool("up"); }
  float sup = (float)vc_real("support",0.0,4.0); Box3i box = detail::srcSupportBBox(p,sup,up,a,b); V3f d = detail::getDist(up,q,p,a,b);
  for (int i=0;i<3;i++) { std::pair<int,int> iv = detail::srcSupportBBox(p[i],sup,up[i] != 0,a[i],b[i]); long slack = vc_symbolic() ? 0 : 1; vc_assert(std::abs((long)box.min[i]-iv.first) <= slack, "the box starts at the interval of each axis"); vc_assert(std::abs((long)box.max[i]-iv.second) <= slack, "the box ends at the interval of each axis"); float e = detail::getDist(up[i] != 0,q[i],p[i],a[i],b[i]); if (vc_symbolic()) vc_assert(d[i] == e, "distances agree per axis"); else vc_assert_close(d[i],e,1e-3*(1+e), "distances agree per axis"); }
}
VC_HARNESS(box_weight) {
  float w = (float)vc_real("w",0.25,4.0), x = (float)vc_real("x",0.0,8.0); BoxFilter f(w); MinFilter mn(w); MaxFilter mx(w); float v = f.eval(x);
  if (!vc_symbolic()) vc_assume(std::abs(x-0.5f*w) > 1e-5);
  vc_assert((v == 0) | (v == 1), "a box weighs voxels 0 or 1"); vc_assert((v == 1) == (x <= f.support()), "a box covers exactly its support");
  vc_assert((mn.eval(x) == v) & (mx.eval(x) == v) & (mn.support() == f.support()) & (mx.support() == f.support()), "min and max cover what the box covers");
}
VC_HARNESS(triangle_weight) {
  float w = (float)vc_real("w",0.25,4.0), x = (float)vc_real("x",0.0,8.0); TriangleFilter f(w); float v = f.eval(x);
  vc_assert(f.support() == w, "a triangle reaches its width"); vc_assert((v >= 0) & (v <= 1), "triangle weights are between 0 and 1"); if (x > w) vc_assert(v == 0, "a triangle is zero beyond its support");
  if (x <= w) vc_assert_close(v*w,w-x,1e-5,"a triangle falls linearly");
  TriangleFilter g; float t = (float)vc_real("t",0.0,1.0); vc_assert_close(g.eval(t)+g.eval(1-t),1,1e-5,"unit triangles sum to one");
}
VC_HARNESS(mitchell_weight) {
  MitchellFilter f; float t = (float)vc_real("t",0.001,0.999), x = (float)vc_real("x",0.0,8.0);
  vc_assert(f.support() == 2, "the cubic reaches two voxels"); if (x >= 2) vc_assert(f.eval(x) == 0, "the cubic is zero beyond its support");
  vc_assert_close(f.eval(t)+f.eval(1-t)+f.eval(1+t)+f.eval(2-t),1,1e-4,"cubic weights sum to one");
  vc_assert(f.eval(t) >= 0, "the inner part of the cubic is positive"); vc_assert(f.eval(1+t) >= -0.05, "the outer part of the cubic is small");
  float w = (float)vc_real("w",0.25,4.0); MitchellFilter g(w); vc_assert(g.support() == 2*w, "the width scales the support"); if (x >= 2.001f*w) vc_assert(g.eval(x) == 0, "a scaled cubic is zero beyond its support");
}
VC_HARNESS(minmax_op) {
  float a = (float)vc_real("a",-1e6,1e6), b = (float)vc_real("b",-1e6,1e6); MinFilter mn; MaxFilter mx; float lo = a, hi = a; MinFilter::op(lo,b); MaxFilter::op(hi,b);
  vc_assert((lo <= a) & (lo <= b) & ((lo == a) | (lo == b)), "min takes the smaller value"); vc_assert((hi >= a) & (hi >= b) & ((hi == a) | (hi == b)), "max takes the larger value");
  vc_assert((mn.initialValue() >= a) & (mx.initialValue() <= a), "the start values are neutral");
  V3d u(vc_real("u0",-9.0,9.0),vc_real("u1",-9.0,9.0),vc_real("u2",-9.0,9.0)), v(vc_real("v0",-9.0,9.0),vc_real("v1",-9.0,9.0),vc_real("v2",-9.0,9.0)), l = u, h = u; MinFilter::op(l,v); MaxFilter::op(h,v);
  for (int c=0;c<3;c++) { vc_assert((l[c] <= u[c]) & (l[c] <= v[c]) & ((l[c] == u[c]) | (l[c] == v[c])), "min is taken per component"); vc_assert((h[c] >= u[c]) & (h[c] >= v[c]) & ((h[c] == u[c]) | (h[c] == v[c])), "max is taken per component"); }
}
