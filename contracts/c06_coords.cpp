// C06: voxel index <-> continuous coordinate conversions, bounds conversions, clipping, linear enumeration.
#include "fields.h"
static const long BIG = 1L<<30;
VC_HARNESS(voxel_centre) {
  int i = (int)vc_int("i",-BIG,BIG), j = (int)vc_int("j",-BIG,BIG), k = (int)vc_int("k",-BIG,BIG);
  double c = discToCont(i);
  vc_assert(c == i + 0.5, "the centre of voxel i is i+0.5");
  vc_assert(contToDisc(c) == i, "centre and back gives the same index");
  V3d p = discToCont(V3i(i,j,k));
  vc_assert(p.x == i+0.5 && p.y == j+0.5 && p.z == k+0.5, "the centre of a voxel in three dimensions");
  vc_assert(contToDisc(p) == V3i(i,j,k), "centre and back gives the same voxel");
  V2d q = discToCont(V2i(i,j));
  vc_assert(q.x == i+0.5 && q.y == j+0.5 && contToDisc(q) == V2i(i,j), "the same in two dimensions");
}
VC_HARNESS(voxel_containing) {
  double x = vc_real("x",-1e8,1e8), y = vc_real("y",-1e8,1e8), z = vc_real("z",-1e8,1e8);
  V3i v = contToDisc(V3d(x,y,z));
  vc_assert(v.x <= x && x < v.x + 1.0, "the voxel's unit cube contains the point in x");
  vc_assert(v.y <= y && y < v.y + 1.0, "the voxel's unit cube contains the point in y");
  vc_assert(v.z <= z && z < v.z + 1.0, "the voxel's unit cube contains the point in z");
  V2i w = contToDisc(V2d(y,z));
  vc_assert(w.x == v.y && w.y == v.z && contToDisc(x) == v.x, "all overloads agree");
  vc_assume(x <= y);
  vc_assert(contToDisc(x) <= contToDisc(y), "the conversion is monotone");
}
VC_HARNESS(box_to_continuous) {
  Box3i b = NEWBOX(b,BIG,BIG);
  vc_assume(b.max.x < BIG && b.max.y < BIG && b.max.z < BIG);
  Box3d c = continuousBounds(b);
  vc_assert(c.min.x == b.min.x && c.min.y == b.min.y && c.min.z == b.min.z, "continuous bounds start at the first voxel's lower face");
  vc_assert(c.max.x == b.max.x+1.0 && c.max.y == b.max.y+1.0 && c.max.z == b.max.z+1.0, "continuous bounds end at the last voxel's upper face");
  Box3i d = discreteBounds(c);
  vc_assert(d.min == b.min, "discrete bounds of continuous bounds start at the same voxel");
  vc_assert(d.max.x >= b.max.x && d.max.x <= b.max.x+1 && d.max.y >= b.max.y && d.max.y <= b.max.y+1 && d.max.z >= b.max.z && d.max.z <= b.max.z+1, "discrete bounds of continuous bounds lose no voxel and add at most one layer");
}
VC_HARNESS(box_to_discrete) {
  double a[3], s[3], t[3]; V3d lo, hi, p;
  lo.x=vc_real("lx",-1e8,1e8); lo.y=vc_real("ly",-1e8,1e8); lo.z=vc_real("lz",-1e8,1e8);
  hi.x=vc_real("hx",-1e8,1e8); hi.y=vc_real("hy",-1e8,1e8); hi.z=vc_real("hz",-1e8,1e8);
  p.x=vc_real("px",-1e8,1e8); p.y=vc_real("py",-1e8,1e8); p.z=vc_real("pz",-1e8,1e8);
  vc_assume(lo.x <= p.x && p.x <= hi.x && lo.y <= p.y && p.y <= hi.y && lo.z <= p.z && p.z <= hi.z);
  Box3i d = discreteBounds(Box3d(lo,hi));
  V3i v = contToDisc(p);
  vc_assert(d.min.x <= v.x && v.x <= d.max.x, "no touched voxel is lost in x");
  vc_assert(d.min.y <= v.y && v.y <= d.max.y, "no touched voxel is lost in y");
  vc_assert(d.min.z <= v.z && v.z <= d.max.z, "no touched voxel is lost in z");
  vc_assert(d.min.x > lo.x-1.0001 && d.max.x < hi.x+1.0001 && d.min.y > lo.y-1.0001 && d.max.y < hi.y+1.0001 && d.min.z > lo.z-1.0001 && d.max.z < hi.z+1.0001, "discrete bounds exceed the box by less than one voxel");
}
// huge boxes saturate instead of overflowing
VC_HARNESS(box_saturates) {
  double x = vc_real("x",-1e30,1e30), y = vc_real("y",0,1e30);
  Box3i d = discreteBounds(Box3d(V3d(x),V3d(x+y)));
  if (x < -2147483648.0) vc_assert(d.min.x == -2147483647-1 && d.min.z == -2147483647-1, "a lower bound out of range becomes the smallest index");
  if (x+y > 2147483647.0) vc_assert(d.max.y == 2147483647 && d.max.z == 2147483647, "an upper bound out of range becomes the largest index");
}
VC_HARNESS(clip) {
  Box3i a = NEWBOX(a,BIG,6), b = NEWBOX(b,BIG,6);
  long lim = BIG*2-1;
  int x = (int)vc_intn("x",-lim,lim,-14,14), y = (int)vc_intn("y",-lim,lim,-14,14), z = (int)vc_intn("z",-lim,lim,-14,14);
  Box3i c = clipBounds(a,b);
  V3i p(x,y,z);
  bool inc = x>=c.min.x && x<=c.max.x && y>=c.min.y && y<=c.max.y && z>=c.min.z && z<=c.max.z;
  bool ina = x>=a.min.x && x<=a.max.x && y>=a.min.y && y<=a.max.y && z>=a.min.z && z<=a.max.z;
  bool inb = x>=b.min.x && x<=b.max.x && y>=b.min.y && y<=b.max.y && z>=b.min.z && z<=b.max.z;
  vc_assert(inc == (ina && inb), "clipping gives exactly the common voxels");
}
VC_HARNESS(linear_index) {
  long rx = vc_intn("rx",1,1<<15,1,40), ry = vc_intn("ry",1,1<<15,1,40), rz = vc_intn("rz",1,1<<20,1,40);
  long i = vc_int("i",0,rx-1), j = vc_int("j",0,ry-1), k = vc_int("k",0,rz-1);
  size_t idx = (size_t)(i + j*rx + k*rx*ry);
  V3i c = indexToCoord(idx, V3i((int)rx,(int)ry,(int)rz));
  vc_hint((long)idx/rx == j + k*ry); vc_hint((long)idx/(rx*ry) == k);
  vc_assert(c.x == i, "linear index enumerates x fastest");
  vc_assert(c.y == j, "linear index enumerates y next");
  vc_assert(c.z == k, "linear index enumerates z last");
}
