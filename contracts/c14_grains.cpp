// C14: splitting a field into grains tiles its data window exactly.
#include "fields.h"
static inline bool inBox(const V3i &p,const Box3i &b) { return (p.x>=b.min.x)&(p.x<=b.max.x)&(p.y>=b.min.y)&(p.y<=b.max.y)&(p.z>=b.min.z)&(p.z<=b.max.z); }
static inline bool inside(const Box3i &a,const Box3i &b) { return inBox(a.min,b) & inBox(a.max,b); }
static inline bool nonEmpty(const Box3i &b) { return (b.min.x<=b.max.x)&(b.min.y<=b.max.y)&(b.min.z<=b.max.z); }
// dense: one grain per scanline
template <class T> void dense_grains() {
  Box3i dw = NEWBOX(d,1<<20, 9);
  DenseField<T> f;
  f.setSize(Box3i(V3i(0),V3i(9)), dw);
  V3i n = dw.size()+V3i(1);
  V3i p = ANYIN(p,dw);
  size_t count = f.numGrains();
  vc_assert(count == (size_t)n.y*(size_t)n.z, "one grain per scanline of the window");
  // the grain that holds p
  long gy = vc_name((long)p.y-dw.min.y), gz = vc_name((long)p.z-dw.min.z);
  size_t w = (size_t)gz*n.y + gy;
  vc_assert(w < count, "every voxel's scanline has a grain number below the count");
  vc_hint(w % n.y == (size_t)gy); vc_hint(w / n.y == (size_t)gz);
  Box3i g; bool contig = f.getGrainBounds(w, g);
  vc_assert(inBox(p,g), "every voxel is in a grain");
  vc_assert(inside(g,dw), "a grain lies inside the data window");
  vc_assert(contig, "a dense grain is one contiguous run of storage");
  vc_assert((g.min.y==g.max.y) & (g.min.z==g.max.z), "a dense grain is one scanline");
}
VC_HARNESS(dense_grains_f) { dense_grains<float>(); }
VC_HARNESS(dense_grains_v3d) { dense_grains<V3d>(); }
// dense: any grain below the count is a non-empty part of the window, and holds p only if it is p's own grain
template <class T> void dense_disjoint() {
  Box3i dw = NEWBOX(d,1<<20, 9);
  DenseField<T> f;
  f.setSize(Box3i(V3i(0),V3i(9)), dw);
  V3i n = dw.size()+V3i(1);
  V3i p = ANYIN(p,dw);
  long gz = vc_int("gz",0,n.z-1), gy = vc_int("gy",0,n.y-1);
  size_t a = (size_t)gz*n.y + gy;
  vc_hint(a % n.y == (size_t)gy); vc_hint(a / n.y == (size_t)gz);
  Box3i g; f.getGrainBounds(a, g);
  vc_assert(nonEmpty(g), "no grain is empty");
  vc_assert(inside(g,dw), "every grain lies inside the data window");
  vc_assert(!inBox(p,g) | ((p.y-dw.min.y == gy) & (p.z-dw.min.z == gz)), "no voxel is in two grains");
}
VC_HARNESS(dense_disjoint_f) { dense_disjoint<float>(); }
VC_HARNESS(dense_disjoint_v3d) { dense_disjoint<V3d>(); }
// grain numbers below the count are exactly the (row,slice) pairs used above
VC_HARNESS(dense_numbers) {
  long ny = vc_intn("ny",1,1<<21,1,9), nz = vc_intn("nz",1,1<<21,1,9);
  long idx = vc_int("idx",0,ny*nz-1);
  long gy = vc_name(idx % ny), gz = vc_name(idx / ny);
  vc_assert((gz >= 0) & (gz < nz) & (gy >= 0) & (gy < ny), "a grain number below the count has a row and a slice in the window");
  vc_assert(gz*ny+gy == idx, "and is the number of that row and slice");
}
// sparse: one grain per block, clipped to the window
template <class T> void sparse_grains() {
  int order = vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order, 11);
  SparseField<T> f;
  f.setBlockOrder(order);
  f.setSize(Box3i(V3i(0),V3i(9)), dw);
  int s = 1<<order;
  V3i p = ANYIN(p,dw), r = f.blockRes();
  long bi = vc_name(((long)p.x-dw.min.x)>>order), bj = vc_name(((long)p.y-dw.min.y)>>order), bk = vc_name(((long)p.z-dw.min.z)>>order);
  size_t count = f.numGrains();
  vc_assert(count == (size_t)r.x*(size_t)r.y*(size_t)r.z, "one grain per block");
  vc_hint((bi < r.x) & (bj < r.y) & (bk < r.z));
  size_t row = vc_name((long)bk*r.y + bj), w = row*r.x + bi;
  vc_assert(w < count, "every voxel's block has a grain number below the count");
  vc_hint(w % r.x == (size_t)bi); vc_hint(w / r.x == row); vc_hint(row % r.y == (size_t)bj); vc_hint(w / ((size_t)r.x*r.y) == (size_t)bk);
  Box3i g; bool contig = f.getGrainBounds(w, g);
  vc_assert(inBox(p,g), "every voxel is in a grain");
  vc_assert(inside(g,dw), "a grain lies inside the data window");
  vc_assert((g.min.x == dw.min.x+bi*s) & (g.min.y == dw.min.y+bj*s) & (g.min.z == dw.min.z+bk*s), "a sparse grain starts where its block starts");
  vc_assert((g.max.x < dw.min.x+(bi+1)*s) & (g.max.y < dw.min.y+(bj+1)*s) & (g.max.z < dw.min.z+(bk+1)*s), "a sparse grain does not cross into the next block");
  V3i gs = g.size()+V3i(1);
  vc_assert(contig == ((gs.x==s) & (gs.y==s) & (gs.z==s)), "a sparse grain is contiguous exactly when it is a whole block");
}
VC_HARNESS(sparse_grains_f) { sparse_grains<float>(); }
template <class T> void sparse_disjoint() {
  int order = vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order, 11);
  SparseField<T> f;
  f.setBlockOrder(order);
  f.setSize(Box3i(V3i(0),V3i(9)), dw);
  int s = 1<<order;
  V3i p = ANYIN(p,dw), r = f.blockRes();
  long bi = vc_int("bi",0,r.x-1), bj = vc_int("bj",0,r.y-1), bk = vc_int("bk",0,r.z-1);
  size_t row = vc_name(bk*r.y + bj), a = row*r.x + bi;
  vc_hint(a % r.x == (size_t)bi); vc_hint(a / r.x == row); vc_hint(row % r.y == (size_t)bj); vc_hint(a / ((size_t)r.x*r.y) == (size_t)bk);
  Box3i g; f.getGrainBounds(a, g);
  vc_assert(nonEmpty(g), "no grain is empty");
  vc_assert(inside(g,dw), "every grain lies inside the data window");
  vc_assert(!inBox(p,g) | (((p.x-dw.min.x)>>order == bi) & ((p.y-dw.min.y)>>order == bj) & ((p.z-dw.min.z)>>order == bk)), "no voxel is in two grains");
}
VC_HARNESS(sparse_disjoint_f) { sparse_disjoint<float>(); }
VC_HARNESS(sparse_disjoint_v3d) { sparse_disjoint<V3d>(); }
VC_HARNESS(sparse_numbers) {
  long rx = vc_intn("rx",1,1024,1,9), ry = vc_intn("ry",1,1024,1,9), rz = vc_intn("rz",1,1024,1,9);
  long idx = vc_int("idx",0,rx*ry*rz-1);
  long i = vc_name(idx % rx), row = vc_name(idx / rx), j = vc_name(row % ry), k = vc_name(row / ry);
  vc_hint(row < ry*rz);
  vc_assert((i >= 0) & (i < rx) & (j >= 0) & (j < ry) & (k >= 0) & (k < rz), "a grain number below the count has block coordinates in the table");
  vc_assert((k*ry+j)*rx+i == idx, "and is the number of that block");
}
// the concrete walk a threaded client does: every voxel is visited exactly once
template <class F> static void walk(F &f, const Box3i &dw) {
  V3i n = dw.size()+V3i(1); std::vector<int> hit((size_t)n.x*n.y*n.z,0);
  for (size_t g=0; g<f.numGrains(); g++) { Box3i b; f.getGrainBounds(g,b);
    for (int k=b.min.z;k<=b.max.z;k++) for (int j=b.min.y;j<=b.max.y;j++) for (int i=b.min.x;i<=b.max.x;i++) {
      bool ok = inBox(V3i(i,j,k),dw); vc_assert(ok,"grains stay inside"); if (!ok) return;
      hit[((size_t)(k-dw.min.z)*n.y+(j-dw.min.y))*n.x+(i-dw.min.x)]++; } }
  bool one=true; for (size_t q=0;q<hit.size();q++) one = one && hit[q]==1;
  vc_assert(one,"a walk over all grains visits every voxel exactly once");
}
VC_HARNESS(walk_all) {
  int order = vc_casen("order",0,7,0,4);
  Box3i dw = NEWBOX(d,1<<20, 17);
  DenseField<float> d; d.setSize(dw); walk(d,dw);
  SparseField<float> s; s.setBlockOrder(order); s.setSize(dw); walk(s,dw);
}
