// C15: releasing blocks keeps every value the release criterion calls significant.
#include "fields.h"
static inline bool less(float a,float b){ return std::abs(a)<b; }
static inline bool less(double a,double b){ return std::abs(a)<b; }
template <class S> static inline bool less(const Imath::Vec3<S>&a,const Imath::Vec3<S>&b){ return (std::abs(a.x)<b.x) | (std::abs(a.y)<b.y) | (std::abs(a.z)<b.z); }
// one block whose voxels [0,n) are in the field, anything beyond them arbitrary: contract of the criteria
#define ONEBLOCK(T) int order = vc_casen("order",0,2,0,3); int B = 1<<order; \
  V3i n((int)vc_int("nx",1,B),(int)vc_int("ny",1,B),(int)vc_int("nz",1,B)); \
  Sparse::SparseBlock<T> b; b.resize(B*B*B); b.isAllocated = true; Elem<T>::hav(b.data,(size_t)B*B*B,sizeof(T),"s"); \
  int px=vc_int("px",0,n.x-1), py=vc_int("py",0,n.y-1), pz=vc_int("pz",0,n.z-1), qx=vc_int("qx",0,n.x-1), qy=vc_int("qy",0,n.y-1), qz=vc_int("qz",0,n.z-1); \
  int ip = (pz*B+py)*B+px, iq = (qz*B+qy)*B+qx; \
  bool flat = vc_bool("flat"); T v = Elem<T>::any("v"), e = Elem<T>::any("e"); bool dup = vc_bool("dup"); \
  if (!vc_symbolic()) { if (flat) for (int k=0;k<n.z;k++) for (int j=0;j<n.y;j++) for (int i=0;i<n.x;i++) b.data[(k*B+j)*B+i] = v; if (dup) b.data[iq] = e; } \
  vc_witness(ip); vc_witness(iq);
template <class T> void equal_criterion() {
  ONEBLOCK(T)
  T ret = Elem<T>::any("r");
  T vp = b.data[ip], vq = b.data[iq];
  bool rel = Sparse::CheckAllEqual<T>().check(b, ret, n, V3i(B));
  if (rel) {
    vc_assert(vp == vq, "a block is released as constant only if every valid voxel has one value");
    vc_assert(ret == vp, "the empty value is that one value");
  }
  if (!vc_symbolic() && flat && (!dup || e == v)) vc_assert(rel, "a constant block is recognised");
  vc_assert(b.isAllocated && b.data[ip] == vp, "the criterion changes nothing");
}
VC_HARNESS(equal_criterion_f) { equal_criterion<float>(); }
VC_HARNESS(equal_criterion_v3d) { equal_criterion<V3d>(); }
template <class T> void magnitude_criterion() {
  ONEBLOCK(T)
  T ret = Elem<T>::any("r"), m = Elem<T>::any("m");
  T vp = b.data[ip], v0 = b.data[0];
  bool rel = Sparse::CheckMaxAbs<T>(m).check(b, ret, n, V3i(B));
  if (rel) {
    vc_assert(!less(vp,m), "a block is released by magnitude only if no valid voxel is below the threshold");
    vc_assert(ret == v0, "the empty value is a value the block held");
  }
  if (!vc_symbolic() && flat && (!dup || !less(e,m)) && !less(v,m)) vc_assert(rel, "a block without small values is recognised");
}
VC_HARNESS(magnitude_criterion_f) { magnitude_criterion<float>(); }
VC_HARNESS(magnitude_criterion_v3d) { magnitude_criterion<V3d>(); }
// releaseBlocks with an arbitrary criterion: what it asks of the criterion and what it does with the answer
struct Ghost { long asked, granted; };
template <class T> struct AnyCriterion {
  SparseField<T> *f; Ghost *g; Box3i dw; int B;
  bool check(const Sparse::SparseBlock<T> &b, T &ret, const V3i &valid, const V3i &bs) {
    long i = &b - f->m_blocks; V3i r = f->blockRes();
    vc_assert(b.isAllocated, "only allocated blocks are offered for release");
    vc_assert((bs.x == B) & (bs.y == B) & (bs.z == B), "the criterion is told the block size");
    long bx = i % r.x, by = (i / r.x) % r.y, bz = i / ((long)r.x*r.y);
    V3i n = dw.size()+V3i(1);
    vc_assert((valid.x == std::min((long)B,n.x-bx*B)) & (valid.y == std::min((long)B,n.y-by*B)) & (valid.z == std::min((long)B,n.z-bz*B)), "the criterion is told exactly the voxels inside the data window");
    g->asked++;
    ret = (T)vc_fn3("empty",i,1,0);
    bool ok = vc_fn3("grant",i,0,0) > 0.0;
    if (ok) g->granted++;
    return ok;
  }
};
template <class T> void release_any() {
  int order = vc_casen("order",0,2,0,3); int B = 1<<order;
  int rx = vc_casen("rx",1,2,1,4), ry = vc_casen("ry",1,2,1,4), rz = vc_casen("rz",1,2,1,4);
  int lx = vc_int("lx",1,B), ly = vc_int("ly",1,B), lz = vc_int("lz",1,B);
  long x0 = vc_intn("x0",-1000,1000,-9,9), y0 = vc_intn("y0",-1000,1000,-9,9), z0 = vc_intn("z0",-1000,1000,-9,9);
  Box3i dw(V3i(x0,y0,z0), V3i(x0+(rx-1)*B+lx-1, y0+(ry-1)*B+ly-1, z0+(rz-1)*B+lz-1));
  SparseField<T> f; f.setBlockOrder(order); f.setSize(dw); havSparse(f);
  V3i p = ANYIN(p,dw);
  long id = ((long)((p.z-dw.min.z)>>order)*ry + ((p.y-dw.min.y)>>order))*rx + ((p.x-dw.min.x)>>order);
  T old = f.value(p.x,p.y,p.z); bool alloc = f.voxelIsInAllocatedBlock(p.x,p.y,p.z);
  Ghost g = {0,0}; AnyCriterion<T> c = {&f,&g,dw,B};
  int num = f.releaseBlocks(c);
  vc_assert(num == g.granted, "the number reported is the number of blocks released");
  bool rel = alloc && vc_fn3("grant",id,0,0) > 0.0;
  vc_assert(f.voxelIsInAllocatedBlock(p.x,p.y,p.z) == (alloc && !rel), "exactly the blocks the criterion granted are freed");
  T now = f.value(p.x,p.y,p.z);
  if (rel) vc_assert(now == (T)vc_fn3("empty",id,1,0), "a released block reads as the empty value the criterion chose");
  else vc_assert(now == old, "a block that is kept keeps its values");
}
VC_HARNESS(release_any_f) { release_any<float>(); }
VC_HARNESS(release_any_d) { release_any<double>(); }
// whole field, real criteria, any size
template <class T> void release_real() {
  int order = vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1<<20, 13);
  SparseField<T> f; f.setBlockOrder(order); f.setSize(dw); havSparse(f);
  T c = Elem<T>::any("c"), m = Elem<T>::any("m"); bool mag = vc_bool("mag");
  // make some blocks constant
  Box3i flat(ANYIN(a,dw), ANYIN(b,dw));
  for (int k=flat.min.z;k<=flat.max.z;k++) for (int j=flat.min.y;j<=flat.max.y;j++) for (int i=flat.min.x;i<=flat.max.x;i++) f.lvalue(i,j,k) = c;
  SparseField<T> old(f);
  long before=0, after=0; for (size_t b=0;b<f.m_numBlocks;b++) before += f.m_blocks[b].isAllocated;
  int num = mag ? f.releaseBlocks(Sparse::CheckMaxAbs<T>(m)) : f.releaseBlocks(Sparse::CheckAllEqual<T>());
  for (size_t b=0;b<f.m_numBlocks;b++) after += f.m_blocks[b].isAllocated;
  vc_assert(num == before-after, "the reported number is the number of blocks freed");
  bool same = true, sig = true, kept = true;
  for (int k=dw.min.z;k<=dw.max.z;k++) for (int j=dw.min.y;j<=dw.max.y;j++) for (int i=dw.min.x;i<=dw.max.x;i++) {
    bool eq = f.value(i,j,k) == old.value(i,j,k); same = same && eq;
    if (less(old.value(i,j,k),m)) sig = sig && eq;
    if (f.voxelIsInAllocatedBlock(i,j,k) && !eq) kept = false;
    if (!eq && !old.voxelIsInAllocatedBlock(i,j,k)) kept = false;
  }
  if (!mag) vc_assert(same, "releasing constant blocks changes no voxel");
  if (mag) vc_assert(sig, "releasing by magnitude changes no voxel below the threshold");
  vc_assert(kept, "only voxels of released blocks change");
}
VC_HARNESS(release_real_f) { release_real<float>(); }
VC_HARNESS(release_real_v3d) { release_real<V3d>(); }
