// C08: linear sampling is the trilinear blend of the eight surrounding voxels, clamped to the data window.
#include "FieldInterp.h"   // before SparseField.h: its V3f interpolator needs the operators declared here
#include "fields.h"
#include "EmptyField.h"
static int cl(int v, int lo, int hi) { return std::min(hi,std::max(lo,v)); }
template <class T> struct Num { static double get(const T &v, int) { return v; } static const int n = 1; };
template <> struct Num<V3f> { static double get(const V3f &v, int c) { return v[c]; } static const int n = 3; };
template <> struct Num<V3d> { static double get(const V3d &v, int c) { return v[c]; } static const int n = 3; };
struct Stencil { int x[2], y[2], z[2]; double fx, fy, fz; };
static Stencil stencil(const V3d &p, const Box3i &d) {
  Stencil s; double qx = p.x - 0.5, qy = p.y - 0.5, qz = p.z - 0.5;
  double bx = std::floor(qx), by = std::floor(qy), bz = std::floor(qz);
  s.fx = qx - bx; s.fy = qy - by; s.fz = qz - bz;
  for (int a=0;a<2;++a) { s.x[a] = cl((int)bx+a,d.min.x,d.max.x); s.y[a] = cl((int)by+a,d.min.y,d.max.y); s.z[a] = cl((int)bz+a,d.min.z,d.max.z); }
  return s;
}
template <class T> static void checkBlend(const T v[2][2][2], const Stencil &s, const T &r) {
  for (int c=0;c<Num<T>::n;++c) {
    double want = 0, big = 1;
    for (int a=0;a<2;++a) for (int b=0;b<2;++b) for (int e=0;e<2;++e) {
      double x = Num<T>::get(v[a][b][e],c);
      want += (a?s.fx:1-s.fx)*(b?s.fy:1-s.fy)*(e?s.fz:1-s.fz)*x;
      if (!vc_symbolic() && std::fabs(x) > big) big = std::fabs(x);
    }
    vc_assert_close(Num<T>::get(r,c), want, (Num<T>::n==1 ? 1e-6 : 4e-6)*big, "the sample is the trilinear blend of the eight neighbours");
  }
}
static bool sameBlockAxis(int a, int b, int lo, int o) {   // neighbours of a voxel that is not the last of its block share its block
  int m = (1<<o)-1, ra = a-lo, rb = b-lo;
  return ((ra & m) == m) | (((rb >> o) == (ra >> o)) & ((rb & m) == (ra & m) + (rb-ra)));
}
template <class F> static bool blockAllocated(const F &, int, int, int) { return false; }
template <class T> static bool blockAllocated(const SparseField<T> &f, int bi, int bj, int bk) { return f.blockIsAllocated(bi,bj,bk); }
// complete case split along one axis: the stencil lies below, inside or above the window
static void clampCase(double p, int lo, int hi, int c) {
  int b = (int)std::floor(p - 0.5);
  if (c == 0) vc_assume(b < lo); if (c == 1) vc_assume(b >= lo && b + 1 <= hi); if (c == 2) vc_assume(b >= lo && b + 1 > hi);
}
#define ANYPT(lim,nlim) V3d vsP(vc_real("px",-(double)(lim),lim), vc_real("py",-(double)(lim),lim), vc_real("pz",-(double)(lim),lim)); \
  if (!vc_symbolic()) { int snap = (int)vc_int("snap",0,3); V3d o = V3d(dw.min); \
    for (int a=0;a<3;++a) { vsP[a] = o[a] + std::fmod(std::fabs(vsP[a]),(double)(dw.max[a]-dw.min[a]+7)) - 3; \
      if (snap==1) vsP[a] = std::floor(vsP[a])+0.5; if (snap==2) vsP[a] = std::floor(vsP[a]); } }
template <class F, class I> static void sampleIt(const F &f, const I &in, const Box3i &dw, long lim, int order = -1, int place = 3, int cx = 3, int cy = 3, int cz = 3) {
  typedef typename F::value_type T;
  ANYPT(2*lim,0)
  Stencil s = stencil(vsP,dw); T v[2][2][2];
  if (order >= 0) { clampCase(vsP.x,dw.min.x,dw.max.x,cx); clampCase(vsP.y,dw.min.y,dw.max.y,cy); clampCase(vsP.z,dw.min.z,dw.max.z,cz); s = stencil(vsP,dw); }
  if (order >= 0 && place < 3) {   // complete case split: the stencil lies in one allocated block, one empty block, or may cross blocks
    int m = (1<<order)-1, a = s.x[0]-dw.min.x, b = s.y[0]-dw.min.y, c = s.z[0]-dw.min.z;
    bool one = ((a & m) < m) & ((b & m) < m) & ((c & m) < m);
    if (place == 2) vc_assume(!one);
    else { vc_assume(one); vc_hint(sameBlockAxis(s.x[0],s.x[1],dw.min.x,order)); vc_hint(sameBlockAxis(s.y[0],s.y[1],dw.min.y,order)); vc_hint(sameBlockAxis(s.z[0],s.z[1],dw.min.z,order)); vc_assume(blockAllocated(f,a>>order,b>>order,c>>order) == (place == 0)); }
  }
  if (order >= 0) { vc_hint(sameBlockAxis(s.x[0],s.x[1],dw.min.x,order)); vc_hint(sameBlockAxis(s.y[0],s.y[1],dw.min.y,order)); vc_hint(sameBlockAxis(s.z[0],s.z[1],dw.min.z,order)); }
  for (int a=0;a<2;++a) for (int b=0;b<2;++b) for (int e=0;e<2;++e) v[a][b][e] = f.value(s.x[a],s.y[b],s.z[e]);
  T r = in.sample(f,vsP);
  checkBlend(v,s,r);
}
template <class F> static void dense(bool generic) {
  Box3i dw = NEWBOX(d,1<<15,5); F f; f.setSize(Box3i(V3i(0),V3i(5)),dw); havDense(f);
  typedef typename F::value_type T;
  if (generic) { LinearGenericFieldInterp<F> in; sampleIt(f,in,dw,1<<15); } else { LinearFieldInterp<T> in; sampleIt(static_cast<const Field<T>&>(f),in,dw,1<<15); }
}
VC_HARNESS(dense_generic_f) { dense<DenseField<float> >(true); }
VC_HARNESS(dense_base_f) { dense<DenseField<float> >(false); }
VC_HARNESS(dense_generic_d) { dense<DenseField<double> >(true); }
VC_HARNESS(dense_generic_v3f) { dense<DenseField<V3f> >(true); }
VC_HARNESS(dense_base_v3d) { dense<DenseField<V3d> >(false); }
// sparse: the stencil is either read from one block, or voxel by voxel; kind: interpolator class
// any field class that keeps the read contract
template <class T> static void probe(bool generic) {
  Box3i dw = NEWBOX(d,1<<15,6); Probe<T> f(dw);
  if (generic) { LinearGenericFieldInterp<Probe<T> > in; sampleIt(f,in,dw,1<<15); } else { LinearFieldInterp<T> in; sampleIt(static_cast<const Field<T>&>(f),in,dw,1<<15); }
}
VC_HARNESS(any_generic_f) { probe<float>(true); }
VC_HARNESS(any_base_d) { probe<double>(false); }
template <class T> static void sparse(bool own) {
  int order = (int)vc_casen("order",own?1:0,own?5:7,0,3), kind = (int)vc_case("kind",0,own?2:1), cx = 3, cy = 3, cz = 3;
  if (own) { cx = (int)vc_case("cx",0,2); cy = (int)vc_case("cy",0,2); cz = (int)vc_case("cz",0,2); }
  Box3i dw = NEWBOX(d,64<<order,9);
  SparseField<T> f; f.setBlockOrder(order); f.setSize(dw); havSparse(f);
  if (own) { LinearSparseFieldInterp<T> in; sampleIt(f,in,dw,64<<order,vc_symbolic()?order:-1,kind,cx,cy,cz); }
  else if (kind==0) { LinearGenericFieldInterp<SparseField<T> > in; sampleIt(f,in,dw,64<<order); }
  else { LinearFieldInterp<T> in; sampleIt(static_cast<const Field<T>&>(f),in,dw,64<<order); }
}
VC_HARNESS(sparse_f) { sparse<float>(false); }
VC_HARNESS(sparse_own_f) { sparse<float>(true); }
VC_HARNESS(sparse_own_v3f) { sparse<V3f>(true); }
VC_HARNESS(typedef_interp) {
  // the interpolator a field type names as its own
  int which = (int)vc_int("which",0,1);
  Box3i dw = NEWBOX(d,1<<8,5);
  if (which==0) { DenseField<float> f; f.setSize(dw); havDense(f); DenseField<float>::LinearInterp in; sampleIt(f,in,dw,1<<8); }
  if (which==1) { SparseField<float> f; f.setBlockOrder(2); f.setSize(dw); havSparse(f); SparseField<float>::LinearInterp in; sampleIt(f,in,dw,1<<8); }
}
// consequence: never outside the range of the eight neighbours.  The sample is a convex combination; the bound
// on each weighted term is proved on its own, the identity is polynomial.
VC_HARNESS(blend_bounds) {
  double fx = vc_real("fx",0,1), fy = vc_real("fy",0,1), fz = vc_real("fz",0,1), lo = vc_real("lo",-1e6,1e6), w = vc_real("width",0,1e6);
  if (!vc_symbolic()) { if (fx==1) fx=0; if (fy==1) fy=0; if (fz==1) fz=0; }
  vc_assume(fx<1 && fy<1 && fz<1);
  Box3i dw(V3i(0),V3i(1)); DenseField<double> f; f.setSize(dw);
  const char *nm[8] = {"v0","v1","v2","v3","v4","v5","v6","v7"};
  double v[8], low = 0, high = 0;
  for (int i=0;i<8;++i) v[i] = vc_real(nm[i],0,1e6);
  bool ok = true; for (int i=0;i<8;++i) ok = ok & (v[i] <= w);
  vc_assume(ok);
  for (int i=0;i<8;++i) {
    f.m_data[i] = lo + v[i];
    double k = (i&1?fx:1-fx)*(i&2?fy:1-fy)*(i&4?fz:1-fz);
    vc_hint(k >= 0);
    double up = vc_namer(k*v[i]), dn = vc_namer(k*(w-v[i]));
    vc_hint(up >= 0); vc_hint(dn >= 0);
    low += up; high += dn;
  }
  LinearGenericFieldInterp<DenseField<double> > in;
  double r = in.sample(f,V3d(0.5+fx,0.5+fy,0.5+fz));
  vc_assert_close(r, lo + low, 1e-6*(1+std::fabs(lo)+w), "the sample exceeds the lower bound by a sum of non-negative terms");
  vc_assert_close(r, lo + w - high, 1e-6*(1+std::fabs(lo)+w), "the sample stays below the upper bound by a sum of non-negative terms");
  vc_assert(low >= 0 && high >= 0, "the terms are non-negative");
}
VC_HARNESS(at_centre) {
  Box3i dw = NEWBOX(d,1<<15,5); DenseField<float> f; f.setSize(dw); havDense(f); V3i p = ANYIN(p,dw);
  LinearGenericFieldInterp<DenseField<float> > in; LinearFieldInterp<float> in2;
  V3d c(p.x+0.5,p.y+0.5,p.z+0.5);
  vc_assert(in.sample(f,c) == f.value(p.x,p.y,p.z), "the sample at a voxel centre is the stored value");
  vc_assert(in2.sample(f,c) == f.value(p.x,p.y,p.z), "the sample at a voxel centre is the stored value");
}
