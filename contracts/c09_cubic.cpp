// C09: cubic sampling.  The one-dimensional interpolant has its own contract; the three-dimensional samplers are
// checked against it (modularly: calls of the interpolant are replaced by its contract), for every storage type.
#include "FieldInterp.h"
#include "fields.h"
static int lo3(int v, const Box3i &d, int a) { return std::max(d.min[a],std::min(v,d.max[a])); }
// the interpolation stencil the samplers promise: four voxels per axis, those outside replaced by the nearest inside
struct Stencil4 { int x[4], y[4], z[4]; double tx, ty, tz; };
static Stencil4 stencil4(const V3d &p, const Box3i &d) {
  Stencil4 s;
  double qx = std::max(d.min.x+0.5,p.x)-0.5, qy = std::max(d.min.y+0.5,p.y)-0.5, qz = std::max(d.min.z+0.5,p.z)-0.5;
  int bx = (int)std::floor(qx), by = (int)std::floor(qy), bz = (int)std::floor(qz);
  s.tx = qx-bx; s.ty = qy-by; s.tz = qz-bz;
  int cx = lo3(bx,d,0), cy = lo3(by,d,1), cz = lo3(bz,d,2);
  s.x[0] = lo3(cx-1,d,0); s.x[1] = cx; s.x[2] = lo3(cx+1,d,0); s.x[3] = lo3(cx+2,d,0);
  s.y[0] = lo3(cy-1,d,1); s.y[1] = cy; s.y[2] = lo3(cy+1,d,1); s.y[3] = lo3(cy+2,d,1);
  s.z[0] = lo3(cz-1,d,2); s.z[1] = cz; s.z[2] = lo3(cz+1,d,2); s.z[3] = lo3(cz+2,d,2);
  return s;
}
template <class F> static typename F::value_type tricubic(const F &f, const Stencil4 &s) {
  typedef typename F::value_type T; T y[4];
  for (int i=0;i<4;++i) {
    T z[4];
    for (int j=0;j<4;++j)
      z[j] = monotonicCubicInterpolant<T>(f.value(s.x[i],s.y[j],s.z[0]), f.value(s.x[i],s.y[j],s.z[1]), f.value(s.x[i],s.y[j],s.z[2]), f.value(s.x[i],s.y[j],s.z[3]), s.tz);
    y[i] = monotonicCubicInterpolant<T>(z[0],z[1],z[2],z[3],s.ty);
  }
  return monotonicCubicInterpolant<T>(y[0],y[1],y[2],y[3],s.tx);
}
#define ANYPT(lim) V3d vsP(vc_real("px",-(double)(lim),lim), vc_real("py",-(double)(lim),lim), vc_real("pz",-(double)(lim),lim)); \
  if (!vc_symbolic()) { int snap = (int)vc_int("snap",0,3); V3d o = V3d(dw.min); \
    for (int a=0;a<3;++a) { vsP[a] = o[a] + std::fmod(std::fabs(vsP[a]),(double)(dw.max[a]-dw.min[a]+7)) - 3; \
      if (snap==1) vsP[a] = std::floor(vsP[a])+0.5; if (snap==2) vsP[a] = std::floor(vsP[a]); } }
template <class F, class I> static void sampleIt(const F &f, const I &in, const Box3i &dw, long lim) {
  ANYPT(2*lim)
  vc_assert_close(in.sample(f,vsP), tricubic(f,stencil4(vsP,dw)), 1.0, "the sample is the tensor product of the one-dimensional interpolant over the clamped stencil");
}
// 1-D interpolant
template <class T> static void hermite() {
  double a = vc_real("a",-1e3,1e3), b = vc_real("b",-1e3,1e3), c = vc_real("c",-1e3,1e3), d = vc_real("d",-1e3,1e3), t = vc_real("t",0,1);
  T r = monotonicCubicInterpolant<T>((T)a,(T)b,(T)c,(T)d,t);
  a = (T)a; b = (T)b; c = (T)c; d = (T)d;
  double dk = 0.5*(c-a), dk1 = 0.5*(d-b), de = c-b;
  double h = b + de*(t*t*(3-2*t)) + dk*(t*(1-t)*(1-t)) - dk1*(t*t*(1-t));
  if (b == c) vc_assert(r == (T)b, "flat between equal middle samples");
  else vc_assert_close(r, h, 0.02, "the interpolant is the cubic through the middle samples with central-difference slopes");
  if (t == 0) vc_assert(r == (T)b, "passes through the first middle sample");
}
VC_HARNESS(mono_f) { hermite<float>(); }
VC_HARNESS(mono_d) { hermite<double>(); }
VC_HARNESS(mono_end) {
  double a = vc_real("a",-1e3,1e3), b = vc_real("b",-1e3,1e3), c = vc_real("c",-1e3,1e3), d = vc_real("d",-1e3,1e3);
  vc_assert_close(monotonicCubicInterpolant<double>(a,b,c,d,1.0), c, 1e-6, "passes through the second middle sample");
  vc_assert_close(monotonicCubicInterpolant<double>(a,b,c,d,0.0), b, 0, "passes through the first middle sample");
  vc_assert(monotonicCubicInterpolant<double>(b,b,b,b,0.3) == b, "constant samples interpolate to the constant");
}
VC_HARNESS(mono_between) {
  // where the slopes allow a monotone cubic (both between 0 and 3 times the secant) it stays between its middle samples
  double b = vc_real("b",-1e3,1e3), de = vc_real("de",0,1e3), m = vc_real("m",0,3), n = vc_real("n",0,3), t = vc_real("t",0,1);
  if (!vc_symbolic()) { if (de < 1e-6) de = 1; }
  vc_assume(de > 0);
  double c = b+de, a = c-2*m*de, d = b+2*n*de;
  double r = monotonicCubicInterpolant<double>(a,b,c,d,t);
  double u = 1-t, h1 = vc_namer(t*u*u), h2 = vc_namer(t*t*u), h3 = vc_namer(t*t*t), h4 = vc_namer(u*u*u);
  vc_hint(h1>=0); vc_hint(h2>=0); vc_hint(h3>=0); vc_hint(h4>=0);
  double x1 = vc_namer(m*h1), x2 = vc_namer((3-n)*h2), x3 = vc_namer((3-m)*h1), x4 = vc_namer(n*h2);
  vc_hint(x1>=0); vc_hint(x2>=0); vc_hint(x3>=0); vc_hint(x4>=0);
  double lowv = vc_namer(h3+x1+x2), high = vc_namer(h4+x3+x4);
  vc_hint(lowv>=0); vc_hint(high>=0);
  vc_assert_close(r-b, de*lowv, 1e-6*(1+de+std::fabs(b)), "at or above the first middle sample by a product of non-negative terms");
  vc_assert_close(c-r, de*high, 1e-6*(1+de+std::fabs(b)), "at or below the second middle sample by a product of non-negative terms");
}
VC_HARNESS(mono_overshoot) {   // the literal promise of the name, at a specific input: recorded finding
  double r = monotonicCubicInterpolant<double>(-100,0,1,1,0.5);
  vc_assert(r >= 0 && r <= 1, "stays between its middle samples (-100,0,1,1 at 0.5)");
}
template <class V, class T> static void vecMatches() {
  V q[4]; const char *nm[12] = {"q0","q1","q2","q3","q4","q5","q6","q7","q8","q9","q10","q11"};
  for (int i=0;i<4;++i) for (int k=0;k<3;++k) q[i][k] = (T)vc_real(nm[3*i+k],-1e3,1e3);
  double t = vc_real("t",0,1); int eqc = (int)vc_int("eqc",-1,2); if (eqc >= 0) q[2][eqc] = q[1][eqc];
  V r = monotonicCubicInterpolant<V>(q[0],q[1],q[2],q[3],t);
  for (int k=0;k<3;++k) vc_assert_close(r[k], monotonicCubicInterpolant<T>(q[0][k],q[1][k],q[2][k],q[3][k],t), 1e-2, "the vector interpolant works component by component");
}
VC_HARNESS(mono_v3f) { vecMatches<V3f,float>(); }
VC_HARNESS(mono_v3d) { vecMatches<V3d,double>(); }
// samplers
template <class F> static void dense(bool generic) {
  Box3i dw = NEWBOX(d,1<<15,6); F f; f.setSize(Box3i(V3i(0),V3i(5)),dw); havDense(f);
  typedef typename F::value_type T;
  if (generic) { CubicGenericFieldInterp<F> in; sampleIt(f,in,dw,1<<15); } else { CubicFieldInterp<T> in; sampleIt(static_cast<const Field<T>&>(f),in,dw,1<<15); }
}
VC_HARNESS(dense_generic_f) { dense<DenseField<float> >(true); }
VC_HARNESS(dense_base_f) { dense<DenseField<float> >(false); }
VC_HARNESS(dense_generic_d) { dense<DenseField<double> >(true); }
// any field class that keeps the read contract
template <class T> static void probe(bool generic) {
  Box3i dw = NEWBOX(d,1<<15,6); Probe<T> f(dw);
  if (generic) { CubicGenericFieldInterp<Probe<T> > in; sampleIt(f,in,dw,1<<15); } else { CubicFieldInterp<T> in; sampleIt(static_cast<const Field<T>&>(f),in,dw,1<<15); }
}
VC_HARNESS(any_generic_f) { probe<float>(true); }
VC_HARNESS(any_base_d) { probe<double>(false); }
template <class T> static void sparse() {
  int order = (int)vc_casen("order",0,5,0,3), kind = (int)vc_case("kind",0,2);
  Box3i dw = NEWBOX(d,64<<order,9);
  SparseField<T> f; f.setBlockOrder(order); f.setSize(dw); havSparse(f);
  if (kind==0) { CubicGenericFieldInterp<SparseField<T> > in; sampleIt(f,in,dw,64<<order); }
  if (kind==1) { CubicFieldInterp<T> in; sampleIt(static_cast<const Field<T>&>(f),in,dw,64<<order); }
  if (kind==2) { typename SparseField<T>::CubicInterp in; sampleIt(f,in,dw,64<<order); }
}
VC_HARNESS(sparse_f) { sparse<float>(); }
VC_HARNESS(vec_fields) {   // 3-vector fields, all interpolators and storages against the scalar definition
  Box3i dw = NEWBOX(d,1<<10,6); int kind = (int)vc_int("kind",0,3);
  DenseField<V3f> f; f.setSize(dw); havDense(f); DenseField<V3d> g; g.setSize(dw); havDense(g,"g");
  SparseField<V3f> h; h.setBlockOrder(2); h.setSize(dw); havSparse(h);
  ANYPT(1<<11)
  Stencil4 s = stencil4(vsP,dw); V3d r, want;
  if (kind==0) { CubicGenericFieldInterp<DenseField<V3f> > in; r = V3d(in.sample(f,vsP)); want = V3d(tricubic(f,s)); }
  if (kind==1) { CubicFieldInterp<V3f> in; r = V3d(in.sample(f,vsP)); want = V3d(tricubic(f,s)); }
  if (kind==2) { CubicFieldInterp<V3d> in; r = in.sample(g,vsP); want = tricubic(g,s); }
  if (kind==3) { CubicGenericFieldInterp<SparseField<V3f> > in; r = V3d(in.sample(h,vsP)); want = V3d(tricubic(h,s)); }
  for (int k=0;k<3;++k) vc_assert_close(r[k], want[k], 1e-6*(1+std::fabs(want[k])), "the sample is the tensor product of the one-dimensional interpolant over the clamped stencil");
}
template <class F, class I> static void centre(const F &f, const Box3i &dw) {
  V3i p = ANYIN(p,dw); I in;
  vc_assert(in.sample(f,V3d(p.x+0.5,p.y+0.5,p.z+0.5)) == f.value(p.x,p.y,p.z), "the sample at a voxel centre is the stored value");
}
VC_HARNESS(centre_dense) { Box3i dw = NEWBOX(d,1<<15,6); DenseField<float> f; f.setSize(dw); havDense(f); centre<DenseField<float>,CubicGenericFieldInterp<DenseField<float> > >(f,dw); }
VC_HARNESS(centre_base) { Box3i dw = NEWBOX(d,1<<15,6); DenseField<float> f; f.setSize(dw); havDense(f); centre<Field<float>,CubicFieldInterp<float> >(f,dw); }
VC_HARNESS(constant_dense) {
  Box3i dw = NEWBOX(d,1<<15,6); DenseField<float> f; f.setSize(dw); float c = (float)vc_real("c",-1e6,1e6); f.clear(c);
  ANYPT(1<<16) CubicGenericFieldInterp<DenseField<float> > in; CubicFieldInterp<float> in2;
  vc_assert_close(in.sample(f,vsP), c, 0, "a constant field samples to its constant");
  vc_assert_close(in2.sample(f,vsP), c, 0, "a constant field samples to its constant");
}
