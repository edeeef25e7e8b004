// C10: MAC sampling.  Every component is blended from the eight (linear) or 64 (cubic) nearest values of its own
// staggered face grid; grid positions outside the stored faces are replaced by the nearest stored face.
#include "FieldInterp.h"
#include "fields.h"
template <class T> static void havMac(MACField<T> &m) {
  typedef typename T::BaseType S; int k = sizeof(S)==4 ? 'f' : 'd';
  vc_havoc(&m.m_u[0], m.m_u.size(), sizeof(S), k, "u"); vc_havoc(&m.m_v[0], m.m_v.size(), sizeof(S), k, "v"); vc_havoc(&m.m_w[0], m.m_w.size(), sizeof(S), k, "w");
}
template <class T> static const typename T::BaseType &face(const MACField<T> &m, int c, int x, int y, int z) { return c==0 ? m.u(x,y,z) : c==1 ? m.v(x,y,z) : m.w(x,y,z); }
static Box3i faceBox(const Box3i &dw, int c) { Box3i b = dw; if (c==0) b.max.x++; if (c==1) b.max.y++; if (c==2) b.max.z++; return b; }
static int lo2(int v, const Box3i &d, int a) { return std::min(d.max[a],std::max(d.min[a],v)); }
static int lo3(int v, const Box3i &d, int a) { return std::max(d.min[a],std::min(v,d.max[a])); }
#define ANYPT(lim) V3d vsP(vc_real("px",-(double)(lim),lim), vc_real("py",-(double)(lim),lim), vc_real("pz",-(double)(lim),lim)); \
  if (!vc_symbolic()) { int snap = (int)vc_int("snap",0,3); V3d o = V3d(dw.min); \
    for (int a=0;a<3;++a) { vsP[a] = o[a] + std::fmod(std::fabs(vsP[a]),(double)(dw.max[a]-dw.min[a]+7)) - 3; \
      if (snap==1) vsP[a] = std::floor(vsP[a])+0.5; if (snap==2) vsP[a] = std::floor(vsP[a]); } }
template <class T> static double blend(const MACField<T> &m, const V3d &p, const Box3i &dw, int c) {
  Box3i fb = faceBox(dw,c); int i[3][2]; double f[3];
  for (int a=0;a<3;++a) {
    double q = a==c ? p[a] : p[a]-0.5, b = std::floor(q); f[a] = q-b;
    i[a][0] = lo2((int)b,fb,a); i[a][1] = lo2((int)b+1,fb,a);
  }
  double want = 0;
  for (int x=0;x<2;++x) for (int y=0;y<2;++y) for (int z=0;z<2;++z)
    want += (x?f[0]:1-f[0])*(y?f[1]:1-f[1])*(z?f[2]:1-f[2])*face(m,c,i[0][x],i[1][y],i[2][z]);
  return want;
}
template <class T> static void linear(int c) {
  Box3i dw = NEWBOX(dw,1<<20,5); MACField<T> m; m.setSize(Box3i(V3i(0),V3i(7)),dw); havMac(m);
  ANYPT(1<<21)
  double want = blend(m,vsP,dw,c), tol = sizeof(typename T::BaseType)==4 ? 2.0 : 1e-5;
  typename MACField<T>::LinearInterp in;
  vc_assert_close(in.sample(m,vsP)[c], want, tol, "each component is the trilinear blend of its own eight surrounding faces");
  vc_assert_close(in.sample(m,(MACComponent)c,vsP), want, tol, "sampling one component gives the same blend");
}
VC_HARNESS(linear_f) { linear<V3f>((int)vc_case("c",0,2)); }
VC_HARNESS(linear_d) { linear<V3d>((int)vc_case("c",0,2)); }
template <class T> static void linearExact(int c) {
  Box3i dw = NEWBOX(dw,1<<20,5); MACField<T> m; m.setSize(dw); havMac(m);
  V3i p = ANYIN(p,faceBox(dw,c));
  V3d at(p.x+(c==0?0:0.5),p.y+(c==1?0:0.5),p.z+(c==2?0:0.5)); typename MACField<T>::LinearInterp in;
  vc_assert_close(in.sample(m,at)[c], face(m,c,p.x,p.y,p.z), 0, "at a face centre the sample is the stored face value");
  vc_assert_close(in.sample(m,(MACComponent)c,at), face(m,c,p.x,p.y,p.z), 0, "at a face centre the sample is the stored face value");
}
VC_HARNESS(linear_face_f) { linearExact<V3f>((int)vc_case("c",0,2)); }
VC_HARNESS(linear_face_d) { linearExact<V3d>((int)vc_case("c",0,2)); }
// the contract of MACField::u/v/w (proved in C03): inside the component's range the stored value of that face
template <class T> static const T &faceContract(const Box3i &dw, const char *n, int c, int i, int j, int k) {
  Box3i b = faceBox(dw,c);
  vc_assert((i >= b.min.x) & (i <= b.max.x) & (j >= b.min.y) & (j <= b.max.y) & (k >= b.min.z) & (k <= b.max.z), "only stored faces are read");
  T *r = new T; *r = (T)vc_fn3(n,i,j,k); return *r;
}
#define STUB(F,S,x,c) extern "C" __attribute__((used,noinline)) const S &stub_##F##_##x(const MACField<F> *m, int i, int j, int k) { return faceContract<S>(m->dataWindow(),#x,c,i,j,k); }
STUB(V3f,float,u,0) STUB(V3f,float,v,1) STUB(V3f,float,w,2) STUB(V3d,double,u,0) STUB(V3d,double,v,1) STUB(V3d,double,w,2)
// cubic
template <class T> static typename T::BaseType tricubic(const MACField<T> &m, const V3d &p, const Box3i &dw, int c) {
  typedef typename T::BaseType S;
  Box3i fb = faceBox(dw,c); int i[3][4]; double t[3];
  for (int a=0;a<3;++a) {
    double q = a==c ? std::max((dw.min[a]+0.5)-0.5,p[a]) : std::max(dw.min[a]+0.5,p[a])-0.5; int b = (int)std::floor(q); t[a] = q-b;
    int k = lo3(b,fb,a); i[a][0] = lo3(k-1,fb,a); i[a][1] = k; i[a][2] = lo3(k+1,fb,a); i[a][3] = lo3(k+2,fb,a);
  }
  S y[4];
  for (int x=0;x<4;++x) {
    S z[4];
    for (int j=0;j<4;++j) z[j] = monotonicCubicInterpolant<S>(face(m,c,i[0][x],i[1][j],i[2][0]),face(m,c,i[0][x],i[1][j],i[2][1]),face(m,c,i[0][x],i[1][j],i[2][2]),face(m,c,i[0][x],i[1][j],i[2][3]),t[2]);
    y[x] = monotonicCubicInterpolant<S>(z[0],z[1],z[2],z[3],t[1]);
  }
  return monotonicCubicInterpolant<S>(y[0],y[1],y[2],y[3],t[0]);
}
template <class T> static void cubic(int c) {
  Box3i dw = NEWBOX(dw,1<<20,5); MACField<T> m; m.setSize(Box3i(V3i(0),V3i(7)),dw); havMac(m);
  ANYPT(1<<21)
  typename MACField<T>::CubicInterp in;
  vc_assert_close(in.sample(m,vsP)[c], tricubic(m,vsP,dw,c), sizeof(typename T::BaseType)==4 ? 2.0 : 1e-5, "each component is the cubic tensor product over its own clamped face stencil");
}
VC_HARNESS(cubic_f) { cubic<V3f>((int)vc_case("c",0,2)); }
VC_HARNESS(cubic_d) { cubic<V3d>((int)vc_case("c",0,2)); }
template <class T> static void cubicExact(int c) {
  Box3i dw = NEWBOX(dw,1<<20,5); MACField<T> m; m.setSize(dw); havMac(m);
  V3i p = ANYIN(p,faceBox(dw,c));
  V3d at(p.x+(c==0?0:0.5),p.y+(c==1?0:0.5),p.z+(c==2?0:0.5)); typename MACField<T>::CubicInterp in;
  vc_assert_close(in.sample(m,at)[c], face(m,c,p.x,p.y,p.z), 0, "at a face centre the cubic sample is the stored face value");
}
VC_HARNESS(cubic_face_f) { cubicExact<V3f>((int)vc_case("c",0,2)); }
VC_HARNESS(cubic_face_d) { cubicExact<V3d>((int)vc_case("c",0,2)); }
VC_HARNESS(constant_mac) {
  Box3i dw = NEWBOX(dw,1<<10,5); MACField<V3f> m; m.setSize(dw); float a = Elem<float>::any("a"); int c = (int)vc_case("c",0,2); m.clear(V3f(a));
  ANYPT(1<<11) MACField<V3f>::LinearInterp li;
  vc_assert_close(li.sample(m,vsP)[c], a, 1e-3*(1+std::fabs(a)), "a constant MAC field samples to its constant");
  if (!vc_symbolic()) { MACField<V3f>::CubicInterp ci; vc_assert_close(ci.sample(m,vsP)[c], a, 0, "a constant MAC field samples to its constant"); }
}
