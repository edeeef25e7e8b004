// C12: frustum mappings.  The camera transform is any affine transform, the frustum any near/far range and field of view.
// Matrix44<double>::inverse is used through its contract (adjugate over determinant), proved equal to M^-1 in inv_contract.
#include "FieldMapping.h"
#include "vc.h"
#include <cmath>
#include <algorithm>
using namespace Field3D; using namespace std;
typedef FrustumFieldMapping Fru;
static Box3i anyExt(long lim) {
  V3i o(vc_intn("ox",-lim,lim,-9,9),vc_intn("oy",-lim,lim,-9,9),vc_intn("oz",-lim,lim,-9,9)), n(vc_intn("nx",1,lim,1,9),vc_intn("ny",1,lim,1,9),vc_intn("nz",1,lim,1,9));
  return Box3i(o,o+n-V3i(1));
}
static V3d anyP(const char *a, const char *b, const char *c, double lim) { return V3d(vc_real(a,-lim,lim),vc_real(b,-lim,lim),vc_real(c,-lim,lim)); }
static void same(const V3d &a, const V3d &b, double tol, const char *w) { vc_assert_close(a.x,b.x,tol,w); vc_assert_close(a.y,b.y,tol,w); vc_assert_close(a.z,b.z,tol,w); }
static double det3(const M44d &m) { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
static M44d anyCamera() {
  M44d m; m.makeIdentity(); const char *n[12] = {"c0","c1","c2","c3","c4","c5","c6","c7","c8","c9","ca","cb"};
  for (int i=0;i<4;++i) for (int j=0;j<3;++j) m[i][j] = vc_real(n[3*i+j],-4,4);
  if (!vc_symbolic()) { double d = det3(m); if (std::fabs(d) < 0.5) for (int i=0;i<3;++i) m[i][i] += 9; }
  vc_assume((det3(m) > 0.01) | (det3(m) < -0.01)); return m;
}
// minor determinant of rows r and columns c without row i, column j
static double cof(const M44d &m, int i, int j) {
  int r[3], c[3], k = 0; for (int a=0;a<4;++a) if (a!=i) r[k++] = a; k = 0; for (int a=0;a<4;++a) if (a!=j) c[k++] = a;
  double d = m[r[0]][c[0]]*(m[r[1]][c[1]]*m[r[2]][c[2]]-m[r[1]][c[2]]*m[r[2]][c[1]]) - m[r[0]][c[1]]*(m[r[1]][c[0]]*m[r[2]][c[2]]-m[r[1]][c[2]]*m[r[2]][c[0]]) + m[r[0]][c[2]]*(m[r[1]][c[0]]*m[r[2]][c[1]]-m[r[1]][c[1]]*m[r[2]][c[0]]);
  return (i+j)&1 ? -d : d;
}
extern "C" __attribute__((used,noinline)) M44d stub_inverse(const M44d *mm) {
  const M44d &m = *mm; double d = 0; M44d s;
  for (int j=0;j<4;++j) d += m[0][j]*cof(m,0,j);
  vc_assert(d != 0, "only invertible transforms are inverted");
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) s[j][i] = cof(m,i,j)/d;
  return s;
}
VC_HARNESS(inv_contract) {   // the assumed contract is the inverse, for all matrices; the Imath code is compared with it on generated ones
  M44d m; const char *n[16] = {"m0","m1","m2","m3","m4","m5","m6","m7","m8","m9","ma","mb","mc","md","me","mf"};
  for (int i=0;i<16;++i) m[i/4][i%4] = vc_real(n[i],-4,4);
  double d = 0; for (int j=0;j<4;++j) d += m[0][j]*cof(m,0,j);
  if (!vc_symbolic() && std::fabs(d) < 1) return;
  vc_assume(d != 0); vc_nonzero(d);
  M44d s = stub_inverse(&m);
  int i = (int)vc_case("i",0,3), j = (int)vc_case("j",0,3);
  vc_assert_close(m[i][0]*s[0][j]+m[i][1]*s[1][j]+m[i][2]*s[2][j]+m[i][3]*s[3][j],i==j,1e-6,"the contract of the inverse is an inverse");
  vc_assert_close(s[i][0]*m[0][j]+s[i][1]*m[1][j]+s[i][2]*m[2][j]+s[i][3]*m[3][j],i==j,1e-6,"the contract of the inverse is an inverse");
  if (!vc_symbolic()) { M44d t = m.inverse(); for (int i=0;i<4;++i) for (int j=0;j<4;++j) vc_assert_close(t[i][j],s[i][j],1e-6,"Imath's inverse keeps the contract"); }
}
// frame contract of computeVoxelSize: writes the voxel sizes only (checked in voxel_sizes)
extern "C" __attribute__((used,noinline)) void stub_sizes(Fru *) { }
struct Frustum { double a, b, u, v; M44d c, ss; double n() const { return 1/u; } double f() const { return 1/v; } };
static Frustum anyFrustum() {   // a, b: half size of the image at depth 1; u, v: reciprocal near and far distance
  Frustum r; r.a = vc_real("fa",0.1,10); r.b = vc_real("fb",0.1,10); double n = vc_symbolic() ? 0 : vc_real("near",0.1,10), d = vc_symbolic() ? 0 : vc_real("depth",0.1,50);
  vc_nonzero(r.a); vc_nonzero(r.b);
  if (vc_symbolic()) { r.u = vc_real("fu",0.001,100); r.v = vc_real("fv",0.0001,100); vc_assume(r.v < r.u); } else { r.u = 1/n; r.v = 1/(n+d); }
  r.c = anyCamera(); vc_nonzero(r.u); vc_nonzero(r.v); vc_nonzero(r.u-r.v); vc_nonzero(det3(r.c)); M44d p(r.a,0,0,0, 0,r.b,0,0, 0,0,0,r.v-r.u, 0,0,-1,r.u); r.ss = p*r.c; return r;
}
static Fru::Ptr build(const Box3i &e, const Frustum &f, int how, bool uniform) {
  Fru::Ptr m;
  switch (how) {
  case 0: m = new Fru(e); m->setTransforms(f.ss,f.c); break;
  case 1: m = new Fru; m->setTransforms(f.ss,f.c); m->setExtents(e); break;
  default: m = new Fru(e); m->setTransforms(1.0f,f.ss,f.c); break;
  }
  if (uniform) m->setZDistribution(Fru::UniformDistribution); return m;
}
static double depthOf(const V3d &w, const M44d &c) { V3d p; stub_inverse(&c).multVecMatrix(w,p); return -p.z; }
VC_HARNESS(near_far) {
  Box3i e = anyExt(1<<20); int how = (int)vc_case("how",0,2); Frustum f = anyFrustum(); Fru::Ptr m = build(e,f,how,vc_bool("uni"));
  vc_assert_close(m->nearPlane()*f.u,1,1e-6,"the near plane is where the frustum begins"); vc_assert_close(m->farPlane()*f.v,1,1e-6,"the far plane is where the frustum ends");
  vc_assert(m->nearPlaneSamples().size() == 1 && m->farPlaneSamples().size() == 1 && m->cameraToWorldSamples().size() == 1 && m->screenToWorldSamples().size() == 1, "one transform gives one sample in every curve");
  M44d s = m->screenToWorld(), c = m->cameraToWorld(); int i = (int)vc_intn("i",0,3,0,3), j = (int)vc_intn("j",0,3,0,3);
  vc_assert(s[i][j] == f.ss[i][j] && c[i][j] == f.c[i][j], "the transforms are the ones that were set");
}
// depth of a voxel-space position: near plane at the first slice, far plane at the last, increasing in between
VC_HARNESS(depth_perspective) {
  Box3i e = anyExt(1<<20); Frustum f = anyFrustum(); Fru::Ptr m = build(e,f,(int)vc_case("how",0,2),false);
  double x = vc_real("lx",-1,2), y = vc_real("ly",-1,2), z = vc_real("lz",0,1), d = f.u-z*(f.u-f.v); vc_assume(d > 0); vc_nonzero(d);   // z <= 1 and v > 0
  V3d w; m->localToWorld(V3d(x,y,z),w);
    vc_assert_close(depthOf(w,f.c)*d,1,1e-6,"perspective slices are uniform in reciprocal depth");
}
VC_HARNESS(depth_uniform) {
  Box3i e = anyExt(1<<20); Frustum f = anyFrustum(); Fru::Ptr m = build(e,f,(int)vc_case("how",0,2),true);
  double x = vc_real("lx",-1,2), y = vc_real("ly",-1,2), z = vc_real("lz",0,1); V3d w; double h = f.v+z*(f.u-f.v); vc_assume(h > 0); vc_nonzero(h); m->localToWorld(V3d(x,y,z),w);
  vc_assert_close(depthOf(w,f.c)*f.u*f.v,f.v+z*(f.u-f.v),1e-6,"uniform slices are equally spaced between near and far plane");
}
VC_HARNESS(depth_monotone) {   // lemma over the two depth formulas: both increase with z, begin at 1/u and end at 1/v
  double u = vc_real("u",0.001,100), v = vc_real("v",0.0001,100), z = vc_real("z",0,1), y = vc_real("y",0,1); 
  if (!vc_symbolic()) { if (v > u) std::swap(u,v); if (u-v < 1e-3) u += 1; if (y < z) std::swap(y,z); }
  vc_assume(v < u); vc_assume(z <= y);
  double a = vc_namer(u-v), k = vc_namer(y-z), s = vc_namer(k*a); vc_hint(s >= 0);
  double p = u-z*a, q = u-y*a; vc_assert_close(p-q,s,1e-9,"reciprocal depth falls with z"); vc_assert_close((v+y*a)-(v+z*a),s,1e-9,"uniform depth grows with z");
  vc_assert_close(u-0*a,u,0,"near plane at the first slice"); vc_assert_close(u-1*a,v,1e-9,"far plane at the last slice");
}
static void roundTrip(bool uniform) {
  Box3i e = anyExt(1<<10); Frustum f = anyFrustum(); Fru::Ptr m = build(e,f,(int)vc_case("how",0,2),uniform);
  V3d l(vc_real("lx",-1,2),vc_real("ly",-1,2),vc_real("lz",0,1)), w, k;
  double d = f.u-l.z*(f.u-f.v); vc_assume(d > 0); vc_nonzero(d); if (uniform) { double h = f.v+l.z*(f.u-f.v); vc_assume(h > 0); vc_nonzero(h); }
  if (vc_symbolic()) {   // the plane distances in closed form (equal to the stored ones)
    double n = f.n(), q = f.f(); vc_assert_close(m->nearPlane(),n,0,"near plane"); vc_assert_close(m->farPlane(),q,0,"far plane");
    m->m_nearCurve.m_samples[0].second = n; m->m_farCurve.m_samples[0].second = q;
  }
  m->localToWorld(l,w);
  if (vc_symbolic() && uniform) {   // the normalised depth of w is l.z
    double n = f.n(), q = f.f(), dd = vc_namer(q-n), x = depthOf(w,f.c)-n; vc_hint(dd > 0); double zd = vc_namer(l.z*dd); vc_hint(zd >= 0); vc_hint(zd <= dd);
    vc_assert_close(x,l.z*(q-n),0,"uniform depth"); vc_hint(x == zd); vc_hint((x >= 0) & (x <= q-n));
  }
  m->worldToLocal(w,k); same(k,l,1e-4,"world to local inverts local to world");
  if (!vc_symbolic()) { V3d v, x; m->localToVoxel(l,v); m->voxelToWorld(v,x); same(x,w,1e-4*(1+w.length()),"voxel to world is local to world of the extents' local space"); m->worldToVoxel(x,k); same(k,v,1e-2,"world to voxel inverts voxel to world"); }
}
VC_HARNESS(round_trip_perspective) { roundTrip(false); }
VC_HARNESS(round_trip_uniform) { roundTrip(true); }
VC_HARNESS(voxel_compose) {
  Box3i e = anyExt(1<<20); V3d v = anyP("px","py","pz",2e6), l, x; Fru m(e);
  m.voxelToLocal(v,l); m.localToVoxel(l,x); same(x,v,1e-3,"local to voxel inverts voxel to local");
  V3d lo, hi; m.voxelToLocal(V3d(e.min),lo); m.voxelToLocal(V3d(e.max)+V3d(1),hi); same(lo,V3d(0),0,"local space starts at the extents' lower corner"); same(hi,V3d(1),1e-12,"local space ends at the extents' upper corner");
  vc_assert(m.zDistribution() == Fru::PerspectiveDistribution, "slices are perspective by default");
}
VC_HARNESS(timed) {   // two time samples: between them every conversion is consistent
  Box3i e = anyExt(9); Frustum f = anyFrustum(); M44d mv; mv.setTranslation(V3d(vc_real("tx",-3,3),vc_real("ty",-3,3),vc_real("tz",-3,3)));
  Fru::Ptr m = new Fru(e); int o = (int)vc_int("order",0,1); m->setTransforms(o?1.0f:0.0f,o?f.ss*mv:f.ss,o?f.c*mv:f.c); m->setTransforms(o?0.0f:1.0f,o?f.ss:f.ss*mv,o?f.c:f.c*mv);
  bool uni = vc_bool("uni"); if (uni) m->setZDistribution(Fru::UniformDistribution); float t = (float)vc_real("t",-0.5,1.5);
  V3d l(vc_real("lx",0,1),vc_real("ly",0,1),vc_real("lz",0,1)), w, w0, k; m->localToWorld(l,w,t); m->worldToLocal(w,k,t); same(k,l,1e-4,"world to local inverts local to world at every time");
  m->localToWorld(l,w0); double u = std::min(1.0f,std::max(0.0f,t)); same(w,w0+V3d(mv[3][0],mv[3][1],mv[3][2])*u,1e-3,"the mapping moves with its samples");
  V3d v, x; m->localToVoxel(l,v); m->voxelToWorld(v,x,t); same(x,w,1e-4*(1+w.length()),"voxel to world is local to world of the extents' local space"); m->worldToVoxel(x,k,t); same(k,v,1e-3,"world to voxel inverts voxel to world");
}
VC_HARNESS(timed_shape) {   // at the time of a sample (and beyond the first and last) the mapping is the one of that sample alone
  Box3i e = anyExt(9); Frustum f = anyFrustum(), g = anyFrustum(); bool uni = vc_bool("uni"); Fru::Ptr m = new Fru(e); int o = (int)vc_int("order",0,1); for (int i=0;i<2;i++) { bool first = (i == 0) != (o != 0); const Frustum &h = first ? f : g; m->setTransforms(first ? 0.0f : 1.0f,h.ss,h.c); } if (uni) m->setZDistribution(Fru::UniformDistribution);
  bool early = vc_bool("early"); float t = early ? (vc_bool("x") ? 0.0f : -0.5f) : (vc_bool("x") ? 1.0f : 2.0f); Fru::Ptr s = build(e,early ? f : g,0,uni);
  V3d l(vc_real("lx",0,1),vc_real("ly",0,1),vc_real("lz",0,1)), w, x, k; s->localToWorld(l,x); m->localToWorld(l,w,t); same(w,x,1e-4*(1+x.length()),"local to world at a sample's time is that sample's"); m->worldToLocal(x,k,t); same(k,l,1e-3,"world to local at a sample's time is that sample's");
  V3d v, y; s->localToVoxel(l,v); m->voxelToWorld(v,y,t); same(y,x,1e-4*(1+x.length()),"voxel to world at a sample's time is that sample's"); m->worldToVoxel(x,k,t); same(k,v,1e-2,"world to voxel at a sample's time is that sample's");
}
VC_HARNESS(state) {   // resets and setters leave nothing behind
  Box3i e = anyExt(9); Frustum f = anyFrustum(); int k = (int)vc_int("k",0,3);
  Fru::Ptr m = new Fru(e), d = new Fru(e); vc_assert(m->isIdentical(d), "two default mappings are identical");
  float t = k&1 ? 1.0f : 0.0f; m->setTransforms(t,f.ss,f.c);
  vc_assert(m->screenToWorldSamples().size() == 1 && m->cameraToWorldSamples().size() == 1 && m->nearPlaneSamples().size() == 1 && m->farPlaneSamples().size() == 1, "the first transform replaces the default in every curve");
  vc_assert(m->screenToWorld() == f.ss && m->cameraToWorld() == f.c, "the transforms are the ones that were set");
  vc_assert_close(m->nearPlane(),f.n(),1e-6*f.n(),"near plane"); vc_assert_close(m->farPlane(),f.f(),1e-6*f.f(),"far plane");
  Fru::Ptr c = boost::dynamic_pointer_cast<Fru>(m->clone()); vc_assert(c && c->isIdentical(m) && m->isIdentical(c), "a clone is identical");
  vc_assert(!m->isIdentical(d), "different transforms are not identical");
  if (k&2) m->setZDistribution(Fru::UniformDistribution); vc_assert(c->isIdentical(m) == !(k&2), "a different slice distribution is not identical");
  m->reset(); m->setZDistribution(Fru::PerspectiveDistribution);
  vc_assert(m->isIdentical(d) && m->screenToWorld() == d->screenToWorld() && m->cameraToWorld() == d->cameraToWorld() && m->nearPlane() == d->nearPlane() && m->farPlane() == d->farPlane() && m->screenToWorldSamples().size() == 1, "a reset mapping equals a default one");
  m->setTransforms(t,f.ss,f.c); vc_assert(m->screenToWorldSamples().size() == 1 && m->screenToWorld() == f.ss, "after a reset the first transform replaces the default");
  vc_assert(c->screenToWorld() == f.ss, "the clone is independent");
  { double n = d->nearPlane(), q = d->farPlane(); vc_assert_close(n,1,1e-9,"default near plane"); vc_assert_close(q,2,1e-9,"default far plane"); }
}
VC_HARNESS(fresh) {   // a mapping built from extents has defined state
  Box3i e = anyExt(9); int poison = (int)vc_int("poison",0,255); void *p = ::operator new(sizeof(Fru)); memset(p,poison,sizeof(Fru));
  Fru *m = new (p) Fru(e); vc_assert(m->zDistribution() == Fru::PerspectiveDistribution && m->m_defaultState, "a new mapping is in the default state");
  m->~Fru(); ::operator delete(p);
}
VC_HARNESS(voxel_sizes) {
  Box3i e = anyExt(9); Frustum f = anyFrustum(); Fru::Ptr m = build(e,f,(int)vc_int("how",0,2),vc_bool("uni")); bool uni = m->zDistribution() == Fru::UniformDistribution;
  if (uni) m->setExtents(e);
  int i = (e.min.x*2+e.max.x-e.min.x+1)/2, j = (e.min.y*2+e.max.y-e.min.y+1)/2; int k = (int)vc_int("k",-30,30);
  i = (int)(e.min.x+(e.max.x-e.min.x+1)/2.0); j = (int)(e.min.y+(e.max.y-e.min.y+1)/2.0);
  int q = std::max(e.min.z,std::min(k,e.max.z-1)); if (e.max.z == e.min.z) return;
  V3d s = m->wsVoxelSize(0,0,k), o, x; m->voxelToWorld(V3d(i+0.5,j+0.5,q+0.5),o); double tol = 1e-6*(1+s.length());
  for (int a=0;a<3;++a) { V3d u(i+0.5,j+0.5,q+0.5); u[a] += 1; m->voxelToWorld(u,x); vc_assert_close(s[a],(x-o).length(),tol,"the voxel size of a slice is the edge length of its central voxel"); }
}
