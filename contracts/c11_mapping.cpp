// C11: null and matrix mappings: local space spans the extents, voxel space composes with it, and every conversion
// has its inverse.  Matrix44<double>::inverse is used through its contract (adjugate over determinant), see inv_contract.
#include "FieldMapping.h"
#include "vc.h"
#include <Imath/ImathMatrixAlgo.h>
#include <cmath>
#include <cfloat>
#include <algorithm>
using namespace Field3D; using namespace std;
typedef MatrixFieldMapping Mat;
static Box3i anyExt(long lim) {
  V3i o(vc_intn("ox",-lim,lim,-9,9),vc_intn("oy",-lim,lim,-9,9),vc_intn("oz",-lim,lim,-9,9)), n(vc_intn("nx",1,lim,1,9),vc_intn("ny",1,lim,1,9),vc_intn("nz",1,lim,1,9));
  return Box3i(o,o+n-V3i(1));
}
static V3d anyP(const char *a, const char *b, const char *c, double lim) { return V3d(vc_real(a,-lim,lim),vc_real(b,-lim,lim),vc_real(c,-lim,lim)); }
static void same(const V3d &a, const V3d &b, double tol, const char *w) { vc_assert_close(a.x,b.x,tol,w); vc_assert_close(a.y,b.y,tol,w); vc_assert_close(a.z,b.z,tol,w); }
static double det3(const M44d &m) { return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); }
static bool affine(const M44d &m) { return (m[0][3]==0) & (m[1][3]==0) & (m[2][3]==0) & (m[3][3]==1); }
// any affine transform with a determinant that is not tiny
static M44d anyAffine(const char *n0, const char *n1, const char *n2, const char *n3) {
  M44d m; m.makeIdentity(); static char nm[4][16]; const char *r[4] = {n0,n1,n2,n3};
  (void)nm;
  for (int i=0;i<4;++i) for (int j=0;j<3;++j) { static const char *sfx[3] = {"x","y","z"}; char b[8]; b[0]=r[i][0]; b[1]=r[i][1]; b[2]=sfx[j][0]; b[3]=0; m[i][j] = vc_real(b,-4,4); }
  if (!vc_symbolic()) { double d = det3(m); if (std::fabs(d) < 0.5) for (int i=0;i<3;++i) m[i][i] += 9; }
  vc_assume((det3(m) > 0.01) | (det3(m) < -0.01)); vc_nonzero(det3(m));
  return m;
}
#define MAT(p) anyAffine(#p "0",#p "1",#p "2",#p "3")
// contract of Matrix44<double>::inverse() for affine nonsingular matrices
extern "C" __attribute__((used,noinline)) M44d stub_inverse(const M44d *mm) {
  const M44d &m = *mm; double d = det3(m);
  vc_assert(affine(m), "only affine transforms are inverted");
  vc_assert(d != 0, "only invertible transforms are inverted");
  double c[3][3];
  c[0][0] = m[1][1]*m[2][2]-m[2][1]*m[1][2]; c[0][1] = m[2][1]*m[0][2]-m[0][1]*m[2][2]; c[0][2] = m[0][1]*m[1][2]-m[1][1]*m[0][2];
  c[1][0] = m[2][0]*m[1][2]-m[1][0]*m[2][2]; c[1][1] = m[0][0]*m[2][2]-m[2][0]*m[0][2]; c[1][2] = m[1][0]*m[0][2]-m[0][0]*m[1][2];
  c[2][0] = m[1][0]*m[2][1]-m[2][0]*m[1][1]; c[2][1] = m[2][0]*m[0][1]-m[0][0]*m[2][1]; c[2][2] = m[0][0]*m[1][1]-m[1][0]*m[0][1];
  M44d s; s.makeIdentity();
  for (int i=0;i<3;++i) for (int j=0;j<3;++j) s[i][j] = c[i][j]/d;
  for (int j=0;j<3;++j) s[3][j] = -m[3][0]*s[0][j]-m[3][1]*s[1][j]-m[3][2]*s[2][j];
  return s;
}
VC_HARNESS(inv_contract) {   // the assumed contract of the Imath inverse, on matrices whose determinant is at least 1 in size
  M44d m = MAT(m); vc_assume((det3(m) >= 1) | (det3(m) <= -1));
  M44d a = m.inverse(), b = stub_inverse(&m);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) vc_assert_close(a[i][j],b[i][j],1e-6*(1+std::fabs(b[i][j])),"inverse is the adjugate over the determinant");
}
// base class
VC_HARNESS(local_span) {
  Box3i e = anyExt(1<<20); NullFieldMapping m(e); V3d v = anyP("px","py","pz",2e6), l, w;
  V3d lo, hi; m.voxelToLocal(V3d(e.min),lo); m.voxelToLocal(V3d(e.max)+V3d(1),hi);
  same(lo,V3d(0),0,"local space starts at the extents' lower corner"); same(hi,V3d(1),1e-12,"local space ends at the extents' upper corner");
  m.voxelToLocal(v,l); m.localToVoxel(l,w); same(w,v,1e-3,"local to voxel inverts voxel to local");
  V3d l2 = anyP("lx","ly","lz",8), v2, l3; m.localToVoxel(l2,v2); m.voxelToLocal(v2,l3); same(l3,l2,1e-3,"voxel to local inverts local to voxel");
  vc_assert(m.origin() == V3d(e.min) && m.resolution() == V3d(e.max)-V3d(e.min)+V3d(1), "origin and resolution describe the extents");
  // null mapping: world is local
  V3d a, b; m.voxelToWorld(v,a); same(a,l,0,"world space of a null mapping is local space"); m.voxelToWorld(v,b,0.7f); same(b,l,0,"at any time");
  m.worldToVoxel(a,b); same(b,v,1e-3,"world to voxel inverts voxel to world"); m.worldToVoxel(a,b,0.3f); same(b,v,1e-3,"world to voxel inverts voxel to world");
  m.worldToLocal(v,a); m.localToWorld(a,b); same(b,v,0,"local and world agree"); m.worldToLocal(v,a,2.0f); m.localToWorld(a,b,3.0f); same(b,v,0,"local and world agree"); same(a,v,0,"local and world agree");
  V3d s = m.wsVoxelSize(1,2,3), o, x; m.voxelToWorld(V3d(0),o);
  m.voxelToWorld(V3d(1,0,0),x); vc_assert_close(s.x,x.x-o.x,1e-9,"voxel size is the edge length"); m.voxelToWorld(V3d(0,1,0),x); vc_assert_close(s.y,x.y-o.y,1e-9,"voxel size is the edge length"); m.voxelToWorld(V3d(0,0,1),x); vc_assert_close(s.z,x.z-o.z,1e-9,"voxel size is the edge length");
}
static Mat::Ptr build(const Box3i &e, const M44d &m, int how) {
  Mat::Ptr p;
  switch (how) {
  case 0: p = new Mat(e); p->setLocalToWorld(m); break;
  case 1: p = new Mat; p->setLocalToWorld(m); p->setExtents(e); break;
  case 2: p = new Mat(e); p->setLocalToWorld(0.5f,m); p->setLocalToWorld(1.5f,m); p->setLocalToWorld(m); break;
  default: p = new Mat; p->setExtents(Box3i(V3i(1),V3i(5))); p->setLocalToWorld(3.0f,m); p->setExtents(e); break;
  }
  return p;
}
static V3d mulP(const V3d &p, const M44d &m) { return V3d(p.x*m[0][0]+p.y*m[1][0]+p.z*m[2][0]+m[3][0], p.x*m[0][1]+p.y*m[1][1]+p.z*m[2][1]+m[3][1], p.x*m[0][2]+p.y*m[1][2]+p.z*m[2][2]+m[3][2]); }
static void staticMap(Mat::Ptr p, const Box3i &e, const M44d &m) {
  V3d q = anyP("px","py","pz",1e3), w, l, x; double tol = 1e-2;
  p->localToWorld(q,w); same(w,mulP(q,m),1e-6,"local to world is the given transform");
  p->localToWorld(q,w,0.25f); same(w,mulP(q,m),1e-6,"local to world is the given transform at any time");
  p->voxelToLocal(q,l); p->voxelToWorld(q,x); same(x,mulP(l,m),1e-3,"voxel to world is local to world of the extents' local space");
  p->voxelToWorld(q,w,-2.0f); same(w,x,0,"voxel to world is the same at any time");
  same(mulP(q,p->voxelToWorld()),x,1e-9,"the voxel to world matrix is the transform"); same(mulP(q,p->localToWorld()),mulP(q,m),1e-9,"the local to world matrix is the transform");
}
VC_HARNESS(matrix_forward) { int how = (int)vc_case("how",0,3); Box3i e = anyExt(1<<20); M44d m = MAT(m); staticMap(build(e,m,how),e,m); }
VC_HARNESS(matrix_world) {
  Box3i e = anyExt(1<<20); M44d m = MAT(m); Mat::Ptr p = build(e,m,0);
  V3d q = anyP("px","py","pz",1e3), w, v;
  p->voxelToWorld(q,w); p->worldToVoxel(w,v); same(v,q,1e-3*(1<<20),"world to voxel inverts voxel to world");
  p->worldToVoxel(w,v,1.5f); same(v,q,1e-3*(1<<20),"world to voxel inverts voxel to world at any time");
  p->localToWorld(q,w); p->worldToLocal(w,v); same(v,q,1e-3,"world to local inverts local to world");
  p->worldToLocal(w,v,1.5f); same(v,q,1e-3,"world to local inverts local to world at any time");
}
VC_HARNESS(matrix_dirs) {
  Box3i e = anyExt(1<<20); M44d m = MAT(m); Mat::Ptr p = build(e,m,0);
  V3d q = anyP("px","py","pz",1e3), o, w, d, v;
  p->localToWorld(q,w); p->localToWorld(V3d(0),o); p->localToWorldDir(q,d); same(d,w-o,1e-6,"directions are differences of points (local to world)");
  p->voxelToWorld(q,w); p->voxelToWorld(V3d(0),o); p->voxelToWorldDir(q,d); same(d,w-o,1e-6,"directions are differences of points (voxel to world)");
  p->voxelToWorldDir(q,d); p->worldToVoxelDir(d,v); same(v,q,1e-3*(1<<20),"direction conversions invert each other");
  p->localToWorldDir(q,d); p->worldToLocalDir(d,v); same(v,q,1e-3,"direction conversions invert each other");
}
VC_HARNESS(matrix_voxel_size) {
  Box3i e = anyExt(1<<20); M44d m = MAT(m); Mat::Ptr p = build(e,m,(int)vc_case("how",0,1));
  V3d s = p->wsVoxelSize(3,-4,5), o; p->voxelToWorld(V3d(0),o);
  for (int a=0;a<3;++a) { V3d u(0), x; u[a] = 1; p->voxelToWorld(u,x); vc_assert_close(s[a],(x-o).length(),1e-9,"the voxel size is the length of the voxel's edge"); }
}
VC_HARNESS(matrix_moving) {   // two time samples
  Box3i e = anyExt(1<<20); M44d m = MAT(m), n = MAT(n); float t = (float)vc_real("t",0,1); int how = (int)vc_case("how",0,1);
  Mat::Ptr p = new Mat(e); if (how) { p->setLocalToWorld(1.0f,n); p->setLocalToWorld(0.0f,m); } else { p->setLocalToWorld(0.0f,m); p->setLocalToWorld(1.0f,n); }
  vc_assume(t < 1);
  V3d q = anyP("px","py","pz",1e3), w, l, x; double u = t;
  p->localToWorld(q,w,t); same(w,mulP(q,m)*(1-u)+mulP(q,n)*u,1e-2,"local to world is the blend of the two neighbouring samples");
  p->voxelToLocal(q,l); p->localToWorld(l,w,t); p->voxelToWorld(q,x,t); same(x,w,1e-2,"voxel to world is local to world of the extents' local space at every time");
  p->localToWorld(q,w); same(w,mulP(q,m),1e-2,"the untimed transform is the one at time 0");
}
// inverses of moving transforms: the curve is used through its contract (C13): the transform at a time is one matrix
static const Mat *g_map; static M44d g_ls, g_vs;
extern "C" __attribute__((used,noinline)) M44d stub_curve(const Curve<M44d> *c, float) { return c == &g_map->m_lsToWsCurve ? g_ls : g_vs; }
VC_HARNESS(moving_inverse) {
  Box3i e = anyExt(1<<20); Mat::Ptr p = new Mat(e); M44d m = MAT(m); V3d q = anyP("px","py","pz",1e3), w, v; float t = (float)vc_real("t",-2,2);
  if (vc_symbolic()) { g_map = p.get(); g_ls = m; g_vs = m; p->m_isTimeVarying = true; }
  else { p->setLocalToWorld(-2.0f,m); M44d n = m; for (int i=0;i<4;++i) for (int j=0;j<3;++j) n[i][j] *= 1.5; p->setLocalToWorld(2.0f,n); }
  p->voxelToWorld(q,w,t); p->worldToVoxel(w,v,t); same(v,q,1e-2,"world to voxel inverts voxel to world at every time");
  v = mulP(w,p->worldToVoxel(t)); same(v,q,1e-2,"the world to voxel matrix at a time inverts voxel to world");
  p->localToWorld(q,w,t); p->worldToLocal(w,v,t); same(v,q,1e-2,"world to local inverts local to world at every time");
}
VC_HARNESS(identity_and_clone) {
  Box3i e = anyExt(1<<10); M44d m = MAT(m); int how = (int)vc_case("how",0,2); Mat::Ptr p = build(e,m,0);
  V3d q = anyP("px","py","pz",1e3), w, x, l;
  FieldMapping::Ptr c = p->clone(); vc_assert(c.get() != p.get() && c->className() == "MatrixFieldMapping", "a clone is another object of the same class");
  if (how == 1) p->makeIdentity(); if (how == 2) { M44d n; n.setTranslation(V3d(1,2,3)); p->setLocalToWorld(n); }
  c->localToWorld(q,w); same(w,mulP(q,m),1e-6,"the clone keeps the transform"); c->voxelToLocal(q,l); c->voxelToWorld(q,w); same(w,mulP(l,m),1e-3,"the clone keeps the extents");
  p->localToWorld(q,x); if (how == 1) same(x,q,1e-9,"identity makes local and world space equal"); if (how == 2) same(x,q+V3d(1,2,3),1e-9,"a new transform replaces the old one");
}
// comparison
static M44d decorated(int k, const M44d &m, double d) { M44d r = m; if (k<3) r[3][k] += d; else if (k<6) { M44d s; s.makeIdentity(); s[k-3][k-3] = 1+d; r = s*m; } else if (k<9) { M44d s; s.makeIdentity(); if (k==6) s[1][0] = d; if (k==7) s[2][0] = d; if (k==8) s[2][1] = d; r = s*m; } else if (k<12) { M44d s; V3d a(0); a[k-9] = d; s.rotate(a); r = m*s; } return r; }
VC_HARNESS(compare) {
  Box3i e = anyExt(100), e2 = e; M44d m; m.makeIdentity();
  m.translate(anyP("tx","ty","tz",9)); m.rotate(anyP("rx","ry","rz",1.4)); m.scale(V3d(vc_real("sx",0.5,4),vc_real("sy",0.5,4),vc_real("sz",0.5,4)));
  if (vc_bool("sheared")) m.shear(V3d(vc_real("hx",-1,1),vc_real("hy",-1,1),vc_real("hz",-1,1)));
  int k = (int)vc_int("change",0,18); double d = vc_bool("neg") ? -0.3 : 0.3, tol = vc_bool("tol") ? 1e-6 : 0;
  M44d n = k < 12 ? decorated(k,m,d) : m; if (k==12) e2.max.x += 3; if (k==13) e2.min.y -= 2; if (k==14) { e2.min.z++; e2.max.z++; }
  Mat::Ptr a = new Mat(e), b = new Mat(e2); a->setLocalToWorld(0,m); b->setLocalToWorld(k==16?1.0f:0.0f,n); if (k==15) b->setLocalToWorld(2.0f,m); if (k==17) { a->setLocalToWorld(2.0f,m); b->setLocalToWorld(2.0f,decorated(1,m,d)); }
  bool eq = k == 18;
  vc_assert(a->isIdentical(b,tol) == eq, "matrix mappings are identical exactly when extents and transforms agree");
  vc_assert(b->isIdentical(a,tol) == eq, "the comparison is symmetric");
  NullFieldMapping::Ptr z = new NullFieldMapping(e), y = new NullFieldMapping(e);
  vc_assert(z->isIdentical(y) && !z->isIdentical(a) && !a->isIdentical(z), "a null mapping is identical to null mappings only");
}
VC_HARNESS(bounds) {
  Box3i e = anyExt(1<<10); M44d m = MAT(m); Mat::Ptr p = build(e,m,0); V3d c = anyP("cx","cy","cz",100), s(vc_real("dx",0,50),vc_real("dy",0,50),vc_real("dz",0,50)), f(vc_real("fx",0,1),vc_real("fy",0,1),vc_real("fz",0,1)), v;
  Box3d ws(c,c+s), vs; worldToVoxel(p.get(),ws,vs); V3d q = c+s*f; p->worldToVoxel(q,v); double tol = 1e-3;
  Box3d tb; transformBounds(m,ws,tb); V3d t = mulP(q,m);
  for (int a=0;a<3;++a) { vc_assert(v[a] >= vs.min[a]-tol && v[a] <= vs.max[a]+tol, "the voxel bounds contain every point of the world box"); vc_assert(t[a] >= tb.min[a]-tol && t[a] <= tb.max[a]+tol, "the transformed bounds contain every transformed point"); }
  for (int a=0;a<3;++a) { bool lo=false,hi=false; for (int i=0;i<8;++i) { V3d k(i&1?ws.max.x:ws.min.x,i&2?ws.max.y:ws.min.y,i&4?ws.max.z:ws.min.z), o; p->worldToVoxel(k,o); lo |= std::fabs(o[a]-vs.min[a]) < tol; hi |= std::fabs(o[a]-vs.max[a]) < tol; } vc_assert(lo && hi, "the voxel bounds are tight"); }
}
