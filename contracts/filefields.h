// Random fields of every storage kind and value type, and equality of what is read with what was written.
#pragma once
#include "vc.h"
#include <boost/shared_ptr.hpp>
#include "FieldInterp.h"
#include "Field3DFile.h"
#include "DenseField.h"
#include "SparseField.h"
#include "MACField.h"
#include "MIPField.h"
#include "MIPUtil.h"
#include "InitIO.h"
#include "FieldMapping.h"
#include "SparseFile.h"
#include <unistd.h>
#include <cstdlib>
#include <set>
using namespace Field3D;
static long pick(long lo, long hi) { return hi < lo ? lo : vc_int("op",lo,hi); }
struct Quiet { std::streambuf *c,*e; bool on; Quiet() : on(!getenv("VCDBG")) { if (on) { c = std::cout.rdbuf(0); e = std::cerr.rdbuf(0); } } ~Quiet() { if (on) { std::cout.rdbuf(c); std::cerr.rdbuf(e); } } };
static std::string &scratchDir() { static std::string d; if (d.empty()) { char t[] = "/tmp/vcfileXXXXXX"; if (!mkdtemp(t)) abort(); d = t; initIO(); atexit([]{ std::string c = scratchDir(); for (int i=0;i<4;i++) unlink((c+"/f"+std::to_string(i)+".f3d").c_str()); rmdir(c.c_str()); }); } return d; }
static std::string scratchFile(int i = 0) { std::string f = scratchDir()+"/f"+std::to_string(i)+".f3d"; return f; }
template <class T> struct Any { static T get() { static const double V[] = {0,1,-1,0.5,2.25,-7.5,100,1e-3}; return T(V[pick(0,7)]); } };
template <class T> struct Any<FIELD3D_VEC3_T<T> > { static FIELD3D_VEC3_T<T> get() { T a = Any<T>::get(), b = Any<T>::get(), c = Any<T>::get(); return FIELD3D_VEC3_T<T>(a,b,c); } };
static float unit() { return (float)pick(-8,8)/4; }
static FieldMapping::Ptr anyMapping(long k) {
  if (k == 0) return FieldMapping::Ptr(new NullFieldMapping);
  if (k <= 4) { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); M44d x; x.setScale(V3d(2,3,1.0/3)); x[3][0] = k; x[0][1] = 0.1; if (k <= 2) m->setLocalToWorld(x); else { int n = k == 4 && pick(0,2) == 0 ? 13 : (int)k; bool rot = pick(0,1); for (int i=0;i<n;i++) { x[3][1] = i*i; M44d r; if (rot) r.setEulerAngles(V3d(0.2*i,0,0.4*i)); m->setLocalToWorld(i*0.3f,x*r); } } return m; }
  FrustumFieldMapping::Ptr f(new FrustumFieldMapping); if (k == 5) return f;
  M44d ss(1,0,0,0, 0,1.5,0,0, 0,0,-1.1,-1, 0,0,-2.2,0), cs; cs[3][2] = 4; for (int i=0;i<(k==6?1:3);i++) { cs[3][0] = i; f->setTransforms(i*0.5f,ss.inverse()*cs,cs); } if (k == 7) f->setZDistribution(FrustumFieldMapping::UniformDistribution); return f; }
static void anyMeta(FieldMetadata &m, bool byType = false) { static const char *N[] = {"a","b","x y","long metadata name with spaces"};
  for (long n = pick(0,4); n > 0; n--) { std::string s = N[pick(0,3)]; long ty = pick(0,4); if (byType) s += (char)('0'+ty); switch (ty) { case 0: m.setStrMetadata(s,pick(0,3)?"value":""); break; case 1: m.setIntMetadata(s,(int)pick(-3,100000)); break; case 2: m.setFloatMetadata(s,unit()); break; case 3: m.setVecIntMetadata(s,V3i((int)pick(-9,9),2,3)); break; case 4: m.setVecFloatMetadata(s,V3f(unit(),2.5f,unit())); break; } } }
static bool sameMeta(const FieldMetadata &a, const FieldMetadata &b) { return a.strMetadata()==b.strMetadata() && a.intMetadata()==b.intMetadata() && a.floatMetadata()==b.floatMetadata() && a.vecIntMetadata()==b.vecIntMetadata() && a.vecFloatMetadata()==b.vecFloatMetadata(); }
template <class F> static void anySize(F &f, long max) { V3i lo((int)pick(-5,5),(int)pick(-5,5),(int)pick(-5,5)), hi = lo+V3i((int)pick(0,max),(int)pick(0,max),(int)pick(0,max)); Box3i e(lo,hi), d(e); if (pick(0,2)) d = Box3i(lo+V3i((int)pick(-2,2),(int)pick(-2,2),(int)pick(-2,2)),hi+V3i((int)pick(-2,3),0,(int)pick(0,2)));
  for (int i=0;i<3;i++) if (d.max[i] < d.min[i]) d.max[i] = d.min[i]; f.setSize(e,d); }
template <class T> typename DenseField<T>::Ptr anyDense(long max) { typename DenseField<T>::Ptr f(new DenseField<T>); anySize(*f,max); f->clear(Any<T>::get()); long n = pick(0,3); if (n==3) { for (auto i = f->begin(); i != f->end(); ++i) *i = Any<T>::get(); } else while (n-- > 0) { Box3i d = f->dataWindow(); f->fastLValue((int)pick(d.min.x,d.max.x),(int)pick(d.min.y,d.max.y),(int)pick(d.min.z,d.max.z)) = Any<T>::get(); } return f; }
template <class T> void fillSparse(SparseField<T> &f) { f.clear(Any<T>::get()); V3i r = f.blockRes(); for (long n = pick(0,2); n > 0; n--) f.setBlockEmptyValue((int)pick(0,r.x-1),(int)pick(0,r.y-1),(int)pick(0,r.z-1),Any<T>::get());
  Box3i d = f.dataWindow(); if (pick(0,4)==0) { for (auto i = f.begin(); i != f.end(); ++i) *i = Any<T>::get(); } else for (long n = pick(0,8); n > 0; n--) f.fastLValue((int)pick(d.min.x,d.max.x),(int)pick(d.min.y,d.max.y),(int)pick(d.min.z,d.max.z)) = Any<T>::get(); }
template <class T> typename SparseField<T>::Ptr anySparse(long max) { typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder((int)pick(1,4)); anySize(*f,max); fillSparse(*f); return f; }
template <class T> bool sameVoxels(const Field<T> &a, const Field<T> &b) { if (a.extents()!=b.extents() || a.dataWindow()!=b.dataWindow()) return false; Box3i d = a.dataWindow(); for (int k=d.min.z;k<=d.max.z;k++) for (int j=d.min.y;j<=d.max.y;j++) for (int i=d.min.x;i<=d.max.x;i++) if (!(a.value(i,j,k) == b.value(i,j,k))) return false; return true; }
template <class T> bool sameBlocks(const SparseField<T> &a, const SparseField<T> &b) { if (a.blockOrder()!=b.blockOrder() || a.blockRes()!=b.blockRes()) return false; V3i r = a.blockRes(); for (int k=0;k<r.z;k++) for (int j=0;j<r.y;j++) for (int i=0;i<r.x;i++) { if (a.blockIsAllocated(i,j,k) != b.blockIsAllocated(i,j,k)) return false; if (!a.blockIsAllocated(i,j,k) && !(a.getBlockEmptyValue(i,j,k) == b.getBlockEmptyValue(i,j,k))) return false; } return true; }
static bool sameMapping(FieldMapping::Ptr a, FieldMapping::Ptr b) { if (getenv("VCDBG") && a && b) { std::cerr << "map " << a->isIdentical(b) << b->isIdentical(a) << (a->resolution()==b->resolution()) << (a->origin()==b->origin()) << a->resolution() << b->resolution() << a->origin() << b->origin() << std::endl; FrustumFieldMapping::Ptr x = field_dynamic_cast<FrustumFieldMapping>(a), y = field_dynamic_cast<FrustumFieldMapping>(b); if (x && y) { std::cerr << x->zDistribution() << y->zDistribution() << " " << x->m_lpsToWsCurve.numSamples() << y->m_lpsToWsCurve.numSamples() << std::endl; for (size_t i=0;i<x->m_lpsToWsCurve.numSamples() && i < y->m_lpsToWsCurve.numSamples();i++) std::cerr << x->m_lpsToWsCurve.samples()[i].second << y->m_lpsToWsCurve.samples()[i].second << x->m_csToWsCurve.samples()[i].second << y->m_csToWsCurve.samples()[i].second;} } return a && b && a->className()==b->className() && a->isIdentical(b) && b->isIdentical(a) && a->resolution()==b->resolution() && a->origin()==b->origin(); }
