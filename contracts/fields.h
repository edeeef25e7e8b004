// Shared contract vocabulary over fields: arbitrary windows, voxels and arbitrary field contents.
#pragma once
#include "vc.h"
#include "DenseField.h"
#include "SparseField.h"
#include "MACField.h"
using namespace Field3D;
#define NEWBOX(b,lim,nlim) anyBox(#b "x0",#b "y0",#b "z0",#b "nx",#b "ny",#b "nz",lim,nlim)
// a non-empty box with corners in [-lim,lim] and sides of at most lim voxels
static inline Box3i anyBox(const char*x,const char*y,const char*z,const char*nx,const char*ny,const char*nz,long lim,long nlim) {
  long x0=vc_intn(x,-lim,lim,-nlim,nlim), y0=vc_intn(y,-lim,lim,-nlim,nlim), z0=vc_intn(z,-lim,lim,-nlim,nlim);
  long sx=vc_intn(nx,1,lim,1,nlim), sy=vc_intn(ny,1,lim,1,nlim), sz=vc_intn(nz,1,lim,1,nlim);
  return Box3i(V3i((int)x0,(int)y0,(int)z0), V3i((int)(x0+sx-1),(int)(y0+sy-1),(int)(z0+sz-1)));
}
static inline V3i anyIn(const char*x,const char*y,const char*z,const Box3i &b) {
  int i=(int)vc_int(x,b.min.x,b.max.x), j=(int)vc_int(y,b.min.y,b.max.y), k=(int)vc_int(z,b.min.z,b.max.z); return V3i(i,j,k);
}
#define ANYIN(v,b) anyIn(#v ".i",#v ".j",#v ".k",b)
template <class T> struct Elem;
#define VSCALAR(T,K,S) template <> struct Elem<T> { typedef T type; static const int kind=K; static const int size=S; \
  static T any(const char*n){ return (T)vc_real(n,-1e6,1e6); } \
  static void hav(T*p,size_t n,size_t st,const char*nm){ vc_havoc(p,n,st,K,nm); } };
VSCALAR(float,'f',4) VSCALAR(double,'d',8)
#define VVEC(T,S,K,W) template <> struct Elem<T> { typedef T type; static const int kind=K; static const int size=3*W; \
  static T any(const char*n){ S a=(S)vc_real(n,-1e6,1e6); S b=(S)vc_real(n,-1e6,1e6); S c=(S)vc_real(n,-1e6,1e6); return T(a,b,c); } \
  static void hav(T*p,size_t n,size_t st,const char*nm){ vc_havoc(&p->x,n,st,K,nm); vc_havoc(&p->y,n,st,K,nm); vc_havoc(&p->z,n,st,K,nm); } };
VVEC(V3f,float,'f',4) VVEC(V3d,double,'d',8)
// arbitrary content
template <class T> static inline void havDense(DenseField<T> &f, const char *nm="d") { Elem<T>::hav(&f.m_data[0], f.m_data.size(), sizeof(T), nm); }
template <class T> static inline void havSparse(SparseField<T> &f, const char *nm="s", const char *em="e") {
  int o=f.blockOrder(); typedef Sparse::SparseBlock<T> B; B *b=f.m_blocks; size_t n=f.m_numBlocks;
  vc_havoc_ptrs(&b[0].data, n, sizeof(B), &b[0].isAllocated, (size_t)1<<o<<o<<o, sizeof(T), Elem<T>::kind, nm);
  Elem<T>::hav(&b[0].emptyValue, n, sizeof(B), em);
}
static inline bool same3(const V3i&a,const V3i&b){ return a.x==b.x && a.y==b.y && a.z==b.z; }

// A field that promises nothing but the read contract of Field::value(): every voxel of its data window has a value,
// nothing else may be read.  What is proved about code reading it holds for every field class that keeps that contract
// (dense: C01, sparse: C02).
template <class T> struct ProbeVal { static T get(long i,long j,long k) { return (T)vc_fn3("probe",i,j,k); } };
template <class S> struct ProbeVal<Imath::Vec3<S> > { static Imath::Vec3<S> get(long i,long j,long k) { return Imath::Vec3<S>((S)vc_fn3("probex",i,j,k),(S)vc_fn3("probey",i,j,k),(S)vc_fn3("probez",i,j,k)); } };
template <class T> class Probe : public Field<T> {
public:
  typedef T value_type;
  Probe(const Box3i &dw) { this->m_extents = dw; this->m_dataWindow = dw; }
  virtual bool checkRTTI(const char *) { return false; }
  virtual std::string className() const { return "Probe"; }
  virtual std::string classType() const { return "Probe"; }
  virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(); }
  T fastValue(int i,int j,int k) const {
    const Box3i &d = this->m_dataWindow;
    vc_assert((i >= d.min.x) & (i <= d.max.x) & (j >= d.min.y) & (j <= d.max.y) & (k >= d.min.z) & (k <= d.max.z), "only voxels inside the data window are read");
    return ProbeVal<T>::get(i,j,k);
  }
  virtual T value(int i,int j,int k) const { return fastValue(i,j,k); }
};
