// C01: DenseField stores exactly one independent value per voxel of the data window.
#include "vc.h"
#include "DenseField.h"
using namespace Field3D;
static Box3i anyBox(const char *p, long lim, long nlim) {
  long x0=vc_intn("x0",-lim,lim,-nlim,nlim), y0=vc_intn("y0",-lim,lim,-nlim,nlim), z0=vc_intn("z0",-lim,lim,-nlim,nlim);
  long nx=vc_intn("nx",1,lim,1,nlim), ny=vc_intn("ny",1,lim,1,nlim), nz=vc_intn("nz",1,lim,1,nlim);
  return Box3i(V3i(x0,y0,z0), V3i(x0+nx-1,y0+ny-1,z0+nz-1));
}
template <class T> struct Elem;
template <> struct Elem<float>  { static float any(const char *n){ return (float)vc_real(n,-1e6,1e6);} static void hav(float*p,size_t n){ vc_havoc(p,n,4,'f',"d"); } };
template <> struct Elem<double> { static double any(const char *n){ return vc_real(n,-1e6,1e6);} static void hav(double*p,size_t n){ vc_havoc(p,n,8,'d',"d"); } };
template <> struct Elem<V3f>    { static V3f any(const char *n){ float a=vc_real(n,-1e6,1e6),b=vc_real(n,-1e6,1e6),c=vc_real(n,-1e6,1e6); return V3f(a,b,c);} 
  static void hav(V3f*p,size_t n){ vc_havoc(&p->x,n,12,'f',"dx"); vc_havoc(&p->y,n,12,'f',"dy"); vc_havoc(&p->z,n,12,'f',"dz"); } };
static void anyVoxel(const Box3i &b, int &i, int &j, int &k) {
  i = vc_int("i", b.min.x, b.max.x); j = vc_int("j", b.min.y, b.max.y); k = vc_int("k", b.min.z, b.max.z);
}
// lvalue/fastLValue/value/fastValue agree, writes are independent
template <class T> void dense_store() {
  Box3i dw = anyBox("dw", 1<<20, 5);
  Box3i ext(V3i(0), V3i(9,9,9));
  DenseField<T> f;
  f.setSize(ext, dw);
  vc_assert(f.dataWindow() == dw, "dataWindow is what was requested");
  vc_assert(f.extents() == ext, "extents is what was requested");
  int i,j,k, a,b,c;
  anyVoxel(dw,i,j,k); anyVoxel(dw,a,b,c);
  Elem<T>::hav(&f.m_data[0], f.m_data.size());
  T old = f.value(a,b,c);
  T v = Elem<T>::any("v");
  f.lvalue(i,j,k) = v;
  vc_assert(f.value(i,j,k) == v, "value returns what lvalue stored");
  vc_assert(f.fastValue(i,j,k) == v, "fastValue returns what lvalue stored");
  if (!(a==i && b==j && c==k)) vc_assert(f.fastValue(a,b,c) == old, "a write changes no other voxel");
  T w = Elem<T>::any("w");
  f.fastLValue(a,b,c) = w;
  vc_assert(f.value(a,b,c) == w, "value returns what fastLValue stored");
  if (!(a==i && b==j && c==k)) vc_assert(f.value(i,j,k) == v, "fastLValue changes no other voxel");
}
VC_HARNESS(dense_store_f) { dense_store<float>(); }
VC_HARNESS(dense_store_v3f) { dense_store<V3f>(); }
