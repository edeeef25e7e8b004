// Reference separable filtering in double precision.
#pragma once
#include "filefields.h"
#include "FieldInterp.h"
#include "Resample.h"
template <class T> struct Cmp { enum { n = 1 }; static double get(const T &t, int) { return (double)t; } };
template <class T> struct Cmp<FIELD3D_VEC3_T<T> > { enum { n = 3 }; static double get(const FIELD3D_VEC3_T<T> &t, int c) { return (double)t[c]; } };
template <class T> struct Arr { V3i r; std::vector<double> v; double &at(int i, int j, int k, int c) { return v[((size_t)(k*r.y+j)*r.x+i)*Cmp<T>::n+c]; } Arr() {} Arr(V3i q) : r(q), v((size_t)q.x*q.y*q.z*Cmp<T>::n,0) {} };
template <class F> Arr<typename F::value_type> toArr(const F &f) { typedef typename F::value_type T; V3i m = f.dataWindow().min; Arr<T> a(f.dataWindow().size()+V3i(1)); for (int k=0;k<a.r.z;k++) for (int j=0;j<a.r.y;j++) for (int i=0;i<a.r.x;i++) { T t = f.fastValue(m.x+i,m.y+j,m.z+k); for (int c=0;c<Cmp<T>::n;c++) a.at(i,j,k,c) = Cmp<T>::get(t,c); } return a; }
template <class F> bool nearArr(const F &f, Arr<typename F::value_type> &a, double tol) { typedef typename F::value_type T; double mx = 1; for (double x : a.v) mx = std::max(mx,std::abs(x)); bool ok = true; for (int k=0;k<a.r.z && ok;k++) for (int j=0;j<a.r.y && ok;j++) for (int i=0;i<a.r.x;i++) { T t = f.fastValue(i,j,k); for (int c=0;c<Cmp<T>::n;c++) if (!(std::abs(Cmp<T>::get(t,c)-a.at(i,j,k,c)) <= tol*mx)) { if (getenv("VCDBG")) fprintf(stderr,"%d %d %d: %g want %g\n",i,j,k,Cmp<T>::get(t,c),a.at(i,j,k,c)); ok = false; } } return ok; }
template <class T> bool nearT(const T &a, const T &b, double tol) { for (int c=0;c<Cmp<T>::n;c++) if (!(std::abs(Cmp<T>::get(a,c)-Cmp<T>::get(b,c)) <= tol*(1+std::abs(Cmp<T>::get(b,c))))) return false; return true; }
template <class T> bool nearMix(const T &g, const T &a, const T &b, double t, double tol) { for (int c=0;c<Cmp<T>::n;c++) { double x = Cmp<T>::get(a,c), y = Cmp<T>::get(b,c), w = x+(y-x)*t; if (!(std::abs(Cmp<T>::get(g,c)-w) <= tol*(1+std::abs(x)+std::abs(y)))) return false; } return true; }
static int mode(const Filter &) { return 0; } static int mode(const MinFilter &) { return -1; } static int mode(const MaxFilter &) { return 1; }
template <class T, class W, class I, class Flt> Arr<T> filt(Arr<T> &a, int d, int n, W w, I inside, const Flt &flt) {
  V3i r = a.r; r[d] = n; Arr<T> o(r); int md = mode(flt); for (int k=0;k<r.z;k++) for (int j=0;j<r.y;j++) for (int i=0;i<r.x;i++) { V3i p(i,j,k); for (int c=0;c<Cmp<T>::n;c++) { double acc = 0, ws = 0; bool any = false; for (int s=0;s<a.r[d];s++) { if (!inside(p[d],s)) continue; double q = w(p[d],s); V3i u = p; u[d] = s; double x = a.at(u.x,u.y,u.z,c); if (md == 0) { acc += q*x; ws += q; } else if (q > 0) { acc = !any ? x : md < 0 ? std::min(acc,x) : std::max(acc,x); any = true; } } o.at(i,j,k,c) = md ? (any ? acc : 0) : ws > 0 ? acc/ws : 0; } } return o; }
template <class T> static void order(DenseField<T> &, int) {} template <class T> static void order(SparseField<T> &f, int o) { f.setBlockOrder(o); }
template <class T> static void someBlocks(DenseField<T> &) {} template <class T> static void someBlocks(SparseField<T> &f) { V3i r = f.blockRes(); for (long n = pick(0,2); n > 0; n--) f.setBlockEmptyValue((int)pick(0,r.x-1),(int)pick(0,r.y-1),(int)pick(0,r.z-1),Any<T>::get()); }
template <class F> void fillAny(F &f) { typedef typename F::value_type T; f.clear(pick(0,2) ? T(0) : Any<T>::get()); someBlocks(f); Box3i d = f.dataWindow(); long n = pick(0,3); if (n == 3) { for (auto i = f.begin(); i != f.end(); ++i) *i = Any<T>::get(); } else for (long m = n*4; m > 0; m--) f.fastLValue((int)pick(d.min.x,d.max.x),(int)pick(d.min.y,d.max.y),(int)pick(d.min.z,d.max.z)) = Any<T>::get(); }
