// C20: resampling uses the source voxels under the filter, keeps constants, is the same for dense and sparse storage, and min/max results bound the field.
#include "filter.h"
#include "MinMaxUtil.h"
#include "MIPField.h"
template <class T, class Flt> static void res(const Flt &flt, double tol) {
  Quiet q; typedef DenseField<T> D; typedef SparseField<T> S; int mx = vc_bool("small") ? 6 : 14; V3i r((int)pick(1,mx),(int)pick(1,mx),(int)pick(1,mx)), n((int)pick(1,mx+4),(int)pick(1,mx+4),(int)pick(1,mx+4)); if (vc_bool("same")) n.x = r.x;
  D d; d.setSize(r); S s; s.setBlockOrder((int)pick(1,4)); s.setSize(r); bool cst = vc_bool("const"); T c0 = Any<T>::get(); if (cst) { d.clear(c0); s.clear(c0); if (vc_bool("alloc")) s.fastLValue(0,0,0) = c0; } else { fillAny(s); for (auto i = d.begin(); i != d.end(); ++i) *i = s.fastValue(i.x,i.y,i.z); } d.name = "n"; d.attribute = "a"; s.name = "n"; s.attribute = "a";
  D td; S ts; if (vc_bool("used")) { td.setSize(n); td.clear(T(7)); ts.setSize(n); ts.clear(T(7)); } ts.setBlockOrder((int)pick(1,4));
  bool okd = resample(d,td,n,flt), oks = resample(s,ts,n,flt); vc_assert(okd && oks, "a field whose window starts at zero is resampled"); if (!okd || !oks) return;
  Box3i e(V3i(0),n-V3i(1)); vc_assert(td.extents()==e && td.dataWindow()==e && ts.extents()==e && ts.dataWindow()==e && td.name=="n" && ts.attribute=="a", "the result has the requested resolution");
  if (!(td.dataWindow()==e && ts.dataWindow()==e)) return;
  vc_assert(sameVoxels<T>(td,ts), "dense and sparse storage of the same values give the same result");
  if (cst) { bool ok = true; for (auto i = td.cbegin(); i != td.cend(); ++i) if (!nearT<T>(*i,c0,tol)) ok = false; vc_assert(ok, "a constant field stays that constant"); return; }
  // the value of every voxel is the normalised weighted sum of the source voxels within the support
  Arr<T> a = toArr(d), lo, hi; for (int x=0;x<3;x++) { double ratio = (double)r[x]/n[x]; bool up = n[x] > r[x]; auto dist = [&](int i, int t) { return up ? std::abs((i+0.5)*ratio-(t+0.5)) : std::abs((t+0.5)/ratio-(i+0.5)); };
    if (mode(flt)) continue; for (int i=0;i<n[x];i++) for (int t=0;t<r[x];t++) if (std::abs(dist(i,t)-0.5) < 1e-4 && flt.support() < 0.6) return; // a voxel centre on the very edge of a box
    a = filt(a,x,n[x],[&](int i,int t){ return flt.eval((float)dist(i,t)); },[&](int i,int t){ return dist(i,t) <= flt.support()+1e-9; },flt); }
  if (!mode(flt)) { vc_assert(nearArr(td,a,tol), "a voxel is the normalised weighted sum of the source voxels under the filter"); return; }
  // min and max: bounded by the voxels surely covered, and attained by one that is possibly covered
  a = toArr(d); bool bound = true, att = true; int md = mode(flt);
  for (int k=0;k<n.z;k++) for (int j=0;j<n.y;j++) for (int i=0;i<n.x;i++) for (int c=0;c<Cmp<T>::n;c++) { V3i p(i,j,k); double g = Cmp<T>::get(td.fastValue(i,j,k),c); bool hit = false; 
    for (int w=0;w<r.z;w++) for (int v=0;v<r.y;v++) for (int u=0;u<r.x;u++) { V3i t(u,v,w); bool in = true, maybe = true; for (int x=0;x<3;x++) { double ratio = (double)r[x]/n[x]; double D = n[x] > r[x] ? std::abs((p[x]+0.5)*ratio-(t[x]+0.5)) : std::abs((t[x]+0.5)/ratio-(p[x]+0.5)); if (D > 0.5-1e-4) in = false; if (D > 0.5+1e-4) maybe = false; } double s = a.at(u,v,w,c); if (in && (md < 0 ? g > s : g < s)) bound = false; if (maybe && g == s) hit = true; } if (!hit) att = false; }
  vc_assert(bound, "a min (max) result is no larger (smaller) than any source voxel its filter covers"); vc_assert(att, "a min (max) result is one of the source values its filter covers");
}
template <class T> static void any(double tol) { switch (pick(0,6)) { case 0: res<T>(BoxFilter(),tol); break; case 1: res<T>(TriangleFilter(),tol); break; case 2: res<T>(GaussianFilter(),tol); break; case 3: res<T>(MitchellFilter(),tol); break; case 4: res<T>(MinFilter(),tol); break; case 5: res<T>(MaxFilter(),tol); break; case 6: res<T>(TriangleFilter(vc_bool("w") ? 1.5f : 2.0f),tol); break; } }
VC_HARNESS(resample_float) { any<float>(1e-4); }
VC_HARNESS(resample_double) { any<double>(1e-4); }
VC_HARNESS(resample_vector) { any<V3f>(1e-4); }
template <class F> static void minmax() { typedef typename F::value_type T; typedef MIPField<F> MF; Quiet q; F b; order(b,(int)pick(1,3)); V3i r((int)pick(1,14),(int)pick(1,14),(int)pick(1,14)); b.setSize(r); fillAny(b); b.setMapping(anyMapping(pick(0,2))); static const float M[] = {1,0.5,0.25,0.7,2,0.01}; float mult = M[pick(0,5)];
  std::pair<typename MF::Ptr,typename MF::Ptr> p = makeMinMax<MF>(b,mult,pick(0,3)?1:3); vc_assert(p.first && p.second, "min and max pyramids are made"); if (!p.first || !p.second) return; Arr<T> a = toArr(b); bool lo = true, hi = true;
  V3i r0 = p.first->mipResolution(0); vc_assert(p.second->mipResolution(0)==r0 && p.first->numLevels()==p.second->numLevels(), "min and max pyramids have the same shape");
  for (size_t l=0;l<p.first->numLevels();l++) { typename F::Ptr mn = p.first->concreteMipLevel(l), mxf = p.second->concreteMipLevel(l); V3i n = mn->dataWindow().size()+V3i(1); for (int k=0;k<r.z;k++) for (int j=0;j<r.y;j++) for (int i=0;i<r.x;i++) { V3i s(i,j,k), t; bool edge = false; for (int x=0;x<3;x++) { double u = (s[x]+0.5)*r0[x]/r[x]; if (r0[x] > r[x]) { t[x] = 0; edge = true; continue; } double f = u/(1<<l); t[x] = (int)std::floor(f); if (std::abs(f-std::floor(f+0.5)) < 1e-4) edge = true; } if (edge) continue; for (int x=0;x<3;x++) vc_assert(t[x] < n[x], "every level covers the field"); 
      for (int c=0;c<Cmp<T>::n;c++) { double v = a.at(i,j,k,c); if (Cmp<T>::get(mn->fastValue(t.x,t.y,t.z),c) > v) lo = false; if (Cmp<T>::get(mxf->fastValue(t.x,t.y,t.z),c) < v) hi = false; } } }
  vc_assert(lo, "the minimum pyramid bounds the field from below"); vc_assert(hi, "the maximum pyramid bounds the field from above"); }
VC_HARNESS(minmax_dense) { if (vc_bool("v")) minmax<DenseField<V3f> >(); else minmax<DenseField<float> >(); }
VC_HARNESS(minmax_sparse) { if (vc_bool("v")) minmax<SparseField<V3f> >(); else minmax<SparseField<float> >(); }
VC_HARNESS(refused) { Quiet q; DenseField<float> f, t; f.setSize(Box3i(V3i((int)pick(-2,2),(int)pick(-2,2),(int)pick(-2,2)),V3i(5))); f.clear(1); bool ok = resample(f,t,V3i(4),BoxFilter()); vc_assert(ok == (f.dataWindow().min==V3i(0)), "fields are resampled when their window starts at zero"); }
