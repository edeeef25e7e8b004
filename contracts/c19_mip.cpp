// C19: MIP levels have the right resolution, values and placement.  C20 shares the reference filter.
#include "filter.h"
#include "MIPUtil.h"
#include "MIPInterp.h"
#include "FieldInterp.h"
static int floordiv2(int a) { return a >= 0 ? a/2 : -((1-a)/2); }
template <class F, class Flt> static void pyramid(const Flt &flt, double tol) {
  typedef typename F::value_type T; typedef MIPField<F> MF; Quiet q;
  typename F::Ptr b(new F); V3i res((int)pick(1,14),(int)pick(1,14),(int)pick(1,14)); if (vc_bool("cube")) res = V3i((int)pick(3,20)); if (pick(0,3)==0) { res = V3i(3+(int)pick(0,1),3,3); res[(int)pick(0,2)] = (int)pick(33,50); } order(*b,(int)pick(1,3)); b->setSize(res); fillAny(*b); FieldMapping::Ptr mp = anyMapping(pick(0,4)); b->setMapping(mp);
  V3i off((int)pick(-5,5),(int)pick(-5,5),(int)pick(-5,5)); if (vc_bool("nooff")) off = V3i(0); int minSize = (int)pick(1,8); size_t threads = pick(0,3)==0 ? 3 : 1;
  typename MF::Ptr m = makeMIP<MF,Flt>(*b,minSize,off,threads); vc_assert(m.get() != 0, "a pyramid is made"); if (!m) return;
  vc_assert(m->mipOffset()==off, "the offset is kept"); Arr<T> cur = toArr(*b); V3i r = res, o = off; size_t l = 0;
  for (;;) { vc_assert(l < m->numLevels(), "levels are made until the minimum size"); if (l >= m->numLevels()) return;
    typename F::Ptr f = m->concreteMipLevel(l); vc_assert(f->extents()==f->dataWindow() && f->dataWindow().min==V3i(0) && f->dataWindow().size()+V3i(1)==r && m->mipResolution(l)==r, "a level has half the resolution of the previous one, rounded up");
    if (!(f->dataWindow().size()+V3i(1)==r)) return; vc_assert(nearArr(*f,cur,tol), "a level is the filtered previous level");
    V3i p((int)pick(0,r.x-1),(int)pick(0,r.y-1),(int)pick(0,r.z-1)); vc_assert(m->mipValue(l,p.x,p.y,p.z)==f->fastValue(p.x,p.y,p.z) && m->fastMipValue(l,p.x,p.y,p.z)==f->fastValue(p.x,p.y,p.z) && m->rawMipLevel(l)==f.get() && m->mipLevel(l).get()==f.get(), "level access returns the level's own data");
    // placement
    V3d P(unit()*5+3,unit()*4+2,unit()*3); V3f lp; m->getVsMIPCoord(P,l,lp); V3d want; for (int i=0;i<3;i++) { int s = (off[i] >> l) * (1 << l); want[i] = (P[i] - (s-off[i]))/(1<<l); } vc_assert((V3d(lp)-want).length() < 1e-3, "a voxel-space point maps to the corresponding point of a level");
    if (field_dynamic_cast<MatrixFieldMapping>(mp)) { V3d w, wl; b->mapping()->voxelToWorld(P,w); f->mapping()->voxelToWorld(V3d(lp),wl); vc_assert((w-wl).length() <= 1e-3*(1+w.length()), "corresponding points of two levels are the same point in world space"); }
    MatrixFieldMapping::Ptr bm = field_dynamic_cast<MatrixFieldMapping>(b->mapping()), lm = field_dynamic_cast<MatrixFieldMapping>(f->mapping()); if (bm && lm) for (auto &sm : bm->localToWorldSamples()) { V3d w, wl; bm->voxelToWorld(P,w,sm.first); lm->voxelToWorld(V3d(lp),wl,sm.first); vc_assert((w-wl).length() <= 1e-3*(1+w.length()), "corresponding points of two levels are the same point in world space at every time sample"); }
    // every voxel of the previous level is covered by this level
    if (!((r.x > minSize || r.y > minSize || r.z > minSize) && r.x > 2 && r.y > 2 && r.z > 2)) break;
    Arr<T> nx = cur; V3i nr = r; for (int d=0;d<3;d++) { int add = o[d]%2 != 0; nr[d] = (r[d]+add+1)/2; nx = filt(nx,d,nr[d],[&](int i,int s){ return flt.eval((float)(std::abs(s+0.5-(2*i+1-add))*0.5)); },[&](int i,int s){ return std::abs(s+0.5-(2*i+1-add)) <= 2*flt.support(); },flt); }
    cur = nx; r = nr; for (int d=0;d<3;d++) o[d] = floordiv2(o[d]); l++; }
  vc_assert(m->numLevels()==l+1, "no level beyond the minimum size");
  // blending
  if (field_dynamic_cast<MatrixFieldMapping>(mp) || true) { MIPLinearInterp<MF> mi(*m); typename F::LinearInterp li; V3f vs = m->mapping()->wsVoxelSize(0,0,0); double base = std::min(std::min(vs.x,vs.y),vs.z); 
    for (int n=0;n<4;n++) { double spot = base*std::pow(2.0,(double)unit()*1.5+pick(0,2)); if (pick(0,3)==0) spot = base*(1<<pick(0,4)); V3d P((unit()+2)/4*res.x,(unit()+2)/4*res.y,(unit()+2)/4*res.z); T got = mi.sample(P,(float)spot); auto at = [&](size_t k) { V3f lp; m->getVsMIPCoord(P,k,lp); return k ? li.sample(*m->concreteMipLevel(k),V3d(lp)) : li.sample(*m->concreteMipLevel(0),P); };
      size_t k = 0; while (k < m->numLevels() && spot > base*(1<<k)*(1+1e-6)) k++; 
      bool ok; if (k == 0) ok = nearT(got,at(0),1e-3); else if (k >= m->numLevels()) ok = nearT(got,at(m->numLevels()-1),1e-3); else { double t = (spot-base*(1<<(k-1)))/(base*(1<<(k-1))); T a = at(k-1), c = at(k); ok = nearMix(got,a,c,t,4*tol+2e-3); }
      vc_assert(ok, "sampling blends the two levels that bracket the requested size by their distance"); } }
}
template <class T> static void both(double tol) { bool sp = vc_bool("sparse"); switch (pick(0,5)) { 
  case 0: if (sp) pyramid<SparseField<T> >(BoxFilter(),tol); else pyramid<DenseField<T> >(BoxFilter(),tol); break;
  case 1: if (sp) pyramid<SparseField<T> >(TriangleFilter(),tol); else pyramid<DenseField<T> >(TriangleFilter(),tol); break;
  case 2: if (sp) pyramid<SparseField<T> >(GaussianFilter(),tol); else pyramid<DenseField<T> >(GaussianFilter(),tol); break;
  case 3: if (sp) pyramid<SparseField<T> >(MitchellFilter(),tol); else pyramid<DenseField<T> >(MitchellFilter(),tol); break;
  case 4: if (sp) pyramid<SparseField<T> >(MinFilter(),tol); else pyramid<DenseField<T> >(MinFilter(),tol); break;
  case 5: if (sp) pyramid<SparseField<T> >(MaxFilter(),tol); else pyramid<DenseField<T> >(MaxFilter(),tol); break; } }
VC_HARNESS(pyramid_float) { both<float>(1e-4); }
VC_HARNESS(pyramid_vector) { both<V3f>(1e-4); }
VC_HARNESS(pyramid_half) { both<half>(1e-2); }
VC_HARNESS(offset_origin) { // base windows that do not start at zero are refused
  Quiet q; DenseField<float> f; f.setSize(Box3i(V3i((int)pick(-3,3),(int)pick(-3,3),(int)pick(-3,3)),V3i(9,9,9))); f.clear(1); MIPDenseField<float>::Ptr m = makeMIP<MIPDenseField<float>,BoxFilter>(f,2,1); vc_assert((m != 0) == (f.dataWindow().min==V3i(0)), "a pyramid is made for fields whose window starts at zero");
}
