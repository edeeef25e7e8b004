// C22: wrapped fields and groups return the sum (average) of the hit fields' own values; min/max queries bound them.
#include "filefields.h"
#include "MIPInterp.h"
#include "MinMaxUtil.h"
#include "FieldGroup.h"
#include <boost/fusion/include/at_c.hpp>
struct Remap : public ValueRemapOp { float a, b; Remap(float x, float y) : a(x), b(y) {} virtual float remap(const float v) const { return a*v+b; } virtual V3f remap(const V3f &v) const { return v*a+V3f(b,-b,1); } };
template <class T> struct Dims { static const int n = 1; typedef float In; static float comp(const T &v, int) { return (float)v; } };
template <class T> struct Dims<FIELD3D_VEC3_T<T> > { static const int n = 3; typedef V3f In; static float comp(const FIELD3D_VEC3_T<T> &v, int c) { return (float)v[c]; } };
static M44d anyXform(bool small = false) { M44d s, t, r; s.setScale(V3d(1+pick(0,3)*0.5,1+pick(0,3),0.5+pick(0,2))); t.setTranslation(V3d(unit(),unit(),unit())); if (!small) r.setEulerAngles(V3d(unit(),unit(),0)); return s*r*t; }
struct Item { FieldRes::Ptr f; bool mip; std::function<bool(V3d osP, float spot, V3d &v)> eval; std::function<bool(V3d osP)> edge; std::function<V3d(V3d vs)> toOs; Box3d vb; };
template <class F> static void mapIt(F &f, bool matrixOnly) { long k = matrixOnly ? pick(0,2) : pick(0,7); if (k == 0) { f.setMapping(FieldMapping::Ptr(new NullFieldMapping)); return; } if (k <= 4) { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); m->setLocalToWorld(anyXform()); f.setMapping(m); return; } f.setMapping(anyMapping(k)); }
static bool nearEdge(const Box3d &b, const V3d &p) { for (int i=0;i<3;i++) if (std::abs(p[i]-b.min[i]) < 1e-4 || std::abs(p[i]-b.max[i]) < 1e-4) return true; return false; }
template <class F> static void values(F &f) { typedef typename F::value_type T; f.clear(Any<T>::get()); Box3i d = f.dataWindow(); for (long n = pick(0,12); n > 0; n--) f.fastLValue((int)pick(d.min.x,d.max.x),(int)pick(d.min.y,d.max.y),(int)pick(d.min.z,d.max.z)) = Any<T>::get(); }
template <class T> static V3d asV(const T &v) { V3d r(0); for (int c=0;c<Dims<T>::n;c++) r[c] = Dims<T>::comp(v,c); return r; }
template <class F> static Item plain(typename F::Ptr f) { Item i; i.f = f; i.mip = false; FieldMapping::Ptr m = f->mapping(); Box3i dw = f->dataWindow(); Box3d b(V3d(dw.min),V3d(dw.max)+V3d(1)); i.vb = b;
  i.eval = [=](V3d p, float, V3d &v) { V3d vs; m->worldToVoxel(p,vs); if (!b.intersects(vs)) return false; typename F::LinearInterp li; v = asV(li.sample(*f,vs)); return true; }; i.edge = [=](V3d p) { V3d vs; m->worldToVoxel(p,vs); return nearEdge(b,vs); }; i.toOs = [=](V3d vs) { V3d w; m->voxelToWorld(vs,w); return w; }; return i; }
template <class F> static Item mips(typename F::Ptr base) { typedef MIPField<F> MF; Item i; typename MF::Ptr f = makeMIP<MF,BoxFilter>(*base,2,1); i.f = f; i.mip = true; FieldMapping::Ptr m = f->mapping(); Box3i dw = f->dataWindow(); Box3d b(V3d(dw.min),V3d(dw.max)+V3d(1)); i.vb = b;
  i.eval = [=](V3d p, float spot, V3d &v) { V3d vs; m->worldToVoxel(p,vs); if (!b.intersects(vs)) return false; MIPLinearInterp<MF> li(*f); v = asV(li.sample(vs,spot)); return true; }; i.edge = [=](V3d p) { V3d vs; m->worldToVoxel(p,vs); return nearEdge(b,vs); }; i.toOs = [=](V3d vs) { V3d w; m->voxelToWorld(vs,w); return w; }; return i; }
template <class T> static Item anyItem(bool matrixOnly, bool zero) { long k = pick(0,3); 
  if (k == 0) { typename DenseField<T>::Ptr f(new DenseField<T>); if (zero) f->setSize(V3i((int)pick(1,9),(int)pick(1,9),(int)pick(1,9))); else anySize(*f,6); values(*f); mapIt(*f,matrixOnly); return plain<DenseField<T> >(f); }
  if (k == 1) { typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder((int)pick(1,3)); if (zero) f->setSize(V3i((int)pick(1,9),(int)pick(1,9),(int)pick(1,9))); else anySize(*f,6); values(*f); mapIt(*f,matrixOnly); return plain<SparseField<T> >(f); }
  V3i res((int)pick(1,9),(int)pick(1,9),(int)pick(1,9));
  if (k == 2) { typename DenseField<T>::Ptr f(new DenseField<T>); f->setSize(res); values(*f); mapIt(*f,true); return mips<DenseField<T> >(f); }
  typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder((int)pick(1,3)); f->setSize(res); values(*f); mapIt(*f,true); return mips<SparseField<T> >(f); }
template <int D> struct GroupOf; template <> struct GroupOf<1> { typedef ScalarFieldGroup type; template <class...> static Item any(bool m, bool z) { switch (pick(0,2)) { case 0: return anyItem<float>(m,z); case 1: return anyItem<half>(m,z); default: return anyItem<double>(m,z); } } };
template <> struct GroupOf<3> { typedef VectorFieldGroup type; template <class...> static Item any(bool m, bool z) { switch (pick(0,2)) { case 0: return anyItem<V3f>(m,z); case 1: return anyItem<V3h>(m,z); default: return anyItem<V3d>(m,z); } } };
static bool closeV(const float *a, V3d b, int D) { for (int c=0;c<D;c++) if (std::abs(a[c]-b[c]) > 1e-3*(1+std::abs(b[c]))) return false; return true; }
template <int D> static void group() { Quiet q; typedef typename GroupOf<D>::type G; G g; struct Placed { Item it; M44d o2w, w2o; double scale; bool doX; boost::shared_ptr<Remap> op; }; std::vector<Placed> all;
  bool opt = pick(0,2)==0; bool late = opt && vc_bool("late"); if (opt && !late) g.setWsBoundsOptimization(true);
  for (long n = pick(1,4); n > 0; n--) { Placed p; p.doX = vc_bool("x"); p.scale = 1; if (p.doX) { p.o2w = anyXform(); V3d s(1); Imath::extractScaling(p.o2w,s,false); p.scale = std::max(std::max(s.x,s.y),s.z); } p.w2o = p.o2w.inverse(); g.setOsToWs(p.o2w); if (vc_bool("remap")) p.op.reset(new Remap((float)pick(-2,2),(float)pick(-1,3))); g.setValueRemapOp(p.op); p.it = GroupOf<D>::any(opt,false); if (!p.it.f) return; g.setup(p.it.f); all.push_back(p); }
  if (late) g.setWsBoundsOptimization(true);
  size_t nm = 0; for (auto &p : all) nm += p.it.mip; vc_assert(g.size()==all.size() && g.sizeMIP()==nm, "every field is in the group once");
  const int N = 8; float wsP[3*N], spots[N]; std::vector<V3d> want(N,V3d(0)), wantP(N,V3d(0)), wantM(N,V3d(0)); std::vector<int> hits(N,0), okp(N,1); bool anyIn[N] = {0};
  for (int i=0;i<N;i++) { const Placed &p = all[pick(0,(long)all.size()-1)]; V3d vs; for (int c=0;c<3;c++) vs[c] = p.it.vb.min[c]+(p.it.vb.max[c]-p.it.vb.min[c])*(pick(-1,9)/8.0+0.01); V3d os = p.it.toOs(vs), w; p.o2w.multVecMatrix(os,w); for (int c=0;c<3;c++) wsP[3*i+c] = (float)w[c]; spots[i] = std::abs(unit())*(pick(0,3)==0?4:1)*0.3f; }
  for (int i=0;i<N;i++) { V3d w(wsP[3*i],wsP[3*i+1],wsP[3*i+2]); if (!(w.length2() < 1e12)) { okp[i] = 0; continue; } for (auto &p : all) { V3d os = w; if (p.doX) p.w2o.multVecMatrix(w,os); if (p.it.edge(os)) { okp[i] = 0; continue; } V3d v; if (!p.it.eval(os,(float)(spots[i]/p.scale),v)) continue; anyIn[i] = true; hits[i]++; if (p.op) { if (D==1) v[0] = p.op->remap((float)v[0]); else { V3f r = p.op->remap(V3f(v)); v = V3d(r); } } want[i] += v; (p.it.mip ? wantM : wantP)[i] += v; } }
  for (int i=0;i<N;i++) { if (!okp[i]) continue; V3d w(wsP[3*i],wsP[3*i+1],wsP[3*i+2]); 
    float r[3] = {0,0,0}; g.sample(w,spots[i],0.0f,r); vc_assert(closeV(r,want[i],D), "sampling a group adds the values of the fields the point is in");
    float av[3] = {0,0,0}; g.sample(w,spots[i],0.0f,av,G::Avg); vc_assert(closeV(av,want[i]*(1.0/std::max(1,hits[i])),D), "averaging divides by the number of fields the point is in");
    float r1[3] = {0,0,0}, r2[3] = {0,0,0}; g.sample(w,r1,false); g.sampleMIP(w,spots[i],r2,false); vc_assert(closeV(r1,wantP[i],D), "ordinary fields are sampled on their own"); vc_assert(closeV(r2,wantM[i],D), "MIP fields are sampled on their own");
    vc_assert(g.intersects(w)==anyIn[i], "a point intersects the group when it is inside one of the fields"); }
  std::vector<float> m1(D*N,0.f), m2(D*N,0.f); g.sampleMultiple(N,wsP,&m1[0]); g.sampleMIPMultiple(N,wsP,spots,&m2[0]);
  for (int i=0;i<N;i++) if (okp[i]) { vc_assert(closeV(&m1[D*i],wantP[i],D), "sampling many points gives each point's value"); vc_assert(closeV(&m2[D*i],wantM[i],D), "sampling many points of MIP fields gives each point's value"); }
  // the bare samplers report the number of contributing fields
  { typedef typename std::decay<decltype(boost::fusion::at_c<0>(g.m_dense))>::type WV; const WV &v = boost::fusion::at_c<0>(g.m_dense); typedef typename std::decay<decltype(boost::fusion::at_c<1>(g.m_mipSparse))>::type WM; const WM &vm = boost::fusion::at_c<1>(g.m_mipSparse);
    size_t hm[N] = {0}, hmm[N] = {0}; std::vector<float> o(D*N,0.f), om(D*N,0.f); FieldSampler<WV,D>::sampleMultiple(v,N,wsP,&o[0],hm); FieldSampler<WM,D>::sampleMIPMultiple(vm,N,wsP,spots,&om[0],hmm);
    for (int i=0;i<N;i++) if (okp[i]) { V3d w(wsP[3*i],wsP[3*i+1],wsP[3*i+2]); size_t h = 0, h2 = 0, hw = 0, hw2 = 0; float a[3] = {0,0,0}, b[3] = {0,0,0}; FieldSampler<WV,D>::sample(v,w,a,h); FieldSampler<WM,D>::sampleMIP(vm,w,spots[i],b,h2);
      for (auto &p : all) { V3d os = w, x; if (p.doX) p.w2o.multVecMatrix(w,os); if (!p.it.eval(os,0.f,x)) continue; for (auto &e : v) if (e.fieldPtr.get()==p.it.f.get()) hw++; for (auto &e : vm) if (e.fieldPtr.get()==p.it.f.get()) hw2++; }
      vc_assert(h==hw && hm[i]==hw && h2==hw2 && hmm[i]==hw2, "the number of hits is the number of contributing fields"); } }
}
VC_HARNESS(group_scalar) { group<1>(); }
VC_HARNESS(group_vector) { group<3>(); }
template <int D> static void bounds() { Quiet q; typedef typename GroupOf<D>::type G; G g; std::vector<Item> all; std::vector<M44d> xs; bool pre = vc_bool("prefiltered"); FieldRes::Vec fs;
  M44d x; if (vc_bool("x")) x = anyXform(); g.setOsToWs(x);
  for (long n = pick(1,3); n > 0; n--) { Item i = GroupOf<D>::any(true,pre); if (!i.f) return; all.push_back(i); g.setup(i.f); }
  if (pre) { g.makeMinMax(pick(0,1) ? 1.0f : 0.25f*(float)pick(1,3)); vc_assert(g.hasPrefiltMinMax(), "min/max representations are made"); }
  const Item &f = all[pick(0,(long)all.size()-1)]; V3d vs; for (int c=0;c<3;c++) vs[c] = f.vb.min[c]+(f.vb.max[c]-f.vb.min[c])*(pick(0,16)/16.0); V3d os = f.toOs(vs), w; x.multVecMatrix(os,w); V3d h(pick(0,8)*0.15,pick(0,8)*0.15,pick(0,8)*0.15); Box3d box(w-h,w+h); bool inf = pick(0,9)==0; if (inf) box.makeInfinite();
  float mn[3] = {1e30f,1e30f,1e30f}, mx[3] = {-1e30f,-1e30f,-1e30f}; g.getMinMax(box,mn,mx); M44d w2o = x.inverse();
  for (int s=0;s<6;s++) { V3d p; for (int c=0;c<3;c++) p[c] = w[c]+h[c]*(s==0 ? 0 : unit()/2); V3d o; w2o.multVecMatrix(p,o); for (auto &i : all) { V3d v; if (i.edge(o) || !i.eval(o,0.f,v)) continue; for (int c=0;c<D;c++) vc_assert(mn[c] <= v[c]+2e-3*(1+std::abs(v[c])) && mx[c] >= v[c]-2e-3*(1+std::abs(v[c])), "the minimum and maximum over a box bound every value sampled inside it"); } }
}
VC_HARNESS(minmax_scalar) { bounds<1>(); }
VC_HARNESS(minmax_vector) { bounds<3>(); }
