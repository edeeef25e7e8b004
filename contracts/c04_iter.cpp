// C04: iterators start at the window's minimum, step x then y then z, visit each voxel once and end.
// Each step contract is inductive: an iterator standing at an arbitrary voxel of an arbitrary sub-window is advanced
// once; it must report the successor voxel, yield the field's element there, and be in the state of an iterator
// constructed at that voxel (so that the step contract applies to every further step).
#include "fields.h"
typedef MACField<V3d> MacD; typedef MACField<V3f> MacF;
// an arbitrary non-empty sub-window of dw
static Box3i subWindow(const Box3i &dw) {
  int x0=(int)vc_int("sx0",dw.min.x,dw.max.x), y0=(int)vc_int("sy0",dw.min.y,dw.max.y), z0=(int)vc_int("sz0",dw.min.z,dw.max.z);
  int x1=(int)vc_int("sx1",x0,dw.max.x), y1=(int)vc_int("sy1",y0,dw.max.y), z1=(int)vc_int("sz1",z0,dw.max.z);
  return Box3i(V3i(x0,y0,z0),V3i(x1,y1,z1));
}
static V3i succ(const V3i &p, const Box3i &w) {
  if (p.x < w.max.x) return V3i(p.x+1,p.y,p.z);
  if (p.y < w.max.y) return V3i(w.min.x,p.y+1,p.z);
  return V3i(w.min.x,w.min.y,p.z+1);
}
static V3i past(const Box3i &w) { return V3i(w.min.x,w.min.y,w.max.z+1); }
template <class It> static bool at(const It &it, const V3i &p) { return it.x==p.x && it.y==p.y && it.z==p.z; }
#define LAST(p,w) ((p).x==(w).max.x && (p).y==(w).max.y && (p).z==(w).max.z)

// --- generic fields (coordinate iterators over value()/lvalue()) ------------------------------------------------
VC_HARNESS(field_step) {
  Box3i dw = NEWBOX(d,1<<20,6); Box3i w = subWindow(dw); V3i p = ANYIN(p,w);
  DenseField<float>::Ptr df(new DenseField<float>); df->setSize(dw); havDense(*df);
  WritableField<float> &wf = *df; const Field<float> &f = *df;
  Field<float>::const_iterator b = f.cbegin(w), e = f.cend(w), b0 = f.cbegin(), e0 = f.cend();
  vc_assert(at(b,w.min) && at(b0,dw.min), "begin is at the window's minimum corner");
  vc_assert(at(e,past(w)) && at(e0,past(dw)), "end is one past the last voxel");
  vc_assert(b != e && !(b == e), "begin of a non-empty window is not the end");
  Field<float>::const_iterator it(f,w,p);
  vc_assert(it != e, "an iterator inside the window is not the end");
  vc_assert(*it == f.value(p.x,p.y,p.z), "the iterator yields the field's value at its coordinates");
  ++it;
  vc_assert(at(it,succ(p,w)), "an iterator steps through x, then y, then z");
  vc_assert((it == e) == LAST(p,w), "the iterator reaches the end exactly after the last voxel");
  WritableField<float>::iterator wi(wf,w,p), wb = wf.begin(w), we = wf.end(w), wb0 = wf.begin(), we0 = wf.end();
  vc_assert(at(wb,w.min) && at(wb0,dw.min) && at(we,past(w)) && at(we0,past(dw)), "writable begin and end");
  float v = Elem<float>::any("v"); *wi = v;
  vc_assert(f.value(p.x,p.y,p.z) == v, "writing through the iterator writes its voxel");
  ++wi;
  vc_assert(at(wi,succ(p,w)) && (wi == we) == LAST(p,w), "a writable iterator steps like a const iterator");
}
// --- dense --------------------------------------------------------------------------------------------------------
template <class T> void dense_step() {
  Box3i dw = NEWBOX(d,1<<20,6); Box3i w = subWindow(dw); V3i p = ANYIN(p,w);
  DenseField<T> f; f.setSize(dw); havDense(f); const DenseField<T> &cf = f;
  typedef typename DenseField<T>::const_iterator CI; typedef typename DenseField<T>::iterator I;
  V3i s = succ(p,w); bool last = LAST(p,w);
  CI b = cf.cbegin(w), e = cf.cend(w), b0 = cf.cbegin(), e0 = cf.cend();
  vc_assert(at(b,w.min) && at(b0,dw.min), "begin is at the window's minimum corner");
  vc_assert(&*b == &f.fastLValue(w.min.x,w.min.y,w.min.z) && &*b0 == &f.fastLValue(dw.min.x,dw.min.y,dw.min.z), "begin yields the first voxel");
  vc_assert(b != e && b0 != e0, "begin of a non-empty window is not the end");
  CI it(cf,w,p);
  vc_assert(&*it == &f.fastLValue(p.x,p.y,p.z), "the iterator yields the voxel at its coordinates");
  vc_assert(it != e, "an iterator inside the window is not the end");
  ++it;
  vc_assert((it == e) == last, "the iterator reaches the end exactly after the last voxel");
  if (!last) { vc_assert(at(it,s), "an iterator steps through x, then y, then z"); vc_assert(&*it == &f.fastLValue(s.x,s.y,s.z), "after a step the iterator yields the next voxel"); }
  I wb = f.begin(w), we = f.end(w), wb0 = f.begin(), we0 = f.end(), wi(f,w,p);
  vc_assert(at(wb,w.min) && at(wb0,dw.min) && wb != we && wb0 != we0, "writable begin");
  vc_assert(&*wi == &f.fastLValue(p.x,p.y,p.z), "the writable iterator yields the voxel at its coordinates");
  ++wi;
  vc_assert((wi == we) == last, "the writable iterator reaches the end exactly after the last voxel");
  if (!last) { vc_assert(at(wi,s), "a writable iterator steps through x, then y, then z"); vc_assert(&*wi == &f.fastLValue(s.x,s.y,s.z), "after a step the writable iterator yields the next voxel"); }
}
VC_HARNESS(dense_step_f) { dense_step<float>(); }
VC_HARNESS(dense_step_v3d) { dense_step<V3d>(); }
// --- sparse -------------------------------------------------------------------------------------------------------
template <class A> static bool sameState(const A &a, const A &b) {
  return a.m_blockId==b.m_blockId && a.m_isEmptyBlock==b.m_isEmptyBlock && a.m_blockStepsTicker==b.m_blockStepsTicker && a.m_p==b.m_p;
}
// the block id of a voxel of the data window is inside the block table
template <class T> static void idInTable(const SparseField<T> &f, const V3i &p) {
  int i=p.x, j=p.y, k=p.z, bi,bj,bk; f.applyDataWindowOffset(i,j,k); f.getBlockCoord(i,j,k,bi,bj,bk);
  int id = f.blockId(bi,bj,bk); V3i r = f.blockRes();
  vc_hint(0 <= bi && bi < r.x && 0 <= bj && bj < r.y && 0 <= bk && bk < r.z);
  vc_hint(id >= 0 && id < r.x*r.y*r.z);
}
template <class T> void sparse_step() {
  int order = (int)vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order,8); Box3i w = subWindow(dw); V3i p = ANYIN(p,w);
  SparseField<T> f; f.setBlockOrder(order); f.setSize(dw); havSparse(f); const SparseField<T> &cf = f;
  typedef typename SparseField<T>::const_iterator CI;
  V3i s = succ(p,w); bool last = LAST(p,w);
  CI b = cf.cbegin(w), e = cf.cend(w), b0 = cf.cbegin(), e0 = cf.cend();
  vc_assert(at(b,w.min) && at(b0,dw.min), "begin is at the window's minimum corner");
  vc_assert(at(e,past(w)) && at(e0,past(dw)), "end is one past the last voxel");
  idInTable(cf,p); if (!last) idInTable(cf,s);
  CI it(cf,w,p,order);
  vc_assert(*it == cf.fastValue(p.x,p.y,p.z), "the iterator yields the field's value at its coordinates");
  vc_assert(it != e, "an iterator inside the window is not the end");
  ++it;
  vc_assert(at(it,s), "an iterator steps through x, then y, then z");
  vc_assert((it == e) == last, "the iterator reaches the end exactly after the last voxel");
  if (!last) {
    vc_assert(*it == cf.fastValue(s.x,s.y,s.z), "after a step the iterator yields the next voxel's value");
    if (vc_symbolic()) vc_assert(sameState(it,CI(cf,w,s,order)), "a stepped iterator is in the state of a new one at the same voxel");
  }
}
VC_HARNESS(sparse_step_f) { sparse_step<float>(); }
template <class T> void sparse_write_step() {
  int order = (int)vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order,8); Box3i w = subWindow(dw); V3i p = ANYIN(p,w), q = ANYIN(q,dw);
  SparseField<T> f; f.setBlockOrder(order); f.setSize(dw); havSparse(f);
  typedef typename SparseField<T>::iterator I;
  V3i s = succ(p,w); bool last = LAST(p,w);
  T v = Elem<T>::any("v"), v2 = Elem<T>::any("v2"), olds = last ? v : f.fastValue(s.x,s.y,s.z), oldq = f.fastValue(q.x,q.y,q.z);
  I it(f,w,p,order), b = f.begin(w), e = f.end(w);
  vc_assert(at(b,w.min) && at(e,past(w)), "writable begin and end");
  *it = v;
  vc_assert(f.fastValue(p.x,p.y,p.z) == v, "writing through the iterator writes its voxel");
  if (!same3(q,p)) vc_assert(f.fastValue(q.x,q.y,q.z) == oldq, "writing through the iterator changes no other voxel");
  ++it;
  vc_assert(at(it,s), "a writable iterator steps through x, then y, then z");
  vc_assert((it == e) == last && (it != e) == !last, "the writable iterator reaches the end exactly after the last voxel");
  if (!last) {
    vc_assert(*it == olds, "after a step the writable iterator yields the next voxel");
    *it = v2; vc_assert(f.fastValue(s.x,s.y,s.z) == v2, "after a step the writable iterator writes the next voxel");
    if (vc_symbolic()) vc_assert(sameState(it,I(f,w,s,order)), "a stepped writable iterator is in the state of a new one at the same voxel");
  }
}
VC_HARNESS(sparse_write_step_f) { sparse_write_step<float>(); }
// stepping without dereferencing (over unallocated blocks)
VC_HARNESS(sparse_skip_step) {
  int order = (int)vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order,8); Box3i w = subWindow(dw); V3i p = ANYIN(p,w);
  SparseField<float> f; f.setBlockOrder(order); f.setSize(dw); havSparse(f);
  typedef SparseField<float>::iterator I;
  V3i s = succ(p,w); bool last = LAST(p,w), alloc = f.voxelIsInAllocatedBlock(p.x,p.y,p.z);
  idInTable(f,p); if (!last) idInTable(f,s);
  I it(f,w,p,order); ++it;
  vc_assert(at(it,s), "a writable iterator steps through x, then y, then z");
  vc_assert(alloc == f.voxelIsInAllocatedBlock(p.x,p.y,p.z), "stepping allocates nothing");
  if (!last && vc_symbolic()) vc_assert(sameState(it,I(f,w,s,order)), "a stepped writable iterator is in the state of a new one at the same voxel");
  if (!last) vc_assert(*it == f.fastValue(s.x,s.y,s.z), "after a step the writable iterator yields the next voxel");
}
// block iterators
VC_HARNESS(block_step) {
  int order = (int)vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order,12);
  SparseField<float> f; f.setBlockOrder(order); f.setSize(dw);
  typedef SparseField<float>::block_iterator BI;
  V3i r = f.blockRes(); Box3i bw(V3i(0),r-V3i(1)); V3i p = ANYIN(p,bw); V3i q = ANYIN(q,dw);
  BI b = f.blockBegin(), e = f.blockEnd(), it(f,bw,p);
  vc_assert(at(b,V3i(0)) && at(e,past(bw)), "block begin and end");
  vc_assert(it != e, "a block iterator inside the window is not the end");
  Box3i box = it.blockBoundingBox();
  V3i o = q - dw.min; int S = 1<<order;
  bool in = box.min.x<=q.x && q.x<=box.max.x && box.min.y<=q.y && q.y<=box.max.y && box.min.z<=q.z && q.z<=box.max.z;
  bool of = (o.x>>order)==p.x && (o.y>>order)==p.y && (o.z>>order)==p.z;
  vc_assert(in == of, "a block's box holds exactly the voxels of the data window stored in that block");
  vc_assert(dw.min.x<=box.min.x && box.max.x<=dw.max.x && dw.min.y<=box.min.y && box.max.y<=dw.max.y && dw.min.z<=box.min.z && box.max.z<=dw.max.z, "block boxes lie inside the data window");
  V3i s = succ(p,bw); ++it;
  vc_assert(at(it,s), "a block iterator steps through x, then y, then z");
  vc_assert((it == e) == LAST(p,bw), "the block iterator reaches the end exactly after the last block");
  if (!LAST(p,bw)) { Box3i bn = BI(f,bw,s).blockBoundingBox(); vc_assert(it.blockBoundingBox() == bn, "after a step the box is the next block's"); }
}
// --- MAC components ------------------------------------------------------------------------------------------------
template <class T> static typename T::BaseType *facePtr(MACField<T> &m, int c, const V3i &p) { return c==0 ? &m.u(p.x,p.y,p.z) : c==1 ? &m.v(p.x,p.y,p.z) : &m.w(p.x,p.y,p.z); }
template <class T> void mac_step(int c) {
  Box3i dw = NEWBOX(d,1<<20,5); Box3i w0 = subWindow(dw), w = w0, dc = dw;
  if (c==0) { w.max.x++; dc.max.x++; } if (c==1) { w.max.y++; dc.max.y++; } if (c==2) { w.max.z++; dc.max.z++; }
  V3i p = ANYIN(p,w);
  MACField<T> m; m.setSize(dw); const MACField<T> &cm = m; MACComponent comp = c==0 ? MACCompU : c==1 ? MACCompV : MACCompW;
  typedef typename MACField<T>::const_mac_comp_iterator CI; typedef typename MACField<T>::mac_comp_iterator I;
  V3i s = succ(p,w); bool last = LAST(p,w);
  CI b = cm.cbegin_comp(comp,w0), e = cm.cend_comp(comp,w0), b0 = cm.cbegin_comp(comp), e0 = cm.cend_comp(comp), it(comp,cm,w,p);
  vc_assert(at(b,w.min) && at(b0,dw.min) && b != e && b0 != e0, "begin is at the window's minimum corner");
  vc_assert(&*b == facePtr(m,c,w.min) && &*b0 == facePtr(m,c,dw.min), "begin yields the first face");
  vc_assert(&*it == facePtr(m,c,p) && it != e, "the iterator yields the face at its coordinates");
  ++it;
  vc_assert((it == e) == last, "the iterator reaches the end exactly after the last face");
  if (!last) { vc_assert(at(it,s), "an iterator steps through x, then y, then z"); vc_assert(&*it == facePtr(m,c,s), "after a step the iterator yields the next face"); }
  I wb = m.begin_comp(comp,w0), we = m.end_comp(comp,w0), wb0 = m.begin_comp(comp), we0 = m.end_comp(comp), wi(comp,m,w,p);
  vc_assert(at(wb,w.min) && at(wb0,dw.min) && wb != we && wb0 != we0, "writable begin");
  vc_assert(&*wb == facePtr(m,c,w.min) && &*wb0 == facePtr(m,c,dw.min), "writable begin yields the first face");
  vc_assert(&*wi == facePtr(m,c,p), "the writable iterator yields the face at its coordinates");
  ++wi;
  vc_assert((wi == we) == last, "the writable iterator reaches the end exactly after the last face");
  if (!last) { vc_assert(at(wi,s), "a writable iterator steps through x, then y, then z"); vc_assert(&*wi == facePtr(m,c,s), "after a step the writable iterator yields the next face"); }
}
VC_HARNESS(mac_step_f) { mac_step<V3f>((int)vc_case("c",0,2)); }
VC_HARNESS(mac_step_d) { mac_step<V3d>((int)vc_case("c",0,2)); }
// --- whole walks (executable only) ----------------------------------------------------------------------------------
#include <vector>
template <class It> static void walk(It b, It e, const Box3i &w, const char *msg, bool countOnly=false) {
  V3i n = w.size()+V3i(1); long total = (long)n.x*n.y*n.z, cnt = 0; V3i p = w.min;
  for (It i = b; i != e; ++i) { vc_assert(cnt < total, msg); vc_assert(at(i,p), msg); p = succ(p,w); ++cnt; if (cnt > total) break; }
  vc_assert(cnt == total, msg);
}
VC_HARNESS(walks) {
  int order = (int)vc_casen("order",0,3,0,3);
  Box3i dw = NEWBOX(d,6,6); Box3i w = subWindow(dw);
  DenseField<float> d; d.setSize(dw); havDense(d);
  SparseField<float> s; s.setBlockOrder(order); s.setSize(dw); havSparse(s);
  MACField<V3f> m; m.setSize(dw); m.clear(V3f(0));
  const DenseField<float> &cd = d; const SparseField<float> &cs = s; const Field<float> &gf = s;
  walk(cd.cbegin(w),cd.cend(w),w,"dense const walk visits each voxel once"); walk(cd.cbegin(),cd.cend(),dw,"dense const walk visits each voxel once");
  walk(d.begin(w),d.end(w),w,"dense walk visits each voxel once"); walk(d.begin(),d.end(),dw,"dense walk visits each voxel once");
  walk(gf.cbegin(w),gf.cend(w),w,"generic walk visits each voxel once"); walk(gf.cbegin(),gf.cend(),dw,"generic walk visits each voxel once");
  walk(cs.cbegin(w),cs.cend(w),w,"sparse const walk visits each voxel once"); walk(cs.cbegin(),cs.cend(),dw,"sparse const walk visits each voxel once");
  walk(s.begin(w),s.end(w),w,"sparse walk visits each voxel once"); walk(s.begin(),s.end(),dw,"sparse walk visits each voxel once");
  for (SparseField<float>::const_iterator i=cs.cbegin(w), e=cs.cend(w); i!=e; ++i) vc_assert(*i == cs.value(i.x,i.y,i.z), "sparse const walk yields the field's values");
  for (Field<float>::const_iterator i=gf.cbegin(), e=gf.cend(); i!=e; ++i) vc_assert(*i == gf.value(i.x,i.y,i.z), "generic walk yields the field's values");
  long n = 0;
  for (SparseField<float>::iterator i=s.begin(w), e=s.end(w); i!=e; ++i) { bool skip = (n*7+3)%5==0; if (!skip) { float old = cs.value(i.x,i.y,i.z); vc_assert(*i == old, "sparse walk yields the field's values"); *i = (float)n; vc_assert(cs.value(i.x,i.y,i.z) == (float)n, "sparse walk writes its voxel"); } ++n; }
  for (int c=0;c<3;++c) { MACComponent k = c==0?MACCompU:c==1?MACCompV:MACCompW; Box3i b=w, b0=dw; b.max[c]++; b0.max[c]++;
    const MACField<V3f> &cm = m;
    walk(cm.cbegin_comp(k,w),cm.cend_comp(k,w),b,"MAC component const walk visits each face once"); walk(m.begin_comp(k),m.end_comp(k),b0,"MAC component walk visits each face once"); }
  std::vector<int> cover; V3i nn = dw.size()+V3i(1); cover.resize((size_t)nn.x*nn.y*nn.z);
  for (SparseField<float>::block_iterator i=s.blockBegin(), e=s.blockEnd(); i!=e; ++i) { Box3i b = i.blockBoundingBox();
    for (int z=b.min.z;z<=b.max.z;++z) for (int y=b.min.y;y<=b.max.y;++y) for (int x=b.min.x;x<=b.max.x;++x) { vc_assert(dw.intersects(V3i(x,y,z)), "block boxes lie inside the data window"); V3i o=V3i(x,y,z)-dw.min; cover[o.x+nn.x*(o.y+nn.y*o.z)]++; } }
  for (size_t i=0;i<cover.size();++i) vc_assert(cover[i]==1, "block boxes tile the data window");
}
VC_HARNESS(empty_fields) {
  DenseField<float> d; SparseField<float> s; MACField<V3f> m; const DenseField<float> &cd=d; const SparseField<float> &cs=s; const MACField<V3f> &cm=m; const Field<float> &gf=d;
  vc_assert(!(cd.cbegin() != cd.cend()), "an empty dense field has nothing to visit"); vc_assert(!(d.begin() != d.end()), "an empty dense field has nothing to visit");
  vc_assert(!(cs.cbegin() != cs.cend()), "an empty sparse field has nothing to visit"); vc_assert(!(s.begin() != s.end()), "an empty sparse field has nothing to visit");
  vc_assert(!(gf.cbegin() != gf.cend()), "an empty field has nothing to visit");
  for (int c=0;c<3;++c) { MACComponent k = c==0?MACCompU:c==1?MACCompV:MACCompW; vc_assert(!(cm.cbegin_comp(k) != cm.cend_comp(k)), "an empty MAC field has nothing to visit"); }
}
