// C18: a sparse field whose blocks are loaded on demand reads as the same field loaded completely, blocks in use stay,
// and the cache's accounting is what is resident.
#include "filefields.h"
typedef SparseFileManager M;
static M &mgr() { return M::singleton(); }
template <class T> static bool resident(int ref, int blk) { SparseFile::Reference<T> *r = mgr().m_fileData.ref<T>(ref); return r->blockLoaded[blk] && r->blocks[blk].isAllocated && r->blocks[blk].data; }
template <class T> static int refCount(int ref, int blk) { return mgr().m_fileData.ref<T>(ref)->refCounts[blk]; }
template <class T> static int bytes(int ref) { return mgr().m_fileData.ref<T>(ref)->blockSize(0); }
template <class R> static R byType(DataTypeEnum t, R (*h)(int,int), R (*f)(int,int), R (*d)(int,int), R (*vh)(int,int), R (*vf)(int,int), R (*vd)(int,int), int a, int b) { switch (t) { case DataTypeHalf: return h(a,b); case DataTypeFloat: return f(a,b); case DataTypeDouble: return d(a,b); case DataTypeVecHalf: return vh(a,b); case DataTypeVecFloat: return vf(a,b); default: return vd(a,b); } }
#define BYTYPE(F,t,a,b) byType(t,F<half>,F<float>,F<double>,F<V3h>,F<V3f>,F<V3d>,a,b)
template <class T> static int bytes2(int ref, int) { return bytes<T>(ref); }
struct Fld { virtual ~Fld() {} virtual void read() = 0; virtual void start() = 0; virtual void step() = 0; virtual void stop() = 0; virtual bool held() const = 0; virtual Fld *copy() = 0; virtual void assign() = 0; virtual void counts() = 0; virtual void full() = 0; virtual void cleared() = 0; };
static long loadsBefore;
static void accounting(bool limitHolds) {
  M &m = mgr(); int64_t sum = 0; std::set<std::vector<int> > seen; long n = 0; bool allHeld = true; 
  for (auto &b : m.m_blockCacheList) { sum += BYTYPE(bytes2,b.blockType,b.refIdx,b.blockIdx); n++; vc_assert(BYTYPE(resident,b.blockType,b.refIdx,b.blockIdx), "a block listed in the cache is resident"); vc_assert(seen.insert(std::vector<int>{(int)b.blockType,b.refIdx,b.blockIdx}).second, "no block is listed twice"); if (n < (long)m.m_blockCacheList.size() && BYTYPE(refCount,b.blockType,b.refIdx,b.blockIdx) <= 0) allHeld = false; }
  vc_assert(sum == m.m_memUse, "the accounted memory is the memory of the resident blocks"); vc_assert(m.numLoadedBlocks() == n, "the number of loaded blocks is the number of resident blocks");
}
// after a load the memory in use is within the limit or every other resident block was in use
static void limitHeld(const std::set<std::vector<int> > &free0, int64_t limit) {
  M &m = mgr(); if (!m.doLimitMemUse() || m.m_memUse <= limit) return; long left = 0; for (auto &b : m.m_blockCacheList) if (free0.count(std::vector<int>{(int)b.blockType,b.refIdx,b.blockIdx})) left++;
  vc_assert(left == 0, "loading a block evicts unused blocks until the limit holds"); }
static std::set<std::vector<int> > unusedBlocks() { std::set<std::vector<int> > s; for (auto &b : mgr().m_blockCacheList) if (BYTYPE(refCount,b.blockType,b.refIdx,b.blockIdx) <= 0) s.insert(std::vector<int>{(int)b.blockType,b.refIdx,b.blockIdx}); return s; }
template <class T> struct Impl : Fld {
  typedef SparseField<T> S; typename S::Ptr f, o; std::vector<typename S::const_iterator> it; // at most one live iterator chain
  Impl(typename S::Ptr a, typename S::Ptr b) : f(a), o(b) {}
  V3i any() { Box3i d = o->dataWindow(); return V3i((int)pick(d.min.x,d.max.x),(int)pick(d.min.y,d.max.y),(int)pick(d.min.z,d.max.z)); }
  void read() { V3i p = any(); bool fast = vc_bool("fast"); std::set<std::vector<int> > u = unusedBlocks(); int64_t lim = mgr().m_maxMemUseInBytes; long l0 = mgr().totalLoads(); T v = fast ? f->fastValue(p.x,p.y,p.z) : f->value(p.x,p.y,p.z); vc_assert(v == o->fastValue(p.x,p.y,p.z), "a demand-loaded voxel has the value of the fully loaded field"); if (mgr().totalLoads() > l0) limitHeld(u,lim); }
  void full() { bool eq = true; for (auto i = f->cbegin(), e = f->cend(); i != e; ++i) { T v = *i; if (!(v == o->fastValue(i.x,i.y,i.z))) eq = false; } vc_assert(eq, "iterating over a demand-loaded field gives the values of the fully loaded field");
    V3i r = o->blockRes(); for (int k=0;k<r.z;k++) for (int j=0;j<r.y;j++) for (int i=0;i<r.x;i++) { vc_assert(f->blockIsAllocated(i,j,k)==o->blockIsAllocated(i,j,k), "block allocation is that of the fully loaded field"); if (!o->blockIsAllocated(i,j,k)) vc_assert(f->getBlockEmptyValue(i,j,k)==o->getBlockEmptyValue(i,j,k), "empty block values are those of the fully loaded field"); } }
  void start() { stop(); it.clear(); it.reserve(1); if (vc_bool("sub")) { Box3i d = o->dataWindow(); V3i p = any(); d.min = p; it.emplace_back(f->cbegin(d)); } else it.emplace_back(f->cbegin()); if (vc_bool("dup")) { typename S::const_iterator c(it[0]); vc_assert(*c == o->fastValue(c.x,c.y,c.z), "a copied iterator reads the same voxel"); } }
  void step() { if (it.empty()) return; for (long n = pick(1,40); n > 0; n--) { auto &i = it[0]; if (!(i != f->cend())) { stop(); return; } Box3i d = o->dataWindow(); if (i.z > d.max.z) { stop(); return; } if (vc_bool("deref")) { vc_assert(*i == o->fastValue(i.x,i.y,i.z), "a held iterator reads its voxel"); check(); } ++i; if (i.z > d.max.z) { stop(); return; } } }
  // the block whose voxel an iterator hands out stays resident
  void check() { if (it.empty() || !f->m_fileManager) return; auto &i = it[0]; if (!i.m_isEmptyBlock && i.m_blockIsActivated) { vc_assert(resident<T>(f->m_fileId,i.m_blockId), "a block in use is never evicted"); vc_assert(*i == o->fastValue(i.x,i.y,i.z), "a reference into a block in use stays good"); } }
  void stop() { it.clear(); } bool held() const { return !it.empty(); }
  Fld *copy() { typename S::Ptr c(new S(*f)); return new Impl<T>(c,o); }
  void assign() { stop(); typename S::Ptr c(new S); c->setSize(V3i(3)); if (vc_bool("managed")) { *c = *f; V3i p = any(); c->fastValue(p.x,p.y,p.z); *c = *f; } else { *c = *f; } f = c; }
  void cleared() { stop(); typename S::Ptr n(new S(*o)); n->clear(T(3)); f->clear(T(3)); o = n; }
  void counts() { check(); if (!f->m_fileManager) return; SparseFile::Reference<T> *r = mgr().m_fileData.template ref<T>(f->m_fileId); int sum = 0; for (size_t b=0;b<r->refCounts.size();b++) { vc_assert(r->refCounts[b] >= 0, "reference counts never go below zero"); sum += r->refCounts[b]; } if (!held()) vc_assert(sum == 0, "no block stays in use when nothing uses it"); }
};
template <class T> static typename SparseField<T>::Ptr bigSparse() { typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder((int)pick(1,3)); anySize(*f,20); f->clear(Any<T>::get()); long n = pick(0,3); if (n == 3) { int v = 0; for (auto i = f->begin(); i != f->end(); ++i) *i = T((float)(v++ % 977)); } else { Box3i d = f->dataWindow(); for (long m = n*10; m > 0; m--) f->fastLValue((int)pick(d.min.x,d.max.x),(int)pick(d.min.y,d.max.y),(int)pick(d.min.z,d.max.z)) = T((float)m); } return f; }
static std::vector<Fld*> flds;
template <class T> static typename SparseField<T>::Ptr wr(Field3DOutputFile &o, const char *layer, bool hdf5) { typename SparseField<T>::Ptr f = bigSparse<T>(); bool ok = hdf5 ? o.writeLayer<T>("p",layer,f) : o.writeLayer<T>("p",layer,f); vc_assert(ok,"the field is written"); return f; }
template <class T> static void rd(Field3DInputFile &in, const char *layer, typename SparseField<T>::Ptr o) { typename Field<T>::Vec v = in.readLayers<T>("p",layer); vc_assert(v.size()==1, "the field is read"); if (v.size()!=1) return; typename SparseField<T>::Ptr s = field_dynamic_cast<SparseField<T> >(v[0]); vc_assert(s && s->isDynamicLoad() && s->dataWindow()==o->dataWindow() && s->extents()==o->extents(), "a demand-loaded field has the written field's shape"); if (s) flds.push_back(new Impl<T>(s,o)); }
static void run(bool hdf5, int nops) {
  Quiet q; M::ms_singleton.reset(new M); std::string file = scratchFile(hdf5 ? 3 : 0); unlink(file.c_str());
  M &m = mgr(); m.setLimitMemUse(true); 
  if (!hdf5) { long kind = pick(0,2); Field3DOutputFile::useOgawa(true);
    SparseField<half>::Ptr h; SparseField<float>::Ptr f; SparseField<double>::Ptr d; SparseField<V3h>::Ptr vh; SparseField<V3f>::Ptr vf; SparseField<V3d>::Ptr vd;
    { Field3DOutputFile o; vc_assert(o.create(file),"created"); f = wr<float>(o,"f",false); if (kind == 1) { h = wr<half>(o,"h",false); vd = wr<V3d>(o,"vd",false); } if (kind == 2) { vh = wr<V3h>(o,"vh",false); vf = wr<V3f>(o,"vf",false); d = wr<double>(o,"d",false); } o.close(); }
    Field3DInputFile in; vc_assert(in.open(file),"opened"); rd<float>(in,"f",f); if (h) rd<half>(in,"h",h); if (vd) rd<V3d>(in,"vd",vd); if (vh) rd<V3h>(in,"vh",vh); if (vf) rd<V3f>(in,"vf",vf); if (d) rd<double>(in,"d",d);
  } else { Field3DOutputFile::useOgawa(false); SparseField<float>::Ptr f = bigSparse<float>(); SparseField<V3f>::Ptr g = bigSparse<V3f>(); { Field3DOutputFile o; vc_assert(o.create(file),"created"); vc_assert(o.writeScalarLayer<float>("p","f",f) && o.writeVectorLayer<float>("p","v",g),"the field is written"); o.close(); } Field3DOutputFile::useOgawa(true);
    Field3DInputFile in; vc_assert(in.open(file),"opened"); Field<float>::Vec v = in.readScalarLayers<float>("p","f"); Field<V3f>::Vec w = in.readVectorLayers<float>("p","v"); vc_assert(v.size()==1 && w.size()==1,"the field is read"); if (v.size()==1) flds.push_back(new Impl<float>(field_dynamic_cast<SparseField<float> >(v[0]),f)); if (w.size()==1) flds.push_back(new Impl<V3f>(field_dynamic_cast<SparseField<V3f> >(w[0]),g)); }
  for (long n = pick(5,nops); n > 0 && !flds.empty(); n--) { int64_t unit = 0; 
    Fld *x = flds[pick(0,(long)flds.size()-1)];
    switch (pick(0,16)) { case 0: { static const int L[] = {0,100,600,2000,5000,20000,1000000}; m.setMaxMemUse(L[pick(0,6)]/1048576.0f); break; }
      case 1: { bool any = false; for (auto f : flds) any |= f->held(); if (!any) m.flushCache(); break; } case 2: m.resetCacheStatistics(); break; case 3: if (flds.size() < 6) flds.push_back(x->copy()); break; case 4: x->assign(); break;
      case 5: if (flds.size() > 1) { long k = pick(0,(long)flds.size()-1); flds[k]->stop(); delete flds[k]; flds.erase(flds.begin()+k); } break; case 6: case 7: x->start(); break; case 8: case 9: case 10: x->step(); break; case 11: x->full(); break; case 12: x->stop(); break; default: x->read(); }
    for (auto f : flds) f->counts(); accounting(true); (void)unit; }
  for (auto f : flds) { f->stop(); f->full(); } accounting(true); for (auto f : flds) { f->stop(); delete f; } flds.clear(); vc_assert(m.m_memUse == 0 && m.m_blockCacheList.empty(), "nothing stays accounted once every field is gone");
}
VC_HARNESS(cache_ogawa) { run(false,40); }
VC_HARNESS(cache_hdf5) { run(true,25); }
