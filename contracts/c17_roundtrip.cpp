// C17: what is written to a field file is what is read back, under the names used for writing.
#include "filefields.h"
struct Rec { std::string part, layer; int type; FieldRes::Ptr f; };
template <class T> struct TypeId; 
#define TID(T,n) template <> struct TypeId<T> { enum { id = n }; };
TID(half,0) TID(float,1) TID(double,2) TID(V3h,3) TID(V3f,4) TID(V3d,5)
// level 0 of a field that was read has a mapping recomputed in single precision
static bool nearMapping(FieldMapping::Ptr a, FieldMapping::Ptr b) { if (!a || !b || a->className()!=b->className()) return false; for (int c=0;c<4;c++) { V3d l(c==1,c==2,c==3), p, q; a->localToWorld(l,p); b->localToWorld(l,q); if ((p-q).length() > 1e-4*(1+p.length())) return false; } return true; }
template <class F> static bool sameMip(const FieldRes *a, const FieldRes *b) { const F *x = dynamic_cast<const F*>(a), *y = dynamic_cast<const F*>(b); if (!x) return false; if (!y || x->numLevels()!=y->numLevels() || x->mipOffset()!=y->mipOffset()) return false;
  for (size_t l=0;l<x->numLevels();l++) { if (x->mipResolution(l)!=y->mipResolution(l)) return false; if (!sameVoxels(*x->rawMipLevel(l),*y->rawMipLevel(l)) || !(l ? sameMapping(x->concreteMipLevel(l)->mapping(),y->concreteMipLevel(l)->mapping()) : nearMapping(x->concreteMipLevel(l)->mapping(),y->concreteMipLevel(l)->mapping()))) return false; } return true; }
template <class T> static bool sameField(const FieldRes *a, const FieldRes *b) {
  const Field<T> *x = dynamic_cast<const Field<T>*>(a), *y = dynamic_cast<const Field<T>*>(b); if (!x || !y || x->className()!=y->className() || x->extents()!=y->extents() || x->dataWindow()!=y->dataWindow()) return false;
  if (const SparseField<T> *s = dynamic_cast<const SparseField<T>*>(a)) { const SparseField<T> *t = dynamic_cast<const SparseField<T>*>(b); if (!t || !sameBlocks(*s,*t)) return false; }
  if (x->className() == "MIPField") return (sameMip<MIPField<DenseField<T> > >(a,b) || sameMip<MIPField<SparseField<T> > >(a,b));
  return sameVoxels(*x,*y); }
template <class T> static bool sameFace(const MACField<T> &a, const MACField<T> &b) { if (a.extents()!=b.extents() || a.dataWindow()!=b.dataWindow()) return false; for (int c=0;c<3;c++) { auto i = a.cbegin_comp((MACComponent)c), j = b.cbegin_comp((MACComponent)c); auto e = a.cend_comp((MACComponent)c); for (; i != e; ++i, ++j) if (*i != *j) return false; } return true; }
template <class T> static bool same(const Rec &r, const FieldRes *b) { 
  if (getenv("VCDBG")) fprintf(stderr,"same? field %d names %d,%d mapping %d class %s/%s ext\n",sameField<T>(r.f.get(),b),b->name==r.part,b->attribute==r.layer,sameMapping(const_cast<FieldRes*>(r.f.get())->mapping(),const_cast<FieldRes*>(b)->mapping()),r.f->mapping()->className().c_str(),const_cast<FieldRes*>(b)->mapping()?const_cast<FieldRes*>(b)->mapping()->className().c_str():"null");
  return sameField<T>(r.f.get(),b) && b->name==r.part && b->attribute==r.layer && sameMapping(const_cast<FieldRes*>(r.f.get())->mapping(),const_cast<FieldRes*>(b)->mapping()); }
template <class T> static bool metaOk(const Rec &r, const FieldRes *b) { FieldMetadata m(0); m = b->metadata(); if (getenv("VCDBG")) { fprintf(stderr,"meta %d\n",sameMeta(r.f->metadata(),m)); for (int k=0;k<2;k++) { const FieldMetadata &x = k?m:r.f->metadata(); for (auto &i:x.strMetadata()) fprintf(stderr," s %s=%s",i.first.c_str(),i.second.c_str()); for (auto &i:x.intMetadata()) fprintf(stderr," i %s=%d",i.first.c_str(),i.second);for (auto &i:x.floatMetadata()) fprintf(stderr," f %s=%g",i.first.c_str(),i.second);for (auto &i:x.vecIntMetadata()) fprintf(stderr," vi %s",i.first.c_str());for (auto &i:x.vecFloatMetadata()) fprintf(stderr," vf %s",i.first.c_str());fprintf(stderr,"\n");} } return sameMeta(r.f->metadata(),m); }
template <class T> static bool match_all(const std::vector<Rec> &want, const typename Field<T>::Vec &got) {
  if (want.size() != got.size()) return false; std::vector<bool> used(got.size(),false);
  for (auto &r : want) { bool ok = false; for (size_t i=0;i<got.size() && !ok;i++) if (!used[i] && same<T>(r,got[i].get()) && metaOk<T>(r,got[i].get())) { used[i] = true; ok = true; } if (!ok) return false; } return true; }
static std::vector<Rec> recs; static const char *PN[] = {"p","q","p.r","a b"}, *LN[] = {"density","v","d"};
template <class T> static FieldRes::Ptr anyField(long max) { FieldRes::Ptr f; long k = pick(0,4);
  if (k <= 1) f = anyDense<T>(max); else if (k <= 3) f = anySparse<T>(max); 
  return f; }
template <class T> static FieldRes::Ptr anyMip() {
  if (pick(0,1)) { typename DenseField<T>::Ptr b = anyDense<T>(9); if (b->extents() != b->dataWindow()) b->setSize(b->extents()), b->clear(Any<T>::get()); typename MIPField<DenseField<T> >::Ptr m(new MIPDenseField<T>); std::vector<typename DenseField<T>::Ptr> v(1,b); for (long n = pick(0,2); n > 0; n--) { V3i s = v.back()->extents().size(); if (s == V3i(0)) break; Box3i e(V3i(0),s/2); typename DenseField<T>::Ptr l(new DenseField<T>); l->setSize(e); for (auto i = l->begin(); i != l->end(); ++i) *i = Any<T>::get(); v.push_back(l); } m->setup(v); return m; }
  typename SparseField<T>::Ptr b = anySparse<T>(9); if (b->extents() != b->dataWindow()) b->setSize(b->extents()), fillSparse(*b); typename MIPField<SparseField<T> >::Ptr m(new MIPSparseField<T>); std::vector<typename SparseField<T>::Ptr> v(1,b); for (long n = pick(0,2); n > 0; n--) { V3i s = v.back()->extents().size(); if (s == V3i(0)) break; Box3i e(V3i(0),s/2); typename SparseField<T>::Ptr l(new SparseField<T>); l->setBlockOrder(b->blockOrder()); l->setSize(e); fillSparse(*l); v.push_back(l); } m->setup(v); return m; }
template <class T> static void put(Field3DOutputFile &o, bool mip) {
  Rec r; r.part = PN[pick(0,3)]; r.layer = LN[pick(0,2)]; r.type = TypeId<T>::id; r.f = mip ? anyMip<T>() : anyField<T>(12); if (!r.f) r.f = anyDense<T>(0);
  r.f->setMapping(anyMapping(pick(0,8))); anyMeta(r.f->metadata()); typename Field<T>::Ptr f = field_dynamic_cast<Field<T> >(r.f); bool ok;
  r.f->name = r.part; r.f->attribute = r.layer;
  if (pick(0,1)) ok = o.writeLayer<T>(f); else { if (pick(0,1)) { r.f->name = "other"; r.f->attribute = "x"; } ok = o.writeLayer<T>(r.part,r.layer,f); }
  vc_assert(ok, "a layer with a mapping is written"); recs.push_back(r); }
static void putAny(Field3DOutputFile &o, bool mip) { switch (pick(0,5)) { case 0: put<half>(o,mip); break; case 1: put<float>(o,mip); break; case 2: put<double>(o,mip); break; case 3: put<V3h>(o,mip); break; case 4: put<V3f>(o,mip); break; case 5: put<V3d>(o,mip); } }
template <class T> static void get(Field3DInputFile &in) {
  std::vector<Rec> all; for (auto &r : recs) if (r.type == TypeId<T>::id) all.push_back(r);
  vc_assert(match_all<T>(all,in.readLayers<T>()), "reading every layer of a type returns exactly the fields of that type that were written");
  std::vector<Rec> w; std::string l = LN[pick(0,2)], p = PN[pick(0,3)];
  for (auto &r : all) if (r.layer==l) w.push_back(r); vc_assert(match_all<T>(w,in.readLayers<T>(l)), "reading by layer name returns exactly the layers of that name");
  w.clear(); for (auto &r : all) if (r.layer==l && r.part==p) w.push_back(r); vc_assert(match_all<T>(w,in.readLayers<T>(p,l)), "reading by partition and layer name returns exactly those fields");
  vc_assert(in.readLayers<T>("nope").empty() && in.readLayers<T>(p,"nope").empty() && in.readLayers<T>("nope",l).empty(), "a layer not in the file is never returned"); }
static void proxies(Field3DInputFile &in) {
  std::string l = LN[pick(0,2)], p = PN[pick(0,3)]; std::vector<Rec> w; for (auto &r : recs) if (r.layer==l && r.part==p) w.push_back(r);
  EmptyField<float>::Vec v = in.readProxyLayer<float>(p,l,false); vc_assert(v.size()==w.size(), "one proxy per layer written under the name"); std::vector<bool> used(w.size(),false);
  for (auto &e : v) { bool ok = false; for (size_t i=0;i<w.size();i++) if (!used[i] && e->extents()==w[i].f->extents() && e->dataWindow()==w[i].f->dataWindow() && sameMapping(e->mapping(),w[i].f->mapping()) && e->name==p && e->attribute==l) { used[i]=true; ok=true; break; } vc_assert(ok,"a proxy has the written field's extents, data window, mapping and names"); } }
static void names(const Field3DFileBase &in) {
  std::vector<std::string> n; in.getPartitionNames(n); std::set<std::string> want, got(n.begin(),n.end()); for (auto &r : recs) want.insert(r.part); vc_assert(want==got && got.size()==n.size(), "the partition names are those written");
  for (auto &q : want) { std::set<std::string> l; for (auto &r : recs) if (r.part==q) l.insert(r.layer); std::vector<std::string> m; in.getScalarLayerNames(m,q); std::set<std::string> g(m.begin(),m.end()); vc_assert(g==l && g.size()==m.size(), "the layer names of a partition are those written"); } }
static void ogawa(bool mip) {
  Quiet q; recs.clear(); std::string file = scratchFile(); Field3DOutputFile::useOgawa(true); SparseFileManager::singleton().setLimitMemUse(false); setNumIOThreads((size_t)pick(1,3));
  FieldMetadata g(0); { Field3DOutputFile o; vc_assert(o.create(file), "a file in a writable directory is created"); for (long n = pick(mip?1:0,mip?2:4); n > 0; n--) putAny(o,mip); anyMeta(o.metadata()); g = o.metadata(); vc_assert(o.writeGlobalMetadata(), "global metadata is written"); names(o); o.close(); }
  Field3DInputFile in; vc_assert(in.open(file), "a written file opens"); vc_assert(sameMeta(in.metadata(),g), "global metadata is read back"); names(in);
  get<half>(in); get<float>(in); get<double>(in); get<V3h>(in); get<V3f>(in); get<V3d>(in); if (!mip) proxies(in);
}
VC_HARNESS(roundtrip) { ogawa(false); }
VC_HARNESS(roundtrip_mip) { ogawa(true); }
// the same file object used for several files
VC_HARNESS(reuse) {
  Quiet q; Field3DOutputFile::useOgawa(true); Field3DOutputFile o; Field3DInputFile in;
  for (int n=0;n<3;n++) { recs.clear(); std::string file = scratchFile(n); vc_assert(o.create(file), "a file in a writable directory is created"); for (long k = pick(1,2); k > 0; k--) putAny(o,false); o.close(); vc_assert(in.open(file), "a written file opens"); names(in); get<float>(in); get<V3d>(in); get<half>(in); if (vc_bool("close")) in.close(); }
}
VC_HARNESS(reserved_layer_name) {
  Quiet q; Field3DOutputFile::useOgawa(true); std::string file = scratchFile(); { Field3DOutputFile o; o.create(file); DenseField<float>::Ptr f(new DenseField<float>); f->setSize(V3i(2)); f->clear(1); vc_assert(o.writeLayer<float>("p",vc_bool("m") ? "mapping" : "metadata",f), "a layer with a mapping is written"); }
  Field3DInputFile in; vc_assert(in.open(file), "a written file opens"); vc_assert(in.readLayers<float>().size()==1, "a layer may have any name"); }
VC_HARNESS(mac_ogawa) {
  Quiet q; Field3DOutputFile::useOgawa(true); std::string file = scratchFile(); bool ok; { Field3DOutputFile o; o.create(file); MACField<V3f>::Ptr f(new MACField<V3f>); f->setSize(V3i(2)); f->clear(V3f(1)); ok = o.writeLayer<V3f>("p","v",f); }
  Field3DInputFile in; vc_assert(in.open(file), "a written file opens"); vc_assert(in.readLayers<V3f>().size()==(ok?1u:0u), "a MAC field reported as written to an Ogawa file is read back"); }
template <class T> static void hdf5one(bool mac) {
  Quiet q; typedef FIELD3D_VEC3_T<T> V; std::string file = scratchFile(3); unlink(file.c_str()); Field3DOutputFile::useOgawa(false); SparseFileManager::singleton().setLimitMemUse(false);
  std::vector<Rec> rs; { Field3DOutputFile o; vc_assert(o.create(file), "a file in a writable directory is created (HDF5)");
    for (long n = pick(1,3); n > 0; n--) { Rec r; r.part = PN[pick(0,1)]; r.layer = std::string("l")+(char)('0'+n); bool vec = mac || vc_bool("vec"); r.type = vec;
      FieldRes::Ptr f; if (mac) { typename MACField<V>::Ptr m(new MACField<V>); anySize(*m,6); for (int c=0;c<3;c++) for (auto i = m->begin_comp((MACComponent)c), e = m->end_comp((MACComponent)c); i != e; ++i) *i = Any<T>::get(); f = m; } else if (vec) { f = pick(0,1) ? FieldRes::Ptr(anyDense<V>(7)) : FieldRes::Ptr(anySparse<V>(7)); } else f = pick(0,1) ? FieldRes::Ptr(anyDense<T>(7)) : FieldRes::Ptr(anySparse<T>(7));
      f->setMapping(anyMapping(pick(0,8))); anyMeta(f->metadata(),true); r.f = f; bool ok = vec ? o.writeVectorLayer<T>(r.part,r.layer,field_dynamic_cast<Field<V> >(f)) : o.writeScalarLayer<T>(r.part,r.layer,field_dynamic_cast<Field<T> >(f)); vc_assert(ok,"a layer with a mapping is written (HDF5)"); rs.push_back(r); } o.close(); }
  Field3DOutputFile::useOgawa(true); Field3DInputFile in; vc_assert(in.open(file), "a written file opens (HDF5)");
  for (auto &r : rs) { if (r.type) { typename Field<V>::Vec v = in.readVectorLayers<T>(r.part,r.layer); vc_assert(v.size()==1, "exactly the layer written under a name is read (HDF5)"); if (v.size()!=1) continue; bool s; if (mac) { MACField<V> *a = dynamic_cast<MACField<V>*>(r.f.get()), *b = dynamic_cast<MACField<V>*>(v[0].get()); s = a && b && sameFace(*a,*b); } else s = sameField<V>(r.f.get(),v[0].get()); vc_assert(s, "a vector field reads back as written (HDF5)"); vc_assert(sameMapping(r.f->mapping(),v[0]->mapping()) && sameMeta(r.f->metadata(),v[0]->metadata()) && v[0]->name==r.part && v[0]->attribute==r.layer, "mapping, metadata and names read back (HDF5)"); vc_assert(in.readScalarLayers<T>(r.part,r.layer).empty(), "a vector layer is not a scalar layer (HDF5)"); }
    else { typename Field<T>::Vec v = in.readScalarLayers<T>(r.part,r.layer); vc_assert(v.size()==1, "exactly the layer written under a name is read (HDF5)"); if (v.size()!=1) continue; vc_assert(sameField<T>(r.f.get(),v[0].get()), "a scalar field reads back as written (HDF5)"); vc_assert(sameMapping(r.f->mapping(),v[0]->mapping()) && sameMeta(r.f->metadata(),v[0]->metadata()) && v[0]->name==r.part && v[0]->attribute==r.layer, "mapping, metadata and names read back (HDF5)"); } }
  vc_assert(in.readScalarLayers<T>("p","nope").empty() && in.readVectorLayers<T>("nope","l1").empty(), "a layer not in the file is never returned (HDF5)");
}
VC_HARNESS(roundtrip_hdf5) { switch (pick(0,2)) { case 0: hdf5one<half>(false); break; case 1: hdf5one<float>(false); break; case 2: hdf5one<double>(false); } }
VC_HARNESS(roundtrip_mac) { switch (pick(0,2)) { case 0: hdf5one<half>(true); break; case 1: hdf5one<float>(true); break; case 2: hdf5one<double>(true); } }
