// C05: resizing, copying and cloning keep definition and values.
#include "fields.h"
#include "EmptyField.h"
typedef MACField<V3f> MacF;
static bool eq3(const Box3i &a, const Box3i &b) { return same3(a.min,b.min) && same3(a.max,b.max); }
static bool inBox(const V3i &p, const Box3i &b) { return b.min.x<=p.x && p.x<=b.max.x && b.min.y<=p.y && p.y<=b.max.y && b.min.z<=p.z && p.z<=b.max.z; }
static bool spans(const FieldMapping &m, const Box3i &b) { return m.origin()==V3d(b.min) && m.resolution()==V3d(b.max-b.min+V3i(1)); }
// --- sizing ------------------------------------------------------------------------------------------------------
template <class F> static void sizing(F &f, long lim, long nlim) {
  int how = (int)vc_case("how",0,3);
  Box3i e = NEWBOX(e,lim,nlim), d = NEWBOX(d,lim,nlim), wantE, wantD; 
  V3i n = e.size() + V3i(1); int pad = (int)vc_intn("pad",0,1000,0,3);
  if (how==0) { f.setSize(n); wantE = wantD = Box3i(V3i(0),n-V3i(1)); }
  if (how==1) { f.setSize(e); wantE = wantD = e; }
  if (how==2) { f.setSize(e,d); wantE = e; wantD = d; }
  if (how==3) { f.setSize(n,pad); wantE = Box3i(V3i(0),n-V3i(1)); wantD = Box3i(V3i(-pad),n+V3i(pad-1)); }
  vc_assert(eq3(f.extents(),wantE), "the extents are the documented ones");
  vc_assert(eq3(f.dataWindow(),wantD), "the data window is the documented one");
  vc_assert(spans(*f.mapping(),wantE), "the mapping spans the extents");
  vc_assert(same3(f.dataResolution(), wantD.max-wantD.min+V3i(1)), "the data resolution is the size of the data window");
  V3i q((int)vc_intn("qx",-2*lim,2*lim,-2*nlim,2*nlim),(int)vc_intn("qy",-2*lim,2*lim,-2*nlim,2*nlim),(int)vc_intn("qz",-2*lim,2*lim,-2*nlim,2*nlim));
  vc_assert(f.isInBounds(q.x,q.y,q.z) == inBox(q,wantD), "isInBounds holds exactly for the voxels of the data window");
  V3i p = ANYIN(p,wantD);
  f.value(p.x,p.y,p.z);      // every voxel of the window is readable (storage obligations)
}
VC_HARNESS(size_dense) { DenseField<float> f; sizing(f,1<<15,5); V3i r = f.dataResolution(); vc_assert(f.voxelCount() == (size_t)r.x*r.y*r.z, "the voxel count is the volume of the data window"); }
VC_HARNESS(size_sparse) { SparseField<float> f; sizing(f,1<<10,5); }
VC_HARNESS(size_mac) { MacF f; sizing(f,1<<15,5); V3i r = f.dataResolution(); vc_assert(f.voxelCount() == (size_t)r.x*r.y*r.z, "the voxel count is the volume of the data window"); }
VC_HARNESS(size_empty) { EmptyField<float> f; f.clear(1.5f); sizing(f,1<<20,5000); V3i r = f.dataResolution(); vc_assert(f.voxelCount() == (size_t)r.x*r.y*r.z, "the voxel count is the volume of the data window");
  Box3i d = f.dataWindow(); V3i p = ANYIN(r,d); vc_assert(f.value(p.x,p.y,p.z) == 1.5f, "an empty field reads as its constant"); }
// --- copying ------------------------------------------------------------------------------------------------------
// definition of b equals that of a; the two are independent
template <class F> static void checkDefinition(F &a, F &b) {
  vc_assert(eq3(a.extents(),b.extents()) && eq3(a.dataWindow(),b.dataWindow()), "a copy has the extents and data window of its source");
  vc_assert(b.mapping() && a.mapping().get() != b.mapping().get(), "a copy has a mapping of its own");
  vc_assert(spans(*b.mapping(),a.extents()), "a copy's mapping spans the same extents");
}
template <class F> static F *copyOf(F &a, F *target, int how) {
  if (how==0) return new F(a);
  if (how==1) { *target = a; return target; }
  FieldBase::Ptr c = a.clone(); F *r = static_cast<F*>(c.get()); r->ref(); return r;
}
template <class F> static void fillAny(F &f);
template <> void fillAny(DenseField<float> &f) { havDense(f); }
template <> void fillAny(SparseField<float> &f) { havSparse(f); }
template <> void fillAny(SparseField<V3d> &f) { havSparse(f); }
template <> void fillAny(DenseField<V3d> &f) { havDense(f); }
template <class F, class T> static void copying(long lim, long nlim, int order = -1) {
  int how = (int)vc_case("how",0,2);
  Box3i e = NEWBOX(e,lim,nlim), d = NEWBOX(d,lim,nlim), d2 = NEWBOX(d2,lim,nlim);
  F *a = new F, *t = new F;
  a->setSize(e,d); fillAny(*a);
  if (how==1) t->setSize(d2);
  a->name = "n"; a->attribute = "at";
  F *b = copyOf(*a,t,how);
  checkDefinition(*a,*b);
  vc_assert(b->name == "n" && b->attribute == "at", "a copy has the name and attribute of its source");
  V3i p = ANYIN(p,d), q = ANYIN(q,d); T v = Elem<T>::any("v"), w = Elem<T>::any("w");
  T va = a->value(p.x,p.y,p.z), vq = a->value(q.x,q.y,q.z);
  vc_assert(b->value(p.x,p.y,p.z) == va, "a copy has the value of its source at every voxel");
  b->lvalue(p.x,p.y,p.z) = v;
  vc_assert(b->value(p.x,p.y,p.z) == v, "a copy is writable");
  vc_assert(a->value(q.x,q.y,q.z) == vq, "writing the copy changes no voxel of the source");
  a->lvalue(p.x,p.y,p.z) = w;
  vc_assert(b->value(p.x,p.y,p.z) == v, "writing the source changes no voxel of the copy");
  b->setSize(d2);
  vc_assert(spans(*a->mapping(),e) && eq3(a->extents(),e) && eq3(a->dataWindow(),d), "resizing the copy leaves the source's definition alone");
  vc_assert(spans(*b->mapping(),d2), "resizing the copy updates its own mapping");
}
VC_HARNESS(copy_dense_f) { copying<DenseField<float>,float>(1<<10,4); }
VC_HARNESS(copy_dense_v3d) { copying<DenseField<V3d>,V3d>(1<<10,4); }
VC_HARNESS(copy_sparse_f) {
  int how = (int)vc_case("how",0,2); int order = (int)vc_casen("order",0,7,0,3);
  Box3i e = NEWBOX(e,64<<order,9), d = NEWBOX(d,64<<order,9), d2 = NEWBOX(d2,64<<order,9);
  SparseField<float> *a = new SparseField<float>, *t = new SparseField<float>;
  a->setBlockOrder(order); a->setSize(e,d); havSparse(*a);
  if (how==1) t->setSize(d2);
  V3i p = ANYIN(p,d), q = ANYIN(q,d); float v = Elem<float>::any("v"), w = Elem<float>::any("w");
  SparseField<float> *b = copyOf(*a,t,how);
  checkDefinition(*a,*b);
  vc_assert(b->blockOrder() == order && same3(b->blockRes(),a->blockRes()), "a copy has the block structure of its source");
  float va = a->value(p.x,p.y,p.z), vq = a->value(q.x,q.y,q.z);
  vc_assert(b->voxelIsInAllocatedBlock(p.x,p.y,p.z) == a->voxelIsInAllocatedBlock(p.x,p.y,p.z), "a copy has the allocated blocks of its source");
  vc_assert(b->value(p.x,p.y,p.z) == va, "a copy has the value of its source at every voxel");
  b->lvalue(p.x,p.y,p.z) = v;
  vc_assert(b->value(p.x,p.y,p.z) == v, "a copy is writable");
  vc_assert(a->value(q.x,q.y,q.z) == vq, "writing the copy changes no voxel of the source");
  a->lvalue(p.x,p.y,p.z) = w;
  vc_assert(b->value(p.x,p.y,p.z) == v, "writing the source changes no voxel of the copy");
  b->setSize(d2);
  vc_assert(spans(*a->mapping(),e) && eq3(a->dataWindow(),d), "resizing the copy leaves the source's definition alone");
}
VC_HARNESS(copy_mac) {
  int how = (int)vc_case("how",0,2);
  Box3i e = NEWBOX(e,1<<10,4), d = NEWBOX(d,1<<10,4), d2 = NEWBOX(d2,1<<10,4);
  MacF *a = new MacF, *t = new MacF; a->setSize(e,d);
  vc_havoc(&a->m_u[0], a->m_u.size(), 4, 'f', "u"); vc_havoc(&a->m_v[0], a->m_v.size(), 4, 'f', "v"); vc_havoc(&a->m_w[0], a->m_w.size(), 4, 'f', "w");
  if (how==1) t->setSize(d2);
  MacF *b = copyOf(*a,t,how);
  checkDefinition(*a,*b);
  V3i p = ANYIN(p,d); float x = Elem<float>::any("x");
  vc_assert(b->u(p.x,p.y,p.z) == a->u(p.x,p.y,p.z) && b->u(p.x+1,p.y,p.z) == a->u(p.x+1,p.y,p.z), "a copy has the u faces of its source");
  vc_assert(b->v(p.x,p.y,p.z) == a->v(p.x,p.y,p.z) && b->v(p.x,p.y+1,p.z) == a->v(p.x,p.y+1,p.z), "a copy has the v faces of its source");
  vc_assert(b->w(p.x,p.y,p.z) == a->w(p.x,p.y,p.z) && b->w(p.x,p.y,p.z+1) == a->w(p.x,p.y,p.z+1), "a copy has the w faces of its source");
  float ou = a->u(p.x,p.y,p.z), ow = b->w(p.x,p.y,p.z); b->u(p.x,p.y,p.z) = x; a->w(p.x,p.y,p.z) = x;
  vc_assert(a->u(p.x,p.y,p.z) == ou && b->w(p.x,p.y,p.z) == ow, "source and copy do not share storage");
  b->setSize(d2);
  vc_assert(spans(*a->mapping(),e) && eq3(a->dataWindow(),d), "resizing the copy leaves the source's definition alone");
}
// matchDefinition and setMapping
VC_HARNESS(match_definition) {
  Box3i e = NEWBOX(e,1<<12,4), d = NEWBOX(d,1<<12,4), d2 = NEWBOX(d2,1<<12,4);
  DenseField<float>::Ptr a(new DenseField<float>); a->setSize(e,d); SparseField<float>::Ptr b(new SparseField<float>);
  MatrixFieldMapping::Ptr m(new MatrixFieldMapping); M44d x; x.x[3][0] = vc_real("tx",-100,100); x.x[0][0] = vc_real("sx",1,8); x.x[1][1] = vc_real("sy",1,8); m->setLocalToWorld(x);
  a->setMapping(m);
  vc_assert(a->mapping().get() != m.get(), "a field keeps its own copy of a mapping");
  vc_assert(spans(*a->mapping(),e), "the mapping of a field spans its extents");
  b->matchDefinition(a);
  vc_assert(eq3(b->extents(),e) && eq3(b->dataWindow(),d) && spans(*b->mapping(),e), "matchDefinition takes over extents and data window");
  vc_assert(b->mapping().get() != a->mapping().get(), "matched fields have separate mappings");
  V3d lp(vc_real("lx",0,1),vc_real("ly",0,1),vc_real("lz",0,1)), wa, wb;
  a->mapping()->localToWorld(lp,wa); b->mapping()->localToWorld(lp,wb);
  vc_assert(wa.x==wb.x && wa.y==wb.y && wa.z==wb.z, "matchDefinition takes over the mapping");
  b->setSize(d2);
  vc_assert(spans(*a->mapping(),e), "resizing one of two matched fields leaves the other alone");
}
// --- executable only: metadata, copyFrom, comparisons --------------------------------------------------------------
template <class FA, class FB> static void copyFromCheck(FA &a, const typename FB::Ptr &b, Box3i e, Box3i d) {
  typename FA::Ptr pa(&a);
  b->copyFrom(typename Field<float>::Ptr(pa));
  vc_assert(eq3(b->extents(),e) && eq3(b->dataWindow(),d) && spans(*b->mapping(),e), "copyFrom takes over extents and data window");
  bool same = true; for (int k=d.min.z;k<=d.max.z;++k) for (int j=d.min.y;j<=d.max.y;++j) for (int i=d.min.x;i<=d.max.x;++i) if (a.value(i,j,k) != b->value(i,j,k)) same = false;
  vc_assert(same, "copyFrom takes over every voxel value");
  vc_assert(a.mapping()->isIdentical(b->mapping(),0) && a.mapping().get() != b->mapping().get(), "copyFrom copies the mapping");
  vc_assert((sameDefinition<float,float>(typename Field<float>::Ptr(pa),typename Field<float>::Ptr(b))) && isIdentical<float>(typename Field<float>::Ptr(pa),typename Field<float>::Ptr(b)), "a field and its copyFrom copy are identical");
  V3i p = ANYIN(cp,d); float old = a.value(p.x,p.y,p.z); b->lvalue(p.x,p.y,p.z) = old + 1;
  vc_assert(a.value(p.x,p.y,p.z) == old, "writing the copy leaves the source alone");
  vc_assert(!isIdentical<float>(typename Field<float>::Ptr(pa),typename Field<float>::Ptr(b)), "fields with different values are not identical");
  vc_assert((sameDefinition<float,float>(typename Field<float>::Ptr(pa),typename Field<float>::Ptr(b))), "the definition does not depend on values");
  Box3i d3 = d; d3.max.x++; b->setSize(e,d3);
  vc_assert(!(sameDefinition<float,float>(typename Field<float>::Ptr(pa),typename Field<float>::Ptr(b))), "fields with different data windows have different definitions");
}
VC_HARNESS(copy_from) {
  Box3i e = NEWBOX(e,6,6), d = NEWBOX(d,6,6); int which = (int)vc_case("which",0,3), order = (int)vc_case("order",0,3);
  MatrixFieldMapping::Ptr m(new MatrixFieldMapping); M44d x; x.x[3][0] = vc_real("tx",-100,100); x.x[0][0] = vc_real("sx",1,8); m->setLocalToWorld(x);
  DenseField<float>::Ptr da(new DenseField<float>), db(new DenseField<float>); SparseField<float>::Ptr sa(new SparseField<float>), sb(new SparseField<float>);
  da->setSize(e,d); da->setMapping(m); havDense(*da); sa->setBlockOrder(order); sa->setSize(e,d); sa->setMapping(m); havSparse(*sa); 
  db->setSize(V3i(2)); sb->setSize(V3i(3)); sb->lvalue(1,1,1) = 7;
  switch (which) {
    case 0: copyFromCheck<DenseField<float>,DenseField<float> >(*da,db,e,d); break;
    case 1: copyFromCheck<DenseField<float>,SparseField<float> >(*da,sb,e,d); break;
    case 2: copyFromCheck<SparseField<float>,DenseField<float> >(*sa,db,e,d); break;
    case 3: copyFromCheck<SparseField<float>,SparseField<float> >(*sa,sb,e,d); break; }
}
VC_HARNESS(copy_metadata) {
  int how = (int)vc_case("how",0,2), kind = (int)vc_case("kind",0,3);
  #define META(F) { F *a = new F, *t = new F; a->setSize(V3i(3)); a->metadata().setIntMetadata("i",5); a->metadata().setStrMetadata("s","text"); a->metadata().setFloatMetadata("f",2.5f); a->metadata().setVecIntMetadata("vi",V3i(1,2,3)); a->metadata().setVecFloatMetadata("vf",V3f(1,2,3)); \
    t->metadata().setIntMetadata("old",1); F *b = copyOf(*a,t,how); const FieldMetadata &m = b->metadata(); \
    vc_assert(m.intMetadata("i",0)==5 && m.strMetadata("s","")=="text" && m.floatMetadata("f",0)==2.5f && m.vecIntMetadata("vi",V3i(0))==V3i(1,2,3) && m.vecFloatMetadata("vf",V3f(0))==V3f(1,2,3), "a copy has the metadata of its source"); \
    vc_assert(m.intMetadata("old",0)==0, "a copy has only the metadata of its source"); \
    b->metadata().setIntMetadata("i",6); vc_assert(a->metadata().intMetadata("i",0)==5, "changing the copy's metadata leaves the source alone"); }
  if (kind==0) META(DenseField<float>) if (kind==1) META(SparseField<float>) if (kind==2) META(MacF) if (kind==3) META(EmptyField<float>)
}
