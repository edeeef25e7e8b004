// C24: metadata keeps, per type, the last value set for each name.
#include "vc.h"
#include <boost/shared_ptr.hpp>
#include "Field3DFile.h"
#include "DenseField.h"
#include "SparseField.h"
#include "MACField.h"
#include "EmptyField.h"
using namespace Field3D;
static long pick(long lo, long hi) { return vc_int("op",lo,hi); }
static std::string name() { static const char *N[] = {"","a","A","b","ab","a b","a\n","\xff","name","name2","a.b","/","a long name that does not fit in the small string buffer at all"}; long k = pick(0,14); if (k < 13) return N[k]; std::string s; long n = pick(0,3); while (n-- > 0) s += (char)pick(1,255); return s; }
struct Model { std::map<std::string,std::string> s; std::map<std::string,int> i; std::map<std::string,float> f; std::map<std::string,V3i> vi; std::map<std::string,V3f> vf; };
static float anyf() { static const float F[] = {0.f,-0.f,1.f,-1.5f,1e-30f,3e38f,123.25f,0.1f}; return F[pick(0,7)]; }
static int anyi() { static const int I[] = {0,1,-1,2147483647,-2147483647-1,42}; return I[pick(0,5)]; }
static std::string anys() { std::string s; long n = pick(0,20); while (n-- > 0) s += (char)pick(0,255); return s; }
struct Owner : public MetadataCallback { std::vector<std::string> seen; virtual void metadataHasChanged(const std::string &n) { seen.push_back(n); } };
static void op(FieldMetadata &m, Model &d, Owner *o) {
  std::string n = name(); size_t before = o ? o->seen.size() : 0;
  switch (pick(0,4)) {
  case 0: { std::string v = anys(); m.setStrMetadata(n,v); d.s[n]=v; } break;
  case 1: { int v = anyi(); m.setIntMetadata(n,v); d.i[n]=v; } break;
  case 2: { float v = anyf(); m.setFloatMetadata(n,v); d.f[n]=v; } break;
  case 3: { V3i v(anyi(),anyi(),anyi()); m.setVecIntMetadata(n,v); d.vi[n]=v; } break;
  case 4: { V3f v(anyf(),anyf(),anyf()); m.setVecFloatMetadata(n,v); d.vf[n]=v; } break; }
  if (o) vc_assert(o->seen.size() == before+1 && o->seen.back() == n, "the owner is told once about each setting, under its name");
}
template <class M, class K> static bool has(const M &m, const K &k) { return m.find(k) != m.end(); }
static void same(const FieldMetadata &m, const Model &d) {
  vc_assert(m.strMetadata()==d.s && m.intMetadata()==d.i && m.floatMetadata()==d.f && m.vecIntMetadata()==d.vi && m.vecFloatMetadata()==d.vf, "the dictionaries hold exactly the last settings");
  for (long q=0;q<3;q++) { std::string n = name();
    std::string ds = anys(); vc_assert(m.strMetadata(n,ds) == (has(d.s,n) ? d.s.find(n)->second : ds), "string metadata: last value set or the default");
    int di = anyi(); vc_assert(m.intMetadata(n,di) == (has(d.i,n) ? d.i.find(n)->second : di), "int metadata: last value set or the default");
    float df = anyf(); vc_assert(m.floatMetadata(n,df) == (has(d.f,n) ? d.f.find(n)->second : df), "float metadata: last value set or the default");
    V3i dv(anyi(),anyi(),anyi()); vc_assert(m.vecIntMetadata(n,dv) == (has(d.vi,n) ? d.vi.find(n)->second : dv), "int vector metadata: last value set or the default");
    V3f dw(anyf(),anyf(),anyf()); vc_assert(m.vecFloatMetadata(n,dw) == (has(d.vf,n) ? d.vf.find(n)->second : dw), "float vector metadata: last value set or the default"); }
}
VC_HARNESS(settings) {
  Owner o; FieldMetadata m(vc_bool("owned") ? &o : (Owner*)0); Model d; bool owned = m.m_owner != 0;
  for (long n = pick(0,12); n > 0; n--) { op(m,d,owned ? &o : 0); if (pick(0,3)==0) same(m,d); } same(m,d);
  Owner o2; FieldMetadata c(&o2); Model dc; for (long n = pick(0,6); n > 0; n--) op(c,dc,&o2);
  MetadataCallback *keep = c.m_owner; c = m; same(c,d); same(m,d); vc_assert(c.m_owner == keep, "copying entries keeps the owner");
  Model e = d; for (long n = pick(0,4); n > 0; n--) op(c,d,&o2); same(c,d); same(m,e); // copies are independent
}
template <class F> static void on_field() {
  typename F::Ptr f(new F); Model d; for (long n = pick(0,8); n > 0; n--) op(f->metadata(),d,0); same(f->metadata(),d);
  F g(*f); same(g.metadata(),d); F h; Model dh; for (long n = pick(0,3); n > 0; n--) op(h.metadata(),dh,0); same(h.metadata(),dh); h = *f; same(h.metadata(),d);
  FieldBase::Ptr c = f->clone(); if (c) same(field_dynamic_cast<F>(c)->metadata(),d);
  F k; Model dk; op(k.metadata(),dk,0); k.copyMetadata(*f); same(k.metadata(),d); Model e = d; op(f->metadata(),d,0); same(k.metadata(),e); same(f->metadata(),d);
}
VC_HARNESS(fields) { switch (pick(0,3)) { case 0: on_field<DenseField<float> >(); break; case 1: on_field<SparseField<V3f> >(); break; case 2: on_field<MACField<V3d> >(); break; case 3: on_field<SparseField<half> >(); } }
VC_HARNESS(files) { Field3DOutputFile f; Model d; for (long n = pick(0,8); n > 0; n--) op(f.metadata(),d,0); same(f.metadata(),d); Field3DInputFile g; same(g.metadata(),Model()); }
