// C21: reference counted objects live exactly as long as they are referenced; checked casts; the field cache.
#include "fields.h"
#include "FieldCache.h"
static int alive, destroyed;
struct Obj1 : public RefBase { DEFINE_FIELD_RTTI_CONCRETE_CLASS typedef boost::intrusive_ptr<Obj1> Ptr; typedef RefBase base; int v; Obj1():v(0){++alive;} Obj1(const Obj1&o):RefBase(o),v(o.v){++alive;} virtual ~Obj1(){--alive;++destroyed;} static const char *staticClassType(){return "Obj1";} };
VC_HARNESS(count_follows_pointers) {
  alive = destroyed = 0;
  int n = 0;
  {
    Obj1 *o = new Obj1; o->v = (int)vc_int("v",-5,5); int val = o->v;
    vc_assert(o->refcnt() == 0, "a new object has no references");
    Obj1::Ptr p[4]; p[0] = o; n = 1;
    vc_assert(o->refcnt() == 1, "one pointer counts one");
    for (int s = 0; s < 3; ++s) {
      bool set = vc_bool("set"); int k = s+1;
      if (set) { p[k] = p[s%2]; if (p[k]) ++n; } else if (p[s]) { p[s].reset(); --n; }
      vc_assert(destroyed == (n == 0 ? 1 : 0), "the object is destroyed exactly when its last reference goes away");
      if (n == 0) break;
      vc_assert((int)o->refcnt() == n, "the count equals the number of pointers");
      vc_assert(o->v == val, "the object is intact while referenced");
    }
  }
  vc_assert(alive == 0 && destroyed == 1, "the object was destroyed exactly once");
}
VC_HARNESS(copies_count_alone) {
  alive = destroyed = 0;
  {
    Obj1::Ptr a = new Obj1; Obj1::Ptr a2 = a;
    Obj1::Ptr b = new Obj1(*a);
    vc_assert(b->refcnt() == 1 && a->refcnt() == 2, "a copy starts with its own count");
    *b = *a;
    vc_assert(b->refcnt() == 1 && a->refcnt() == 2, "assignment leaves both counts alone");
    a.reset(); vc_assert(destroyed == 0, "an object with a reference left stays"); a2.reset();
    vc_assert(destroyed == 1 && alive == 1, "only the object without references is destroyed");
  }
  vc_assert(destroyed == 2 && alive == 0, "every object is destroyed exactly once");
}
VC_HARNESS(weak_reference) {
  alive = destroyed = 0;
  RefBase::WeakPtr w, wc;
  { Obj1::Ptr a = new Obj1; w = a->weakPtr(); Obj1::Ptr c = new Obj1(*a); wc = c->weakPtr();
    vc_assert(!w.expired() && !wc.expired(), "a weak reference to a live object is not expired");
    vc_assert(a->refcnt() == 1, "a weak reference does not count");
    bool copyfirst = vc_bool("copyfirst");
    if (copyfirst) { c.reset(); vc_assert(wc.expired() && !w.expired(), "expiry follows the object itself, not its copies"); }
    else { a.reset(); vc_assert(w.expired() && !wc.expired(), "expiry follows the object itself, not its copies"); } }
  vc_assert(w.expired() && wc.expired(), "a weak reference expires with its object");
}
// checked casts: exactly the class and its bases
template <class Target, class Obj> static void castIs(bool expect, const char *l) {
  FieldRes::Ptr f = new Obj;
  RefBase::Ptr r = f;
  typename Target::Ptr t = field_dynamic_cast<Target>(r);
  vc_assert((t.get() != NULL) == expect, l);
  if (t) vc_assert((RefBase*)t.get() == r.get() && t->refcnt() == 3, "a successful cast yields the same object with one more reference");
}
VC_HARNESS(checked_casts) {
  castIs<DenseField<float>, DenseField<float> >(true,"a dense field is a dense field");
  castIs<Field<float>, DenseField<float> >(true,"a dense field is a field");
  castIs<ResizableField<float>, DenseField<float> >(true,"a dense field is a resizable field");
  castIs<WritableField<float>, DenseField<float> >(true,"a dense field is a writable field");
  castIs<FieldRes, DenseField<float> >(true,"a dense field is a FieldRes");
  castIs<FieldBase, DenseField<float> >(true,"a dense field is a FieldBase");
  castIs<DenseField<double>, DenseField<float> >(false,"element types are distinguished");
  castIs<Field<V3f>, DenseField<float> >(false,"element types of bases are distinguished");
  castIs<SparseField<float>, DenseField<float> >(false,"a dense field is not a sparse field");
  castIs<SparseField<V3f>, SparseField<V3f> >(true,"a sparse field is a sparse field");
  castIs<Field<V3f>, SparseField<V3f> >(true,"a sparse field is a field");
  castIs<DenseField<V3f>, SparseField<V3f> >(false,"a sparse field is not a dense field");
  castIs<MACField<V3f>, MACField<V3f> >(true,"a MAC field is a MAC field");
  castIs<Field<V3f>, MACField<V3f> >(true,"a MAC field is a field");
  castIs<SparseField<V3f>, MACField<V3f> >(false,"a MAC field is not a sparse field");
  RefBase::Ptr none; vc_assert(!field_dynamic_cast<Field<float> >(none), "casting nothing gives nothing");
}
VC_HARNESS(mapping_casts) {
  RefBase::Ptr n = new NullFieldMapping, m = new MatrixFieldMapping, f = new FrustumFieldMapping;
  vc_assert(field_dynamic_cast<NullFieldMapping>(n) && !field_dynamic_cast<NullFieldMapping>(m) && !field_dynamic_cast<NullFieldMapping>(f), "null mapping casts");
  vc_assert(field_dynamic_cast<MatrixFieldMapping>(m) && !field_dynamic_cast<MatrixFieldMapping>(n) && !field_dynamic_cast<MatrixFieldMapping>(f), "matrix mapping casts");
  vc_assert(field_dynamic_cast<FrustumFieldMapping>(f) && !field_dynamic_cast<FrustumFieldMapping>(n) && !field_dynamic_cast<FrustumFieldMapping>(m), "frustum mapping casts");
  vc_assert(field_dynamic_cast<FieldMapping>(f) && field_dynamic_cast<FieldMapping>(n) && field_dynamic_cast<FieldMapping>(m), "every mapping is a mapping");
}
// the field cache: arbitrary sequence of stores, releases and lookups
VC_HARNESS(cache_sequence) {
  typedef Field<float>::Ptr FP;
  const char *files[3] = { "a.f3d", "b.f3d", "ab" }, *paths[3] = { "p/x", "p/y", "/x" };
  FieldCache<float> &c = FieldCache<float>::singleton();
  c.m_cache.clear();
  FP held[9]; int n = (int)vc_int("steps",1,12);
  for (int s=0;s<n;++s) {
    int op = (int)vc_int("op",0,3), f = (int)vc_int("file",0,2), p = (int)vc_int("path",0,2); int k = f*3+p;
    if (op == 0) { FP x = new DenseField<float>; c.cacheField(x, files[f], paths[p]); held[k] = x; }
    else if (op == 1) held[k].reset();
    else { FP g = c.getCachedField(files[f], paths[p]); vc_assert(g == held[k], "the cache returns the live field stored under that file and layer and nothing else"); }
  }
}
