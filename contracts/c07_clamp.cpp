// C07: numeric conversion clamps; element type descriptions are consistent.
#include "fields.h"
#include "Traits.h"
#include "OgUtil.h"
#include <limits>
#include <string>
using std::numeric_limits;
template <class F, class T> static void clampsTo(F v, double lo, double hi, const char *l1, const char *l2, const char *l3) {
  T r = clampForType<F,T>(v);
  double d = (double)r, x = (double)v;
  vc_assert(d >= lo && d <= hi, l1);
  if (x >= hi) vc_assert(d == hi, l2);
  if (x <= lo) vc_assert(d == lo, l2);
  if (x > lo && x < hi) {
    if (numeric_limits<T>::is_integer) vc_assert(d - x < 1 && x - d < 1, l3);
    else vc_assert(r == (T)v, l3);
  }
}
#define CL(F,T,lo,hi) clampsTo<F,T>(v,lo,hi,#F " to " #T " stays in range",#F " to " #T " clamps to the nearest finite value",#F " to " #T " keeps values in range")
static const double FM = 3.4028234663852886e38;
VC_HARNESS(clamp_double) {
  int w = (int)vc_int("scale",0,3);
  double u = vc_real("u",-2,2);
  double v = w == 0 ? u*1e308*0.89 : w == 1 ? u*4e38 : w == 2 ? u*3e9 : u*300;
  CL(double,float,-FM,FM); CL(double,int,-2147483648.0,2147483647.0); CL(double,unsigned char,0,255);
}
VC_HARNESS(clamp_float) {
  int w = (int)vc_int("scale",0,3);
  double u = vc_real("u",-2,2);
  float v = w == 0 ? (float)(u*1.7e38) : w == 1 ? (float)(u*3e9) : w == 2 ? (float)(u*1e5) : (float)(u*300);
  CL(float,unsigned char,0,255); CL(float,int,-2147483648.0,2147483647.0);
}
VC_HARNESS(clamp_float_edge) {
  float v = (float)2147483648.0 * (vc_bool("neg") ? -1.0f : 1.0f);
  CL(float,int,-2147483648.0,2147483647.0);
}
VC_HARNESS(clamp_half) {
  int w = (int)vc_int("scale",0,3);
  double u = vc_real("u",-2,2);
  { float v = w == 0 ? (float)(u*1.7e38) : w == 1 ? (float)(u*70000) : w == 2 ? (float)(65504 + u*20) : (float)u; CL(float,half,-65504.0,65504.0); }
  { double v = w == 0 ? u*1e300 : w == 1 ? u*70000 : w == 2 ? 65504+u*20 : u; 
    half r = clampForType<double,half>(v); double d = (double)r;
    vc_assert(d >= -65504 && d <= 65504, "double to half stays finite");
    if (v >= 65504) vc_assert(d == 65504, "double to half clamps"); if (v <= -65504) vc_assert(d == -65504, "double to half clamps");
    if (fabs(v) < 65504) vc_assert(fabs(d-v) <= fabs(v)*0.0006 + 1e-7, "double to half keeps values in range"); }
}
VC_HARNESS(clamp_int) {
  int v = (int)vc_int("v",-2147483647L-1,2147483647L);
  CL(int,unsigned char,0,255);
  unsigned char r = clampForType<int,unsigned char>(v);
  vc_assert((int)r == (v < 0 ? 0 : v > 255 ? 255 : v), "int to unsigned char keeps or clamps exactly");
}
// static descriptions: every query about an element type tells the same story
template <class T> struct IsVec { static const bool v=false; typedef T s; };
template <class S> struct IsVec<FIELD3D_VEC3_T<S> > { static const bool v=true; typedef S s; };
template <class T> static void traits(const char *name, DataTypeEnum e) {
  vc_assert(DataTypeTraits<T>::name() == name, "the type name is the documented one");
  vc_assert(DataTypeTraits<T>::typeEnum() == e, "the type code is the documented one");
  vc_assert(FieldTraits<T>::dataDims() == (IsVec<T>::v ? 3 : 1), "the number of components is that of the type");
  vc_assert(FieldTraits<T>::dataDims() == FieldTraits<T>::k_dataDims, "both component counts agree");
}
template <class T> static void bits() { vc_assert(DataTypeTraits<T>::h5bits() == (int)sizeof(typename IsVec<T>::s)*8, "the stored bit width is that of one component"); }
VC_HARNESS(element_types) {
  traits<half>("half",DataTypeHalf); traits<unsigned char>("unsigned char",DataTypeUnsignedChar); traits<int>("int",DataTypeInt);
  traits<float>("float",DataTypeFloat); traits<double>("double",DataTypeDouble);
  traits<V3h>("V3h",DataTypeVecHalf); traits<V3f>("V3f",DataTypeVecFloat); traits<V3d>("V3d",DataTypeVecDouble);
  bits<half>(); bits<float>(); bits<double>(); bits<V3h>(); bits<V3f>(); bits<V3d>();
  vc_assert(FieldTraits<char>::dataDims()==1 && FieldTraits<C3f>::dataDims()==3, "component counts of the remaining types");
}
template <class T> static void og(const char *name, OgDataType e, OgDataType expect, size_t size) {
  vc_assert(std::string(OgawaTypeTraits<T>::typeName()) == name, "the archive type name is the documented one");
  vc_assert(OgawaTypeTraits<T>::typeEnum() == e && e == expect, "the archive type code is the documented one");
  vc_assert(sizeof(typename OgawaTypeTraits<T>::value_type) == size, "the archive element has the documented size");
}
VC_HARNESS(archive_types) {
  og<int8_t>("int8_t",F3DInt8,(OgDataType)0,1); og<uint8_t>("uint8_t",F3DUint8,(OgDataType)1,1); og<int16_t>("int16_t",F3DInt16,(OgDataType)2,2); og<uint16_t>("uint16_t",F3DUint16,(OgDataType)3,2);
  og<int32_t>("int32_t",F3DInt32,(OgDataType)4,4); og<uint32_t>("uint32_t",F3DUint32,(OgDataType)5,4); og<int64_t>("int64_t",F3DInt64,(OgDataType)6,8); og<uint64_t>("uint64_t",F3DUint64,(OgDataType)7,8);
  og<float16_t>("float16_t",F3DFloat16,(OgDataType)8,2); og<float32_t>("float32_t",F3DFloat32,(OgDataType)9,4); og<float64_t>("float64_t",F3DFloat64,(OgDataType)10,8);
  og<vec16_t>("vec16_t",F3DVec16,(OgDataType)11,6); og<vec32_t>("vec32_t",F3DVec32,(OgDataType)12,12); og<vec64_t>("vec64_t",F3DVec64,(OgDataType)13,24);
  og<veci32_t>("veci32_t",F3DVecI32,(OgDataType)14,12); og<mtx64_t>("mtx64_t",F3DMtx64,(OgDataType)15,128); vc_assert(std::string(OgawaTypeTraits<std::string>::typeName())=="string" && OgawaTypeTraits<std::string>::typeEnum()==16, "the archive string type");
}
