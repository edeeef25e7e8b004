// C16: the Field3D layer over an archive (named groups, typed attributes, data sets) reads back what was written.
#include "ogtree.h"
#include <boost/shared_ptr.hpp>
#include "OgIO.h"
#include "OgSparseDataReader.h"
using namespace Field3D;
static std::string anyName(const char *p, int i) { static const char *alpha[] = {"a","b c","x.y","_","Z9","ab","a:"}; std::string n; long k = pick(0,3); for (long q=0;q<k;q++) n += alpha[pick(0,6)]; return p + n + std::to_string(i); }
struct Att { std::string name; int type; double v; std::string s; };
struct Set { std::string name; bool cmp; int type; std::vector<Bytes> el; };
struct Grp { std::string name; std::vector<Att> at; std::vector<Set> ds; std::vector<Grp> sub; };
template <class T> static T val(double v) { return (T)v; }
template <> vec32_t val<vec32_t>(double v) { return vec32_t(v,v+1,v-2); }
template <> veci32_t val<veci32_t>(double v) { return veci32_t((int)v,(int)v+1,(int)v-2); }
template <> vec64_t val<vec64_t>(double v) { return vec64_t(v,v+1,v-2); }
template <> mtx64_t val<mtx64_t>(double v) { mtx64_t m; for (int i=0;i<16;i++) m[i/4][i%4]=v+i; return m; }
#define TYPES(F) F(0,int32_t) F(1,uint8_t) F(2,float32_t) F(3,float64_t) F(4,vec32_t) F(5,vec64_t) F(6,veci32_t) F(7,mtx64_t) F(8,int64_t) F(9,uint16_t)
template <class T> static Bytes elems(size_t n) { Bytes b(n*sizeof(T)); for (auto &x : b) x = (unsigned char)vc_int("byte",0,255); return b; }
static void write(OgOGroup &o, Grp &g, int depth) {
  long n = pick(0,6);
  for (long i=0;i<n;i++) {
    long k = pick(0,3);
    if (k == 0) { Att a; a.name = anyName("",(int)i); a.type = (int)pick(0,10); a.v = (double)pick(0,100); 
      if (a.type == 10) { long q = pick(0,6); for (long z=0;z<q;z++) a.s += (char)vc_int("ch",1,127); OgOAttribute<std::string> w(o,a.name,a.s); }
#define WA(K,T) else if (a.type == K) { OgOAttribute<T> w(o,a.name,val<T>(a.v)); }
      TYPES(WA)
      g.at.push_back(a); }
    else if (k <= 2) { Set s; s.name = anyName("",(int)i); s.cmp = k==2; s.type = (int)pick(0,9); long e = pick(0,4);
#define WD(K,T) if (s.type == K) { if (s.cmp) { OgOCDataset<T> w(o,s.name); for (long q=0;q<e;q++) { Bytes b = anyBytes(17); w.addData(b.size(), b.empty()?(uint8_t*)"":&b[0]); s.el.push_back(b); } } \
   else { OgODataset<T> w(o,s.name); for (long q=0;q<e;q++) { Bytes b = elems<T>(pick(0,4)); w.addData(b.size()/sizeof(T), b.empty()?(T*)"":(T*)&b[0]); s.el.push_back(b); } } }
      TYPES(WD)
      g.ds.push_back(s); }
    else if (depth < 3) { Grp c; c.name = anyName("",(int)i); { OgOGroup w(o,c.name); write(w,c,depth+1); } g.sub.push_back(c); }
  }
}
static void check(const OgIGroup &r, const Grp &g, const OgIGroup &root, const std::string &path) {
  vc_assert(r.isValid() && r.name() == g.name, "a group is found under its name");
  if (!r.isValid()) return;
  std::vector<std::string> w; for (auto &s : g.sub) w.push_back(s.name); vc_assert(r.groupNames() == w, "sub-groups are listed in the order written");
  w.clear(); for (auto &a : g.at) w.push_back(a.name); vc_assert(r.attributeNames() == w, "attributes are listed in the order written");
  w.clear(); for (auto &d : g.ds) if (!d.cmp) w.push_back(d.name); vc_assert(r.datasetNames() == w, "data sets are listed in the order written");
  w.clear(); for (auto &d : g.ds) if (d.cmp) w.push_back(d.name); vc_assert(r.compressedDatasetNames() == w, "compressed data sets are listed in the order written");
  for (auto &a : g.at) {
#define RA(K,T) if (a.type == K) { OgIAttribute<T> x = r.findAttribute<T>(a.name); vc_assert(x.isValid() && x.name()==a.name, "an attribute is found under its name and type"); if (x.isValid()) { T u = x.value(), v = val<T>(a.v); vc_assert(u == v, "an attribute has the value written"); } \
      vc_assert(r.attributeType(a.name) == OgawaTypeTraits<T>::typeEnum(), "an attribute has the type written"); }
    TYPES(RA)
    if (a.type == 10) { OgIAttribute<std::string> x = r.findAttribute<std::string>(a.name); vc_assert(x.isValid() && x.value()==a.s, "a string attribute has the text written"); }
    if (a.type != 3) vc_assert(!r.findAttribute<float64_t>(a.name).isValid(), "an attribute is not found under another type");
    vc_assert(!r.findDataset<float32_t>(a.name).isValid() && !r.findGroup(a.name).isValid(), "an attribute is neither a data set nor a group");
  }
  for (auto &d : g.ds) {
#define RD(K,T) if (d.type == K && !d.cmp) { OgIDataset<T> x = r.findDataset<T>(d.name); vc_assert(x.isValid() && x.numDataElements()==d.el.size() && r.datasetType(d.name)==OgawaTypeTraits<T>::typeEnum(), "a data set is found with its elements"); \
      if (x.isValid()) for (size_t e=0;e<d.el.size() && e<x.numDataElements();e++) { size_t n = d.el[e].size()/sizeof(T); vc_assert(x.dataSize(e,0)==n, "a data element has the length written"); if (x.dataSize(e,0)!=n) continue; \
        std::vector<T> b(n+1); bool ok = x.getData(e,&b[0],0); vc_assert(ok && (n==0 || memcmp(&b[0],&d.el[e][0],n*sizeof(T))==0), "a data element has the content written"); } \
      if (x.isValid()) vc_assert(x.dataSize(d.el.size(),0)==OGAWA_INVALID_DATASET_INDEX, "no element past the last"); \
      vc_assert(!r.findCompressedDataset<T>(d.name).isValid(), "a plain data set is not a compressed one"); } \
    if (d.type == K && d.cmp) { OgICDataset<T> x = r.findCompressedDataset<T>(d.name); vc_assert(x.isValid() && x.numDataElements()==d.el.size() && r.compressedDatasetType(d.name)==OgawaTypeTraits<T>::typeEnum(), "a compressed data set is found with its elements"); \
      if (x.isValid()) for (size_t e=0;e<d.el.size() && e<x.numDataElements();e++) { size_t n = d.el[e].size(); vc_assert(x.dataSize(e,0)==n, "a compressed element has the length written"); if (x.dataSize(e,0)!=n) continue; \
        std::vector<uint8_t> b(n+1); bool ok = x.getData(e,&b[0],0); vc_assert(ok && (n==0 || memcmp(&b[0],&d.el[e][0],n)==0), "a compressed element has the content written"); } \
      vc_assert(!r.findDataset<T>(d.name).isValid(), "a compressed data set is not a plain one"); }
    TYPES(RD)
    if (d.type != 2) vc_assert(!r.findDataset<float32_t>(d.name).isValid() && !r.findCompressedDataset<float32_t>(d.name).isValid(), "a data set is not found under another type");
  }
  for (auto &s : g.sub) { check(r.findGroup(s.name), s, root, path+s.name+"/"); 
    OgIGroup p = root.findGroup(path+s.name); vc_assert(p.isValid() && p.name()==s.name && p.attributeNames().size()==s.at.size(), "a group is found by its path"); }
  vc_assert(!r.findGroup("no such").isValid() && !r.findAttribute<float32_t>("no such").isValid() && !r.findDataset<float32_t>("no such").isValid(), "what was not written is not found");
}
VC_HARNESS(og_roundtrip) {
  std::stringstream s; Grp g; g.name = "f3droot";
  { OArchive a(&s); OgOGroup root(a); write(root,g,0); }
  Image r(s.str(),0,1); OgIGroup root(*r.ar);
  std::streambuf *old = std::cout.rdbuf(0); check(root,g,root,""); std::cout.rdbuf(old);
}
// block reader: every block decompresses to the values written
VC_HARNESS(block_reader) {
  std::stringstream s; long nv = pick(1,64), nb = pick(0,6); bool cmp = vc_bool("cmp"); std::vector<std::vector<float> > v(nb, std::vector<float>(nv));
  for (auto &b : v) for (auto &x : b) x = (float)vc_int("val",-3,3);
  { OArchive a(&s); OgOGroup root(a);
    if (cmp) { OgOCDataset<float> d(root,"data"); for (auto &b : v) { std::vector<uint8_t> c(compressBound(nv*4)); uLong l = c.size(); compress2(&c[0],&l,(uint8_t*)&b[0],nv*4,1); d.addData(l,&c[0]); } }
    else { OgODataset<float> d(root,"data"); for (auto &b : v) d.addData(nv,&b[0]); } }
  Image r(s.str(),0,1); OgIGroup root(*r.ar); vc_allow_throw(false);
  OgSparseDataReader<float> rd(root,nv,nb,cmp);
  for (long k=0;k<nb+2 && nb;k++) { long i = pick(0,nb-1); std::vector<float> out(nv,99.f); rd.readBlock(i,&out[0]); vc_assert(out == v[i], "a block reads back the voxels written, in any order of reading"); }
  bool threw = false; try { OgSparseDataReader<float> bad(root,nv,nb+1,cmp); } catch (std::exception &) { threw = true; } catch (...) { threw = true; } vc_assert(threw, "a block count that does not match the file is refused");
  threw = false; try { OgSparseDataReader<double> bad(root,nv,nb,cmp); } catch (...) { threw = true; } vc_assert(threw, "a type that does not match the file is refused");
}
