// C23: any byte sequence opened and walked as an archive is refused or read without leaving the buffers involved.
#include "ogtree.h"
#include <boost/shared_ptr.hpp>
#include "OgIO.h"
#include "OgSparseDataReader.h"
using namespace Field3D;
// a small valid archive (Field3D layer on top), then damaged
static std::string image() {
  std::stringstream s;
  if (vc_bool("plain")) { Builder b(&s); long n = pick(0,16); for (long i=0;i<n;i++) b.op(); b.finish(); }
  else { OArchive a(&s); OgOGroup root(a); long n = pick(0,5);
    for (long i=0;i<n;i++) { std::string nm = "n"+std::to_string(i); long k = pick(0,6);
      if (k==0) OgOAttribute<float32_t>(root,nm,1.5f); else if (k==1) OgOAttribute<std::string>(root,nm,"text"); else if (k==2) OgOAttribute<veci32_t>(root,nm,veci32_t(1,2,3));
      else if (k==3) { OgODataset<float32_t> d(root,"data"); float f[8]={1,2,3,4,5,6,7,8}; d.addData(8,f); d.addData((size_t)pick(0,8),f); }
      else if (k==4) { OgOCDataset<float32_t> d(root,"data"); float f[8]={0,0,1,1,2,2,3,3}; uint8_t c[200]; uLong l=200; compress2(c,&l,(uint8_t*)f,32,1); d.addData(l,c); d.addData(l,c); }
      else { OgOGroup g(root,nm); OgOAttribute<int32_t>(g,"x",7); if (k==6) { OgOGroup h(g,"deep"); OgOAttribute<float64_t>(h,"y",7); } } } }
  return s.str();
}
static void damage(std::string &s) {
  long n = pick(0,6); static const uint64_t W[] = {0,1,2,3,8,9,0x7fffffffffffffffull,0x8000000000000000ull,0x8000000000000001ull,~0ull,~0ull-7,~0ull/8,~0ull/8+2,0x100000000ull,0x2000000000000000ull,0x2000000000000001ull,1ull<<40,16,17,24};
  for (long i=0;i<n && !s.empty();i++) { long k = pick(0,5);
    if (k==0) s[pick(0,s.size()-1)] = (char)vc_int("byte",0,255);
    else if (k==1) s.resize((size_t)pick(0,s.size()));
    else if (k==2) { size_t a = (size_t)pick(0,s.size()-1); uint64_t w = W[pick(0,19)]; memcpy(&s[a],&w,std::min<size_t>(8,s.size()-a)); }
    else if (k==3 && s.size() >= 16) { uint64_t w = (uint64_t)pick(0,(long)s.size()+8) | (vc_bool("top") ? 0x8000000000000000ull : 0); size_t a = (size_t)pick(1,s.size()/8-1)*8; memcpy(&s[a],&w,8); }
    else if (k==4 && s.size() >= 24) { size_t a = (size_t)pick(0,s.size()-8); uint64_t w; memcpy(&w,&s[a],8); w += pick(-3,9); memcpy(&s[a],&w,8); }
    else if (k==5 && s.size() >= 8) { if (pick(0,2)==0) { s[5+pick(0,2)] = (char)vc_int("byte",0,255); } else { uint64_t w = (uint64_t)pick(0,(long)s.size()); if (s.size()>=16) memcpy(&s[8],&w,8); } }
  }
}
static long budget; static size_t total;
static void block(IDataPtr d, size_t thr) {
  Alembic::Util::uint64_t n = d->getSize();
  vc_assert(n <= total, "a block is never larger than the archive it is in"); if (n > total) return;
  std::vector<unsigned char> b(n+1,0x11); d->read(n,&b[0],0,thr); vc_assert(b[n]==0x11,"a read stays in its buffer");
  uint64_t off = (uint64_t)pick(0,40); if (vc_bool("far")) off = ~0ull - (uint64_t)pick(0,40); uint64_t len = (uint64_t)pick(0,16); unsigned char p[17]; memset(p,0x22,17); d->read(len,p,off,thr);
  bool in = off <= n && len <= n-off; bool untouched = true; for (int i=0;i<17;i++) untouched = untouched && p[i]==0x22;
  if (!in) vc_assert(untouched, "a read that would leave the block reads nothing");
}
static void walk(IGroupPtr g, int depth) {
  if (!g || depth > 5) return;
  uint64_t n = g->getNumChildren(); vc_assert(n <= total/8, "a group never has more children than the archive has room for"); if (n > total/8) return;
  for (uint64_t i=0;i<n+1 && budget>0;i++) { --budget; size_t thr=(size_t)pick(0,2);
    g->isChildGroup(i); g->isChildData(i); g->isEmptyChildGroup(i); g->isEmptyChildData(i);
    IDataPtr d = g->getData(i,thr); IGroupPtr c = g->getGroup(i,vc_bool("light"),thr);
    if (d) block(d,thr); if (c) walk(c,depth+1); }
  vc_assert(!g->getData(~0ull,0) && !g->getGroup(~0ull,false,0) && !g->isChildData(n) && !g->isChildGroup(n), "an index past the end is refused");
}
VC_HARNESS(walk_raw) {
  std::string s = image(); damage(s); total = s.size(); budget = 60; vc_allow_throw(true);
  Image r(s,0,(int)pick(1,2)); 
  vc_assert(!r.ar->isValid() || (s.size()>=8 && s.compare(0,5,"Ogawa")==0 && s[6]==0 && s[7]==1), "only a version 1 archive is valid");
  if (r.ar->isValid()) walk(r.ar->getGroup(),0); else vc_assert(!r.ar->getGroup(), "an invalid archive has no tree");
}
template <class T> static void sets(const OgIGroup &g, const std::string &n) {
  OgIDataset<T> d = g.findDataset<T>(n); 
  if (d.isValid()) { size_t k = d.numDataElements(); vc_assert(k <= total/8, "no more elements than the archive has room for"); if (k <= total/8) for (size_t e=0;e<k+1 && --budget>0;e++) { uint64_t l = d.dataSize(e,0); if (l == OGAWA_INVALID_DATASET_INDEX) { T x; vc_assert(!d.getData(e,&x,0),"a missing element is refused"); continue; } vc_assert(l <= total,"an element is never larger than the archive"); if (l > total) continue; T *b = new T[l]; d.getData(e,b,0); delete[] b; } }
  OgICDataset<T> c = g.findCompressedDataset<T>(n);
  if (c.isValid()) { size_t k = c.numDataElements(); vc_assert(k <= total/8, "no more elements than the archive has room for"); if (k <= total/8) for (size_t e=0;e<k+1 && --budget>0;e++) { uint64_t l = c.dataSize(e,0); if (l == OGAWA_INVALID_DATASET_INDEX) continue; vc_assert(l <= total,"an element is never larger than the archive"); if (l > total) continue; uint8_t *b = new uint8_t[l]; c.getData(e,b,0); delete[] b; } }
}
template <class T> static void att(const OgIGroup &g, const std::string &n) { OgIAttribute<T> a = g.findAttribute<T>(n); if (a.isValid()) a.value(); }
static void ogwalk(const OgIGroup &g, int depth) {
  if (!g.isValid() || depth > 4 || --budget < 0) return;
  for (auto &n : g.attributeNames()) { att<float32_t>(g,n); att<std::string>(g,n); att<veci32_t>(g,n); att<int32_t>(g,n); att<float64_t>(g,n); g.attributeType(n); }
  std::vector<std::string> l = g.datasetNames(), c = g.compressedDatasetNames(); l.insert(l.end(),c.begin(),c.end());
  for (auto &n : l) { sets<float32_t>(g,n); sets<float64_t>(g,n); g.datasetType(n); g.compressedDatasetType(n); }
  for (int cmp=0;cmp<2;cmp++) for (size_t nb=1;nb<3;nb++) try { long nv = pick(1,9); OgSparseDataReader<float> rd(g,nv,nb,cmp); for (size_t k=0;k<nb;k++) { float *f = new float[nv]; rd.readBlock(k,f); delete[] f; } } catch (Exc::Exception &) { }
  for (auto &n : g.groupNames()) { ogwalk(g.findGroup(n),depth+1); g.findGroup(n+"/deep"); }
}
VC_HARNESS(walk_og) {
  std::string s = image(); damage(s); total = s.size(); budget = 150; vc_allow_throw(true);
  std::streambuf *old = std::cout.rdbuf(0); struct R { std::streambuf *o; ~R(){ std::cout.rdbuf(o); } } rr = {old};
  Image r(s,0,1); OgIGroup root(*r.ar); ogwalk(root,0);
}
VC_HARNESS(walk_garbage) {
  long n = pick(0,80); std::string s((size_t)n,0); for (auto &c : s) c = (char)(vc_bool("z") ? 0 : vc_int("byte",0,255)); const char H[] = "Ogawa\xff\0\1"; for (size_t i=0;i<8 && i<s.size();i++) s[i]=H[i];
  if (n >= 16) { uint64_t w = (uint64_t)pick(0,n); memcpy(&s[8],&w,8); }
  for (long a=16;a+8<=n;a+=8) { uint64_t w = (uint64_t)pick(0,n); if (vc_bool("t")) w |= 0x8000000000000000ull; if (vc_bool("k")) memcpy(&s[a],&w,8); }
  total = s.size(); budget = 60; vc_allow_throw(true);
  Image r(s,0,1); if (r.ar->isValid()) walk(r.ar->getGroup(),0);
  budget = 60; std::streambuf *old = std::cout.rdbuf(0); { OgIGroup root(*r.ar); ogwalk(root,0); } std::cout.rdbuf(old);
}
