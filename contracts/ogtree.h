// An abstract archive (the specification) and a random writer that builds the same archive through the real API.
#pragma once
#include "vc.h"
#include "OArchive.h"
#include "IArchive.h"
#include <sstream>
#include <vector>
#include <string>
#include <memory>
using namespace Alembic::Ogawa;
typedef std::vector<unsigned char> Bytes;
struct MData { Bytes b; };
struct MGroup { struct Ch { bool group; std::shared_ptr<MGroup> g; std::shared_ptr<MData> d; }; std::vector<Ch> ch; bool frozen; MGroup():frozen(false){} };
typedef std::shared_ptr<MGroup> MGroupP; typedef std::shared_ptr<MData> MDataP;
static inline long pick(long lo, long hi) { return hi < lo ? lo : vc_int("op",lo,hi); }
static inline Bytes anyBytes(long max) { Bytes b((size_t)pick(0,max)); for (size_t i=0;i<b.size();i++) b[i] = (unsigned char)vc_int("byte",0,255); return b; }
static inline bool reaches(const MGroupP &a, const MGroupP &b) { if (a==b) return true; for (auto &c : a->ch) if (c.group && c.g && reaches(c.g,b)) return true; return false; }
static inline long weight(const MGroupP &a) { long n=1; for (auto &c : a->ch) n += c.group && c.g ? weight(c.g) : 1; return n; }
struct Builder {
  struct H { MGroupP m; OGroupPtr o; }; std::vector<H> gs;
  struct D { MDataP m; ODataPtr o; }; std::vector<D> ds;
  MGroupP root; std::unique_ptr<OArchive> ar;
  Builder(std::ostream *s) : ar(new OArchive(s)) { root.reset(new MGroup); gs.push_back(H{root,ar->getGroup()}); }
  void op() {
    size_t n = (size_t)pick(0,(long)gs.size()-1); H &h = gs[n]; MGroup::Ch c; c.group=false;
    long k = pick(0,12);
    if (weight(root) > 400) return;
    if (k <= 1) { OGroupPtr o = h.o->addGroup(); vc_assert((o.get()!=0) == !h.m->frozen, "a frozen group takes no more children"); if (!o) return; MGroupP m(new MGroup); c.group=true; c.g=m; h.m->ch.push_back(c); gs.push_back(H{m,o}); }
    else if (k <= 4) { Bytes b = anyBytes(24); ODataPtr o = h.o->addData(b.size(), b.empty()?(void*)"":&b[0]); if (h.m->frozen) { vc_assert(!o,"a frozen group takes no more data"); return; } MDataP m(new MData); m->b=b; c.d=m; h.m->ch.push_back(c); ds.push_back(D{m,o}); vc_assert(o->getSize()==b.size(),"a written block knows its size"); }
    else if (k == 5) { Bytes a = anyBytes(12), b = anyBytes(12); Alembic::Util::uint64_t sz[2] = {a.size(),b.size()}; const void *p[2] = {a.empty()?(void*)"":&a[0], b.empty()?(void*)"":&b[0]};
      ODataPtr o = h.o->addData(2,sz,p); if (h.m->frozen) return; MDataP m(new MData); m->b=a; m->b.insert(m->b.end(),b.begin(),b.end()); c.d=m; h.m->ch.push_back(c); ds.push_back(D{m,o}); }
    else if (k == 6) { Bytes b = anyBytes(24); ODataPtr o = h.o->createData(b.size(), b.empty()?(void*)"":&b[0]); if (!o) return; MDataP m(new MData); m->b=b; ds.push_back(D{m,o}); }
    else if (k == 7) { if (ds.empty()) return; D &d = ds[(size_t)pick(0,(long)ds.size()-1)]; h.o->addData(d.o); if (h.m->frozen) return; c.d=d.m; h.m->ch.push_back(c); }
    else if (k == 8) { h.o->addEmptyGroup(); if (h.m->frozen) return; c.group=true; c.g.reset(new MGroup); h.m->ch.push_back(c); }
    else if (k == 9) { h.o->addEmptyData(); if (h.m->frozen) return; c.d.reset(new MData); h.m->ch.push_back(c); }
    else if (k == 10) { H &g = gs[(size_t)pick(0,(long)gs.size()-1)]; if (reaches(g.m,h.m) || weight(g.m)>60 || g.m==root) return; h.o->addGroup(g.o); if (h.m->frozen) return; c.group=true; c.g=g.m; h.m->ch.push_back(c); }
    else if (k == 11) { if (ds.empty()) return; D &d = ds[(size_t)pick(0,(long)ds.size()-1)]; if (d.m->b.empty()) return;
      long off = pick(0,(long)d.m->b.size()), len = pick(0,(long)d.m->b.size()+2); Bytes b((size_t)len+1); for (auto &x : b) x = (unsigned char)vc_int("byte",0,255);
      d.o->rewrite(len,&b[0],off); if (off+len <= (long)d.m->b.size()) for (long i=0;i<len;i++) d.m->b[off+i]=b[i]; }
    else if (k == 12) { long w = pick(0,2);
      if (w == 0 && n) { h.o->freeze(); h.m->frozen = true; }
      else if (w == 1 && !ds.empty() && !h.m->ch.empty()) { D &d = ds[(size_t)pick(0,(long)ds.size()-1)]; long i = pick(0,(long)h.m->ch.size()-1); h.o->replaceData(i,d.o); if (!h.m->ch[i].group) h.m->ch[i].d = d.m; }
    }
    H &q = gs[n]; vc_assert(q.o->getNumChildren() == q.m->ch.size(), "the writer counts every child once");
  }
  void finish() { ds.clear(); while (!gs.empty()) { size_t i = (size_t)pick(0,(long)gs.size()-1); gs[i].m->frozen = false; gs.erase(gs.begin()+i); } ar.reset(); }
};
// readers over a byte image, possibly several streams, possibly with something in front of the archive
struct Image { std::vector<std::unique_ptr<std::istringstream> > ss; std::unique_ptr<IArchive> ar;
  Image(const std::string &s, size_t at, int n) { std::vector<std::istream*> v; for (int i=0;i<n;i++) { ss.emplace_back(new std::istringstream(s)); ss.back()->seekg(at); v.push_back(ss.back().get()); } ar.reset(new IArchive(v)); } };
