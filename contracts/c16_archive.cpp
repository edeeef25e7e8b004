// C16: an archive reads back exactly the tree that was written.
#include "ogtree.h"
static void sameData(const MData &m, IDataPtr d, size_t thr) {
  vc_assert(d.get() != 0, "a data child is found"); if (!d) return;
  vc_assert(d->getSize() == m.b.size(), "a block has the size it was written with");
  if (d->getSize() != m.b.size()) return;
  size_t n = m.b.size(); std::vector<unsigned char> r(n+1,0xA5);
  d->read(n,&r[0],0,thr);
  bool ok = true; for (size_t i=0;i<n;i++) ok = ok && r[i]==m.b[i];
  vc_assert(ok && r[n]==0xA5, "a block has the bytes it was written with");
  long off = pick(0,(long)n+1), len = pick(0,(long)n+2-off); std::vector<unsigned char> p(len+1,0x5A);
  d->read(len,&p[0],off,thr);
  bool in = off+len <= (long)n; ok = true; for (long i=0;i<len;i++) ok = ok && p[i] == (in ? m.b[off+i] : 0x5A);
  vc_assert(ok && p[len]==0x5A, "a partial read gives those bytes of the whole, or nothing when it would leave the block");
  std::vector<unsigned char> w(1,0x77); d->read(~0ull-3,&w[0],5,thr); vc_assert(w[0]==0x77, "a read with an absurd size reads nothing");
}
static void sameTree(const MGroup &m, IGroupPtr g, bool light, int depth) {
  vc_assert(g.get() != 0, "a group child is found"); if (!g) return;
  vc_assert(g->getNumChildren() == m.ch.size(), "a group has the number of children it was written with");
  if (g->getNumChildren() != m.ch.size()) return;
  bool isl = g->isLight(); vc_assert(!isl || (light && m.ch.size() > 8), "only large groups opened light stay light");
  size_t thr = (size_t)pick(0,3);
  for (size_t i=0;i<m.ch.size();i++) {
    const MGroup::Ch &c = m.ch[i];
    if (!isl) { vc_assert(g->isChildGroup(i)==c.group && g->isChildData(i)==!c.group, "each child has the kind it was written with");
      if (c.group) vc_assert(g->isEmptyChildGroup(i) == c.g->ch.empty(), "an empty group is known to be empty"); else vc_assert(g->isEmptyChildData(i) == c.d->b.empty(), "an empty block is known to be empty"); }
    if (c.group) { vc_assert(!g->getData(i,thr), "a group is not read as data"); bool l = pick(0,1); sameTree(*c.g, g->getGroup(i,l,thr), l, depth+1); }
    else { vc_assert(!g->getGroup(i,false,thr), "data is not read as a group"); sameData(*c.d, g->getData(i,thr), thr); }
  }
  vc_assert(!g->getGroup(m.ch.size(),false,thr) && !g->getData(m.ch.size(),thr), "there is no child past the last");
}
VC_HARNESS(archive_roundtrip) {
  std::string pre((size_t)pick(0,9),'x'); std::stringstream s; s << pre; 
  std::unique_ptr<Builder> b(new Builder(&s));
  long n = pick(0,26); for (long i=0;i<n;i++) b->op();
  { Image u(s.str(), pre.size(), 1); vc_assert(u.ar->isValid() && !u.ar->isFrozen(), "an archive still being written is recognised as unfinished"); }
  MGroupP root = b->root; b->finish(); b.reset();
  Image r(s.str(), pre.size(), (int)pick(1,3));
  vc_assert(r.ar->isValid() && r.ar->isFrozen() && r.ar->getVersion()==1, "a finished archive is valid and finished");
  sameTree(*root, r.ar->getGroup(), false, 0);
}
// wide groups
VC_HARNESS(archive_wide) {
  std::stringstream s; std::unique_ptr<Builder> b(new Builder(&s));
  long n = pick(0,40); OGroupPtr g = b->gs[0].o; MGroupP m = b->root;
  for (long i=0;i<n;i++) { MGroup::Ch c; c.group = pick(0,3)==0; if (c.group) { OGroupPtr o = g->addGroup(); c.g.reset(new MGroup); long k = pick(0,11); for (long q=0;q<k;q++) { Bytes x = anyBytes(3); o->addData(x.size(), x.empty()?(void*)"":&x[0]); MGroup::Ch d; d.group=false; d.d.reset(new MData); d.d->b=x; c.g->ch.push_back(d); } }
    else { Bytes x = anyBytes(3); g->addData(x.size(), x.empty()?(void*)"":&x[0]); c.d.reset(new MData); c.d->b=x; } m->ch.push_back(c); }
  g.reset(); MGroupP root = b->root; b->finish(); b.reset();
  Image r(s.str(), 0, (int)pick(1,2));
  sameTree(*root, r.ar->getGroup(), false, 0);
}
