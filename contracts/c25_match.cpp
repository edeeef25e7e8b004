// C25: pattern lists select exactly the fields they describe; file sequences expand to one name per frame.
#include "vc.h"
#include <boost/shared_ptr.hpp>
#include "PatternMatch.h"
#include "FileSequence.h"
#include "DenseField.h"
#include <fstream>
#include <unistd.h>
#include <cstdlib>
using namespace Field3D;
static long pick(long lo, long hi) { return vc_int("op",lo,hi); }
typedef std::vector<std::string> SV;
static std::string word(const char *alpha, long max) { std::string s; size_t k = strlen(alpha); for (long n = pick(0,max); n > 0; n--) s += alpha[pick(0,(long)k-1)]; return s; }
// the specification of a wildcard match: '?' any one character, '*' any run, '[..]' a set, everything else itself
static bool glob(const char *p, const char *s) {
  for (; *p; ++p) {
    if (*p == '*') { for (const char *t = s; ; ++t) { if (glob(p+1,t)) return true; if (!*t) return false; } }
    if (*p == '[') { const char *e = p+1; bool neg = *e=='!'; if (neg) ++e; const char *b = e; if (*e) ++e; while (*e && *e != ']') ++e; if (*e == ']') { if (!*s) return false; bool in = false; for (const char *q = b; q < e; ++q) { if (q+2 < e && q[1]=='-') { in = in || (q[0] <= *s && *s <= q[2]); q += 2; } else in = in || *q == *s; } if (in == neg) return false; ++s; p = e; continue; } }
    if (!*s || (*p != '?' && *p != *s)) return false; ++s;
  }
  return !*s;
}
static bool excl(const std::string &p) { return p[0]=='-' || p[0]=='^'; }
static bool sel(const std::string &n, const std::string &a, const SV &ps, bool emptyOk) {
  if (ps.empty()) return emptyOk; bool inc = false, exc = false;
  for (auto &i : ps) { if (i.empty()) continue; std::string p = excl(i) ? i.substr(1) : i; bool m = glob(p.c_str(), (p.find(':') != std::string::npos ? n+":"+a : a).c_str()); if (m) (excl(i) ? exc : inc) = true; }
  return inc && !exc;
}
static bool selA(const std::string &a, const SV &ps, bool emptyOk) {
  if (ps.empty()) return emptyOk; bool inc = false, exc = false;
  for (auto &i : ps) { if (i.empty()) continue; std::string p = excl(i) ? i.substr(1) : i; size_t c = p.find(':'); if (c != std::string::npos) p = p.substr(c+1); if (glob(p.c_str(),a.c_str())) (excl(i) ? exc : inc) = true; }
  return inc && !exc;
}
static std::string pat() { static const char *B[] = {"*","a*","*a","a:b","*:*","a:*","*:b","-a","^b","-*:b","^a:*","-a*","?","[ab]","[!a]","[a-c]b","","-","^","ab","a:","b"}; return pick(0,2) ? std::string(B[pick(0,21)]) : word("ab:*?-^.\\A",5); }
VC_HARNESS(patterns) {
  std::string n = pick(0,2) ? std::string(1,(char)('a'+pick(0,2))) : word("abA.:-*/",4), a = pick(0,2) ? std::string(1,(char)('a'+pick(0,2))) : word("abA.:-*\\ ",4);
  SV ps; for (long k = pick(0,4); k > 0; k--) ps.push_back(pat());
  MatchFlags fl = vc_bool("empty") ? MatchEmptyPattern : MatchNoFlags;
  vc_assert(match(n,a,ps,fl) == sel(n,a,ps,fl==MatchEmptyPattern), "a pattern list selects exactly the fields an including and no excluding pattern matches");
  vc_assert(match(a,ps,fl) == selA(a,ps,fl==MatchEmptyPattern), "matching an attribute alone uses the attribute part of each pattern");
  DenseField<float>::Ptr f(new DenseField<float>); f->name = n; f->attribute = a; vc_assert(match(f.get(),ps,fl) == sel(n,a,ps,fl==MatchEmptyPattern), "a field is matched by its name and attribute");
  std::string j; SV w; for (size_t i=0;i<ps.size();i++) { if (i) j += std::string((size_t)pick(1,2),' '); j += ps[i]; } if (vc_bool("trail")) j += " ";
  std::string cur; for (char ch : j) { if (ch==' ') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) w.push_back(cur);
  vc_assert(split(j) == w, "a pattern string splits at its spaces");
  vc_assert(match(n,a,j,fl) == sel(n,a,w,fl==MatchEmptyPattern), "a pattern string means the list of its words");
  vc_assert(match(a,j,fl) == selA(a,w,fl==MatchEmptyPattern), "a pattern string means the list of its words (attribute)"); vc_assert(match(f.get(),j,fl) == sel(n,a,w,fl==MatchEmptyPattern), "a pattern string means the list of its words (field)");
  vc_assert(match(n,a,ps) == sel(n,a,ps,true), "an empty list selects everything by default");
}
VC_HARNESS(splitting) {
  std::string s = word("ab ,;:",12), sep = pick(0,1) ? " " : word(",;: ",3); if (sep.empty()) sep = ","; SV w; std::string cur;
  for (char c : s) { if (sep.find(c) != std::string::npos) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) w.push_back(cur);
  vc_assert(split(s,sep) == w, "splitting returns the non-empty pieces between separators, in order");
}
static std::string scratch() { static std::string d; if (d.empty()) { char t[] = "/tmp/vc25XXXXXX"; if (!mkdtemp(t)) abort(); d = t; atexit([]{ std::string c = d; for (int i=0;i<4;i++) unlink((c+"/f"+std::to_string(i)).c_str()); unlink((c+"/a1-3#.f3d").c_str()); unlink((c+"/x1-2@y").c_str()); rmdir(c.c_str()); }); } return d; }
static void touch(const std::string &f) { std::ofstream o(f.c_str()); o << "x"; }
VC_HARNESS(sequences) {
  std::streambuf *oldc = std::cout.rdbuf(0), *olde = std::cerr.rdbuf(0); struct R { std::streambuf *c,*e; ~R(){ std::cout.rdbuf(c); std::cerr.rdbuf(e); } } rr = {oldc,olde};
  std::string base = pick(0,2) ? "/nonexistent/" : "", tail = word("abf3d.-_0 9",6); base += word("ab./-_ 1",6); base += "a-._/ "[pick(0,5)];
  static const long S[] = {0,1,2,9,10,99,100,999,1000,12345}; long a = pick(0,2) ? S[pick(0,9)] : pick(0,300), b = pick(0,3) ? a+pick(-3,30) : S[pick(0,9)]; if (b < 0) b = 0; if (b > a+2000) b = a+2000;
  std::string za = std::string((size_t)(pick(0,3) ? 0 : pick(1,3)),'0')+std::to_string(a), zb = std::string((size_t)(pick(0,3) ? 0 : pick(1,3)),'0')+std::to_string(b);
  std::string s = base+za+"-"+zb+(vc_bool("at") ? "@" : "#")+tail; FileSequence q(s);
  vc_assert((long)q.size() == (b >= a ? b-a+1 : 0) && q.filenames().size() == q.size(), "one file name per frame of the inclusive range");
  for (size_t i=0;i<q.size();i++) vc_assert(q.filename(i) == base+std::to_string(a+(long)i)+tail && q.filenames()[i] == q.filename(i), "frame names in order: base, frame number, rest");
}
VC_HARNESS(names) {
  std::streambuf *oldc = std::cout.rdbuf(0), *olde = std::cerr.rdbuf(0); struct R { std::streambuf *c,*e; ~R(){ std::cout.rdbuf(c); std::cerr.rdbuf(e); } } rr = {oldc,olde};
  std::string d = scratch(), f; switch (pick(0,2)) { case 0: f = d+"/f"+std::to_string(pick(0,3)); break; case 1: f = d+"/a1-3#.f3d"; break; default: f = d+"/x1-2@y"; }
  bool there = vc_bool("there"); if (there) touch(f); else unlink(f.c_str()); FileSequence q(f);
  if (there) vc_assert(q.size()==1 && q.filename(0)==f, "an existing plain file name expands to itself"); else vc_assert(q.size() == (f[d.size()+1]=='f' ? 0u : f[d.size()+1]=='a' ? 3u : 2u), "a name that is neither a file nor a sequence expands to nothing");
  FileSequence g(d+"/"+word("ab12#@-.",7)); for (size_t i=0;i<g.size() && i<3;i++) g.filename(i); vc_assert(FileSequence().size()==0, "the default sequence is empty");
  FileSequence h("/nonexistent/a1-2#b3-4@c"); vc_assert(h.size()==0, "two sequence marks are refused"); FileSequence k("/nonexistent/a5#"), l("/nonexistent/plain.f3d"); vc_assert(k.size()==0 && l.size()==0, "no range, no frames");
}
