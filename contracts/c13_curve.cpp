// C13: time curves stay sorted by time and interpolate exactly.
#include "fields.h"
#include "Curve.h"
template <class T> static T anyVal(const char *n) { return (T)vc_real(n,-1000,1000); }
static void sorted(const Curve<double> &c) { for (size_t i=0;i+1<c.m_samples.size();++i) vc_assert(c.m_samples[i].first < c.m_samples[i+1].first, "samples stay strictly sorted by time"); }
// linear() on an arbitrary sorted curve of any length
VC_HARNESS(linear_any_length) {
  long n = vc_intn("n",1,1000000000L,1,40);
  Curve<double> c;
  c.m_samples.resize(n);
  vc_havoc_sorted(&c.m_samples[0].first, n, sizeof(c.m_samples[0]), 'f', "times");
  vc_havoc(&c.m_samples[0].second, n, sizeof(c.m_samples[0]), 'd', "vals");
  float t = (float)vc_real("t",-4000,4000);
  long j = vc_int("j",0,n-1);
  vc_witness(j); vc_witness(j+1);
  float tj = c.m_samples[j].first; double vj = c.m_samples[j].second;
  bool atj = vc_bool("atj"); if (atj) t = tj;
  double r = c.linear(t);
  if (atj) vc_assert_close(r, vj, 1e-9, "the curve passes through every sample");
  if (t <= c.m_samples[0].first) vc_assert_close(r, c.m_samples[0].second, 1e-9, "before the first sample the first value holds");
  if (t >= c.m_samples[n-1].first) vc_assert_close(r, c.m_samples[n-1].second, 1e-9, "after the last sample the last value holds");
  if (j+1 < n) {
    float t1 = c.m_samples[j+1].first; double v1 = c.m_samples[j+1].second;
    if (tj <= t && t < t1) {
      double f = (double)Imath::lerpfactor(t,tj,t1);      // (t-tj)/(t1-tj)
      vc_assert_close(r, (1-f)*vj + f*v1, 0.01, "between two samples the curve is their linear blend");
    }
  }
}
VC_HARNESS(curve_empty) {
  Curve<double> c; float t = (float)vc_real("t",-4000,4000);
  vc_assert(c.linear(t) == 0 && c.numSamples() == 0, "an empty curve evaluates to zero");
  Curve<float> f; vc_assert(f.linear(t) == 0, "an empty float curve evaluates to zero");
  Curve<V3d> v; vc_assert(v.linear(t) == V3d(0), "an empty vector curve evaluates to zero");
  Curve<M44d> m; vc_assert(m.linear(t) == M44d(), "an empty matrix curve evaluates to the identity");
  Curve<Imath::M44f> mf; vc_assert(mf.linear(t) == Imath::M44f(), "an empty float matrix curve evaluates to the identity");
  c.addSample(t, 3); c.clear();
  vc_assert(c.linear(t) == 0 && c.numSamples() == 0, "a cleared curve is empty");
}
// adding samples in any order: sorted, latest value wins, nothing else changes.
// The times are drawn as N increasing values and a complete case split over which sample takes which.
template <int N> static void adding(const long *rank) {
  Curve<double> c; float b[N], t[N]; double v[N];
  b[0] = (float)vc_real("t0",-1e6,1e6);
  if (N>1) { b[1] = (float)vc_real("t1",-1e6,1e6); vc_assume(b[0] < b[1]); }
  if (N>2) { b[2] = (float)vc_real("t2",-1e6,1e6); vc_assume(b[1] < b[2]); }
  for (int i=0;i<N;++i) t[i] = b[rank[i]];
  for (int i=0;i<N;++i) { v[i] = anyVal<double>("v"); c.addSample(t[i],v[i]); }
  sorted(c);
  int distinct = 0;
  for (int i=0;i<N;++i) {
    bool later = false; for (int j=i+1;j<N;++j) if (rank[j] == rank[i]) later = true;
    if (later) continue;
    ++distinct;
    bool found = false;
    for (size_t s=0;s<c.m_samples.size();++s) if (c.m_samples[s].first == t[i]) { found = true; vc_assert(c.m_samples[s].second == v[i], "the latest value for a time is kept"); }
    vc_assert(found, "every added time is present");
  }
  vc_assert((int)c.numSamples() == distinct && c.samples().size() == c.numSamples(), "one sample per distinct time");
  for (int i=0;i<N;++i) { double e=0; for (int j=0;j<N;++j) if (rank[j]==rank[i]) e=v[j]; vc_assert_close(c.linear(t[i]), e, 1e-9, "the curve evaluates to the latest value at every sample time"); }
}
VC_HARNESS(add_1) { long r[1] = {0}; adding<1>(r); }
VC_HARNESS(add_2) { long r[2]; r[0]=vc_case("r0",0,1); r[1]=vc_case("r1",0,1); adding<2>(r); }
VC_HARNESS(add_3) { long r[3]; r[0]=vc_case("r0",0,2); r[1]=vc_case("r1",0,2); r[2]=vc_case("r2",0,2); adding<3>(r); }
VC_HARNESS(add_many) {
  int n = (int)vc_int("n",1,14); Curve<double> c; std::vector<std::pair<float,double> > ref;
  for (int i=0;i<n;++i) { float t = (float)vc_int("t",-5,5)*0.5f; double v = anyVal<double>("v"); c.addSample(t,v);
    bool f=false; for (size_t k=0;k<ref.size();++k) if (ref[k].first==t) { ref[k].second=v; f=true; } if (!f) ref.push_back(std::make_pair(t,v)); 
    sorted(c); vc_assert(c.numSamples()==ref.size(), "one sample per distinct time");
    for (size_t k=0;k<ref.size();++k) vc_assert(c.linear(ref[k].first)==ref[k].second, "the curve evaluates to the latest value at every sample time"); }
  std::sort(ref.begin(), ref.end());
  float t = (float)vc_real("q",-4,4); double r = c.linear(t);
  if (t <= ref[0].first) vc_assert(r == ref[0].second, "before the first sample the first value holds");
  else if (t >= ref.back().first) vc_assert(r == ref.back().second, "after the last sample the last value holds");
  else for (size_t k=0;k+1<ref.size();++k) if (ref[k].first<=t && t<ref[k+1].first) { double f=(t-ref[k].first)/(double)(ref[k+1].first-ref[k].first); vc_assert_close(r, ref[k].second*(1-f)+ref[k+1].second*f, 1e-2, "between samples the curve is the linear blend"); }
}
// other element types go through the same code
VC_HARNESS(curve_types) {
  float t0 = (float)vc_real("t0",-8,8), dt = (float)vc_real("dt",0.5,8), t = (float)vc_real("t",-20,20);
  float t1 = t0+dt;
  V3d a(anyVal<double>("a"),anyVal<double>("a"),anyVal<double>("a")), b(anyVal<double>("b"),anyVal<double>("b"),anyVal<double>("b"));
  bool swap = vc_bool("swap");
  Curve<V3d> c; 
  if (swap) { c.addSample(t1,b); c.addSample(t0,a); } else { c.addSample(t0,a); c.addSample(t1,b); }
  V3d r = c.linear(t);
  float f = t <= t0 ? 0.0f : t >= t1 ? 1.0f : (t-t0)/(t1-t0);
  for (int d=0;d<3;++d) vc_assert_close(r[d], a[d]*(1-(double)f)+b[d]*(double)f, 0.02, "vector curves blend per component");
}
