// C03: MAC fields store one independent value per face; cell centres are face averages; conversions keep the relation.
#include "fields.h"
#include "MACFieldUtil.h"
typedef MACField<V3d> MacD; typedef MACField<V3f> MacF;
template <class T> static void havMac(MACField<T> &m) {
  typedef typename T::BaseType S; int k = sizeof(S)==4 ? 'f' : 'd';
  vc_havoc(&m.m_u[0], m.m_u.size(), sizeof(S), k, "u"); vc_havoc(&m.m_v[0], m.m_v.size(), sizeof(S), k, "v"); vc_havoc(&m.m_w[0], m.m_w.size(), sizeof(S), k, "w");
}
template <class T> static const typename T::BaseType &face(const MACField<T> &m, int c, const V3i &p) { return c==0 ? m.u(p.x,p.y,p.z) : c==1 ? m.v(p.x,p.y,p.z) : m.w(p.x,p.y,p.z); }
template <class T> static typename T::BaseType &faceW(MACField<T> &m, int c, const V3i &p) { return c==0 ? m.u(p.x,p.y,p.z) : c==1 ? m.v(p.x,p.y,p.z) : m.w(p.x,p.y,p.z); }
static Box3i faceBox(const Box3i &dw, int c) { Box3i b = dw; if (c==0) b.max.x++; if (c==1) b.max.y++; if (c==2) b.max.z++; return b; }
template <class T> static void faces(int c, int d) {
  Box3i dw = NEWBOX(dw, 1<<20, 4);
  MACField<T> m; m.setSize(Box3i(V3i(0),V3i(7)), dw);
  vc_assert(m.dataWindow() == dw, "the data window is what was requested");
  Box3i bc = faceBox(dw,c), bd = faceBox(dw,d);
  V3i p = ANYIN(p,bc), q = ANYIN(q,bd);
  typename T::BaseType v = (typename T::BaseType)vc_real("val",-1e6,1e6);
  havMac(m);
  typename T::BaseType old = face(m,d,q);
  faceW(m,c,p) = v;
  vc_assert(face(m,c,p) == v, "a face returns the value written to it");
  if (!(c==d && same3(p,q))) vc_assert(face(m,d,q) == old, "writing a face changes no other face");
}
VC_HARNESS(faces_f) { int c = (int)vc_case("c",0,2), d = (int)vc_case("d",0,2); faces<V3f>(c,d); }
VC_HARNESS(faces_d) { int c = (int)vc_case("c",0,2); faces<V3d>(c,c); }
VC_HARNESS(centre) {
  Box3i dw = NEWBOX(dw, 1<<20, 4);
  MacD m; m.setSize(dw); 
  V3i p = ANYIN(p,dw);
  havMac(m);
  double cu = (m.u(p.x,p.y,p.z)+m.u(p.x+1,p.y,p.z))*0.5, cv = (m.v(p.x,p.y,p.z)+m.v(p.x,p.y+1,p.z))*0.5, cw = (m.w(p.x,p.y,p.z)+m.w(p.x,p.y,p.z+1))*0.5;
  V3d v = m.value(p.x,p.y,p.z);
  vc_assert_close(v.x,cu,1e-9,"cell centre u is the average of its two faces"); vc_assert_close(v.y,cv,1e-9,"cell centre v is the average of its two faces"); vc_assert_close(v.z,cw,1e-9,"cell centre w is the average of its two faces");
  vc_assert_close(m.uCenter(p.x,p.y,p.z),cu,1e-9,"uCenter averages"); vc_assert_close(m.vCenter(p.x,p.y,p.z),cv,1e-9,"vCenter averages"); vc_assert_close(m.wCenter(p.x,p.y,p.z),cw,1e-9,"wCenter averages");
  V3d l = m.lvalue(p.x,p.y,p.z); vc_assert(l == v, "lvalue shows the cell centre value");
  m.lvalue(p.x,p.y,p.z) = V3d(1,2,3);
  vc_assert(m.value(p.x,p.y,p.z) == v, "writing through lvalue changes no face");
}
VC_HARNESS(clear_all) {
  Box3i dw = NEWBOX(dw, 1<<15, 4); int c = (int)vc_case("c",0,2);
  MacF m; m.setSize(dw); V3f v(Elem<float>::any("a"),Elem<float>::any("b"),Elem<float>::any("c"));
  V3i p = ANYIN(p,faceBox(dw,c));
  m.clear(v);
  vc_assert(face(m,c,p) == v[c], "clear sets every face");
}
// resizing an already used field
VC_HARNESS(resize_again) {
  Box3i d0 = NEWBOX(d0, 1<<10, 4), dw = NEWBOX(dw, 1<<10, 4); int c = (int)vc_case("c",0,2);
  MacF m; m.setSize(d0); m.setSize(dw);
  V3i p = ANYIN(p,faceBox(dw,c)), q = ANYIN(q,faceBox(dw,c)); float v = Elem<float>::any("v");
  havMac(m); float old = face(m,c,q);
  faceW(m,c,p) = v;
  vc_assert(face(m,c,p) == v, "after a second resize a face returns the value written to it");
  if (!same3(p,q)) vc_assert(face(m,c,q) == old, "after a second resize writing a face changes no other face");
}
VC_HARNESS(copy_mac) {
  Box3i dw = NEWBOX(dw, 1<<10, 4); int c = (int)vc_case("c",0,2);
  MacF::Ptr m(new MacF); m->setSize(dw); havMac(*m);
  V3i p = ANYIN(p,faceBox(dw,c));
  float o = face(*m,c,p), x = Elem<float>::any("x");
  MacF::Ptr n(new MacF); n->copyMAC(m);
  vc_assert(n->dataWindow() == dw && n->extents() == m->extents(), "copyMAC takes over extents and data window");
  vc_assert(face(*n,c,p) == o, "copyMAC copies every face");
  faceW(*n,c,p) = x;
  vc_assert(face(*m,c,p) == o, "the copy is independent of the original");
}
// conversions
static M44d anyMapping(bool rot) {
  M44d m; m.makeIdentity();
  V3d s(vc_real("sx",0.5,4),vc_real("sy",0.5,4),vc_real("sz",0.5,4)), r(vc_real("rx",-1.4,1.4),vc_real("ry",-1.4,1.4),vc_real("rz",-1.4,1.4)), t(vc_real("tx",-9,9),vc_real("ty",-9,9),vc_real("tz",-9,9));
  int k = (int)vc_int("rotk",0,4);
  if (!rot || k==0) r = V3d(0); if (k==1) r = V3d(r.x,0,0); if (k==2) r = V3d(0,r.y,0); if (k==3) r = V3d(0,0,r.z);
  m.translate(t); m.rotate(r); if (vc_bool("scaled")) m.scale(s); return m;
}
static V3d simToWorld(const M44d &m, const V3d &v) { V3d s,h,r,t; if (extractSHRT(m,s,h,r,t,false)) { M44d R; R.rotate(r); return v*R; } return v; }
static double rotTol(const M44d &m) { V3d s,h,r,t; return extractSHRT(m,s,h,r,t,false) && r.length2() < 1e-6 ? 2e-3 : 1e-6; }   // tiny rotations may be ignored
VC_HARNESS(to_cell_centred) {
  Box3i dw = NEWBOX(dw,6,5); M44d m = anyMapping(true);
  MacD::Ptr mac(new MacD); mac->setSize(dw);
  MatrixFieldMapping::Ptr mp(new MatrixFieldMapping); mp->setLocalToWorld(m); mac->setMapping(mp);
  havMac(*mac);
  bool sparse = vc_bool("sparse");
  DenseField<V3d>::Ptr d(new DenseField<V3d>); SparseField<V3d>::Ptr s(new SparseField<V3d>);
  if (vc_bool("presized")) { d->setSize(mac->extents(),mac->dataWindow()); s->setSize(V3i(3)); }
  convertMACToCellCentered<V3d,DenseField<V3d> >(mac,d);
  if (sparse) convertMACToCellCentered<V3d,SparseField<V3d> >(mac,s);
  vc_assert(d->dataWindow()==dw && d->extents()==mac->extents() && d->mapping()->isIdentical(mac->mapping()), "the cell-centred field takes over window and mapping");
  for (int k=dw.min.z;k<=dw.max.z;++k) for (int j=dw.min.y;j<=dw.max.y;++j) for (int i=dw.min.x;i<=dw.max.x;++i) {
    V3d v((mac->u(i,j,k)+mac->u(i+1,j,k))*0.5,(mac->v(i,j,k)+mac->v(i,j+1,k))*0.5,(mac->w(i,j,k)+mac->w(i,j,k+1))*0.5);
    V3d e = simToWorld(m,v), g = d->value(i,j,k);
    for (int c=0;c<3;++c) { vc_assert_close(g[c],e[c],rotTol(m)*(1+v.length()),"the cell-centred value is the (rotated) average of the faces");
      if (sparse) vc_assert_close(s->value(i,j,k)[c],e[c],rotTol(m)*(1+v.length()),"the sparse cell-centred value is the (rotated) average of the faces"); }
  }
}
VC_HARNESS(from_cell_centred) {
  Box3i dw = NEWBOX(dw,6,5); M44d m = anyMapping(true);
  DenseField<V3d>::Ptr cc(new DenseField<V3d>); cc->setSize(dw);
  MatrixFieldMapping::Ptr mp(new MatrixFieldMapping); mp->setLocalToWorld(m); cc->setMapping(mp);
  havDense(*cc);
  DenseField<V3d> before(*cc);
  MacD::Ptr mac(new MacD); if (vc_bool("presized")) mac->setSize(dw);
  convertCellCenteredToMAC<DenseField<V3d>,V3d>(cc,mac);
  vc_assert(mac->dataWindow()==dw && mac->extents()==cc->extents() && mac->mapping()->isIdentical(cc->mapping()), "the MAC field takes over window and mapping");
  V3d s,h,r,t; M44d R; bool ex = extractSHRT(m,s,h,r,t,false); if (ex) R.rotate(r); M44d Ri = R.inverse();
  for (int c=0;c<3;++c) { Box3i fb = faceBox(dw,c);
    for (int k=fb.min.z;k<=fb.max.z;++k) for (int j=fb.min.y;j<=fb.max.y;++j) for (int i=fb.min.x;i<=fb.max.x;++i) {
      V3i a(i,j,k), b(i,j,k); b[c]--; for (int e=0;e<3;++e) { a[e]=std::min(a[e],dw.max[e]); b[e]=std::max(b[e],dw.min[e]); }
      V3d va = before.value(a.x,a.y,a.z)*Ri, vb = before.value(b.x,b.y,b.z)*Ri;
      vc_assert_close(face(*mac,c,V3i(i,j,k)), (va[c]+vb[c])*0.5, 1e-6*(1+va.length()+vb.length()), "each face is the average of the two adjacent (unrotated) cell values, the edge cell's value at the border");
    } }
  for (int k=dw.min.z;k<=dw.max.z;++k) for (int j=dw.min.y;j<=dw.max.y;++j) for (int i=dw.min.x;i<=dw.max.x;++i) vc_assert(cc->value(i,j,k)==before.value(i,j,k), "the source is not changed");
}
