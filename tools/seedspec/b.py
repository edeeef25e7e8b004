SEEDS=[
dict(id='c11-bounds-vertex',prop='C11',needs='a rotated mapping and a box whose far lower right corner alone is extremal',breaks='the voxel-space bounds of a world-space box leave out one of its eight corners',
 edits=[('src/FieldMapping.cpp','    V3d(wsBounds.max.x, wsBounds.min.y, wsBounds.max.z),','    V3d(wsBounds.min.x, wsBounds.min.y, wsBounds.max.z),')],
 demo='''#include "FieldMapping.h"
using namespace Field3D;
int main(){ for(int n=0;n<20;n++){ MatrixFieldMapping m(Box3i(V3i(0),V3i(9))); M44d r; r.setEulerAngles(V3d(n*0.3,n*0.7,n*0.9)); m.setLocalToWorld(r); Box3d w(V3d(0.1,0.2,0.3),V3d(0.9,0.7,0.8)), v; worldToVoxel(&m,w,v);
 for(int i=0;i<8;i++){ V3d p(i&1?w.max.x:w.min.x,i&2?w.max.y:w.min.y,i&4?w.max.z:w.min.z), q; m.worldToVoxel(p,q); for(int c=0;c<3;c++) if(q[c]<v.min[c]-1e-6||q[c]>v.max[c]+1e-6) return 1; } } return 0; }
'''),
dict(id='c12-moving-far',prop='C12',needs='a uniform-distribution frustum whose far plane moves with time, transformed at a time other than zero',breaks='world to local uses the far plane of time zero',
 edits=[('src/FieldMapping.cpp','''      double far = m_farCurve.linear(time);
      // Use perspective-space''','''      double far = m_farCurve.linear(0.0f);
      // Use perspective-space''')],
 demo='''#include "FieldMapping.h"
#include <cmath>
using namespace Field3D;
static M44d ss(double far){ double near=1; M44d p(1,0,0,0, 0,1,0,0, 0,0,far/(far-near),1, 0,0,-far*near/(far-near),0), z; z.setScale(V3d(1,1,-1)); return (z*p).inverse(); }
int main(){ FrustumFieldMapping m(Box3i(V3i(0),V3i(9))); m.setTransforms(0.0f,ss(3),M44d()); m.setTransforms(1.0f,ss(9),M44d()); m.setZDistribution(FrustumFieldMapping::UniformDistribution);
 for(int t=0;t<=4;t+=4) for(int n=1;n<9;n++){ V3d l(0.4,0.6,n/10.0), w, b; m.localToWorld(l,w,t/4.0f); m.worldToLocal(w,b,t/4.0f); if(!((l-b).length()<1e-3)) return 1; } return 0; }
'''),
dict(id='c16-empty-part',prop='C16',needs='data written in several parts of which one that is not the last is empty',breaks='the parts after an empty one are not written',
 edits=[('src/OGroup.cpp','''        if (size != 0)
        {
            mData->stream->write(iDatas[i], size);
        }''','''        if (size == 0)
        {
            break;
        }
        mData->stream->write(iDatas[i], size);''')],
 demo='''#include "All.h"
#include <cstdio>
#include <cstring>
#include <unistd.h>
namespace O=Alembic::Ogawa;
int main(){ const char*f="t.ogawa"; unsigned long s[3]={3,0,4}; const void*d[3]={"abc","","defg"}; { O::OArchive a(f); O::OGroupPtr g=a.getGroup(); g->addData(2,(const void*)"xy"); g->addData(3,(Alembic::Util::uint64_t*)s,d); g->addData(2,(const void*)"zw"); }
 O::IArchive a(f); char b[8]={0}, c[3]={0}; O::IDataPtr p=a.getGroup()->getData(1,0); if(p->getSize()!=7) return 1; p->read(7,b,0,0); a.getGroup()->getData(2,0)->read(2,c,0,0); unlink(f); return strcmp(b,"abcdefg")||strcmp(c,"zw"); }
'''),
dict(id='c17-many-samples',prop='C17',needs='a matrix mapping with more than ten time samples written to an Ogawa file',breaks='the eleventh time sample is written under the name of the first',
 edits=[('src/FieldMappingIO.cpp','''    const string timeAttr   = 
      k_matrixMappingTime + boost::lexical_cast<string>(i);
    const string matrixAttr = 
      k_matrixMappingMatrix + boost::lexical_cast<string>(i);
    OgOAttribute<float32_t> time(''','''    const string timeAttr   = 
      k_matrixMappingTime + string(1, static_cast<char>('0' + i % 10));
    const string matrixAttr = 
      k_matrixMappingMatrix + string(1, static_cast<char>('0' + i % 10));
    OgOAttribute<float32_t> time(''')],
 demo='''#include <boost/shared_ptr.hpp>
#include "Field3DFile.h"
#include "DenseField.h"
#include "FieldMapping.h"
#include "InitIO.h"
#include <unistd.h>
using namespace Field3D;
int main(){ initIO(); DenseFieldf::Ptr f(new DenseFieldf); f->setSize(V3i(3)); f->clear(1); f->name="n"; f->attribute="a"; MatrixFieldMapping::Ptr m(new MatrixFieldMapping); for(int i=0;i<14;i++){ M44d x; x[3][0]=i*i; m->setLocalToWorld(i,x);} f->setMapping(m);
 { Field3DOutputFile o; if(!o.create("t.f3d")) return 1; if(!o.writeScalarLayer<float>(f)) return 1; }
 Field3DInputFile in; if(!in.open("t.f3d")) return 1; Field<float>::Vec v=in.readScalarLayers<float>("a"); unlink("t.f3d"); if(v.size()!=1) return 1; return v[0]->mapping()->isIdentical(f->mapping())?0:2; }
'''),
dict(id='c19-moving-level-axis',prop='C19',needs='a base field with a rotating (time-varying) matrix mapping, a MIP level looked up at a time other than zero',breaks='one axis of the levels of a moving pyramid is taken at time zero',
 edits=[('src/MIPUtil.cpp','        mfm->localToWorld(lsY, wsY, sample.first);','        mfm->localToWorld(lsY, wsY);')],
 demo='''#include <boost/shared_ptr.hpp>
#include "FieldInterp.h"
#include "DenseField.h"
#include "MIPField.h"
#include "MIPUtil.h"
#include "FieldMapping.h"
using namespace Field3D;
int main(){ DenseFieldf f; f.setSize(V3i(16)); f.clear(1); MatrixFieldMapping::Ptr m(new MatrixFieldMapping); for(int i=0;i<3;i++){ M44d x; x.setEulerAngles(V3d(0,0,i*0.5)); M44d t; t[3][1]=2*i; m->setLocalToWorld(i,x*t);} f.setMapping(m);
 MIPDenseField<float>::Ptr p=makeMIP<MIPDenseField<float>,BoxFilter>(f,2,1); for(int i=0;i<3;i++) for(size_t l=0;l<p->numLevels();l++){ V3d a,b,P(3,9,5); MatrixFieldMapping::Ptr fm=field_dynamic_cast<MatrixFieldMapping>(f.mapping()), lm=field_dynamic_cast<MatrixFieldMapping>(p->mipLevel(l)->mapping()); fm->voxelToWorld(P,a,i); lm->voxelToWorld(P/(1<<l),b,i); if((a-b).length()>1e-3) return 1; } return 0; }
'''),
dict(id='c25-exclusion-order',prop='C25',needs='an exclusion that comes before the pattern that selects the layer',breaks='an exclusion takes effect only when it follows the pattern that matched',
 edits=[('src/PatternMatch.cpp','''    if (fnmatch(pattern.c_str(), s.c_str(), FNM_NOESCAPE) == 0) {
      if (isExclusion) {
        foundExclusion = true;''','''    if (fnmatch(pattern.c_str(), s.c_str(), FNM_NOESCAPE) == 0) {
      if (isExclusion) {
        foundExclusion = foundExclusion || foundMatch;''')],
 demo='''#include "PatternMatch.h"
#include <cstdio>
using namespace Field3D;
int main(){ std::vector<std::string> a,b; a.push_back("-den*"); a.push_back("*"); b.push_back("*"); b.push_back("-den*"); if(match("n","density",a)) return 1; if(match("n","density",b)) return 1; if(!match("n","vel",a)) return 1; return 0; }
'''),
dict(id='c22-optimized-spot',prop='C22',needs='a MIP field with an object-to-world scale, value remapping and the world-bounds optimization, sampled through sampleMIPMultiple',breaks='the spot size is not brought to object scale on the optimized path',
 edits=[('export/FieldSampler.h','''                const float spotSize = wsSpotSizes[ieval] / field.worldScale;
                const Data_T''','''                const float spotSize = wsSpotSizes[ieval];
                const Data_T''')],
 demo='''#include <boost/shared_ptr.hpp>
#include "FieldInterp.h"
#include "DenseField.h"
#include "MIPField.h"
#include "MIPUtil.h"
#include "MinMaxUtil.h"
#include "FieldGroup.h"
#include <cmath>
#include <cstdio>
using namespace Field3D;
struct R : public ValueRemapOp { float remap(const float v) const { return 2*v; } V3f remap(const V3f &v) const { return v; } };
int main(){ DenseFieldf f; f.setSize(V3i(32)); f.clear(0); for(DenseFieldf::iterator i=f.begin();i!=f.end();++i) *i=(i.x*7+i.y*5+i.z*3)%11; MatrixFieldMapping::Ptr m(new MatrixFieldMapping); f.setMapping(m); typedef MIPField<DenseField<float> > MF; MF::Ptr p=makeMIP<MF,BoxFilter>(f,2,1);
 MIPFieldWrapper<MF> w(p); M44d s; s.setScale(V3d(4)); w.setOsToWs(s); w.setValueRemapOp(ValueRemapOp::Ptr(new R)); w.setWsBoundsOptimization(true); MIPFieldWrapper<MF>::Vec v; v.push_back(w); typedef FieldSampler<MIPFieldWrapper<MF>::Vec,1> S;
 for(int n=0;n<50;n++){ float P[3]={0.5f+n*0.05f,1.7f,2.1f}, spot=0.02f*n, a=0, b=0; size_t h=0, hs[1]={0}; S::sampleMIP(v,V3d(P[0],P[1],P[2]),spot,&a,h); S::sampleMIPMultiple(v,1,P,&spot,&b,hs); if(std::abs(a-b)>1e-3f||h!=hs[0]) return 1; } return 0; }
'''),
]
