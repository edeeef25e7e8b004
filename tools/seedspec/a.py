SEEDS=[
dict(id='c13-close-times',prop='C13',needs='two samples whose times differ by less than 1e-5',breaks='adding a sample close to an existing time overwrites the existing sample instead of inserting a new one',
 edits=[('export/Curve.h','      return test.first == m_match;','      return std::abs(test.first - m_match) < 1e-5f;')],
 demo='''#include "Curve.h"
#include <cstdio>
using namespace Field3D;
int main(){ Curve<float> c; c.addSample(1.0f,10.0f); c.addSample(1.000004f,20.0f); c.addSample(0.0f,0.0f);
 if(c.numSamples()!=3) return 1; if(c.linear(1.0f)!=10.0f) return 1; if(c.linear(1.000004f)!=20.0f) return 1; return 0; }
'''),
dict(id='c02-voxel-alloc-query',prop='C02',needs='a data window that does not start at the origin',
 breaks='voxelIsInAllocatedBlock reports the state of the block at the unshifted coordinates',
 edits=[('export/SparseField.h','''  int bi, bj, bk;
  applyDataWindowOffset(i, j, k);
  getBlockCoord(i, j, k, bi, bj, bk);
  return blockIsAllocated(bi, bj, bk);''','''  int bi, bj, bk;
  getBlockCoord(i - base::m_extents.min.x, j - base::m_extents.min.y, 
                k - base::m_extents.min.z, bi, bj, bk);
  return blockIsAllocated(bi, bj, bk);''')],
 demo='''#include "SparseField.h"
using namespace Field3D;
int main(){ SparseFieldf f; f.setBlockOrder(2); f.setSize(Box3i(V3i(0),V3i(40)),Box3i(V3i(10,6,3),V3i(30,29,28))); f.clear(0.0f); f.fastLValue(20,20,20)=1.0f;
 for(int k=3;k<=28;k++)for(int j=6;j<=29;j++)for(int i=10;i<=30;i++){ bool e=(i-10)/4==2&&(j-6)/4==3&&(k-3)/4==4; if(f.voxelIsInAllocatedBlock(i,j,k)!=e) return 1; } return 0; }
'''),
dict(id='c06-contToDisc-negative',prop='C06',needs='a negative coordinate that is a whole number',breaks='contToDisc maps whole negative coordinates to the voxel below',
 edits=[('export/Field.h','  return static_cast<int>(std::floor(contCoord));','''  // Truncation rounds towards zero
  return contCoord < 0.0 ? static_cast<int>(contCoord) - 1 
    : static_cast<int>(contCoord);''')],
 demo='''#include "Field.h"
using namespace Field3D;
int main(){ for(int i=-50;i<50;i++){ if(contToDisc((double)i)!=i) return 1; if(contToDisc(i+0.5)!=i) return 1; if(contToDisc(i+0.999)!=i) return 1; } return 0; }
'''),
dict(id='c03-vsize-slice',prop='C03',needs='a data window whose x offset differs from its y offset, read through the v component with mixed access paths',
 breaks='the non-const v accessor subtracts the offsets in the wrong order only for windows with min.x != min.y: const and non-const v disagree',
 edits=[('export/MACField.h','''template <class Data_T>
inline typename MACField<Data_T>::real_t& 
MACField<Data_T>::v(int i, int j, int k)
{
  assert (i >= base::m_dataWindow.min.x);
  assert (i <= base::m_dataWindow.max.x);
  assert (j >= base::m_dataWindow.min.y);
  assert (j <= base::m_dataWindow.max.y + 1);
  assert (k >= base::m_dataWindow.min.z);
  assert (k <= base::m_dataWindow.max.z);
  // Add crop window offset
  i -= base::m_dataWindow.min.x;
  j -= base::m_dataWindow.min.y;
  k -= base::m_dataWindow.min.z;
''','''template <class Data_T>
inline typename MACField<Data_T>::real_t& 
MACField<Data_T>::v(int i, int j, int k)
{
  assert (i >= base::m_dataWindow.min.x);
  assert (i <= base::m_dataWindow.max.x);
  assert (j >= base::m_dataWindow.min.y);
  assert (j <= base::m_dataWindow.max.y + 1);
  assert (k >= base::m_dataWindow.min.z);
  assert (k <= base::m_dataWindow.max.z);
  // Add crop window offset
  i -= base::m_dataWindow.min.x;
  j -= base::m_extents.min.y;
  k -= base::m_dataWindow.min.z;
''')],
 demo='''#include "MACField.h"
using namespace Field3D;
int main(){ MACField3f f; Box3i e(V3i(0,-3,0),V3i(9,9,9)), d(V3i(2,-1,1),V3i(5,6,7)); f.setSize(e,d); f.clear(V3f(0));
 int n=0; for(int k=1;k<=7;k++)for(int j=-1;j<=6;j++)for(int i=2;i<=5;i++) f.v(i,j,k)=++n;
 const MACField3f &c=f; n=0; for(int k=1;k<=7;k++)for(int j=-1;j<=6;j++)for(int i=2;i<=5;i++) if(c.v(i,j,k)!=++n) return 1; return 0; }
'''),
dict(id='c21-cache-key',prop='C21',needs='two file/layer pairs whose concatenation without the separator is equal',breaks='the field cache confuses a field of one file and layer with that of another',
 edits=[],demo=''),
]
SEEDS=[s for s in SEEDS if s['edits']]
