// C02: a SparseField stores one value per voxel, or its block's empty value; every access path agrees.
#include "fields.h"
// setSize/setBlockOrder/setupBlocks: the block table covers the data window exactly
VC_HARNESS(sparse_setup) {
  int order = vc_casen("order",0,7,0,4);
  Box3i dw = NEWBOX(d,1024<<order, 20);
  SparseField<float> f;
  f.setBlockOrder(order);
  f.setSize(Box3i(V3i(0),V3i(9)), dw);
  vc_assert(f.dataWindow() == dw, "data window is what was requested");
  vc_assert(f.blockOrder() == order && f.blockSize() == (1<<order), "block size follows the block order");
  V3i r = f.blockRes(), n = dw.size() + V3i(1); int s = 1<<order;
  vc_assert((long)r.x*s >= n.x && (long)(r.x-1)*s < n.x, "blocks cover the window in x without excess");
  vc_assert((long)r.y*s >= n.y && (long)(r.y-1)*s < n.y, "blocks cover the window in y without excess");
  vc_assert((long)r.z*s >= n.z && (long)(r.z-1)*s < n.z, "blocks cover the window in z without excess");
  vc_assert((long)f.m_numBlocks == (long)r.x*r.y*r.z, "one table entry per block");
  V3i p = ANYIN(p,dw);
  vc_assert(f.value(p.x,p.y,p.z) == 0.0f, "a freshly sized field reads as zero");
  vc_assert(!f.voxelIsInAllocatedBlock(p.x,p.y,p.z), "a freshly sized field has no allocated block");
}
// reads and writes through all paths
template <class T> void sparse_store() {
  int order = vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order, 9);
  SparseField<T> f;
  f.setBlockOrder(order);
  f.setSize(dw);
  havSparse(f);
  V3i p = ANYIN(p,dw), q = ANYIN(q,dw);
  T oldp = f.value(p.x,p.y,p.z), old = f.value(q.x,q.y,q.z);
  vc_assert(f.fastValue(q.x,q.y,q.z) == old, "fastValue agrees with value");
  bool alloc = f.voxelIsInAllocatedBlock(q.x,q.y,q.z);
  T v = Elem<T>::any("v"), w = Elem<T>::any("w");
  bool fast = vc_bool("fast");
  if (fast) f.fastLValue(p.x,p.y,p.z) = v; else f.lvalue(p.x,p.y,p.z) = v;
  vc_assert(f.value(p.x,p.y,p.z) == v, "value returns what was stored");
  vc_assert(f.fastValue(p.x,p.y,p.z) == v, "fastValue returns what was stored");
  vc_assert(f.voxelIsInAllocatedBlock(p.x,p.y,p.z), "the block of a written voxel is allocated");
  if (alloc) vc_assert(f.voxelIsInAllocatedBlock(q.x,q.y,q.z), "a write deallocates nothing");
  if (!same3(p,q)) vc_assert(f.value(q.x,q.y,q.z) == old, "a write changes no other voxel");
  f.lvalue(q.x,q.y,q.z) = w;
  vc_assert(f.value(q.x,q.y,q.z) == w, "value returns the second store");
  if (!same3(p,q)) vc_assert(f.fastValue(p.x,p.y,p.z) == v, "the second write changes no other voxel");
}
VC_HARNESS(sparse_store_f) { sparse_store<float>(); }
VC_HARNESS(sparse_store_v3d) { sparse_store<V3d>(); }
// clear(): constant everywhere, nothing allocated
VC_HARNESS(sparse_clear) {
  int order = vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order, 9);
  SparseField<float> f;
  f.setBlockOrder(order);
  f.setSize(dw);
  havSparse(f);
  float c = Elem<float>::any("c"), v = Elem<float>::any("v");
  f.clear(c);
  V3i p = ANYIN(p,dw), q = ANYIN(q,dw);
  vc_assert(f.value(p.x,p.y,p.z) == c, "a cleared field reads as the constant");
  vc_assert(!f.voxelIsInAllocatedBlock(p.x,p.y,p.z), "a cleared field has no allocated block");
  f.lvalue(q.x,q.y,q.z) = v;
  vc_assert(f.value(p.x,p.y,p.z) == (same3(p,q) ? v : c), "writing one voxel keeps the constant elsewhere");
}
// block queries describe the block that holds the voxel
VC_HARNESS(sparse_blocks) {
  int order = vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order, 9);
  SparseField<float> f;
  f.setBlockOrder(order);
  f.setSize(dw);
  havSparse(f);
  V3i p = ANYIN(p,dw), q = ANYIN(q,dw);
  int s = 1<<order;
  V3i o = p - dw.min, r = f.blockRes(); int i=p.x, j=p.y, k=p.z, bi,bj,bk, vi,vj,vk;
  f.applyDataWindowOffset(i,j,k);
  f.getBlockCoord(i,j,k,bi,bj,bk); f.getVoxelInBlock(i,j,k,vi,vj,vk);
  vc_assert(bi*s+vi == o.x && bj*s+vj == o.y && bk*s+vk == o.z, "block coordinate and voxel in block identify the voxel");
  vc_assert(vi>=0 && vi<s && vj>=0 && vj<s && vk>=0 && vk<s, "voxel in block lies in the block");
  vc_assert(f.blockIndexIsValid(bi,bj,bk), "the block of a voxel is a valid block");
  int id = f.blockId(bi,bj,bk);
  vc_assert(id == (long)bi + (long)bj*r.x + (long)bk*r.x*r.y, "block ids enumerate the table: x runs fastest, then y, then z");
  vc_assert(id >= 0, "block ids are not negative");
  vc_assert(id < (long)f.m_numBlocks, "block ids lie inside the table");
  vc_assert(f.blockIsAllocated(bi,bj,bk) == f.voxelIsInAllocatedBlock(p.x,p.y,p.z), "allocation state queries agree");
  float val = f.value(p.x,p.y,p.z);
  float *data = f.blockData(bi,bj,bk);
  if (f.blockIsAllocated(bi,bj,bk)) vc_assert(data[vi + vj*s + vk*s*s] == val, "blockData holds the block's voxels");
  else { vc_assert(data == NULL, "an unallocated block has no data"); vc_assert(f.getBlockEmptyValue(bi,bj,bk) == val, "an unallocated block reads as its empty value"); }
  V3i oq = q - dw.min; bool sameb = oq.x/s==bi && oq.y/s==bj && oq.z/s==bk;
  float qold = f.value(q.x,q.y,q.z), e = Elem<float>::any("e");
  f.setBlockEmptyValue(bi,bj,bk,e);
  vc_assert(f.getBlockEmptyValue(bi,bj,bk) == e, "the empty value is what was set");
  vc_assert(!f.blockIsAllocated(bi,bj,bk), "setting the empty value releases the block");
  vc_assert(f.value(q.x,q.y,q.z) == (sameb ? e : qold), "setting a block's empty value changes exactly that block");
  vc_assert(!f.blockIndexIsValid(-1,bj,bk) && !f.blockIndexIsValid(bi,r.y,bk) && !f.blockIndexIsValid(bi,bj,r.z) && !f.blockIndexIsValid(r.x,bj,bk)
     && !f.blockIndexIsValid(bi,-1,bk) && !f.blockIndexIsValid(bi,bj,-1), "indices outside the table are invalid");
}
// dense/sparse equivalence over an arbitrary write sequence, and the allocation accounting
VC_HARNESS(sparse_equals_dense) {
  int order = vc_casen("order",0,7,0,3);
  Box3i dw = NEWBOX(d,1024<<order, 9);
  SparseField<float> s; DenseField<float> d;
  s.setBlockOrder(order); s.setSize(dw); d.setSize(dw);
  float c = Elem<float>::any("c"); s.clear(c); d.clear(c);
  for (int n = 0; n < 3; ++n) { V3i p = ANYIN(w,dw); float v = Elem<float>::any("v"); s.fastLValue(p.x,p.y,p.z) = v; d.fastLValue(p.x,p.y,p.z) = v; }
  V3i q = ANYIN(q,dw);
  vc_assert(s.value(q.x,q.y,q.z) == d.value(q.x,q.y,q.z), "sparse and dense fields agree after the same writes");
}
VC_HARNESS(sparse_accounting) {
  int order = vc_casen("order",0,3,0,3);
  Box3i dw = NEWBOX(d,16, 9);
  SparseField<float> f;
  f.setBlockOrder(order); f.setSize(dw);
  havSparse(f);
  V3i r = f.blockRes(); long n = 0;
  for (int k=0;k<r.z;++k) for (int j=0;j<r.y;++j) for (int i=0;i<r.x;++i) if (f.blockIsAllocated(i,j,k)) ++n;
  long per = 1L<<order<<order<<order;
  vc_assert((long)f.voxelCount() == n*per, "voxelCount counts the voxels of allocated blocks");
  vc_assert(f.memSize() == (long long)(sizeof(f) + n*per*sizeof(float) + f.m_numBlocks*sizeof(Sparse::SparseBlock<float>)), "memSize adds up the storage in use");
}
