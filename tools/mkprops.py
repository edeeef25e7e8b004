#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=list(observe),hook_needed=None)))

p("C01","Dense fields store every voxel independently",
  "For any extents and data window, a dense field returns for each voxel of its data window exactly the last value written to that voxel through any of its access paths (virtual or direct read, virtual or direct write, iterator), and a write to one voxel changes no other voxel. A freshly sized or cleared field reads as the given constant everywhere. No access inside the data window touches memory outside the field's storage.",
  ["inputs","histories"],"all extents/data windows (negative, offset, padded, cropped), all voxel pairs inside the window, all stored values",
  "The tests read and write a handful of fixed resolutions; the index formula has to be injective and in range for every window and every pair of voxels.",
  ["export/DenseField.h","export/Field.h"],
  [("value/lvalue/fastValue/fastLValue/ptr index arithmetic","export/DenseField.h"),("sizeChanged recomputes strides and storage","export/DenseField.h")],
  ["DenseField::value","DenseField::fastValue","DenseField::lvalue","DenseField::begin"],
  [("m_memSize/m_memSizeXY/m_data","row-major storage of the data window","export/DenseField.h")])
p("C02","Sparse fields read and write like dense ones",
  "For any extents, data window and block order, a sparse field returns for each voxel the last value written to it, or its block's empty value if the block was never allocated, and every access path agrees. Writing a voxel in an unallocated block leaves every other voxel of the field unchanged. No access inside the data window leaves the block table or a block's storage, and block queries (block of a voxel, allocation state, empty value) describe the block that really holds the voxel.",
  ["inputs","histories"],"all extents/data windows, block orders, allocation states, voxel pairs and values",
  "Tests use a few fixed resolutions and the default block order; block addressing and first-touch filling must be right for every window offset, partial edge block and allocation pattern.",
  ["export/SparseField.h"],
  [("getBlockCoord/blockId/getVoxelInBlock/applyDataWindowOffset","export/SparseField.h"),("fastLValue allocates and fills blocks","export/SparseField.h"),("setupBlocks sizes the block table","export/SparseField.h")],
  ["SparseField::fastValue","SparseField::fastLValue","SparseField::value","SparseField::lvalue","SparseField::setBlockEmptyValue"],
  [("m_blocks","block table: allocated flag, empty value, voxel storage","export/SparseField.h"),("m_blockRes/m_blockOrder","block grid resolution and log2 block size","export/SparseField.h")])
p("C03","MAC fields keep staggered face values consistent",
  "For any data window, a MAC field stores one independent value per face: u on (n+1,m,l), v on (n,m+1,l) and w on (n,m,l+1) faces; reading a face gives the last value written to it and no other face changes. The cell-centred value of a voxel is the average of its two faces in each axis, and converting a MAC field to or from a cell-centred field keeps that relation. No access inside the documented component ranges leaves the storage.",
  ["inputs","histories"],"all data windows, all faces and face pairs of the three components, all stored values",
  "Tests sample a few indices on fixed sizes; three different strides and ranges have to be right at every face, including the extra boundary layer.",
  ["export/MACField.h","export/MACFieldUtil.h"],
  [("u/v/w/uCIter index arithmetic and sizeChanged","export/MACField.h"),("convertMACToCellCentered / convertCellCenteredToMAC","export/MACFieldUtil.h")],
  ["MACField::u","MACField::v","MACField::w","MACField::value","convertMACToCellCentered"])
p("C04","Iterators visit every voxel of their window exactly once",
  "An iterator over a field or over any sub-window of it (field, dense, sparse, and MAC component iterators) starts at the window's minimum corner, steps through x, then y, then z, visits each voxel of the window exactly once and then compares equal to the end iterator. At every step the element it yields is the field's value at the coordinates it reports, and writing through it writes that voxel. Block iterators visit each sparse block exactly once, with boxes that together tile the data window.",
  ["inputs","histories"],"all data windows, all sub-windows, all positions reached by repeated increments",
  "Tests iterate over a few fixed windows; wrap-around at row and slice ends and the strides skipped there depend on the relation of window to storage and must hold for every combination.",
  ["export/Field.h","export/DenseField.h","export/SparseField.h","export/MACField.h"],
  [("operator++ of const_iterator/iterator/mac_comp_iterator/block_iterator","export/Field.h, export/DenseField.h, export/SparseField.h, export/MACField.h")],
  ["begin/end/cbegin/cend","begin_comp/end_comp","blockBegin/blockEnd"])
p("C05","Resizing, copying and cloning keep definition and values",
  "Sizing a field from a resolution, from extents, from extents and data window or with padding gives exactly the documented extents and data window and leaves every voxel of the window readable. Copy construction, assignment and clone give a field with the source's extents, data window, mapping, metadata, name, attribute, block structure (sparse fields) and value at every voxel; copyFrom (dense and sparse fields) takes over extents, data window, mapping and values, and matchDefinition extents, data window and mapping. Afterwards changing either field (values, size, metadata) does not change the other. Bounds queries (in-bounds, voxel count, data resolution) agree with the data window.",
  ["inputs","histories"],"all extents/data windows/paddings, all prior states of the target, all voxels",
  "Tests copy a few small fields; deep-copy independence and the definition transfer have to hold for every source and target state.",
  ["export/Field.h","export/DenseField.h","export/SparseField.h","export/MACField.h","src/Field.cpp"],
  [("setSize overloads, copyFrom, matchDefinition, clone, operator=","export/Field.h, export/SparseField.h")],
  ["ResizableField::setSize","ResizableField::copyFrom","ResizableField::matchDefinition","clone()"])
p("C06","Voxel coordinate conversions and bounds are exact",
  "Converting a voxel index to its continuous centre and back returns the same index for every index, a continuous coordinate converts to the voxel whose unit cube contains it (also for negative coordinates), and the conversion is monotone. The continuous bounds of an integer box span exactly its voxels' unit cubes; converting continuous bounds to discrete ones never loses a voxel that the continuous box touches and adds at most one voxel layer per side; clipping a box to another gives their intersection; enumerating coordinates by linear index visits each once in x, y, z order.",
  ["inputs"],"all indices and coordinates in the representable range, all boxes",
  "A test samples a few coordinates; truncation versus floor errors appear only on negative or boundary coordinates.",
  ["export/Field.h","export/Types.h","export/SpiMathLib.h"],
  [("contToDisc, discToCont, continuousBounds, discreteBounds, clipBounds, indexToCoord, advance","export/Field.h")],
  ["Field3D::contToDisc","Field3D::discToCont","Field3D::discreteBounds","Field3D::clipBounds"])
p("C07","Numeric conversion between voxel types clamps, never corrupts",
  "Converting a value to a narrower voxel type gives the nearest representable finite value: values beyond the target range are clamped to its largest or smallest finite value instead of becoming infinite, and values inside the range are passed through unchanged. Element-type descriptions (number of components, type names, type codes) are mutually consistent for every supported voxel type.",
  ["inputs"],"every float and double input, every supported voxel type",
  "Tests try a couple of values; clamping has to be right at and beyond both range ends and for every type.",
  ["export/Types.h","export/Traits.h","src/Traits.cpp"],
  [("clampForType","export/Types.h"),("DataTypeTraits / FieldTraits","export/Traits.h")],
  ["Field3D::clampForType"])
p("C08","Linear interpolation is exact trilinear inside the data window",
  "Linear sampling at any point of dense, sparse or generic fields returns the trilinear blend of the eight surrounding voxel centres, with neighbours outside the data window replaced by the nearest voxel inside it. The result is therefore the stored value at a voxel centre, lies between the smallest and largest of the eight values, and is the same for every storage type holding the same values. Sampling never reads a voxel outside the data window.",
  ["inputs"],"all data windows (also with non-zero or negative minimum), all sample points inside or outside the window, all voxel values, all block orders",
  "Tests sample a few points in zero-based windows; the clamping at each of six faces and the weight of each of eight neighbours has to be right for every window and point.",
  ["export/FieldInterp.h"],
  [("LinearFieldInterp/LinearGenericFieldInterp/DenseField, SparseField specialised interps::sample","export/FieldInterp.h")],
  ["LinearGenericFieldInterp::sample","LinearFieldInterp::sample"])
p("C09","Cubic interpolation is exact at centres and never overshoots",
  "Cubic sampling returns the stored value at every voxel centre, reads only voxels inside the data window (neighbours outside are replaced by the nearest voxel inside), and gives the same result for every storage type holding the same values. The one-dimensional monotonic interpolant passes through its two middle samples and stays between them. A constant field samples to that constant everywhere.",
  ["inputs"],"all data windows, all sample points, all voxel values",
  "Tests compare a few sample points on one field; overshoot and wrong clamping depend on values and window offsets not sampled.",
  ["export/FieldInterp.h"],
  [("CubicFieldInterp, CubicGenericFieldInterp, monotonicCubicInterpolant","export/FieldInterp.h")],
  ["CubicGenericFieldInterp::sample","monotonicCubicInterpolant"])
p("C10","MAC interpolation samples each component at its own faces",
  "Linear MAC sampling returns, per component, the trilinear blend of the eight surrounding face values on that component's own staggered grid, with out-of-range neighbours replaced by the nearest stored face; cubic MAC sampling passes through the face values. At a face centre the sampled component equals the stored face value, and sampling never reads outside a component's storage.",
  ["inputs"],"all data windows, all sample points, all face values",
  "Tests use one small zero-based window; three staggered grids have different clamping limits at each face.",
  ["export/FieldInterp.h","export/MACField.h"],
  [("LinearMACFieldInterp, CubicMACFieldInterp","export/FieldInterp.h")],
  ["LinearMACFieldInterp::sample","CubicMACFieldInterp::sample"])
p("C11","Matrix and null mappings convert consistently both ways",
  "For every extents and every invertible (also time-varying) transform, converting a point from voxel to local or world space and back returns the same point, local space spans exactly [0,1] over the field's extents, and the voxel-to-world transform is the local-to-world transform composed with that span. The reported world-space voxel size is the length of each voxel edge, and two matrix mappings compare identical exactly when extents and transforms agree within the given tolerance.",
  ["inputs","histories"],"all extents, all invertible affine matrices and time samples, all points and times",
  "Tests use a few fixed matrices; the composition order, extents offset and refresh after each setter must be right for all of them.",
  ["export/FieldMapping.h","src/FieldMapping.cpp"],
  [("FieldMapping::localToVoxel/voxelToLocal, MatrixFieldMapping::updateTransform/computeVoxelSize, NullFieldMapping","src/FieldMapping.cpp")],
  ["FieldMapping::localToVoxel","MatrixFieldMapping::worldToVoxel","MatrixFieldMapping::voxelToWorld","wsVoxelSize"])
p("C12","Frustum mappings convert consistently both ways",
  "For every extents, depth range and both slice distributions, a frustum mapping's voxel-to-local conversion is inverted by its local-to-voxel conversion, depth is monotone in the voxel z coordinate and hits the near plane at the first and the far plane at the last slice. World-to-voxel inverts voxel-to-world, and setters and resets leave the derived state consistent.",
  ["inputs","histories"],"all extents, near/far depths, distributions, points and times",
  "Tests check one camera; the depth remapping must be invertible for every depth range and resolution.",
  ["export/FieldMapping.h","src/FieldMapping.cpp"],
  [("FrustumFieldMapping::worldToVoxel/voxelToWorld/localToVoxel..., setTransforms, reset","src/FieldMapping.cpp")],
  ["FrustumFieldMapping::worldToVoxel","FrustumFieldMapping::voxelToWorld"])
p("C13","Time curves stay sorted and interpolate exactly",
  "However samples are added, a curve keeps them ordered by time with the latest value for a repeated time, evaluates to the sample's value at each sample time, to the linear blend of the two neighbours between samples, and to the first or last value outside the sampled range; an empty curve evaluates to its default.",
  ["inputs","histories"],"all insertion orders and times, all query times",
  "Tests insert three samples in one order.",
  ["export/Curve.h"],
  [("Curve::addSample, Curve::linear","export/Curve.h")],
  ["Curve::linear","Curve::addSample"])
p("C14","Thread grains tile the field exactly",
  "For every data window, splitting a field into grains for multithreading yields boxes that are inside the data window, do not overlap, and together cover every voxel, for dense and for sparse fields (where each grain additionally follows block boundaries). The grain count equals the number of boxes needed, no grain is empty, and a grain is reported contiguous exactly when its voxels are one contiguous run of storage.",
  ["inputs","configurations"],"all data windows, block orders and grain indices",
  "Tests count grains on one resolution; coverage must hold for sizes not divisible by the grain or block size.",
  ["export/Field.h","export/DenseField.h","export/SparseField.h"],
  [("numGrains/getGrainBounds","export/DenseField.h, export/SparseField.h")],
  ["numGrains","getGrainBounds"])
p("C15","Releasing sparse blocks never changes significant voxels",
  "Releasing blocks from a sparse field only deallocates blocks for which the release criterion holds at every voxel of the block that lies in the field, and each released block's empty value stands for what it held: with the all-equal criterion every voxel value of the field is unchanged, with the magnitude criterion only blocks all of whose voxels reach the threshold are released, so no voxel below it changes. The reported number of released blocks is the number whose storage was freed.",
  ["inputs","histories"],"all field contents, data windows, block orders and thresholds",
  "Tests release blocks of one simple pattern; a criterion that skips a voxel or treats edge blocks wrongly destroys data silently.",
  ["export/SparseField.h"],
  [("releaseBlocks, SparseFieldOps check functors (CheckAllEqual, CheckMaxAbs)","export/SparseField.h")],
  ["SparseField::releaseBlocks"])
p("C16","Archives read back exactly what was written",
  "For any tree of groups and data blocks written to an archive, opening the finished archive yields the same tree: the same number and order of children, each data block with the same size and bytes (also empty ones and shared ones), at any nesting. Parts of a data block read at an offset equal those bytes of the whole, and an archive whose writer did not finish is recognised as unfinished.",
  ["inputs","histories","crash_points"],"all trees, block sizes (0 included), write orders, read offsets, truncation at any write",
  "Tests write a few small archives through the field API only.",
  ["include/OArchive.h","include/OGroup.h","include/OData.h","include/OStream.h","include/IArchive.h","include/IGroup.h","include/IData.h","include/IStreams.h","src/OGroup.cpp","src/OData.cpp","src/OStream.cpp","src/IGroup.cpp","src/IData.cpp","src/IStreams.cpp","src/IArchive.cpp","src/OArchive.cpp"],
  [("child position table with data/group flag bit, frozen byte, header","src/OGroup.cpp, src/OStream.cpp, src/IGroup.cpp")],
  ["Alembic::Ogawa::OArchive/IArchive API"])
p("C17","Field files read back the fields that were written",
  "Writing a dense, sparse, MAC or MIP field (every supported voxel type) to a file and reading it back gives the same extents, data window, block structure, voxel values, mapping, metadata, name and attribute. Partitions and layers are found again under the names used for writing, fields with different mappings under one name stay separate, and a layer not in the file is never returned.",
  ["inputs","histories"],"all field kinds, voxel types, windows, values, mappings, metadata and layer/partition names, both file formats",
  "Tests write a few fixed fields; encode/decode pairs must be inverse for every field definition.",
  ["src/Field3DFile.cpp","src/DenseFieldIO.cpp","src/SparseFieldIO.cpp","src/MACFieldIO.cpp","src/MIPFieldIO.cpp","src/FieldMappingIO.cpp","include/OgIDataset.h","include/OgODataset.h","include/OgIAttribute.h","include/OgOAttribute.h","include/OgSparseDataReader.h","include/MACFieldIO.h","include/MIPFieldIO.h"],
  [("FieldIO classes write/read pairs, partition naming","src/*FieldIO.cpp, src/Field3DFile.cpp")],
  ["Field3DOutputFile::writeLayer","Field3DInputFile::readLayers"])
p("C18","Demand-loaded sparse fields equal fully loaded ones",
  "A sparse field whose blocks are loaded on demand under any memory limit and cache-size setting returns the same value for every voxel as the same field loaded completely, and a block in use is never evicted. The cache's accounting of loaded blocks and memory equals what is actually resident, and eviction frees enough to honour the limit whenever some block is not in use.",
  ["inputs","histories","configurations"],"all access sequences, memory limits, fields and block orders",
  "Tests load one field under one limit.",
  ["export/SparseFile.h","src/SparseFile.cpp","export/SparseField.h"],
  [("SparseFileManager::activateBlock/deallocateBlock(s), Reference::incBlockRef/decBlockRef/loadBlock/unloadBlock","export/SparseFile.h, src/SparseFile.cpp")],
  ["SparseField::fastValue under setLimitMemUse(true)","SparseFileManager statistics"])
p("C19","MIP pyramids have correct levels, values and placement",
  "Each MIP level has the resolution of the previous level (padded by one along axes where the offset is odd) divided by two and rounded up; each level is the filtered previous level, and every level covers the same world-space region, so that a voxel-space point maps to the corresponding point of each level. Blending between levels picks the two levels that bracket the requested size and blends by their distance, and every level access returns the level's own data.",
  ["inputs","configurations"],"all base resolutions, levels, offsets, spot sizes and sample points",
  "Tests build one or two pyramids of fixed resolution.",
  ["export/MIPUtil.h","src/MIPUtil.cpp","export/MIPField.h","export/MIPInterp.h","export/MIPBase.h"],
  [("detail::mipResolution, adjustedMIPFieldMapping, getVsMIPCoord, MIPSeparableThreadOp, MIPLinearInterp::interpInfo","export/MIPUtil.h, export/MIPField.h, export/MIPInterp.h")],
  ["makeMIP","MIPField::getVsMIPCoord","MIPLinearInterp::sample"])
p("C20","Resampling preserves constants and respects filter bounds",
  "Resampling a field to any resolution uses for each target voxel only source voxels within the filter's support, normalises the weights so that a constant field stays that constant, and gives the same result for dense and sparse storage of the same values. With the minimum (maximum) filter every target value is the smallest (largest) of the source voxels its filter covers, so min/max pyramids bound the field.",
  ["inputs","configurations"],"all source windows, target resolutions, filters and widths, voxel values",
  "Tests resample one resolution pair; index windows and normalisation must be right for every ratio, up or down.",
  ["export/Resample.h","src/Resample.cpp","export/MinMaxUtil.h","export/MIPUtil.h"],
  [("separable, srcSupportBBox, getDist, filter eval/support","export/Resample.h, src/Resample.cpp")],
  ["Field3D::resample","makeMinMax"])
p("C21","Fields live exactly as long as they are referenced",
  "A reference-counted object is destroyed exactly once, when its last reference goes away, copies of an object start with their own count, and a weak reference reports expiry exactly after destruction. A checked cast succeeds exactly when the object's class is the requested class or derives from it, and the cache of loaded fields returns a field only while it is alive and only for the file and layer it was stored under.",
  ["histories","inputs"],"all sequences of reference, release, copy and assignment; all pairs of object class and requested class",
  "Tests exercise a few casts; lifetime errors depend on the history.",
  ["export/RefCount.h","export/Field.h","export/FieldCache.h","export/Traits.h"],
  [("RefBase::ref/unref, intrusive_ptr_release, matchRTTI, FieldCache::getCachedField","export/RefCount.h, export/FieldCache.h")],
  ["field_dynamic_cast","FieldRes::Ptr","FieldCache"])
p("C22","Field groups and samplers combine exactly the hit fields",
  "Sampling a wrapped field or a group of fields at a world point gives, for each field whose bounds contain the point, the field's own interpolated value there (with remapping where requested) and nothing for the others; the number of hits reported is the number of contributing fields. Minimum/maximum queries over a box bound every value that sampling inside the box can return (for MIP fields, at their finest level).",
  ["inputs"],"all points, mappings, field sets and boxes",
  "Tests sample one group at a few points.",
  ["export/FieldSampler.h","export/FieldGroup.h","export/FieldWrapper.h"],
  [("SampleFields/FieldSampler::sample, getMinMax; FieldGroup::sample","export/FieldSampler.h, export/FieldGroup.h")],
  ["FieldGroup::sample","FieldSampler::sampleMultiple"])
p("C23","Damaged archives are refused without invalid memory access",
  "Opening and walking any byte sequence as an archive never accesses memory outside the buffers involved and always terminates with either a valid result or a reported failure; every size and position taken from the file is checked before it is used.",
  ["inputs","fault_sequences"],"all byte sequences (truncated, corrupted, adversarial)",
  "Tests only open well-formed files.",
  ["src/IStreams.cpp","src/IGroup.cpp","src/IData.cpp","src/IArchive.cpp"],
  [("magic/version check, child count and position checks","src/IStreams.cpp, src/IGroup.cpp, src/IData.cpp")],
  ["IArchive","IGroup::getGroup/getData","IData::read"])
p("C24","Metadata keeps each named value per type",
  "After any sequence of metadata settings on a field or file, querying a name under a type returns the last value set for that name under that type, and the given default if none was set; settings under other names or types do not interfere, and copying metadata copies exactly the source's entries.",
  ["histories"],"all sequences of sets, queries and copies",
  "Tests set one value per type.",
  ["export/FieldMetadata.h","src/FieldMetadata.cpp"],
  [("set*/get* over per-type maps","src/FieldMetadata.cpp")],["FieldRes::metadata()"])
p("C25","Layer selection patterns and file sequences expand exactly",
  "A field is selected by a pattern list exactly when some including pattern matches its name and attribute and no excluding pattern does; a file-sequence expression expands to exactly one file name per frame of its inclusive range, in order, and an existing plain file name expands to itself.",
  ["inputs"],"all names, pattern lists and sequence expressions",
  "Tests try a few patterns.",
  ["src/PatternMatch.cpp","src/FileSequence.cpp"],
  [("match, split","src/PatternMatch.cpp"),("FileSequence constructor","src/FileSequence.cpp")],["match","FileSequence"])
p("C26","Concurrent readers see the same values as a single reader",
  "Any number of threads may read the same (also demand-loaded or lazily loaded) field, and any number of threads the library itself uses for reading, writing or filtering may run, without changing any value that a single-threaded run would give.",
  ["schedules"],"all thread interleavings",
  "Tests run one schedule.",
  ["export/SparseFile.h","src/SparseFile.cpp","export/MIPField.h","src/SparseFieldIO.cpp","export/MIPUtil.h"],
  [("mutexes, double-checked loading, atomic reference counts","export/SparseFile.h, export/MIPField.h")],["SparseField::fastValue","makeMIP"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
