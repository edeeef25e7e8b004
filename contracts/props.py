"""Which contract files decide which property, and what they are linked with."""
NAT_NOENUM = ["-O1", "-g1", "-fno-access-control", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,function,null,enum", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-ffp-contract=off"]
FIELD = ['Field', 'FieldMapping', 'FieldMetadata', 'FieldInterp', 'Log', 'FieldCache']
def _mono_ensures():
    import terms as T
    from fractions import Fraction as Q
    return [lambda x, r: T.b_or(T.b_not(T.eq(x[4], Q(0))), T.eq(r, x[1])),
            lambda x, r: T.b_or(T.b_not(T.eq(x[1], x[2])), T.eq(r, x[1]))]
class Lazy:
    def __init__(s, f): s.f = f
    def __iter__(s): return iter(s.f())
MONO = {r'monotonicCubicInterpolant<float>\(': dict(name='monof', sig=['pf']*4+['d'], ensures=Lazy(_mono_ensures), where='mono_f'),
        r'monotonicCubicInterpolant<double>\(': dict(name='monod', sig=['pd']*4+['d'], ensures=Lazy(_mono_ensures), where='mono_d')}
_C = dict(contracts=MONO)
MACC = dict(MONO)
for _n, _v in (('float', 'V3f'), ('double', 'V3d')):
    for _c in 'uvw':
        MACC[r'MACField<Imath_\d_\d::Vec3<%s>\s*>::%s\(int, int, int\) const' % (_n, _c)] = dict(stub='stub_%s_%s' % (_v, _c), where='C03 faces_f/faces_d')
INV = {r'Matrix44<double>::inverse\(\) const': dict(stub='stub_inverse', where='C11 inv_contract')}
INVF = {r'Matrix44<double>::inverse\(\) const': dict(stub='stub_inverse', where='C12 inv_contract (bounded comparison with Imath)'),
        r'FrustumFieldMapping::computeVoxelSize\(\)': dict(stub='stub_sizes', where='C12 voxel_sizes (bounded)')}
INVC = dict(INV); INVC[r'Curve<.*Matrix44<double>.*>::linear\(float\) const'] = dict(stub='stub_curve', where='C13')
_CM = dict(contracts=MACC)
OG = ['IArchive','IData','IGroup','IStreams','OArchive','OData','OGroup','OStream']
OGF = OG+['OgIGroup','OgUtil','Hdf5Util']
ALL = OGF + FIELD + ['SparseFile','Field3DFile','Field3DFileHDF5','DenseFieldIO','SparseFieldIO','MACFieldIO','MIPFieldIO','FieldMappingIO','ClassFactory','InitIO','PluginLoader','MIPUtil','Resample','ProceduralField']
PROPS = {
 'C09': dict(sym=['c09_cubic'], src=FIELD, level='proof', opts={'mono_overshoot':dict(native_only=True), 'vec_fields':dict(native_only=True),
   'dense_generic_f':_C, 'dense_base_f':_C, 'dense_generic_d':_C, 'centre_dense':_C, 'centre_base':_C, 'constant_dense':_C,
   'sparse_f':dict(native_only=True),'any_generic_f':_C,'any_base_d':_C}),
 'C02': dict(sym=['c02_sparse'], src=FIELD+['SparseFile','SparseFieldIO','Hdf5Util'], level='proof',
   opts={'sparse_accounting': dict(native_only=True)}),
 'C03': dict(sym=['c03_mac'], src=FIELD, level='proof', opts={'resize_again':dict(thorough_only=True),'to_cell_centred':dict(native_only=True),'from_cell_centred':dict(native_only=True)}),
 'C04': dict(sym=['c04_iter'], src=FIELD, level='proof', opts={'walks':dict(native_only=True),'empty_fields':dict(native_only=True),'sparse_step_f':dict(quickcases={'order':[0]}),'sparse_write_step_f':dict(thorough_only=True),'sparse_skip_step':dict(quickcases={'order':[0]})}),
 'C05': dict(sym=['c05_copy'], src=FIELD, level='proof', opts={'copy_from':dict(native_only=True),'copy_metadata':dict(native_only=True),'copy_sparse_f':dict(quickcases={'order':[0,2,4]})}),
 'C08': dict(sym=['c08_linear'], src=FIELD, level='proof', budget_thorough=3600, opts={'typedef_interp':dict(native_only=True), 'sparse_f':dict(thorough_only=True), 'sparse_own_v3f':dict(native_only=True), 'sparse_own_f':dict(quickcases={'order':[2],'cx':[0],'cy':[1],'cz':[2]})}),
 'C11': dict(sym=['c11_mapping'], src=FIELD, level='proof', defaults=dict(contracts=INV), opts={'inv_contract':dict(contracts={}),
   'moving_inverse':dict(contracts=INVC),'compare':dict(native_only=True),'bounds':dict(native_only=True)}),
 'C12': dict(sym=['c12_frustum'], src=FIELD, level='proof', defaults=dict(contracts=INVF,maxterms=40000), opts={'inv_contract':dict(contracts={}),'round_trip_uniform':dict(thorough_only=True),
   'timed':dict(native_only=True),'timed_shape':dict(native_only=True),'state':dict(native_only=True),'fresh':dict(native_only=True),'voxel_sizes':dict(native_only=True)}),
 'C10': dict(sym=['c10_mac'], src=FIELD, level='proof', opts=dict({k:dict(_CM,**dict(quickcases={'c':[0]})) for k in ('cubic_f','cubic_d','cubic_face_f','cubic_face_d')}, linear_d=dict(quickcases={'c':[0]}),linear_f=dict(quickcases={'c':[0,1]}),constant_mac=dict(quickcases={'c':[0]}),linear_face_f=dict(quickcases={'c':[1]}))),
 'C06': dict(sym=['c06_coords'], src=FIELD, level='proof'),
 'C07': dict(sym=['c07_clamp'], src=FIELD+['OgUtil'], level='proof'),
 'C13': dict(sym=['c13_curve'], src=FIELD, level='proof', opts={'linear_any_length':dict(divcong=True),'add_many':dict(native_only=True)}),
 'C21': dict(sym=['c21_refcount'], src=FIELD+['SparseFile'], level='proof', opts={'cache_sequence':dict(native_only=True)}),
 'C14': dict(sym=['c14_grains'], src=FIELD, level='proof', opts={'walk_all':dict(native_only=True),'sparse_grains_f':dict(quickcases={'order':[0,3,6]}),'sparse_disjoint_f':dict(quickcases={'order':[0,5]}),'sparse_disjoint_v3d':dict(quickcases={'order':[3]})}),
 'C15': dict(sym=['c15_release'], src=FIELD, level='proof', opts={'release_real_f':dict(native_only=True),'release_real_v3d':dict(native_only=True)}),
 'C16': dict(sym=[], native=['c16_archive','c16_og'], src=OG, nsrc=OGF+FIELD, level='exploration', opts={}),
 'C23': dict(sym=[], native=['c23_damage'], src=OG, nsrc=OGF+FIELD, level='exploration', nflags=NAT_NOENUM, opts={}),
 'C24': dict(sym=[], native=['c24_metadata'], src=FIELD, nsrc=FIELD+OGF+['Field3DFile','SparseFile','ClassFactory'], level='exploration', opts={}),
 'C25': dict(sym=[], native=['c25_match'], src=FIELD, nsrc=FIELD+['PatternMatch','FileSequence','Field3DFile']+OGF+['SparseFile','ClassFactory'], level='exploration', opts={}),
 'C17': dict(sym=[], native=['c17_roundtrip'], src=FIELD, nsrc=ALL, level='exploration', opts={}),
 'C18': dict(sym=[], native=['c18_cache'], src=FIELD, nsrc=ALL, level='exploration', opts={}),
 'C19': dict(sym=['c19_levels'], native=['c19_levels','c19_mip'], src=FIELD+['MIPUtil'], nsrc_of={'c19_levels':FIELD+['MIPUtil']}, nsrc=ALL, level='exploration', opts={'empty_input_f':dict(native_only=True),'empty_input_v3f':dict(native_only=True)}),
 'C20': dict(sym=['c20_filters'], native=['c20_filters','c20_resample'], src=FIELD+['Resample'], nsrc_of={'c20_filters':FIELD+['Resample']}, nsrc=ALL, level='exploration', opts={}),
 'C22': dict(sym=[], native=['c22_group'], src=FIELD, nsrc=ALL, level='exploration', native_secs=12, opts={'minmax_scalar':dict(native_max=25000),'minmax_vector':dict(native_max=25000)}),
 'C01': dict(sym=['c01_dense'], src=FIELD, level='proof'),
}
