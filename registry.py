"""Which harness entries decide which property."""
from irsym.runner import Unit

REG = {}
META = {}


def get(p):
    return REG[p], META.get(p, {})


TIMER = ['src/General/Timer.cpp']
REG['P24'] = [
    Unit('timer.cpp', 'h_history', TIMER, {'quick': {'OPS': 5}, 'thorough': {'OPS': 7}}, reach=['end'],
         desc='histories of stop/continue/reset/query'),
    Unit('timer.cpp', 'h_stopped', TIMER, reach=['end'], desc='stopped timer'),
    Unit('timer.cpp', 'h_components', TIMER, reach=['end'], desc='decomposition of the elapsed time'),
    Unit('timer.cpp', 'h_text', TIMER, reach=['end'], desc='text form'),
]

REG['P09'] = [Unit('algebra.cpp', e, ['src/General/SOFTLibException.cpp'], reach=['end']) for e in
              ('h_vec1', 'h_vec2', 'h_vec3', 'h_vec5', 'h_valias', 'h_cross', 'h_mat22', 'h_mat23', 'h_mat31',
               'h_mat33', 'h_matself')]

EXC = ['src/General/SOFTLibException.cpp']
REG['P28'] = [Unit('exception.cpp', 'h_format', EXC, reach=['end']),
              Unit('exception.cpp', 'h_plain', EXC, reach=['end', 'caught'])]

DF = 'src/DistributionFunction/'
ADF = [DF + x + '.cpp' for x in ('AnalyticalAvalanche', 'BesselRadialProfile', 'ConnorHastieDistribution',
                                 'ExponentialPitch', 'GaussianRadialProfile', 'LinearRadialProfile',
                                 'MomentumSpaceDistributionFunction', 'PowerRadialProfile',
                                 'RadialDistributionFunction', 'UnitDistributionFunction')] + EXC
REG['P21'] = [Unit('distributions.cpp', e, ADF, reach=['end'] + r) for e, r in (
    ('h_avalanche', []), ('h_connor', ['cutoff']), ('h_exppitch', []), ('h_unit', []), ('h_reinit', []),
    ('h_product', []))]
REG['P22'] = [Unit('distributions.cpp', e, ADF, reach=r) for e, r in (
    ('h_rlinear', ['end', 'inside', 'outside']), ('h_rpower', ['end', 'inside', 'outside']),
    ('h_rgauss', ['end', 'inside', 'outside']), ('h_rbessel', ['end', 'inside', 'outside']), ('h_runiform', ['end']),
    ('h_rreject', ['refused', 'accepted']), ('h_product', ['end']))]

RK = EXC
REG['P10'] = [Unit('integrator.cpp', e, RK, b, reach=['end'] + r) for e, b, r in (
    ('h_inner1', {}, []), ('h_inner2', {}, []), ('h_norm1', {}, []), ('h_norm2', {}, []), ('h_store', {'quick': {'STEPS': 2, 'NDIM': 1}, 'thorough': {'STEPS': 3, 'NDIM': 1}}, []),
    ('h_store', {'quick': {'STEPS': 1, 'NDIM': 2}, 'thorough': {'STEPS': 1, 'NDIM': 2}}, []),
    ('h_quad3', {}, []), ('h_quad4', {}, []), ('h_linear', {}, []), ('h_general', {}, []), ('h_growth', {}, []))]
REG['P11'] = [
    Unit('integrator.cpp', 'h_control', RK, {'quick': {'CALLS': 2}, 'thorough': {'CALLS': 3}},
         reach=['end', 'nan', 'accept', 'reject']),
    Unit('integrator.cpp', 'h_controlset', RK, {'quick': {'CALLS': 2}, 'thorough': {'CALLS': 3}},
         reach=['end', 'nan', 'accept', 'reject'])]
REG['P12'] = [Unit('integrator.cpp', e, RK, b, reach=r, opts={'coef_abs': 1e-11} if e == 'h_denseuniform' else {}) for e, b, r in (
    ('h_dense1', {'quick': {'STEPS': 2}, 'thorough': {'STEPS': 3}}, ['end']),
    ('h_dense2', {'quick': {'STEPS': 1}, 'thorough': {'STEPS': 1}}, ['end']),
    ('h_denseask', {}, ['in', 'out']), ('h_denseuniform', {}, ['end']), ('h_denseearly', {}, ['end']),
    ('h_growthdense', {}, ['end']))]

PT = ['src/General/ProgressTracker.cpp', 'src/General/Timer.cpp'] + EXC
REG['P25'] = [
    Unit('progress.cpp', 'h_schedule', PT, {'quick': {'TOTAL': 6}, 'thorough': {'TOTAL': 10}}, opts={'clock_max': 1000}, reach=['end']),
    Unit('progress.cpp', 'h_parts', PT, opts={'clock_max': 9 * 10**6}, reach=['end']),
    Unit('progress.cpp', 'h_line', PT, opts={'clock_max': 10**10}, reach=['end']),
    Unit('progress.cpp', 'h_threads', PT, opts={'clock_max': 1000}, reach=['end']),
    Unit('progress.cpp', 'h_text0', PT, reach=['end']),
    Unit('progress.cpp', 'h_text1', PT, reach=['end']),
    Unit('progress.cpp', 'h_estimate', PT, reach=['end'], opts={'clock_max': 10**15})]

PI_ = ['src/Integration/PeakedIntegration.cpp'] + EXC
REG['P27'] = [
    Unit('peaked.cpp', 'h_sum', PI_, {'quick': {'STEPS': 3}, 'thorough': {'STEPS': 5}}, reach=['end', 'wide']),
    Unit('peaked.cpp', 'h_recentre', PI_, reach=['end']), Unit('peaked.cpp', 'h_zero', PI_, reach=['end']),
    Unit('peaked.cpp', 'h_max', PI_, {'quick': {'TOL': 0.5}, 'thorough': {'TOL': 0.1}}, reach=['end']),
    Unit('peaked.cpp', 'h_auto', PI_, reach=['end'])]

IMG = ['src/ImageGenerator/ImageGenerator.cpp', 'src/ImageGenerator/ImageGeneratorPNG.cpp',
       'src/ImageGenerator/ImageGeneratorPPM.cpp'] + EXC
REG['P26'] = [Unit('image.cpp', e, IMG, b, reach=r, extra=('shim/rt/png.cpp',)) for e, b, r in (
    ('h_map', {'quick': {'NC': 3}, 'thorough': {'NC': 6}}, ['below', 'above', 'between']),
    ('h_table', {'quick': {'NC': 3}, 'thorough': {'NC': 6}}, ['below', 'above', 'between']), ('h_special', {}, ['end']), ('h_builtin', {}, ['end']),
    ('h_ppm', {'quick': {'DIM': 2}, 'thorough': {'DIM': 3}}, ['end']),
    ('h_png', {'quick': {'DIM': 2}, 'thorough': {'DIM': 3}}, ['end']), ('h_types', {}, ['end']), ('h_bigpicture', {'quick': {'DIM': 17}, 'thorough': {'DIM': 17}}, ['end']), ('h_bigmap', {}, ['end']))]

CS = ['src/Configuration/' + x + '.cpp' for x in ('ConfigBlock', 'Configuration', 'Setting', 'Script/ConfigToken', 'Script/ConfigurationScript',
                                                 'Script/Interpreter', 'Script/Lexer', 'Script/SettingScript')] + EXC
REG['P01'] = [Unit('config.cpp', e, CS, b, reach=['end']) for e, b in (
    ('h_setting', {}), ('h_gaps', {}), ('h_lastcomment', {}), ('h_tree', {}), ('h_blockname', {}), ('h_valuelike', {}), ('h_quoted', {}), ('h_include', {}), ('h_file', {}), ('h_stdin', {}), ('h_longdoc', {}))]
REG['P02'] = [Unit('config.cpp', 'h_bytes', CS, {'quick': {'NB': 3, 'NPOST': 1}, 'thorough': {'NB': 4, 'NPOST': 1}}, reach=['refused', 'read'],
                   split=('pre', 6), limits={'paths': 200000}, tlimits={'wall': 7000, 'paths': 2000000}),
              Unit('config.cpp', 'h_bytes', CS, {'quick': {'NB': 2, 'NPOST': 3}, 'thorough': {'NB': 3, 'NPOST': 3}}, reach=['refused', 'read'],
                   split=('pre', 6), limits={'paths': 200000}),
              Unit('config.cpp', 'h_malformed', CS, reach=['end'])]
REG['P03'] = [Unit('config.cpp', e, CS, reach=r) for e, r in (
    ('h_block', ['found', 'missing']), ('h_subblocks', ['end']), ('h_merge', ['end', 'unknown']), ('h_copy', ['end']), ('h_confmerge', ['end']), ('h_types_reg', ['end', 'new']), ('h_manyblocks', ['end']))]
REG['P04'] = [Unit('config.cpp', e, CS, b, reach=r) for e, b, r in (
    ('h_int', {'quick': {'LEN': 3}, 'thorough': {'LEN': 4}}, ['i64', 'notint']), ('h_limits', {}, ['i64']), ('h_scalar', {'quick': {'LEN': 3}, 'thorough': {'LEN': 4}}, ['number', 'text']),
    ('h_huge', {}, ['end']), ('h_vector', {}, ['end', 'numeric']), ('h_bool', {}, ['yes', 'no']))]

REG['P05'] = [Unit('settingsfile.cpp', e, CS + ['src/Configuration/SFile/SettingSFile.cpp'], reach=['end']) for e in ('h_typed', 'h_typedcopy', 'h_typedover', 'h_typedscript', 'h_typedother', 'h_typedmany')]

SF = ['src/SFile/' + x + '.cpp' for x in ('SFile', 'SFile_HDF5', 'SFile_MAT.HDF5', 'SFile_SDT', 'SFile_SDT.load')] + EXC
H5X = ('shim/rt/h5.cpp',)
REG['P06'] = [Unit('sfile.cpp', e, SF, b, reach=['end'], extra=H5X) for e, b in (
    [('h_array_' + t, {}) for t in ('d', 'i32', 'i64', 'u32', 'u64')] + [('h_list_' + t, {'quick': {'NEL': 3}, 'thorough': {'NEL': 5}}) for t in ('d', 'i32', 'i64', 'u32', 'u64')] +
    [('h_multi_' + t, {}) for t in ('d', 'i32', 'i64', 'u32', 'u64', 'sdt')] + [('h_scalar', {}), ('h_getlist', {}), ('h_image', {}), ('h_conv', {}), ('h_large', {}), ('h_largemulti', {})])]
REG['P07'] = [Unit('sfile.cpp', e, SF, b, reach=r, extra=H5X) for e, b, r in (
    ('h_string', {'quick': {'LEN': 3}, 'thorough': {'LEN': 5}}, ['end']), ('h_attribute', {}, ['end']), ('h_foreigntext', {'quick': {'LEN': 3}, 'thorough': {'LEN': 5}}, ['end']), ('h_names', {}, ['found', 'missing']), ('h_struct', {}, ['end']), ('h_missing', {}, ['end']),
    ('h_nofile', {}, ['end']), ('h_update', {}, ['end']), ('h_overwrite', {}, ['end']), ('h_filetype', {}, ['known', 'unknown']), ('h_astype', {}, ['end']), ('h_matheader', {}, ['end']), ('h_matclass', {}, ['end']), ('h_longtext', {}, ['end']), ('h_manyvars', {}, ['end']))]
REG['P08'] = [Unit('sfile.cpp', 'h_sdtspec', SF, reach=['end'], extra=H5X), Unit('sfile.cpp', 'h_sdtsize', SF, reach=['read', 'refused'], extra=H5X), Unit('sfile.cpp', 'h_sdtlarge', SF, reach=['end'], extra=H5X),
              Unit('sfile.cpp', 'h_sdtbytes', SF, {'quick': {'LEN': 3}, 'thorough': {'LEN': 4}}, reach=['refused', 'read'], extra=H5X, split=('pre', 7), limits={'paths': 200000}, tlimits={'wall': 7000, 'paths': 2000000})]

MF2 = ['src/MagneticField/MagneticField2D.cpp'] + EXC
REG['P13'] = [Unit('domain.cpp', e, MF2, reach=r, limits={'paths': 200000}) for e, r in (
    ('h_crosstile', ['cross', 'clear']), ('h_crosscontour', ['cross', 'clear']), ('h_crossmoved', ['cross', 'clear']), ('h_crossforms', ['end']), ('h_crossbig', ['cross', 'clear']))]
REG['P14'] = [Unit('domain.cpp', 'h_sight', MF2, {t: {'TL': k, 'PLANE': p} for t in ('quick', 'thorough')}, reach=['hit', 'clear'], limits={'paths': 200000})
              for k, p in ((0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (1, 1))]
REG['P14'] += [Unit('domain.cpp', 'h_sightheight', MF2, {t: {'TL': k} for t in ('quick', 'thorough')}, reach=['clear'], limits={'paths': 200000}) for k in range(4)]
REG['P14'] += [Unit('domain.cpp', 'h_sightwall', MF2, reach=['hit', 'clear'], split=('contour', 3), limits={'paths': 200000})]
REG['P14'] += [Unit('domain.cpp', 'h_sightbig', MF2, reach=['hit', 'clear'], split=('line', 4), limits={'paths': 200000})]
REG['P15'] = [Unit('domain.cpp', e, MF2, b, reach=r, limits={'paths': 200000}) for e, b, r in (
    ('h_extent', {}, ['in', 'out']), ('h_extentany', {'quick': {'NV': 3}, 'thorough': {'NV': 4}}, ['in', 'out']), ('h_extentbig', {}, ['in', 'out']), ('h_bounds', {'quick': {'NV': 3}, 'thorough': {'NV': 4}}, ['end']))]

MFA = ['src/MagneticField/' + x + '.cpp' for x in ('MagneticField2D', 'MagneticFieldAnalytical2D', 'MagneticFieldAnalytical2D.q', 'MagneticFieldNumeric2D')] + SF
GSLX = H5X + ('shim/rt/gsl.cpp',)
REG['P16'] = [Unit('analytical.cpp', e, MFA, {t: {'QT': q} for t in ('quick', 'thorough')}, reach=['end'], extra=GSLX)
              for e in ('h_field', 'h_jacobian', 'h_gradient', 'h_flux', 'h_axis') for q in range(6) if not (q == 4 and e in ('h_jacobian', 'h_gradient'))]
REG['P16'] += [Unit('analytical.cpp', e, MFA, {t: {'QT': q} for t in ('quick', 'thorough')}, reach=['end'], extra=GSLX) for e, q in (('h_forms', 1), ('h_clone', 1), ('h_clone', 5), ('h_wall', 0), ('h_table', 0), ('h_table', 2))]

MFN = ['src/MagneticField/' + x + '.cpp' for x in ('MagneticField2D', 'MagneticFieldNumeric2D', 'MagneticFieldLUKE')] + SF
REG['P17'] = [Unit('numeric.cpp', e, MFN, reach=r, extra=GSLX) for e, r in (
    ('h_eval', ['end']), ('h_outside', ['in', 'out']), ('h_jac', ['end']), ('h_strength', ['end']), ('h_forms', ['end']), ('h_clone', ['end']), ('h_nowall', ['end']))]
REG['P18'] = [Unit('numeric.cpp', e, MFN, reach=r, extra=GSLX) for e, r in (('h_save', ['end']), ('h_file', ['read', 'refused']))]
REG['P19'] = [Unit('numeric.cpp', 'h_luke', MFN, reach=['read', 'refused'], extra=GSLX)]

TAB = [DF + x + '.cpp' for x in ('CODEDistributionFunction', 'DREAMDistributionFunction', 'GOCODEDistributionFunction', 'LUKEDistributionFunction', 'NumericDistributionFunction',
                                 'NumericMomentumSpaceDistributionFunction', 'SOFTDistributionFunction', 'deprSOFTDistributionFunction', 'MomentumSpaceDistributionFunction',
                                 'RadialDistributionFunction')] + MF2[:1] + SF
REG['P20'] = [Unit('tables.cpp', e, TAB, reach=r, extra=GSLX) for e, r in (
    ('h_ms', ['in', 'out']), ('h_mscubic', ['end']), ('h_mslog', ['end']), ('h_mszero', ['end']), ('h_msgrid', ['accepted', 'refused']),
    ('h_nd', ['end']), ('h_ndlog', ['end']), ('h_ndinsert', ['end']), ('h_ndcubic', ['end']), ('h_ndgrid', ['accepted', 'refused']), ('h_ndzero', ['end']), ('h_ndmany', ['end']))]
REG['P23'] = [Unit('tables.cpp', e, TAB, reach=r, extra=GSLX) for e, r in (
    ('h_code', ['end']), ('h_codetable', ['end']), ('h_codefile', ['read', 'refused']), ('h_gocode', ['read', 'refused']), ('h_gocodemany', ['read']))]
REG['P29'] = [Unit('tables.cpp', e, TAB, reach=r, extra=GSLX) for e, r in (
    ('h_soft', ['read', 'refused']), ('h_lukef', ['read', 'refused']), ('h_dream', ['read', 'refused']), ('h_old', ['read', 'refused']))]
