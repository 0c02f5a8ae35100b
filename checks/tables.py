"""Which function is compared with its reference definition, for which argument kinds and option cases, by which property."""
from analysis.compare import Spec


def cross(*dicts):
    """all combinations of option lists"""
    out = [{}]
    for d in dicts:
        for k, vs in d.items():
            out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


T = {}


def spec(pids, qual, types=None, cases=None, **k):
    s = Spec(qual, types, cases, **k)
    for p in pids.split():
        T.setdefault(p, []).append(s)


PS = 'power_spectrum.'
OPQ = [PS + n for n in ('power_spectrum_nd', 'cross_power_spectrum_nd')]
A3 = {'input_array': 'arr3', 'box_dims': 'float', 'kbins': 'int'}
BOX = ['@float', '@list', None]
spec('P17 P13', PS + 'apply_window', {'input_array': 'arr3'}, cross({'window': [None, 'blackmanharris', 'tukey', 'other', '@arr3']}))
spec('P17 P18', PS + 'power_spectrum_nd', {'input_array': 'arr3'}, cross({'box_dims': BOX}) + [{'box_dims': '@float', 'kwargs': {'boxsize': '$b'}}, {'input_array': '@arr2', 'box_dims': '@list'}])
spec('P17 P18', PS + 'cross_power_spectrum_nd', {'input_array1': 'arr3', 'input_array2': 'arr3'}, cross({'box_dims': BOX}) + [{'box_dims': '@float', 'kwargs': {'boxsize': '$b'}}])
spec('P17 P18', PS + 'radial_average', dict(A3), cross({'box_dims': BOX, 'kbins': ['@int', '@arr1'], 'binning': ['log', 'linear', 'mixed', 'other']}) +
     [{'input_array': '@arr2', 'binning': 'linear'}, {'input_array': '@arr1', 'binning': 'linear'}])
spec('P17 P18', PS + 'get_k', dict(A3), [{'input_array': '@arr%d' % n, 'box_dims': b} for n in (1, 2, 3) for b in BOX])
spec('P17', PS + 'get_kbins', {'kbins': 'int'}, [{'k': '@arr3', 'array': None, 'binning': b} for b in ('log', 'linear', 'mixed')] + [{'k': None, 'array': '@arr3', 'box_dims': '@float'}])
spec('P17 P05', PS + 'power_spectrum_1d', {'input_array_nd': 'arr3', 'kbins': 'int'}, cross({'box_dims': BOX, 'window': [None, 'tukey', '@arr3'], 'return_n_modes': [True, False]}), opaque=OPQ + [PS + 'radial_average'])
spec('P17', PS + 'cross_power_spectrum_1d', {'input_array1_nd': 'arr3', 'input_array2_nd': 'arr3', 'kbins': 'int'}, cross({'box_dims': BOX, 'return_n_modes': [True, False]}), opaque=OPQ + [PS + 'radial_average'])
spec('P17 P18 P13', PS + 'power_spectrum_2d', dict(A3), cross({'nu_axis': [0, 1, 2], 'binning': ['log', 'linear', 'mixed', 'other'], 'return_modes': [True, False], 'window': [None]}) +
     [{'kbins': ['$a', '$b'], 'window': 'tukey', 'binning': 'linear', 'nu_axis': 2}, {'kbins': '@list', 'binning': 'linear', 'window': None, 'nu_axis': 2}], opaque=OPQ)
spec('P17 P18 P13', PS + 'mu_binning', {'powerspectrum': 'arr3', 'mubins': 'int', 'kbins': 'int', 'box_dims': 'list'},
     cross({'los_axis': [0, 1, 2], 'weights': [None, '@arr3'], 'exclude_zero_modes': [True, False], 'absolute_mus': [True, False], 'binning': ['log']}) + [{'los_axis': 3}])
spec('P17 P13', PS + 'power_spectrum_mu', dict(A3), cross({'box_dims': BOX, 'return_n_modes': [True, False]}), opaque=OPQ + [PS + 'mu_binning'])
spec('P17 P13', PS + 'cross_power_spectrum_mu', {'input_array1': 'arr3', 'input_array2': 'arr3'}, cross({'box_dims': BOX, 'return_n_modes': [True, False]}), opaque=OPQ + [PS + 'mu_binning'])
spec('P17', PS + 'dimensionless_ps', {'data': 'arr3', 'kbins': 'int', 'box_dims': 'float'}, [{'binning': 'log'}, {'binning': 'linear'}], opaque=[PS + 'power_spectrum_1d'])
spec('P17', PS + 'anisotropy_ratio_r_mu', {'input_array': 'arr3'}, [{'return_n_modes': True}, {'return_n_modes': False}], opaque=[PS + 'power_spectrum_mu'])

# -- constants, cosmology, units ---------------------------------------------------------------------
for _n in ('set_abundance_helium', 'set_hubble_h', 'set_omega_matter', 'set_omega_baryon', 'set_omega_lambda', 'set_ns', 'set_sigma_8', '_update_derived'):
    spec('P02', 'const.' + _n, {'value': 'float'}, fields='globals')
spec('P02 P29', 'conv._update_derived', fields='globals')
spec('P02 P29', 'conv.set_sim_constants', {'boxsize_cMpc': 'float'}, [{}] + [{'boxsize_cMpc': b} for b in (37, 47, 64, 114, 200, 244, 425, 500)], fields='globals')
spec('P14 P29', 'conv.gridpos_to_mpc', {'gridpos': 'arr3'}, [{}, {'gridpos': '@float'}])
spec('P14 P29', 'conv.gridvel_to_kms', {'gridvel': 'arr', 'z': 'float'})
spec('P14 P29', 'conv.gridmass_to_msol', {'grid_mass': 'arr1'}, [{}, {'grid_mass': '@float'}])
CO = 'cosmo.'
for _n in ('z_to_cdist', 'z_to_age', 'luminosity_distance', 'hubble_parameter'):
    spec('P16 P02' if _n != 'z_to_cdist' else 'P16 P02 P14', CO + _n, {'z': 'arr1', 'k': 'float'}, [{}, {'z': '@float'}] + ([{'k': 0}, {'z': '@float', 'k': 0}] if _n == 'luminosity_distance' else []))
spec('P16', CO + '_ldist', {'z': 'float'}, [{}, {'z': '@arr1'}])
spec('P16 P02 P14', CO + 'cdist_to_z', {'dist': 'arr1'}, [{}, {'dist': '@float'}])
spec('P16', CO + 'angular_size', {'dl': 'float', 'z': 'float'}, [{}, {'z': '@arr1'}])
spec('P16 P14', CO + 'angular_size_comoving', {'cMpc': 'float', 'z': 'float'}, [{}, {'z': '@arr1'}])
spec('P16 P14', CO + 'deg_to_cdist', {'deg': 'float', 'z': 'float'}, [{}, {'z': '@arr1'}])
for _n, _p in (('nu_to_z', 'nu21'), ('z_to_nu', 'z'), ('nu_to_wavel', 'nu'), ('nu_to_cdist', 'nu21')):
    spec('P16 P14', CO + _n, {_p: 'float'}, [{}, {_p: '@arr1'}])
for _n, _p in (('c_to_p', 'z_to_cdist'), ('p_to_c', 'pdist')):
    spec('P14', CO + _n, {_p: 'arr', 'z': 'float'})
spec('P14', CO + 'Tvir_to_M', {'Tvir': 'arr1', 'z': 'float'})
spec('P14', CO + 'M_to_Tvir', {'M': 'arr1', 'z': 'float'})
for _n, _c in (('FoV_cMpc2', 'FoV'), ('mag_to_flux', 'mag'), ('Muv_to_muv', 'Muv'), ('muv_to_Muv', 'muv'), ('Muv_to_L1500', 'M_AB')):
    spec('P14', 'astro_tools.' + _n, {_c: 'float', 'z': 'float', 'redshift': 'float', 'cosmo': 'obj'}, [{}, {_c: '@obj'}] + ([] if _n in ('mag_to_flux', 'Muv_to_L1500') else [{'cosmo': None}]))

# -- brightness temperature, statistics ----------------------------------------------------------------
TE = 'temperature.'
spec('P15 P02', TE + 'mean_dt', {'z': 'float'}, [{}, {'z': '@arr'}])
spec('P15', TE + '_dt', {'rho': 'arr3', 'xi': 'arr3', 'z': 'float'}, [{}, {'z': '@arr3'}])
spec('P15', TE + '_dt_full', {'rho': 'arr3', 'xi': 'arr3', 'Ts': 'arr3', 'z': 'float'}, [{'correct': True}, {'correct': False}, {'z': '@arr3', 'correct': True}])
spec('P15', TE + 'calc_dt', {'xfrac': 'arr3', 'dens': 'arr3', 'z': 'float'}, [{}, {'xfrac': '@str', 'dens': '@str', 'z': -1}, {'xfrac': '@obj', 'dens': '@obj', 'z': -1}], opaque=['helper_functions.get_data_and_type', 'helper_functions.determine_redshift_from_filename'])
spec('P15', TE + 'calc_dt_full', {'xfrac': 'arr3', 'dens': 'arr3', 'temp': 'arr3', 'z': 'float'}, [{'correct': True}, {'correct': False}, {'xfrac': '@str', 'dens': '@str', 'temp': '@str', 'z': -1, 'correct': True}], opaque=['helper_functions.get_data_and_type', 'helper_functions.determine_redshift_from_filename'])
_CD = ['cosmo.cdist_to_z', 'cosmo.z_to_cdist', 'helper_functions.read_cbin']
spec('P15 P13', TE + 'calc_dt_lightcone', {'xfrac': 'arr3', 'dens': 'arr3', 'lowest_z': 'float'}, [{'los_axis': a} for a in (0, 1, 2, -1)] + [{'xfrac': '@str', 'dens': '@str', 'los_axis': 2}], opaque=_CD)
spec('P15 P13', TE + 'calc_dt_full_lightcone', {'xfrac': 'arr3', 'dens': 'arr3', 'temp': 'arr3', 'lowest_z': 'float'}, cross({'los_axis': [0, 1, 2], 'correct': [True, False]}) + [{'xfrac': '@str', 'dens': '@str', 'temp': '@str', 'los_axis': 2, 'correct': True}], opaque=_CD)
spec('P15', TE + 'calc_dt_halo', {'mhalo': 'arr3', 'box_dim': 'float', 'z': 'float', 'Y_p': 'float', 'cosmo': 'obj'}, [{}, {'cosmo': None}, {'mhalo': '@obj', 'box_dim': '@obj'}])
ST = 'statistics.'
for _n in ('skewness', 'kurtosis'):
    spec('P27', ST + _n, {'x': 'arr3'}, [{}, {'x': '@arr1'}])
spec('P27', ST + 'mass_weighted_mean_xi', {'xi': 'arr3', 'rho': 'arr3'})
for _n in ('subtract_mean_signal', 'signal_overdensity'):
    spec('P27 P13 P07', ST + _n, {'signal': 'arr3'}, [{'los_axis': a} for a in (0, 1, 2, -1, -2, -3)])
spec('P27 P13', ST + 'apply_func_along_los', {'signal': 'arr3', 'func': 'func'}, [{'los_axis': a} for a in (0, 1, 2, 3, -1)])
spec('P13', ST + '_get_slice', {'data': 'arr3', 'idx': 'int', 'slice_depth': 'int'}, cross({'los_axis': [0, 1, 2, 3], 'data': ['@arr3', '@arr4']}))

# -- lightcones ------------------------------------------------------------------------------------------
LC = 'lightcone.'
_LH = [LC + n for n in ('_get_output_z', '_get_interp_slice', '_get_bracket', '_get_filenames', '_get_file_redshifts')] + ['helper_functions.get_data_and_type', 'helper_functions.get_mesh_size']
spec('P20', LC + '_get_interp_slice', {'data_high': 'arr3', 'data_low': 'arr3', 'z': 'float', 'z_bracket_high': 'float', 'z_bracket_low': 'float', 'comoving_pos_idx': 'int'},
     cross({'los_axis': [0, 1, 2], 'interpolation': ['linear', 'step', 'sigmoid', 'step_cell', 'other']}) + [{'data_high': '@arr4', 'data_low': '@arr4', 'los_axis': 1, 'interpolation': 'linear'}], opaque=['smoothing.smooth_gauss'])
spec('P20', LC + '_get_step_transitions', {'cell_dist': 'arr2', 'diff_idx': 'arr2'})
spec('P20', LC + '_get_output_z', {'file_redshifts': 'arr1', 'z_low': 'float', 'z_high': 'float', 'box_grid_n': 'int', 'box_length_mpc': 'float', 'dnu': 'float'}, cross({'z_low': ['@float', None], 'z_high': ['@float', None], 'dnu': ['@float', None]}), opaque=[LC + 'redshifts_at_equal_comoving_distance', LC + 'redshifts_at_equal_frequncy_width'])
spec('P20 P02', LC + 'redshifts_at_equal_comoving_distance', {'z_low': 'float', 'z_high': 'float', 'box_grid_n': 'int', 'box_length_mpc': 'float'}, [{}, {'box_length_mpc': None}])
spec('P20', LC + 'redshifts_at_equal_frequncy_width', {'z_low': 'float', 'z_high': 'float', 'dnu': 'float'})
spec('P20', LC + '_get_filenames', {'filenames_in': 'str'}, [{}, {'filenames_in': '@list'}])
spec('P20', LC + '_get_file_redshifts', {'redshifts_in': 'str', 'filenames': 'list'}, [{}, {'redshifts_in': None}, {'redshifts_in': '@list'}, {'redshifts_in': '@arr1'}])
spec('P20 P16', LC + 'get_lightcone_subvolume', {'lightcone': 'arr3', 'redshifts': 'arr1', 'central_z': 'float'}, cross({'depth_mhz': ['@float'], 'depth_mpc': [None], 'odd_num_cells': [True, False], 'subtract_mean': [True, False], 'fov_Mpc': [None, '@float']}) +
     [{'depth_mhz': None, 'depth_mpc': '@float'}, {'depth_mhz': None, 'depth_mpc': None}, {'depth_mhz': '@float', 'depth_mpc': '@float'}], opaque=['cosmo.cdist_to_z', 'cosmo.z_to_cdist', 'statistics.subtract_mean_signal'])
spec('P20 P05', LC + 'make_lightcone', {'filenames': 'list', 'file_redshifts': 'arr1', 'los_axis': 'int', 'reading_function': 'func', 'z_low': 'float', 'z_high': 'float'}, [{'interpolation': 'linear'}, {'interpolation': 'other'}, {'reading_function': None, 'interpolation': 'step'}], opaque=_LH)
spec('P20', LC + 'make_velocity_lightcone', {'vel_filenames': 'list', 'dens_filenames': 'list', 'file_redshifts': 'arr1', 'los_axis': 'int', 'z_low': 'float', 'z_high': 'float', 'vel_reading_function': 'func', 'dens_reading_function': 'func'}, [{}], opaque=_LH)

# -- halo and particle gridding ------------------------------------------------------------------------------
NB = 'nbody_file.'
HG = NB + 'Halo2Grid.'
spec('P28 P12', HG + '__init__', {'box_len': 'float', 'n_grid': 'int', 'method': 'str'}, [{}, {'method': 'nearest'}], fields=True)
spec('P28 P29 P12', HG + 'set_halo_pos', {'pos': 'arr2', 'unit': 'str'}, [{}, {'unit': None}, {'unit': 'cm'}, {'unit': 'Mpc'}, {'unit': 'other'}], fields=True)
spec('P28 P29 P12', HG + 'set_halo_mass', {'mass': 'arr1', 'unit': 'str'}, [{}, {'unit': None}, {'unit': 'kg'}, {'unit': 'g'}, {'unit': 'gram'}, {'unit': 'Msun'}, {'unit': 'other'}], fields=True)
for _n, _p in (('pos_cm_to_grid', 'pos_cm'), ('pos_mpc_to_grid', 'pos_mpc')):
    spec('P28 P29', HG + _n, {_p: 'arr2'}, fields=True)
spec('P28', HG + 'construct_tree', fields=True)
spec('P28', HG + 'value_on_grid', {'positions': 'arr2', 'values': 'arr1'}, [{}, {'kwargs': {'statistic': '$s', 'bins': '$b'}}])
spec('P28', HG + 'halo_mass_on_grid', {}, [{}, {'kwargs': {'pos': '$p', 'mass': '$m'}}, {'kwargs': {'binned_mass': '$b'}}])
spec('P28', HG + 'halo_value_on_grid', {'value': 'arr1'}, [{}, {'kwargs': {'pos': '$p'}}, {'kwargs': {'binned_value': '$b'}}])
spec('P28 P29 P33', NB + 'halo_list_to_grid', {'mass': 'arr1', 'pos_xyz': 'arr2', 'box_dim': 'float', 'n_grid': 'int'}, [{}, {'mass': '@obj', 'pos_xyz': '@obj'}, {'mass': '@obj', 'pos_xyz': '@obj', 'box_dim': '@obj'}, {'pos_xyz': '@obj', 'box_dim': '@obj'}, {'box_dim': '@obj'}])
spec('P29', NB + 'NbodyFile._get_header', {'f': 'obj'}, fields=True)
spec('P29 P05', NB + 'read_pkdgrav_fof_halo_catalogue', {'filename': 'str', 'box_dim': 'float', 'hlittle': 'float'})
spec('P29', NB + 'read_pkdgrav_density_grid', {'filename': 'str', 'box_dim': 'float', 'nGrid': 'int'})
NT = 'nbody_tools.'
_CO = [{}, {'cosmo': 'Planck18'}, {'cosmo': 'wmap9'}, {'cosmo': 'other'}]
spec('P12', NT + '_set_cosmo', {'cosmo': 'str'}, [{'cosmo': c} for c in ('Planck13', 'PLANCK15', 'planck18', 'WMAP1', 'WMAP3', 'WMAP5', 'WMAP7', 'WMAP9', 'other', '@obj')])
spec('P14', NT + 'ParticleMass_to_ParticleNumber', {'Lbox': 'float', 'particle_mass': 'float', 'cosmo': 'obj'}, [{}, {'Lbox': '@obj', 'particle_mass': '@obj'}])
spec('P14', NT + 'halo_mass_to_particle_number', {'Lbox': 'float', 'halo_mass': 'float', 'particles_in_halo': 'int', 'cosmo': 'obj'})
spec('P14', NT + 'particle_number_to_particle_mass', {'Lbox': 'float', 'particle_each_direction': 'float', 'particle_total': 'float', 'cosmo': 'obj'}, [{}, {'particle_each_direction': None}, {'Lbox': '@obj'}])
PK = 'nbody_pkdgrav.'
spec('P29', PK + 'ReaderPkdgrav3.dLightSpeedSim', {'dMpcUnit': 'float'})
spec('P29 P05', PK + 'HaloCataloguePkdgrav3.read_fof_data', {'filename': 'str', 'z': 'float'}, [{}, {'z': None}, {'filename': '@list'}], fields=True)
spec('P29', PK + 'HaloCataloguePkdgrav3._read_fof_data', {'filename': 'str', 'z': 'float'}, [{}, {'z': None}, {'z': '@str'}, {'dtype': None}], fields=True)
spec('P29', PK + 'HaloCataloguePkdgrav3.array_fof_data', {}, [{}, {'dtype': 'str'}, {'dtype': 'float'}])
spec('P29', PK + 'HaloCataloguePkdgrav3.get_hmf_data', {'hl_mass': 'arr1', 'bins': 'int'})
spec('P28 P29', PK + 'Pkdgrav3data.load_density_field', {'file': 'str'})

# -- smoothing and random fields -----------------------------------------------------------------------------
SM = 'smoothing.'
spec('P19 P12 P18', 'fft_functions.fftconvolve', {'in1': 'arr', 'in2': 'arr'}, cross({'mode': ['same', 'full', 'valid', 'other'], 'boundary': ['constant', 'circular', 'reflect', 'nearest', 'mirror', 'wrap', 'other'], 'backend': ['numpy']}) +
     cross({'mode': ['same', 'full'], 'boundary': ['constant', 'circular', 'mirror', 'wrap'], 'backend': ['torch', 'jax']}) + [{'backend': 'other', 'mode': 'same', 'boundary': 'constant'}])
_FC = ['fft_functions.fftconvolve']
for _n in ('gauss_kernel', 'gauss_kernel_3d'):
    spec('P19', SM + _n, {'size': 'int', 'sigma': 'float', 'fwhm': 'float'}, [{}, {'fwhm': None}])
spec('P19', SM + 'tophat_kernel', {'size': 'int', 'tophat_width': 'float'})
spec('P19 P12', SM + 'tophat_kernel_3d', {'size': 'int', 'tophat_width': 'float'}, [{'shape': s} for s in ('cube', 'sphere', 'other')] + [{'shape': 'cube', 'size': '@list'}])
spec('P19', SM + 'lanczos_kernel', {'size': 'int', 'kernel_width': 'int'})
spec('P19', SM + 'smooth_gauss', {'input_array': 'arr2', 'sigma': 'float', 'fwhm': 'float'}, [{}, {'fwhm': None}], opaque=_FC)
spec('P19', SM + 'smooth_tophat', {'input_array': 'arr2', 'tophat_width': 'int'}, opaque=_FC + ['angular_coordinates._get_padded_slice'])
spec('P19', SM + 'smooth_lanczos', {'input_array': 'arr2', 'kernel_width': 'int'}, opaque=_FC)
spec('P19', SM + 'smooth_with_kernel', {'input_array': 'arr2', 'kernel': 'arr2'}, opaque=_FC)
spec('P19 P16', SM + 'get_beam_w', {'baseline': 'float', 'z': 'float'})
spec('P19', SM + 'interpolate3d', {'input_array': 'arr3', 'x': 'arr1', 'y': 'arr1', 'z': 'arr1', 'order': 'int'})
spec('P19', SM + 'interpolate2d', {'input_array': 'arr2', 'x': 'arr1', 'y': 'arr1', 'order': 'int'})
_SC = _FC + ['cosmo.cdist_to_z', 'cosmo.z_to_cdist', 'cosmo.hubble_parameter', 'helper_functions.find_idx']
_SB = {'max_baseline': 'float', 'box_size_mpc': 'float', 'ratio': 'float'}
spec('P19 P05', SM + 'smooth_lightcone', dict(_SB, lightcone='arr3', z_array='arr1'), [{}, {'z_array': '@float'}, {'box_size_mpc': False}, {'max_baseline': '@obj'}], opaque=_SC + [SM + 'smooth_lightcone_tophat', SM + 'smooth_lightcone_gauss'])
spec('P19 P13 P05', SM + 'smooth_coeval', dict(_SB, cube='arr3', z='float'), [{'nu_axis': a} for a in (0, 1, 2)] + [{'box_size_mpc': False}, {'max_baseline': '@obj'}], opaque=_SC + [SM + 'smooth_coeval_tophat', SM + 'smooth_coeval_gauss'])
spec('P19 P13', SM + 'smooth_coeval_tophat', {'cube': 'arr3', 'width': 'float'}, [{'nu_axis': a} for a in (0, 1, 2, -1, -2, -3)], opaque=_FC)
spec('P19 P13', SM + 'smooth_coeval_gauss', {'cube': 'arr3', 'fwhm': 'float'}, [{'nu_axis': a} for a in (0, 1, 2, -1, -2, -3)], opaque=_FC)
spec('P19', SM + 'smooth_lightcone_tophat', {'lightcone': 'arr3', 'redshifts': 'arr1', 'dz': 'arr1'}, opaque=_SC)
spec('P19 P13', SM + 'smooth_lightcone_gauss', {'lightcone': 'arr3', 'fwhm': 'arr1'}, [{'nu_axis': a} for a in (0, 1, 2, -1, -2, -3)], opaque=_FC)
spec('P19 P08', SM + 'smooth_lightcone_uv_threshold', {'lightcone': 'arr3', 'uv_box': 'arr3', 'threshold': 'float'}, [{}, {'threshold': '@int'}, {'threshold': -1.0}])
spec('P19 P21', SM + 'remove_baselines_from_uvmap', {'uv_map': 'arr2', 'z': 'float', 'max_baseline': 'float', 'box_size_mpc': 'float'}, [{}, {'box_size_mpc': False}, {'max_baseline': '@obj'}])
_UV = ['radio_telescope_noise.get_uv_map', SM + 'remove_baselines_from_uvmap']
_UVT = {'z': 'float', 'max_baseline': 'float', 'box_size_mpc': 'float', 'total_int_time': 'float', 'int_time': 'float', 'declination': 'float', 'uv_map': 'arr2'}
spec('P19 P05 P22', SM + 'convolve_uvmap', dict(_UVT, array='arr2'), [{}, {'uv_map': None}, {'max_baseline': None, 'uv_map': None}, {'box_size_mpc': False, 'uv_map': None}, {'max_baseline': '@obj', 'uv_map': None}], opaque=_UV)
spec('P19 P05 P13 P22', SM + 'convolve_uvmap_coeval', dict(_UVT, cube='arr3', ratio='float'), [{'nu_axis': a} for a in (0, 1, 2, -1)] + [{'uv_map': None, 'nu_axis': 2}, {'box_size_mpc': False, 'nu_axis': 2}], opaque=_UV + _SC + [SM + 'smooth_coeval_tophat', SM + 'convolve_uvmap'])
spec('P19 P12 P07', SM + 'smooth_line', {'y': 'arr1', 'window': 'int'}, [{'kind': k} for k in ('tophat', 'boxcar', 'normal', 'gaussian', 'triangular', 'hamming', 'hanning', 'other')] + [{'window': '@list'}, {'window': '@arr1'}, {'window': '@float'}])
spec('P19 P12', 'beam_convolve.beam_convolve', {'input_array': 'arr2', 'z': 'float', 'fov_mpc': 'float', 'beam_w': 'float', 'max_baseline': 'float'}, [{}, {'beam_w': None}, {'beam_w': None, 'max_baseline': None}, {'beamshape': 'other'}], opaque=_FC + ['cosmo.angular_size'])
GR = 'gaussian_random_field.'
spec('P18 P04', GR + 'make_gaussian_random_field', {'dims': 'list', 'power_spectrum': 'func', 'random_seed': 'int'}, [{'box_dims': b} for b in ('@float', '@list')] + [{'dims': ['$a', '$b'], 'box_dims': '@float'}, {'random_seed': None, 'box_dims': '@float'}, {'random_seed': 0, 'box_dims': '@float'}, {'dims': ['$a', '$b', '$c'], 'box_dims': '@list'}])
spec('P18 P04 P05', GR + 'make_gaussian_random_field_like_field', {'input_field': 'arr3', 'kbins': 'int', 'random_seed': 'int'}, [{'box_dims': '@float'}], opaque=[GR + 'make_gaussian_random_field', PS + 'power_spectrum_1d'])
spec('P17', GR + '_get_ps_func_for_field', {'input_field': 'arr3', 'kbins': 'int'}, [{'box_dims': '@float'}], opaque=[PS + 'power_spectrum_1d'])
spec('P18', GR + 'fourier_phase_shuffled', {'input_array': 'arr'})

# -- files -----------------------------------------------------------------------------------------------------
FN = {'filename': 'str'}
DK = dict(fields='disk')
_HF = 'helper_functions.'
for _q, _d in (('density_file.DensityFile', 'raw_density'), ('density_file.ClumpingFile', 'raw_clumping'), ('vel_file.VelocityFile', 'raw_velocity')):
    _c = [{'old_format': o} for o in (True, False)] if 'Density' in _q else [{}]
    spec('P10 P29', _q + '.read_from_file', FN, _c, **DK)
    spec('P10', _q + '.__init__', FN, [dict(c, filename='a/7.0n_all.dat') for c in _c] + [{'filename': None}], **DK)
spec('P10 P29', 'density_file.DensityFile.write_to_file', dict(FN, raw_density='arr3', cgs_density='arr3'), cross({'old_format': [True, False], 'raw_density': ['@arr3', None], 'cgs_density': ['@arr3', None]}), **DK)
spec('P10', 'density_file.ClumpingFile.write_to_file', dict(FN, raw_clumping='arr3'), **DK)
spec('P10', 'vel_file.VelocityFile.write_to_file', dict(FN, raw_velocity='vec'), **DK)
spec('P29 P28', 'vel_file.VelocityFile.get_kms_from_density', {}, [{'density': k} for k in ('@str', '@arr3')], **DK)
_B = {'old_format': [True, False], 'binary_format': [True, False]}
spec('P10', 'xfrac_file.XfracFile.read_from_file', FN, cross(_B, {'neutral': [True, False]}), **DK)
spec('P10', 'xfrac_file.XfracFile.__init__', FN, [dict(c, filename='a/xfrac3d_7.0.bin') for c in cross(_B, {'neutral': [True, False]})], **DK)
spec('P10', 'xfrac_file.XfracFile.write_to_file', dict(FN, xi='arr3'), cross(_B, {'neutral': [True, False]}), **DK)
spec('P10', 'irate_file.IonRateFile.read_from_file', FN, cross(_B), **DK)
spec('P10', 'irate_file.IonRateFile.__init__', FN, [dict(c, filename='a/IonRates_7.0.bin') for c in cross(_B)], **DK)
spec('P10', 'temper_file.TemperFile.read_from_file', FN, [{'old_format': o} for o in (True, False)], **DK)
spec('P10', 'temper_file.TemperFile.__init__', FN, [{'old_format': o, 'filename': 'a/Temper3D_7.0.bin'} for o in (True, False)], **DK)
spec('P10 P29 P12', 'source_file.SourceFile.__init__', FN, [{'mass': m, 'filename': 'a/7.0-coarsest.dat'} for m in ('hm', 'lm', 'both', 'other')], **DK)
spec('P10 P29', 'source_file.SourceFile.write_to_file', dict(FN, sources_list='arr2'), **DK)
spec('P10', 'source_file.SourceFile.grid_sources', {'mesh': 'int'}, **DK)
_BO = [{'bits': b, 'order': o} for b in (32, 64, 16) for o in ('C', 'F', '@str')]
spec('P10 P12', _HF + 'read_cbin', FN, _BO + [{'records': True}, {'dimensions': 2}, {'records': True, 'dimensions': '@int'}], **DK)
spec('P10 P12', _HF + 'save_cbin', dict(FN, data='arr3'), _BO, **DK)
spec('P10 P12', _HF + 'read_raw_binary', FN, _BO, **DK)
spec('P10 P12', _HF + 'save_raw_binary', dict(FN, data='arr3'), _BO, **DK)
spec('P10', _HF + 'read_fits', FN, [{'header': True}, {'header': False}], **DK)
spec('P10', _HF + 'save_fits', dict(FN, data='arr3', header='obj'), [{}, {'header': None}, {'data': '@str'}], opaque=[_HF + 'get_data_and_type'], **DK)
spec('P10 P20', _HF + 'determine_filetype', FN)
spec('P10 P20 P12', _HF + 'get_data_and_type', {'indata': 'str'}, [{'indata': s} for s in ('a/xfrac3d_7.0.bin', 'd/7.000n_all.dat', 'Temper3D_7.0.bin', '7.0v_all.dat', 'x.cbin', 'dbt_7.npy', 'other.dat', '@arr3', '@float', '@list', '@str')] +
     [{'indata': 'x.cbin', 'cbin_bits': 64, 'cbin_order': 'F'}, {'indata': '7.000n_all.dat', 'raw_density': True}], opaque=['xfrac_file.XfracFile', 'density_file.DensityFile', 'temper_file.TemperFile', _HF + 'read_cbin'])
spec('P10 P12', _HF + 'save_data', {'data': 'arr3', 'savefile': 'str', 'filetype': 'str'}, [{'savefile': s, 'filetype': None} for s in ('a.npy', 'a.pkl', 'a.cbin', 'a.fits', 'a.bin', 'a.xyz')] +
     [{'savefile': 'a', 'filetype': t} for t in ('npy', 'python_pickle', 'pkl', 'Pickle', 'cbin', 'fits', 'bin', 'binary', 'other')] +
     [{'savefile': 'a', 'filetype': t, 'kwargs': {'bits': '$b', 'order': '$o', 'header': '$h'}} for t in ('cbin', 'bin', 'fits')], opaque=[_HF + n for n in ('save_cbin', 'save_raw_binary', 'save_fits')], **DK)
spec('P10 P20', _HF + 'get_mesh_size', FN, [{'filename': s} for s in ('a/xfrac3d_7.0.bin', 'd/7.000n_all.dat', 'Temper3D_7.0.bin', 'x.cbin', 'dbt_7.npy', 'other.dat', '@str')])
spec('P20', _HF + 'determine_redshift_from_filename', FN, [{}, {'filename': '@obj'}] + [{'filename': s} for s in ('a/7.305n_all.dat', 'xfrac3d_11.2.bin', 'noz.dat', '2lpt_7.859_300.npy')])
spec('P20', _HF + '_get_redshifts_in_range', {'redshifts': 'list', 'z_low': 'float', 'z_high': 'float'}, cross({'z_low': ['@float', None], 'z_high': ['@float', None], 'bracket': [False]}) + [{'bracket': True}])
for _n in ('get_source_redshifts', 'get_xfrac_redshifts', 'get_dens_redshifts'):
    spec('P20', _HF + _n, {_n.split('_')[1] + '_dir': 'str', 'z_low': 'float', 'z_high': 'float'}, [{}, {'bracket': True}], opaque=[_HF + '_get_redshifts_in_range'])
spec('P20 P27', _HF + 'find_idx', {'ar': 'arr1', 'values': 'arr1'}, [{}, {'values': '@float'}])
spec('P27', _HF + 'combined_mean_variance', {'means': 'arr1', 'variances': 'arr1', 'sample_sizes': 'arr1'}, [{}, {'sample_sizes': None}, {'means': '@list', 'variances': '@list', 'sample_sizes': '@list'}])
spec('P27', _HF + 'outputify', {'output': 'arr1'}, [{}, {'output': '@list'}, {'output': '@float'}])
spec('P27', _HF + 'get_interpolated_array', {'in_array': 'arr1', 'new_len': 'int'})
spec('P27', _HF + 'real_to_fourier_amplitude_phase', {'data': 'arr3'})
spec('P27', _HF + 'flt_comp', {'x': 'float', 'y': 'float'})
_RF = 'read_files.'
_RO = [_RF + n for n in ('_load_binary_data', '_file_at', 'coeval_xfrac_c2ray', 'coeval_dens_c2ray')] + ['xfrac_file.XfracFile', 'vel_file.VelocityFile', _HF + 'get_data_and_type', 'lightcone._get_file_redshifts', 'temperature.calc_dt']


def _ro(n):
    return [q for q in _RO if q != _RF + n]


spec('P10', _RF + '_load_binary_data', FN, [{}, {'dtype': '@str'}], **DK)
spec('P10 P29', _RF + 'read_21cmfast_files', FN, opaque=_ro('read_21cmfast_files'), **DK)
spec('P20 P12 P29', _RF + 'read_c2ray_files', FN, [{'file_type': t, 'density_file': d} for t in ('xfrac', 'dens', 'vel', 'other') for d in (None, '@str')], opaque=_ro('read_c2ray_files'), **DK)
spec('P20', _RF + 'read_grizzly_files', FN, opaque=_ro('read_grizzly_files'), **DK)
spec('P20', _RF + '_file_at', {'files': 'list', 'redshifts': 'arr1', 'z': 'float'}, [{}, {'redshifts': '@list'}])
spec('P20 P12', _RF + 'coeval_xfrac_c2ray', {'xfrac_dir': 'str', 'z': 'float'}, [{}, {'interpolation': 'bogus'}], opaque=_ro('coeval_xfrac_c2ray'))
spec('P20 P29', _RF + 'coeval_dens_c2ray', {'dens_dir': 'str', 'z': 'float'}, opaque=_ro('coeval_dens_c2ray'))
spec('P20 P15', _RF + 'coeval_21cm_c2ray', {'xfrac_dir': 'str', 'dens_dir': 'str', 'z': 'float'}, [{'mean_subtract': m} for m in (True, False)], opaque=_ro('coeval_21cm_c2ray'))
_FM = ['pickle', 'pkl', 'json', 'yaml', 'yml', 'npz', 'nc', 'netcdf', 'zarr', 'csv', 'parquet', 'xlsx', 'foo']
spec('P10 P12', _RF + 'read_dictionary_data', FN, [{'format': f} for f in _FM] + [{'filename': 'A/x.' + f, 'format': None} for f in _FM + ['JSON', 'Nc']], **DK)
spec('P10 P12', _RF + 'write_dictionary_data', dict(FN, data_dict='dict'), [{'format': f} for f in _FM] + [{'filename': 'A/x.' + f, 'format': None} for f in _FM + ['JSON', 'Nc']], **DK)

# -- topology --
VB = 'ViteBetti.'
spec('P23', VB + 'CubeMap', {'arr': 'arr3'}, [{'multi_marker': True}, {'multi_marker': False}])
spec('P23', VB + '_CubeMap_joblib_worker', {'arr_for_vertices': 'arr3', 'i_start': 'int', 'i_end': 'int'}, [{'stage': s, 'markers': m} for s in ('vertices', 'edges', 'faces', 'cubes') for m in ((1, 2, 3, 4),)], fields='shared')
spec('P23', VB + 'CubeMap_joblib', {'arr': 'arr3', 'n_jobs': 'int'}, [{'multi_marker': True}, {'n_jobs': -1}], opaque=[VB + '_CubeMap_joblib_worker'])
spec('P23', VB + 'CubeMap_torch', {'arr': 'arr3'}, [{'multi_marker': True}, {'multi_marker': False}])
TP = 'topology.'
_TO = [VB + n for n in ('CubeMap', 'CubeMap_joblib', 'CubeMap_torch')]
spec('P23', TP + 'EulerCharacteristic', {'data': 'arr3', 'thres': 'float'}, [{'speed_up': s, 'neighbors': n} for s in ('cython', 'Numba', 'torch', 'numpy', 'other') for n in (6, 26, 4)] + [{'speed_up': 'numpy', 'n_jobs': n} for n in (None, 1, 4, -1)] + [{'verbose': False, 'speed_up': 'cython'}], opaque=_TO)
spec('P23', TP + 'betti0', {'data': 'arr3', 'thres': 'float'}, [{'neighbors': n} for n in (4, 6, 18, 26)])
spec('P23', TP + 'betti2', {'data': 'arr3', 'thres': 'float'}, [{'neighbors': n} for n in (4, 6, 18, 26)])
spec('P23', TP + 'betti1', {'data': 'arr3', 'thres': 'float'}, [{'b0': a, 'b2': b, 'chi': c} for a in ('@int', None) for b in ('@int', None) for c in ('@float', None)], opaque=[TP + 'EulerCharacteristic', TP + 'betti0', TP + 'betti2'])
spec('P23', TP + 'count_neighbors_once', {'data': 'arr3', 'stela': 'arr3'})
spec('P23', TP + 'count_neighbors', {'data': 'arr3', 'stela': 'arr3'}, opaque=[TP + 'count_neighbors_once'])
spec('P23', TP + 'genus', {'data': 'arr3', 'xth': 'float'}, opaque=[TP + 'count_neighbors'])

# -- regions of interest and their sizes --
IR = 'identify_regions.'
SX = 'superpixels.'
_UL = [{'upper_lim': True}, {'upper_lim': False}]
spec('P24', IR + 'bubbles_from_slic', {'data': 'arr3', 'n_segments': 'int'}, opaque=[SX + 'slic_cube', SX + 'stitch_superpixels'])
spec('P24', IR + 'bubbles_from_kmeans', {'data': 'arr3', 'n_clusters': 'int'}, cross({'upper_lim': [True, False], 'n_clusters': [2, 3]}), opaque=[IR + 'threshold_kmeans', IR + 'threshold_kmeans_3cluster'])
spec('P24', IR + 'bubbles_from_fixed_threshold', {'data': 'arr', 'threshold': 'float'}, _UL)
spec('P24', IR + 'bubbles_from_triangle3D', {'data': 'arr3', 'nbins': 'int'}, _UL)
spec('P24 P13', IR + 'bubbles_from_triangle2D', {'data': 'arr3', 'nbins': 'int'}, cross({'upper_lim': [True, False], 'loc_axis': [0, 1, 2, -1, -2, -3]}))
spec('P24', IR + 'threshold_kmeans', {'cube': 'arr3'}, _UL)
spec('P24', IR + 'threshold_kmeans_3cluster', {'cube': 'arr3'}, _UL)
_SXO = [SX + n for n in ('slic_cube', 'apply_operator_labelled_data', 'get_superpixel_means', 'get_superpixel_sigmas', 'get_superpixel_n_pixels', 'get_superpixel_pixels', 'superpixel_map', 'get_combined_mean_std', 'get_superpixel_SNRs', 'stitch_using_histogram')]
_DL = {'data': 'arr3', 'labels': 'arr3', 'slic_segments': 'int'}


def _sx(n, types, cases=None, pids='P24'):
    spec(pids, SX + n, types, cases, opaque=[q for q in _SXO if q != SX + n])


_sx('slic_cube', {'cube': 'arr3', 'n_segments': 'int', 'compactness': 'float', 'max_iter': 'int', 'sigma': 'float'}, [{}, {'cmap': 'jet'}])
_sx('see_label', {'out_map': 'arr', 'label': 'int'})
_sx('binary_stitch', {'data': 'arr3', 'labels': 'arr3'}, [{'stitch': s, 'thres': t} for s in ('mean', 'otsu', 'other') for t in (None, '@float')])
_sx('boundaries', {'sl': 'arr2', 'lab': 'arr2', 'factor': 'float'}, [{'mark': True}, {'mark': False}])
_sx('under_segmentation_error', {'labels': 'arr3', 'truths': 'arr3', 'b': 'float'}, [{'verbose': False}])
_sx('stitch_using_histogram', {'data': 'arr3', 'mns': 'arr1', 'labels': 'arr3'}, cross({'bins': ['knuth', 'blocks', '@int'], 'binary': [True, False], 'on_superpixel_map': [True, False]}))
_sx('stitch_superpixels', {'data': 'arr3', 'labels': 'arr3'})
_sx('apply_operator_labelled_data', {'data': 'arr3', 'labels': 'arr3', 'operator': 'func'}, [{'verbose': True}, {'verbose': False}])
for _n in ('get_superpixel_means', 'get_superpixel_sigmas', 'get_superpixel_n_pixels', 'get_superpixel_pixels'):
    _sx(_n, dict(_DL), [{}, {'labels': None}])
_sx('get_superpixel_SNRs', dict(_DL, means='arr1', sigmas='arr1', n_pix='arr1'), [{'pixels': False}, {'pixels': True}, {'means': None, 'sigmas': None, 'n_pix': None, 'pixels': False}, {'means': None, 'sigmas': None, 'n_pix': None, 'labels': None, 'pixels': True}])
_sx('mean_estimate', dict(_DL, means='arr1', sigmas='arr1', n_pix='arr1', SNR_thres='float'), [{}, {'SNR_thres': 5}, {'SNR_thres': -3}])
_sx('get_combined_mean_std', {'means': 'arr1', 'sigmas': 'arr1', 'ns': 'arr1'}, pids='P24 P27')
_sx('xfrac_mass_estimate', {'dT': 'arr3', 'z': 'float'}, pids='P24 P15')
_sx('xfrac_volume_estimate', {'binary': 'arr3'})
_sx('superpixel_map', {'data': 'arr3', 'labels': 'arr3', 'mns': 'arr1'}, [{'verbose': True}, {'verbose': False}, {'mns': None}])
BS = 'bubble_stats.'
_BO = ['mfp_np.mfp2d', 'mfp_np.mfp3d', 'spa_np.spa_np', 'morph.binary_opening', 'Friends_of_Friends.FoF_search'] + [BS + n for n in ('rebin_bsd', '_granulometry', '_watershed', 'h_transform')]


def _bs(n, types, cases=None, pids='P25 P24'):
    spec(pids, BS + n, types, cases, opaque=[q for q in _BO if q != BS + n])


_BX = {'data': 'arr3', 'xth': 'float', 'boxsize': 'float'}
_BB = cross({'upper_lim': [True, False], 'boxsize': ['@float', None]})
_bs('fof', {'data': 'arr3', 'xth': 'float', 'connectivity': 'int'})
_bs('spa', dict(_BX, nscales='int'), _BB)
_BR = dict(_BX, bins='int', r_min='float', r_max='float', verbose='bool')
_bs('mfp', dict(_BR), cross({'upper_lim': [True, False], 'boxsize': ['@float', None], 'data': ['@arr2', '@arr3'], 'bins': [None]}) + [{}, {'data': '@arr1'}])
_bs('averaged_mfp', dict(_BR), cross({'upper_lim': [True, False], 'boxsize': ['@float', None], 'bins': [None]}) + [{}, {'data': '@arr2'}])
_bs('mfp_from_point', dict(_BR, point='list'), cross({'upper_lim': [True, False], 'boxsize': ['@float', None], 'data': ['@arr2', '@arr3'], 'bins': [None]}) + [{}, {'data': '@arr1'}])
_bs('rebin_bsd', {'rr': 'arr1', 'pp': 'arr1', 'bins': 'int'}, cross({'r_min': ['@float', None], 'r_max': ['@float', None]}) + [{'bins': '@arr1'}, {'bins': '@list'}], pids='P25')
_bs('dist_from_volumes', {'sizes': 'arr1', 'resolution': 'float', 'bins': 'int', 'null_factor': 'float'}, [{}, {'null_factor': None}, {'sizes': '@list'}], pids='P25')
_bs('get_distribution', {'array': 'arr3', 'resolution': 'float', 'bins': 'int'}, [{'sizes': False}, {'sizes': True, 'array': '@arr1'}], pids='P25')
_bs('plot_fof_sizes', {'sizes': 'arr1', 'bins': 'int', 'boxsize': 'float'}, cross({'normalize': ['box', 'ionized', 'other'], 'boxsize': ['@float', None]}), pids='P25')
_bs('disk_structure', {'n': 'int'}, pids='P25')
_bs('granulometry_CDF', {'data': 'arr3', 'sizes': 'arr1'}, [{}, {'sizes': None}], pids='P25')
_bs('granulometry_bsd', dict(_BX), _BB)
_bs('_granulometry', {'data': 'arr3', 'n_jobs': 'int'}, [{'data': d, 'n_jobs': n} for d in ('@arr2', '@arr3', '@arr1') for n in (1, 4)], pids='P25')
_bs('h_transform', {'image': 'arr3', 'h': 'float'}, [{}, {'image': '@arr2'}], pids='P25')
_bs('_watershed', {'image': 'arr3', 'h': 'float'}, [{'h': h, 'image': i} for h in ('@float', None) for i in ('@arr2', '@arr3')] + [{'footprint': '@arr3'}], pids='P25')
_bs('watershed_bsd', dict(_BX), _BB)
spec('P25 P24', 'spa_np.spa_np', {'data': 'arr3', 'xth': 'float', 'nscales': 'int'}, [{'binning': b, 'use_fftconvolve': f} for b in ('log', 'linear', 'other') for f in (True, False)])
spec('P25 P24', 'mfp_np.mfp2d', {'arr': 'arr2', 'xth': 'float', 'iterations': 'int'}, [{}, {'point': 'random'}, {'point': '@list'}])
spec('P25 P24', 'mfp_np.mfp3d', {'arr': 'arr3', 'xth': 'float', 'iterations': 'int'}, [{}, {'point': 'random'}, {'point': '@list'}], opaque=['mfp_np._ray3d'])
spec('P25', 'mfp_np._ray3d', {'ar': 'arr3', 'xs': 'arr1', 'ys': 'arr1', 'zs': 'arr1', 'ls': 'arr1', 'ms': 'arr1', 'ns': 'arr1'})
for _n in ('binary_dilation', 'binary_erosion'):
    spec('P25', 'morph.' + _n, {'A': 'arr3', 'B': 'arr3'})
spec('P25', 'morph.binary_opening', {'image': 'arr3', 'structure': 'arr3'})

# -- optical depth --
spec('P26', 'tau.tau', {'ionfractions': 'arr1', 'redshifts': 'arr1', 'num_points': 'int'})
spec('P26 P20', 'tau.tau_map', {'num_points': 'int'}, [{'ionfractions': '@arr3', 'redshifts': '@arr1'}, {'ionfractions': '@dict', 'redshifts': '@arr1', 'reading_function': '@func'}, {'ionfractions': '@dict'}, {'ionfractions': '@list', 'redshifts': '@arr1', 'reading_function': '@func'}], opaque=['lightcone.make_lightcone'])

# -- velocity distortion by particles --
spec('P28', 'pv_mpm.get_distorted_dt', {'dT': 'arr3', 'kms': 'arr4', 'redsh': 'float', 'num_particles': 'int'}, cross({'los_axis': [0, 1, 2], 'periodic': [True, False], 'velocity_axis': [0, 1, 2]}) + [{'los_axis': 1, 'velocity_axis': 2, 'periodic': True, 'redsh': '@arr1'}, {'los_axis': 3}], opaque=['helper_functions.get_interpolated_array'])
spec('P28 P13', 'pv_mpm.make_pv_box', {'dT_filename': 'str', 'vel_filename': 'str', 'dens_filename': 'str', 'z': 'float', 'num_particles': 'int'}, [{'los': 0}, {'los': 1}, {'los': 2}], opaque=['pv_mpm.get_distorted_dt', 'helper_functions.read_cbin'])

# -- telescope sensitivity and noise --
_RS, _RL, _RN = 'radio_telescope_sensitivity.', 'radio_telescope_layout.', 'radio_telescope_noise.'
_RP = 'read_files.get_package_resource_path'
_XYZ = [_RL + 'subarray_type_to_antxyz', _RL + 'get_uv_daily_observation', _RL + 'SKA1_LowConfig_Sept2016']
spec('P21 P16', _RS + 'get_SEFD', {'nu_obs': 'arr1', 'D_station': 'float'},
     cross({'sefd_data': [None], 'nu_obs': ['@arr1', '@float'], 'T_sys': [None, '@float', '@func'], 'ep_aperture': [None, '@float', '@func']}) +
     [{'nu_obs': n, 'sefd_data': '@arr1', 'nu_data': '@arr1'} for n in ('@arr1', '@float')] + [{'sefd_data': '@arr1', 'nu_data': None}] + [{'sefd_data': s} for s in ('SKA1-LOW', 'ska1')], opaque=[_RP])
spec('P21', _RS + 'sigma_noise_radio', {'z': 'float', 'depth_mhz': 'float', 'obs_time': 'float', 'int_time': 'float', 'N_ant': 'int', 'D_station': 'float'}, [{'uv_map': u, 'T_sys': s} for u in (None, '@arr2') for s in (None, '@float')], opaque=[_RS + 'get_SEFD'])
spec('P21', _RS + 'apply_uv_response', {'array': 'arr2', 'uv_map': 'arr2'})
spec('P21 P14', _RS + 'kelvin_jansky_conversion', {'ncells': 'int', 'z': 'float'}, [{}, {'boxsize': '@float'}])
spec('P21 P14', _RS + 'jansky_2_kelvin', {'array': 'arr3', 'z': 'float'}, cross({'array': ['@arr2', '@arr3'], 'boxsize': [None, '@float'], 'ncells': [None, '@int']}))
spec('P21 P14', _RS + 'kelvin_2_jansky', {'array': 'arr3', 'z': 'float'}, cross({'array': ['@arr2', '@arr3'], 'boxsize': [None, '@float'], 'ncells': [None, '@int']}))
_UVO = [_RS + 'sigma_noise_radio', _RN + 'get_uv_map', _RN + 'apply_uv_response_noise', _RN + 'signal_window', _RN + 'ifft2_wrap'] + _XYZ
_NO = {'z': 'float', 'depth_mhz': 'float', 'ncells': 'int', 'obs_time': 'float', 'int_time': 'float', 'total_int_time': 'float', 'declination': 'float'}
spec('P21', _RN + 'signal_window', {'ncells': 'int', 'extra_param': 'float'}, [{'method': m, 'ndim': 2} for m in ('blackmanharris', 'Blackman-Harris', 'blackman', 'barthann', 'bartlett', 'gaussian', 'hamming', 'hann', 'kaiser', 'other')] + [{'method': 'hann', 'ndim': n} for n in (1, 4)])
spec('P21 P05', _RN + 'noise_coeval_power_spectrum_1d', dict(_NO, kbins='int'), cross({'uv_map': [None, '@arr2'], 'uv_weighting': ['natural', 'uni', 'other'], 'boxsize': [None, '@float'], 'N_ant': [None, '@int'], 'return_n_modes': [True]}) + [{'return_n_modes': False, 'uv_map': '@arr2'}], opaque=_UVO + ['power_spectrum.radial_average'])
spec('P21 P05 P18', _RN + 'noise_map', dict(_NO), cross({'uv_map': [None, '@arr2'], 'boxsize': [None, '@float'], 'N_ant': [None, '@int'], 'fft_wrap': [True, False]}), opaque=_UVO)
spec('P21', _RN + '_suppress_sharp_features_uv_map', {'uv_map': 'arr2', 'boxsize': 'float'}, [{'method': m} for m in ('gaussian', True, 'binned', 'bin', 'other')], opaque=['power_spectrum.radial_average'])
spec('P21', _RN + 'apply_uv_response_noise', {'noise': 'arr2', 'uv_map': 'arr2', 'boxsize': 'float'}, cross({'uv_weighting': ['nat', 'natural', 'uniform', 'other'], 'suppress_sharp_features_uv_map': [False, True, 'gaussian']}), opaque=[_RN + '_suppress_sharp_features_uv_map'])
spec('P21', _RN + 'apply_uv_response_noise_briggs', {'noise': 'arr2', 'uv_map': 'arr2', 'robust': 'float'})
spec('P21 P18', _RN + 'ifft2_wrap', {'nn1': 'arr2'})
spec('P21 P22', _RN + 'apply_uv_response_on_image', {'array': 'arr2', 'uv_map': 'arr2'})
spec('P21 P16', _RN + 'max_baseline_to_max_k', {'redshift': 'float', 'max_baseline': 'float'}, [{}, {'max_baseline': '@quantity'}])
spec('P21 P05', _RN + 'noise_cube_coeval', dict(_NO), cross({'uv_map': [None, '@arr2'], 'boxsize': [None, '@float'], 'N_ant': [None, '@int'], 'depth_mhz': [None, '@float']}), opaque=_UVO + [_RN + 'noise_map'])
spec('P21 P05', _RN + 'noise_cube_lightcone', dict(_NO), [{}, {'boxsize': '@float'}, {'N_ant': '@int', 'save_uvmap': '@str'}], opaque=_UVO + [_RN + 'noise_lightcone'])
spec('P21 P22 P05', _RN + 'noise_lightcone', dict(_NO), [{'zs': '@arr1'}, {'zs': '@list'}, {'zs': '@arr1', 'N_ant': '@int', 'boxsize': '@float', 'save_uvmap': '@str'}], opaque=_UVO + [_RN + 'noise_map', _RN + 'get_uv_map_lightcone'])
spec('P21', _RN + 'gauss_kernel_3d', {'size': 'int', 'sigma': 'float'}, [{}, {'fwhm': '@float'}, {'size': 8}, {'size': 9}])
spec('P21', _RN + 'smooth_gauss_3d', {'array': 'arr3', 'fwhm': 'float'}, opaque=[_RN + 'gauss_kernel_3d'])

# -- uv coverage --
spec('P22 P18', _RN + 'get_uv_map', dict(_NO), cross({'boxsize': [None, '@float'], 'max_baseline': [None, '@float'], 'include_mirror_baselines': [True, False]}), opaque=_XYZ)
spec('P22 P05', _RN + 'make_uv_map_lightcone', dict(_NO, zs='arr1'), [{}, {'boxsize': '@float'}], opaque=_UVO)
spec('P22', _RN + 'apply_uv_response_on_coeval', dict(_NO, array='arr3'), cross({'boxsize': [None, '@float'], 'uv_map': [None, '@arr2']}), opaque=_UVO)
spec('P22', _RN + 'get_uv_map_lightcone', dict(_NO, n_jobs='int', checkpoint='int'), [{'zs': '@arr1', 'save_uvmap': None, 'n_jobs': 1}, {'zs': '@arr1', 'save_uvmap': None, 'n_jobs': 1, 'checkpoint': None}, {'zs': '@list', 'save_uvmap': None, 'n_jobs': 4, 'checkpoint': None}, {'zs': '@arr1', 'save_uvmap': None, 'n_jobs': 4, 'checkpoint': 16}, {'zs': '@arr1', 'save_uvmap': None, 'n_jobs': 1, 'subarray_type': 'AA*', 'boxsize': '@float'}] + [{'zs': '@arr1', 'save_uvmap': '@str', 'subarray_type': '@arr2', 'boxsize': '@float', 'verbose': False, 'n_jobs': n, 'checkpoint': c} for n, c in ((1, None), (4, 16), (1, 16))], opaque=_UVO + ['read_files.read_dictionary_data', 'read_files.write_dictionary_data'])
spec('P22', _RN + 'get_uv_map_lightcone', dict(_NO), [{'zs': '@arr1', 'save_uvmap': 'uv.pkl', 'subarray_type': '@arr2', 'boxsize': '@float', 'verbose': False, 'n_jobs': n, 'checkpoint': c} for n, c in ((1, None), (4, 16), (1, 16))], opaque=_UVO, fields='disk')
spec('P22', _RL + 'subarray_type_to_antxyz', {}, [{'subarray_type': 'AA4'}, {'subarray_type': '@str'}, {'subarray_type': '@arr2'}, {'subarray_type': None}], opaque=[_RL + 'get_SKA_Low_layout', _RL + 'SKA1_LowConfig_Sept2016'])
spec('P22 P16', _RL + 'from_antenna_config', {'antxyz': 'arr2', 'z': 'float'}, [{}, {'nu': '@float'}, {'antxyz': None}, {'antxyz': '@quantity'}], opaque=_XYZ)
spec('P22', _RL + 'earth_rotation_effect', {'Nbase': 'arr2', 'slice_nums': 'int', 'int_time': 'float', 'total_int_time': 'float', 'declination': 'float'}, [{}, {'slice_nums': '@arr1'}])
spec('P22 P05', _RL + 'get_uv_daily_observation', dict(_NO, antxyz='arr2'), [{}, {'boxsize': '@float', 'include_mirror_baselines': True}], opaque=[_RL + 'from_antenna_config', _RL + 'grid_uv_tracks', _RL + 'earth_rotation_effect'])
spec('P22 P18', _RL + 'grid_uv_tracks', {'Nbase': 'arr2', 'z': 'float', 'ncells': 'int'}, cross({'boxsize': [None, '@float'], 'include_mirror_baselines': [True, False]}))
spec('P22 P14', _RL + 'geographic_to_cartesian_coordinate_system', {'antll': 'arr2'}, [{}, {'antll': '@quantity'}])
spec('P22 P14', _RL + 'cartesian_to_geographic_coordinate_system', {'antxyz': 'arr2'}, [{}, {'antxyz': '@quantity'}])
spec('P22', _RL + 'antenna_positions_to_baselines', {'antxyz': 'arr2'})
spec('P22 P14', _RL + 'enu_to_ecef', {'enu': 'arr2', 'lat_deg': 'float', 'lon_deg': 'float', 'origin_ecef': 'arr1'})
spec('P22 P14', _RL + 'ecef_to_xyz', {'ecef': 'arr2', 'lon_deg': 'float', 'origin_ecef': 'arr1'})
spec('P22 P12', _RL + 'get_SKA_Low_layout', {}, [{'subarray_type': s, 'unit': 'ecef'} for s in ('AA4', 'AAstar', 'aa*', 'AA2', 'AA1', 'AA0.5', 'skalow1', 'other')] + [{'unit': s, 'subarray_type': 'AA4'} for s in ('enu', 'xyz', 'latlon', 'geodetic', 'other')], opaque=[_RP])

# -- correlation functions, multipoles, position dependent spectra --
_CF, _PD = 'corr_function.', 'position_dependent_power_spectrum.'
_P1 = [PS + 'power_spectrum_1d', PS + 'cross_power_spectrum_1d']
spec('P30', _CF + 'ps_to_corr', {'ps': 'arr1', 'ks': 'arr1', 'n_grid': 'int', 'box_dims': 'float'}, [{'rbins': r, 'binning': b} for r in ('@int', '@arr1') for b in ('log', 'linear', 'other')] + [{'rbins': '@int', 'box_dims': None}])
_CA = {'rbins': 'int', 'kbins': 'int', 'box_dims': 'float'}
spec('P30 P05', _CF + 'correlation_function', dict(_CA, input_array_nd='arr3'), [{}, {'box_dims': None}, {'kbins': None}], opaque=_P1 + [_CF + 'ps_to_corr'])
spec('P30 P05', _CF + 'cross_correlation_function', dict(_CA, input_array1_nd='arr3', input_array2_nd='arr3'), [{}, {'box_dims': None}, {'kbins': None}], opaque=_P1 + [_CF + 'ps_to_corr'])
spec('P30', _CF + 'landy_szalay_estimator', {'box_dims': 'float', 'rbins': 'int'}, [{'data': '@arr2', 'binning': b, 'randoms': r} for b in ('log', 'linear', 'other') for r in (None, '@arr2')] + [{'data': '@arr3', 'randoms': '@arr2', 'box_dims': None}, {'data': '@arr2', 'randoms': '@arr2', 'rbins': '@arr1'}, {'data': '@arr2', 'randoms': '@arr2', 'kwargs': {'rmin': '$a', 'rmax': '$b'}}])
spec('P30 P13', 'power_legendre.power_spectrum_multipoles', dict(A3, box_dims='list'), [{'los_axis': a, 'exclude_zero_modes': z} for a in (0, 1, 2) for z in (True, False)] + [{'output': ['P0'], 'los_axis': 0}, {'output': ['P2', 'nmodes'], 'los_axis': 1}, {'output': ['P4'], 'los_axis': 2}, {'los_axis': 3}, {'los_axis': -1}], opaque=OPQ + [PS + '_get_dims', PS + '_get_k', PS + '_get_kbins', PS + 'get_k', PS + 'get_kbins'])
_PDA = {'Ncuts': 'int', 'kbins': 'int', 'box_dims': 'float'}
spec('P30 P05', _PD + 'power_spectrum_response', dict(_PDA, cube='arr3'), [{'cube2': None}, {'cube2': '@arr3'}], opaque=[_PD + 'integrated_bispectrum_cross'])
spec('P30 P05', _PD + 'integrated_bispectrum', dict(_PDA, cube='arr3'), opaque=[_PD + 'integrated_bispectrum_cross'])
spec('P30', _PD + 'integrated_bispectrum_cross', dict(_PDA, cube1='arr3', cube2='arr3'), [{'normalize': n, 'Ncuts': c} for n in (True, False) for c in ('@int', 2)], opaque=_P1 + [_PD + '_W_L'])
spec('P30', _PD + '_W_L', {'array': 'arr3', 'rL': 'list'}, [{'L': '@list'}, {'L': '@float'}, {'rL': ['$a', '$b', '$c'], 'L': ['$p', '$q', '$r']}])

# -- bispectrum --
_BS = 'bispectrum.'
_B = _BS + 'Bispectrum.'
_BK = {'self': 'obj', 'n_bins': 'int', 'dk': 'float', 'box_dims': 'float', 'k1': 'float', 'k2': 'float', 'n_jobs': 'int'}
_BO = [_BS + 'fft_nd', _B + 'bispectrum_fast', PS + 'apply_window', PS + '_get_kbins', PS + 'get_kbins']
spec('P30 P05', _BS + 'fft_nd', {'input_array': 'arr3'}, cross({'box_dims': BOX}))
spec('P30', _B + '__init__', {'self': 'obj', 'input_array': 'arr3'}, cross({'box_dims': BOX}), fields=True)
spec('P30', _B + 'spherical_shell_mask', {'self': 'obj', 'array_shape': 'list', 'k_center': 'float', 'k_width': 'float'}, [{'k_comp': None, 'k_mag': '@arr3'}, {'k_mag': None, 'k_comp': '@arr4'}])
spec('P30', _B + 'cosine_rule', {'self': 'obj', 'k1': 'float', 'k2': 'float', 'alpha': 'arr1'})
spec('P30', _B + 'bispectrum_fast', {'self': 'obj', 'input_array_fft': 'arr3', 'k_mag': 'arr3', 'box_dims': 'list'}, [{}, {'k2': '$k1', 'k3': '$k1'}], opaque=[_B + 'spherical_shell_mask'])
spec('P30 P05', _B + 'bispectrum_k1k2', _BK, cross({'binning': ['linear', 'log', 'other'], 'n_jobs': [1, 4], 'window': [None, 'tukey']}) + [{'box_dims': None}], opaque=_BO)
spec('P30 P05', _B + 'bispectrum_k', _BK, cross({'binning': ['linear', 'log', 'other'], 'n_jobs': [1, 4], 'window': [None, 'tukey']}) + [{'box_dims': None}, {'dk': '@arr1'}], opaque=_BO)
spec('P30 P05', _BS + 'bispectrum_k1k2', {'input_array': 'arr3', 'k1': 'float', 'k2': 'float', 'n_bins': 'int', 'box_dims': 'float'}, [{}, {'window': 'tukey'}])
spec('P30 P05', _BS + 'bispectrum_equilateral', {'input_array': 'arr3', 'n_bins': 'int', 'box_dims': 'float'}, [{'kwargs': {'binning': b}} for b in ('log', 'linear', 'LIN', 'other')] + [{'kwargs': {}}])
spec('P30', _BS + 'BispectrumPylians.__init__', {'self': 'obj', 'input_array': 'arr3'}, cross({'box_dims': BOX}), fields=True)
spec('P30', _BS + 'BispectrumPylians.bispectrum_k1k2', {'self': 'obj', 'k1': 'float', 'k2': 'float'}, [{'n_bins': '@int'}, {'n_bins': '@arr1'}])

# -- angular coordinates --
_AC = 'angular_coordinates.'
_CO = ['cosmo.' + n for n in ('z_to_cdist', 'cdist_to_z', 'nu_to_cdist', 'angular_size_comoving', 'deg_to_cdist', 'nu_to_z', 'z_to_nu')]
_SL = {'input_slice': 'arr2', 'z': 'float', 'dtheta': 'float', 'fov_deg': 'float', 'slice_size_mpc': 'float', 'order': 'int'}
spec('P31 P05 P12', _AC + 'physical_lightcone_to_observational', {'physical_lightcone': 'arr3', 'input_z_low': 'float', 'output_dnu': 'float', 'output_dtheta': 'float', 'input_box_size_mpc': 'float'},
     cross({'mode': ['pad', 'full', 'extend', 'crop', 'valid', 'CROP', 'other']}) + [{'input_z_low': '@arr1', 'mode': 'crop'}, {'input_z_low': '@arr1'}, {'input_box_size_mpc': None}], opaque=_CO + [_AC + 'bin_lightcone_in_frequency', _AC + 'physical_slice_to_angular'])
spec('P31 P05', _AC + 'observational_lightcone_to_physical', {'observational_lightcone': 'arr3', 'input_freqs': 'arr1', 'input_dtheta': 'float'}, opaque=_CO + [_AC + 'bin_lightcone_in_mpc', _AC + 'angular_slice_to_physical'])
spec('P31 P05', _AC + 'physical_slice_to_angular', _SL, opaque=_CO + [_AC + 'resample_slice'])
spec('P31 P05', _AC + 'angular_slice_to_physical', {'input_slice': 'arr2', 'z': 'float', 'slice_size_deg': 'float', 'output_cell_size': 'float', 'output_size_mpc': 'float', 'order': 'int'}, [{}, {'prefilter': False}], opaque=_CO + [_AC + 'resample_slice'])
spec('P31 P05', _AC + 'resample_slice', {'input_slice': 'arr2', 'n_output_cells': 'int'}, [{'prefilter': True}, {'prefilter': False}, {'order': '@int'}], opaque=['smoothing.smooth_tophat', 'smoothing.interpolate2d'])
spec('P31', _AC + 'bin_lightcone_in_frequency', {'lightcone': 'arr3', 'z_low': 'float', 'box_size_mpc': 'float', 'dnu': 'float'}, opaque=_CO + ['helper_functions.find_idx'])
spec('P31', _AC + 'bin_lightcone_in_mpc', {'lightcone': 'arr3', 'frequencies': 'arr1', 'cell_size_mpc': 'float'}, opaque=_CO + ['helper_functions.find_idx'])
spec('P31', _AC + '_get_padded_slice', {'input_slice': 'arr2', 'padded_n': 'int'})
spec('P31', _AC + 'padding_lightcone', {'lc': 'arr3', 'padded_n': 'int'}, [{'padded_n': None}, {}, {'mode': 'reflect'}])

# -- the older power spectrum module, analytic noise level --
_PF = 'power_spect_fast.'
spec('P17', _PF + 'power_spect_nd', {'input_array': 'arr3'}, [{'box_dims': '@float'}, {'box_dims': '@list'}])
spec('P18', _PF + '_get_k', {}, [{'input_array': '@arr%d' % n, 'box_dims': b} for n in (1, 2, 3) for b in ('@float', '@list')])
spec('P17 P18 P12', _PF + 'power_spect_1d', {'input_array': 'arr3', 'kbins': 'int', 'box_dims': 'float'}, cross({'binning': ['log', 'linear', 'auto', 'other'], 'return_modes': [True, False]}) + [{'kmin': '@float', 'kmax': '@float', 'binning': 'linear'}])
spec('P17', _PF + 'dimensional_power', {'input_array': 'arr3', 'kbins': 'int', 'box_dims': 'float'}, [{'return_modes': True}, {'return_modes': False, 'binning': 'linear'}], opaque=[_PF + 'power_spect_1d'])
_PX = [_PF + 'power_spect_nd', _PF + '_get_k']
_P2 = {'kbins': '@int', 'nu_axis': 2, 'window': None, 'return_modes': True, 'binning': 'linear'}
spec('P18 P17 P13 P12', _PF + 'power_spect_2d', {'input_array': 'arr3', 'box_dims': 'float', 'kbins': 'int'},
     [dict(_P2, **c) for c in ({'binning': 'log'}, {'nu_axis': 0}, {'nu_axis': 1, 'return_modes': False}, {'binning': 'log', 'return_modes': False}, {'binning': 'other'}, {'kbins': ['$int_a', '$int_b']}, {'kbins': ['$a', '$b'], 'binning': None},
                             {'window': '@arr3'}, {'window': 'blackmanharris'}, {'window': 'Tukey'}, {'window': 'other'})], opaque=_PX)
_P3 = {'return_modes': True, 'binning': 'linear', 'nu_axis': 2}
spec('P18 P17 P13', _PF + 'power_spect_mu', {'input_array': 'arr3', 'box_dims': 'float', 'kbins': 'int', 'mubins': 'int'},
     [dict(_P3, **c) for c in ({'binning': 'log'}, {}, {'nu_axis': 0}, {'nu_axis': 1, 'return_modes': False}, {'binning': ['log', 'linear']}, {'binning': ['linear', 'log'], 'return_modes': False})], opaque=_PX)
spec('P17', _PF + 'phase_spect_nd', {'input_array': 'arr3', 'box_dims': 'float'})
spec('P18', _PF + 'horizon_wedge_equation', {'z': 'float'}, opaque=['cosmo.z_to_cdist', 'cosmo.hubble_parameter'])
spec('P21', 'power_spectrum_noise.noise_error_ps', {'nu_c': 'float', 'k': 'arr1', 't': 'float'}, [{'kwargs': {}}, {'kwargs': {'Rmax': '$a', 'Aeff': 100.0, 'Nstat': '$n', 'B': '$b', 'epsilon': '$e', 'multipole': '$m'}}, {'kwargs': {'Tsys': 50.0}}, {'kwargs': {'multipole': 2}}], opaque=['cosmo.nu_to_cdist'])

# -- foregrounds, primary beam --
_FG, _PB = 'foreground_model.', 'primary_beam.'
_FA = {'z': 'float', 'ncells': 'int', 'boxsize': 'float'}
spec('P32', _FG + 'galactic_synch_fg', _FA, [{'z': z, 'rseed': s} for z in ('@float', '@arr1') for s in ('@int', False)], opaque=['cosmo.z_to_cdist', 'radio_telescope_sensitivity.jansky_2_kelvin'])
spec('P32', _FG + 'extragalactic_pointsource_fg', dict(_FA, S_max='float'), [{'z': z, 'rseed': s} for z in ('@float', '@arr1') for s in ('@int', False)], opaque=['cosmo.z_to_cdist', 'radio_telescope_sensitivity.jansky_2_kelvin'])
spec('P32 P12', _FG + 'diabolo_filter', dict(_FA, mu='float', small_base='float'), [{'array': a, 'ncells': n, 'funct': f, 'boxsize': b} for f in ('step', 'sigmoid', 'other') for a, n in (('@arr3', None), (None, '@int'), (None, None)) for b in ('@float', None)], opaque=['cosmo.z_to_cdist'])
spec('P32', _FG + 'barrel_filter', dict(_FA, small_base='float'), [{'array': a, 'ncells': n, 'boxsize': b, 'k_par_min': k} for a, n in (('@arr3', None), (None, '@int')) for b in ('@float', None) for k in ('@float', None)], opaque=['cosmo.z_to_cdist'])
spec('P32 P05', _FG + 'remove_wedge_image', {'dt': 'arr3', 'z': 'float', 'mu': 'float', 'boxsize': 'float'}, [{'filt': None, 'funct': 'step'}, {'filt': None, 'funct': 'sigmoid'}, {'filt': '@arr3'}], opaque=[_FG + 'diabolo_filter'])
spec('P32', _FG + 'rolling_wedge_removal_lightcone', {'lightcone': 'arr3', 'redshifts': 'arr1', 'cell_size': 'float', 'chunk_length': 'int', 'OMm': 'float', 'buffer_threshold': 'float'}, [{}, {'cell_size': None}, {'chunk_length': None}, {'OMm': None}])
spec('P32 P13 P05', _PB + 'primary_beam', {'z': 'float', 'boxsize': 'float', 'D_station': 'float'}, [{'array': '@arr2', 'boxsize': b} for b in ('@float', None)] + [{'array': '@arr3', 'nu_axis': a, 'z': z} for a in (0, 1, 2) for z in ('@float', '@arr1')] + [{'array': '@arr2', 'D_station': '@obj'}] + [{'array': '@arr3', 'nu_axis': 2, 'l_null': '@float', 'boxsize': None}], opaque=[_PB + 'circular_beam'])
spec('P32', _PB + 'primary_beam_null', {'z': 'float', 'D_station': 'float'}, [{}, {'D_station': '@obj'}], opaque=['cosmo.z_to_cdist'])
spec('P32 P12', _PB + 'circular_beam', {'ncells': 'int', 'z': 'float', 'D_station': 'float', 'boxsize': 'float', 'l_null': 'float'}, [{'beam_func': f, 'l_null': n} for f in ('Gaussian', 'step', 'bessel', 'sigmoid', 'other') for n in ('@float', None)] + [{'boxsize': None, 'beam_func': 'step'}], opaque=[_PB + 'primary_beam_null'])

# -- Lyman alpha transmission, line intensity --
_LT, _LI = 'lyman_alpha_transmission.', 'line_intensity.'
_LY = {'z': 'float', 'xHI': 'arr3', 'dn': 'arr3', 'X_H': 'float', 'nu': 'float', 'Tk': 'float', 'dr': 'float', 'box_len': 'float', 'k_res': 'float', 'f_alpha': 'float'}
spec('P33', _LT + 'approximation_voigt_faddeeva', {'x': 'arr', 'a': 'float'})
spec('P33', _LT + 'direct_voigt_profile', {'x': 'arr1', 'a': 'float'})
spec('P33', _LT + 'lyA_scattering_cross_section', {'nu': 'float'}, [{'Tk': '@float'}, {'Tk': '@arr3'}, {'nu': '@obj', 'Tk': '@obj'}])
spec('P33', _LT + 'tau_nu_lyA_FGPA', _LY, [{'cosmo': None, 'lambda_alpha': '@float'}, {'cosmo': '@obj', 'lambda_alpha': '@float'}, {'lambda_alpha': '@obj', 'cosmo': '@obj'}])
spec('P33', _LT + 'tau_nu_lyA', _LY, [{'cosmo': None}, {'cosmo': '@obj'}, {'Tk': '@arr3', 'cosmo': '@obj'}, {'Tk': '@obj', 'dr': '@obj', 'nu': '@obj', 'cosmo': '@obj'}])
spec('P33 P13 P05 P12', _LT + 'tau_nu_lyA_los', _LY, [{'los_axis': a, 'method': m, 'los_len': l, 'cosmo': '@obj', 'kwargs': k} for a in (0, 1, 2) for m, k in (('FGPA', {}), ('Smith2015', {'Tk': '$T', 'dr': '$d', 'nu': '$n'}), ('other', {})) for l in ('@int', '@obj')] + [{'cosmo': None, 'box_len': None, 'los_axis': 2}], opaque=[_LT + 'tau_nu_lyA', _LT + 'tau_nu_lyA_FGPA'])
_LG = {'z': 'float', 'n_grid': 'int'}
spec('P33', _LI + 'M_HI_on_grid', dict(_LG, mass='arr1', pos_xyz='arr2', box_dim='float'), [{'cosmo': None}, {'cosmo': '@obj'}, {'cosmo': '@obj', 'mass': '@obj', 'pos_xyz': '@obj', 'box_dim': '@obj'}, {'recipe': 'other'}, {'cosmo': '@obj', 'kwargs': {'Y_p': '$y', 'alpha': '$a', 'beta': '$b', 'v_c0': '$v'}}], opaque=['nbody_file.halo_list_to_grid'])
spec('P33', _LI + 'L_CII_on_grid', dict(_LG, mass='arr1', pos_xyz='arr2', box_dim='float'), [{'cosmo': '@obj', 'recipe': 'Silva2015m%d' % i} for i in (1, 2, 3, 4)] + [{'recipe': 'other'}, {'mass': '@obj', 'pos_xyz': '@obj', 'box_dim': '@obj'}, {'SFR': '@obj'}, {'kwargs': {'a_LCII': '$a', 'b_LCII': '$b', 'SFR0': '$s'}}], opaque=['nbody_file.halo_list_to_grid'])

# -- gains and antenna tags --
_RC = 'radio_telescope_calibration.'
_GX = ['cosmo.z_to_nu', 'cosmo.z_to_cdist', _RL + 'SKA1_LowConfig_Sept2016', _RL + 'geographic_to_cartesian_coordinate_system', _RL + 'subarray_type_to_antxyz', _RL + 'earth_rotation_effect']
_GN = {'ncells': 'int', 'z': 'float', 'Nbase': 'arr2', 'total_int_time': 'float', 'int_time': 'float', 'declination': 'float'}
spec('P34 P16', _RC + 'from_antenna_config_with_gains', {'antxyz': 'arr2', 'z': 'float'},
     [{'gain_model': '@arr2'}, {'gain_model': '@arr2', 'nu': '@float'}, {'gain_model': '@arr2', 'antxyz': None}, {'gain_model': '@arr2', 'antxyz': '@quantity'}, {'gain_model': {'name': 'random_uniform', 'min': '$a', 'max': '$b'}},
      {'gain_model': {'name': 'Random_Gaussian', 'mu': '$a', 'std': '$b'}}, {'gain_model': {'name': 'other'}}, {'gain_model': {'real': '$f', 'imag': '$g'}}, {'gain_model': {'amplitude': '$f', 'phase': '$g'}}, {'gain_model': {'other': '$f'}}], opaque=_GX)
spec('P34 P16', _RC + 'from_antenna_config_with_antenna_stamp', {'antxyz': 'arr2', 'z': 'float'}, [{}, {'nu': '@float'}, {'antxyz': None}, {'antxyz': '@quantity'}], opaque=_GX)
spec('P34', _RC + '_grid_uv_tracks_with_gains', dict(_GN, gain_vals='arr2', gain_uv_map='arr3'), cross({'boxsize': [None, '@float'], 'include_mirror_baselines': [True, False]}), opaque=_GX)
spec('P34 P05', _RC + 'get_uv_map_with_gains', dict(_GN, gain_timescale='list'), [{'gain_model': '@arr2'}, {'gain_model': '@arr2', 'boxsize': '@float', 'include_mirror_baselines': True, 'verbose': False, 'subarray_type': '@str'}, {'gain_model': '@arr2', 'gain_timescale': ['$s']}], opaque=_GX + [_RC + 'from_antenna_config_with_gains', _RC + '_grid_uv_tracks_with_gains'])
spec('P34', _RC + 'gain_uv_map_to_uv_map', {'gain_uv_map': 'arr3'})
spec('P34', _RC + 'apply_uv_with_gains_response_on_image', {'array': 'arr2', 'gain_uv_map': 'arr3'})
spec('P34', _RC + '_grid_uv_tracks_with_antenna_stamp', dict(_GN, ant_tag='arr2', ant_tag_uv_map='arr3', time_idx='int'), cross({'boxsize': [None, '@float']}), opaque=_GX)
spec('P34', _RC + '_grid_uv_lagrangian_tracks_with_antenna_stamp', dict(_GN, ant_tag='arr2', ant_tag_uv_map='arr3', time_idx='int'), cross({'boxsize': [None, '@float']}), opaque=_GX)
_GC = dict(_GN, chunk_start='int', chunk_end='int')
spec('P34', _RC + '_process_chunk_get_full_uv_map_with_antenna_stamp', _GC, [{'show_progress': False}, {'show_progress': True}], opaque=_GX + [_RC + '_grid_uv_tracks_with_antenna_stamp'])
spec('P34', _RC + '_process_chunk_get_full_uv_lagrangian_with_antenna_stamp', _GC, [{'show_progress': False}, {'show_progress': True}], opaque=_GX + [_RC + '_grid_uv_lagrangian_tracks_with_antenna_stamp'])
_GO = [_RC + n for n in ('from_antenna_config_with_antenna_stamp', '_process_chunk_get_full_uv_map_with_antenna_stamp', '_process_chunk_get_full_uv_lagrangian_with_antenna_stamp')]
spec('P34 P22', _RC + 'get_full_uv_map_with_antenna_stamp', _GN, [{'n_jobs': 1}, {'n_jobs': '@int', 'boxsize': '@float'}, {'n_jobs': -1}, {'include_mirror_baselines': True}], opaque=_GX + _GO)
spec('P34 P22', _RC + 'get_full_uv_lagrangian_with_antenna_stamp', _GN, [{'n_jobs': 1}, {'n_jobs': '@int', 'boxsize': '@float'}, {'n_jobs': -1}, {'include_mirror_baselines': True}], opaque=_GX + _GO)
spec('P34', _RC + 'full_uv_map_with_antenna_stamp_to_uv_map', {'ant_tag_uv_map': 'arr3'})

# -- coeval cubes at a redshift --
_UF = 'usefuls.'
_UOP = ['xfrac_file.XfracFile', 'density_file.DensityFile', 'vel_file.VelocityFile', 'helper_functions.get_data_and_type', 'lightcone._get_file_redshifts', 'temperature.calc_dt']
spec('P35 P14', _UF + 'Mgrid_2_Msolar', {'M': 'arr1'})
spec('P35 P14', _UF + 'Msolar_2_Mgrid', {'M': 'arr1'})
spec('P35', _UF + '_file_at', {'files': 'list', 'redshifts': 'arr1', 'z': 'float'})
spec('P35 P12', _UF + 'get_zs_list', {'xfrac_dir': 'str', 'file_type': 'str'}, opaque=_UOP)
spec('P35 P12', _UF + 'coeval_xfrac', {'xfrac_dir': 'str', 'z': 'float'}, [{}, {'interpolation': 'bogus'}], opaque=_UOP + [_UF + '_file_at'])
spec('P35 P12', _UF + 'coeval_dens', {'dens_dir': 'str', 'z': 'float'}, [{}, {'interpolation': 'bogus'}], opaque=_UOP + [_UF + '_file_at'])
spec('P35', _UF + 'coeval_overdens', {'dens_dir': 'str', 'z': 'float', 'interpolation': 'str'}, opaque=_UOP + [_UF + 'coeval_dens'])
spec('P35 P15', _UF + 'coeval_21cm', {'xfrac_dir': 'str', 'dens_dir': 'str', 'z': 'float', 'interpolation': 'str'}, [{'mean_subtract': m} for m in (True, False)], opaque=_UOP + [_UF + 'coeval_dens', _UF + 'coeval_xfrac'])
spec('P35', _UF + 'coeval_vel', {'dens_dir': 'str', 'vel_dir': 'str', 'z': 'float'}, [{}, {'interpolation': 'bogus'}], opaque=_UOP + [_UF + '_file_at'])

# -- halo catalogues ---------------------------------------------------------------------------------
_HL = 'halo_list.'
_HT = {'filename': 'str', 'min_select_mass': 'float', 'max_select_mass': 'float', 'max_select_number': 'int', 'startline': 'int'}
_HR = [{}, {'max_select_mass': None}]
_HV = [{'var': v} for v in ('m', 'r', 'pos', 'vel', 'vel_disp', 'l', 'pos_cm', 'other', None)]
spec('P36', _HL + 'Halo.__init__', {}, fields=True)
for _c in ('HaloList', 'HaloCubeP3MFull'):
    spec('P36', _HL + _c + '.read_from_file', dict(_HT), _HR, fields=True)
spec('P36', _HL + 'HaloList.__init__', dict(_HT), [{'filename': None}, {}], fields=True, opaque=[_HL + 'HaloList.read_from_file'])
spec('P36', _HL + 'HaloRockstar.__init__', dict(_HT), [{'filename': None}, {}], fields=True, opaque=[_HL + 'HaloRockstar.read_from_file'])
spec('P36', _HL + 'HaloRockstar.read_from_file', dict(_HT), [{'filename': 'a/halos.list'}, {'filename': 'a/halos.ascii'}, {'filename': 'a/halos.dat'}], fields=True)
spec('P36', _HL + 'HaloCubeP3MFull.__init__', dict(_HT, box_len='float', output_len='float'), [{'filename': None}, {'box_len': None}, {'output_len': None}, {}], fields=True, opaque=[_HL + 'HaloCubeP3MFull.read_from_file', 'conv.set_sim_constants'])
spec('P36', _HL + 'HaloCubeP3MFull._reposition', {'pos': 'arr1'})
spec('P36', _HL + 'HaloCubeP3M.__init__', {'filespath': 'str', 'z': 'float'}, [{}, {'z': None}, {'filespath': None}], fields=True, opaque=[_HL + 'HaloCubeP3M.read_from_file'])
spec('P36', _HL + 'HaloCubeP3M._reposition', {'pos': 'arr1'})
spec('P36', _HL + 'HaloCubeP3M._get_header', {'file': 'obj'})
spec('P36 P12', _HL + 'HaloCubeP3M.read_from_file', {'filespath': 'str', 'z': 'float', 'node': 'int'}, [{'mass_def': m, 'cosm_unit': c, 'pid_flag': p, 'node': n} for m in ('vir', 'odc', 'other') for c, p, n in ((True, True, '@int'), (False, False, None))], fields=True,
     opaque=[_HL + 'HaloCubeP3M._reposition'])
for _c in ('HaloRockstar', 'HaloCubeP3M', 'HaloCubeP3MFull'):
    spec('P36 P12', _HL + _c + '.get', {}, _HV)

# -- particles ---------------------------------------------------------------------------------
_PK = 'nbody_pkdgrav.'
spec('P36', NB + 'NbodyParticle.__init__', {}, fields=True)
spec('P36', NB + 'NbodyFile.__init__', {'filespath': 'str', 'z': 'float'}, [{'node': '@int'}, {'node': None}, {'z': None}, {'filespath': None}, {'filespath': 'a/b'}, {'filespath': 'a/b/', 'node': None}], fields=True, opaque=[NB + 'NbodyFile.get_npart', NB + 'NbodyFile.read_from_file'])
spec('P36', NB + 'NbodyFile.get_npart', {}, opaque=[NB + 'NbodyFile._get_header'])
spec('P36', NB + 'NbodyFile.read_from_file', {'node': 'int'}, [{'node': '@int'}, {'node': None}], fields=True, opaque=[NB + 'NbodyFile._get_header'])
spec('P36 P10', _PK + 'ReaderPkdgrav3.read_particles', {'filename': 'str'})
spec('P36 P10', _PK + 'HaloCataloguePkdgrav3.save_fof_data', {'savefile': 'str'}, [{'savefile': v} for v in ('a.txt', 'b.npy', 'c.dat')], fields='disk', opaque=[_PK + 'HaloCataloguePkdgrav3.array_fof_data'])
spec('P36', _PK + 'PowerSpectrumPkdgrav3.read_pk_data', {'filename': 'str', 'ks': 'arr1', 'window_size': 'int'}, cross({'ks': [None, '@arr1'], 'window_size': [None, '@int']}), fields=True)
spec('P20', LC + '_get_bracket', {'file_redshifts': 'arr1', 'z': 'float'})
