"""Calls that deliberately leave a same-named option alone: (caller, callee, option) -> reason."""
ALLOWED = {
    ('corr_function.correlation_function', 'power_spectrum.power_spectrum_1d', 'binning'): 'binning is that of the separations; k_binning is handed on',
    ('corr_function.cross_correlation_function', 'power_spectrum.cross_power_spectrum_1d', 'binning'): 'binning is that of the separations; k_binning is handed on',
    ('deprecated.freq_box', 'lightcone.get_dens_redshifts', 'z_high'): 'the list must reach beyond the highest redshift to bracket it',
    ('deprecated.freq_box', 'helper_functions.get_dens_redshifts', 'z_high'): 'the list must reach beyond the highest redshift to bracket it',
    ('helper_functions.get_data_and_type', 'helper_functions.get_data_and_type', 'cbin_bits'): 'called on a file object, which is no cbin file',
    ('helper_functions.get_data_and_type', 'helper_functions.get_data_and_type', 'cbin_order'): 'called on a file object, which is no cbin file',
    ('helper_functions.get_data_and_type', 'helper_functions.get_data_and_type', 'raw_density'): 'handed on for density files; the other types have no raw form',
    ('power_spect_fast.dimensional_power', 'power_spect_fast.power_spect_1d', 'return_modes'): 'always asks for the modes and drops them if not wanted',
    ('power_spectrum.anisotropy_ratio_r_mu', 'power_spectrum.power_spectrum_mu', 'return_n_modes'): 'always asks for the modes and drops them if not wanted',
    ('radio_telescope_noise.noise_cube_coeval', 'radio_telescope_sensitivity.jansky_2_kelvin', 'ncells'): 'taken from the shape of the array, which has ncells cells a side',
    ('radio_telescope_noise.noise_lightcone', 'radio_telescope_sensitivity.jansky_2_kelvin', 'ncells'): 'taken from the shape of the array, which has ncells cells a side',
    ('smoothing.convolve_uvmap', 'radio_telescope_noise.get_uv_map', 'max_baseline'): 'applied afterwards to the map',
    ('smoothing.convolve_uvmap_coeval', 'radio_telescope_noise.get_uv_map', 'max_baseline'): 'applied afterwards to the map',
    ('smoothing.convolve_uvmap_coeval', 'smoothing.convolve_uvmap', 'z'): 'the uv map handed on was made with it',
    ('smoothing.convolve_uvmap_coeval', 'smoothing.convolve_uvmap', 'max_baseline'): 'the uv map handed on was made with it',
    ('smoothing.convolve_uvmap_coeval', 'smoothing.convolve_uvmap', 'filename'): 'the uv map handed on was made with it',
    ('smoothing.convolve_uvmap_coeval', 'smoothing.convolve_uvmap', 'total_int_time'): 'the uv map handed on was made with it',
    ('smoothing.convolve_uvmap_coeval', 'smoothing.convolve_uvmap', 'int_time'): 'the uv map handed on was made with it',
    ('smoothing.convolve_uvmap_coeval', 'smoothing.convolve_uvmap', 'declination'): 'the uv map handed on was made with it',
}
