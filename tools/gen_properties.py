#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the source of truth for wording)."""
import json, os
S = 'src/tools21cm/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            mechanism=[dict(name=n, where=S+w) for n, w in mech],
            **({'state': [dict(name=n, meaning=m, where=S+w) for n, m, w in state]} if state else {}),
            observe_at=observe or ['values returned by the public functions'], hook_needed=None)))

p('P01', "Caller's data is never modified by an analysis call",
  "An array, list or dictionary handed to any public function or class constructor has the same contents after the call as before it, whatever its values and whatever the other arguments are. The only functions that may change their argument are those whose documented purpose is to fill the object they are a method of, and the two painting helpers that draw into the cube they are given (spa_np.put_sphere, test_case.paint_kernel).",
  ['inputs', 'configurations'], 'every argument value and option combination of every public function, on every branch',
  'The tests compare returned values on a handful of inputs and never compare an input before and after; a write that happens only under one option or through a view in a callee is invisible to them.',
  ['power_spectrum.py','lightcone.py','helper_functions.py','bubble_stats.py','smoothing.py','radio_telescope_noise.py','temperature.py','identify_regions.py'],
  [('working copies and rebinding instead of in-place updates','power_spectrum.py:power_spectrum_2d'),
   ('index lists converted before use','helper_functions.py:find_idx'),
   ('data thresholded into a fresh array','bubble_stats.py:mfp')],
  observe=['contents of every argument after a call'])

p('P02', 'Changing cosmology or box size reaches every later computation',
  "After a user sets a cosmological parameter, the helium abundance or the simulation box size, every quantity derived from it and every function whose result depends on it uses the new value from the next call on. No result may keep using a value captured at import time, in a default argument or in a stored table.",
  ['histories', 'configurations'], 'every sequence of parameter settings followed by any call',
  'A test calls one setter and one function; the guarantee is about every setter, every derived quantity and every consumer, in every order.',
  ['const.py','conv.py','cosmo.py','temperature.py','tau.py','lightcone.py','angular_coordinates.py','smoothing.py'],
  [('setters rebuilding derived values','const.py:set_hubble_h'),('box-size setter','conv.py:set_sim_constants'),
   ('functions reading the parameter module at call time','cosmo.py:luminosity_distance')],
  state=[('cosmological parameters','current cosmology','const.py'),('box/grid constants','current simulation volume','conv.py')])

p('P03', 'Results depend only on arguments, input files and declared settings',
  "Calling a deterministic public function twice with the same arguments, the same input files and the same cosmology gives the same result, regardless of what was called in between. No function keeps results, defaults or scratch data from earlier calls, and none lets the clock, process environment or object identity enter a result.",
  ['histories'], 'every interleaving of calls',
  'Tests exercise each function once from a fresh process; leftovers of earlier calls only show in longer histories.',
  ['helper_functions.py','cosmo.py','power_spectrum.py','radio_telescope_noise.py','lightcone.py'],
  [('no module-level mutable state besides the declared settings','helper_functions.py:set_verbose'),
   ('fresh default arguments per call','lightcone.py:make_lightcone')])

p('P04', 'A given seed reproduces the same random result',
  "Whenever a caller supplies a random seed, any valid value including zero, two calls with that seed and the same other arguments return identical results, and changing the seed changes the realisation. Every random draw inside such a call is made after the generator was seeded with the supplied value. Functions without a seed option draw from numpy's global generator, so that seeding it beforehand reproduces their results.",
  ['inputs', 'histories'], 'every seed value, every call history, every option combination of the seeded functions',
  'Random output is never asserted by the tests; an unseeded draw or a seed ignored for one value looks like any other realisation.',
  ['gaussian_random_field.py','foreground_model.py','radio_telescope_noise.py','bubble_stats.py','mfp_np.py'],
  [('seeding before drawing','gaussian_random_field.py:make_gaussian_random_field'),
   ('seeding before drawing','foreground_model.py:galactic_synch_fg'),
   ('seeding before drawing','radio_telescope_noise.py:noise_map')])

p('P05', 'Every accepted option takes effect, also through wrappers',
  "Each parameter that a public function accepts influences its result, its output files or its error behaviour, except those that only control messages or parallel execution. When a function offers the same option as one it delegates to, the value the caller gave is the value the delegate receives.",
  ['inputs', 'configurations'], 'every parameter of every public function and every delegation between public functions',
  'Tests call with default options; an option dropped on the way, or replaced by a default, is invisible for the default value.',
  ['power_spectrum.py','bubble_stats.py','radio_telescope_noise.py','radio_telescope_calibration.py','smoothing.py','usefuls.py','deprecated.py'],
  [('keyword forwarding','power_spectrum.py:power_spectrum_mu'),('keyword forwarding','radio_telescope_noise.py:noise_map'),
   ('keyword forwarding','bubble_stats.py:averaged_mfp')])

p('P06', 'Message and progress settings never change a result',
  "Turning verbosity or progress output on or off, globally or through a function's own option, changes only what is printed. Returned values, written files and raised errors are the same for every verbosity setting.",
  ['configurations'], 'every verbosity setting of every public function, on every path',
  'Tests run with one verbosity setting and compare values only; a statement moved under the message branch shows for one setting only.',
  ['bubble_stats.py','mfp_np.py','radio_telescope_noise.py','smoothing.py','topology.py','superpixels.py','angular_coordinates.py'],
  [('message branches contain only output','bubble_stats.py:mfp'),('global message switch','helper_functions.py:print_msg')])

p('P07', 'Whole-number input is not silently truncated',
  "Giving a function integer-typed arrays or numbers where real numbers are expected yields the same result as giving the equal floating-point values. Results are never rounded or truncated because the storage type of an input was reused for the output.",
  ['inputs'], 'every numeric type of every numeric argument',
  'Tests pass floating-point data; result buffers that inherit an integer type need integer input to show.',
  ['cosmo.py','statistics.py','smoothing.py','lightcone.py','angular_coordinates.py','temperature.py'],
  [('result buffers with an explicit real type','cosmo.py:z_to_cdist'),('result buffers with an explicit real type','statistics.py:signal_overdensity')])

p('P08', 'Failures are reported, not swallowed',
  "When an input file is missing or malformed, an argument is unusable or a write fails, the caller gets an exception; no function returns an error object as if it were a result, builds an error without raising it, or carries on silently after catching an error that prevented the requested work. Fallbacks are limited to missing optional dependencies and to alternative ways of computing or reading the same thing.",
  ['fault_sequences', 'inputs'], 'every fault in file access or argument handling in every public function',
  'The tests never inject a failing file operation or a bad argument, so no handler runs.',
  ['density_file.py','source_file.py','vel_file.py','halo_list.py','smoothing.py','helper_functions.py','read_files.py','temperature.py'],
  [('exceptions propagate from the readers and writers','density_file.py:DensityFile'),('argument validation raises','smoothing.py:smooth_coeval')])

p('P09', 'Files are released on every exit',
  "Every file that a reader or writer opens is closed when the call ends, whether it returns early, finishes normally or stops because of an error in the data. Data written through such a call is complete on disk when the call returns.",
  ['fault_sequences', 'crash_points'], 'every exit, normal or exceptional, of every function that opens a file',
  'A leaked handle has no effect on a returned value; only exceptional exits leave one behind.',
  ['helper_functions.py','density_file.py','xfrac_file.py','temper_file.py','irate_file.py','vel_file.py','source_file.py','halo_list.py','read_files.py'],
  [('scoped open','helper_functions.py:read_cbin'),('scoped open','read_files.py:read_dictionary_data')])

p('P10', 'What the package writes it reads back unchanged',
  "Saving data with one of the package's writers and loading it with the matching reader restores the values, the shape and the element order, for every supported precision, order and file type. Header fields, element types and units written are the ones the reader expects.",
  ['inputs', 'configurations'], 'every array shape, order, precision and file format',
  'No stable test writes a file and reads it back; agreement of two formats is a relation between two pieces of code for every shape and option.',
  ['helper_functions.py','density_file.py','source_file.py','vel_file.py','read_files.py'],
  [('mesh header and body layout','helper_functions.py:save_cbin'),('mesh header and body layout','helper_functions.py:read_cbin'),
   ('format table','read_files.py:write_dictionary_data'),('format table','helper_functions.py:save_data')])

p('P11', 'Every documented option combination runs to an answer',
  "No path through the package ends in a reference to something that does not exist: a name, local result, module member, object attribute or library function that is undefined on that path, a call that does not fit the callee's parameters, or a result unpacked into the wrong number of pieces. This holds for every combination of options and every input.",
  ['inputs', 'configurations', 'programs'], 'every path of every function in the package',
  'Python reports these only when the path runs; the tests reach a small part of the branches.',
  ['radio_telescope_calibration.py','smoothing.py','helper_functions.py','bispectrum.py','corr_function.py','power_spectrum.py','foreground_model.py'],
  [('definition before use on all branches','power_spectrum.py:radial_average'),('call agreement between modules','radio_telescope_calibration.py:get_uv_map_with_gains')])

p('P12', 'Unknown option values are rejected',
  "A function that documents a closed set of choices for an option accepts exactly those choices and raises an error for any other value. An unknown or misspelt choice is never silently treated as one of the valid ones.",
  ['inputs'], 'every value of every option with a closed set of choices',
  'Tests only use valid choices.',
  ['radio_telescope_noise.py','radio_telescope_layout.py','smoothing.py','power_spectrum.py','lyman_alpha_transmission.py','halo_list.py','lightcone.py'],
  [('final branch raises','radio_telescope_noise.py:noise_map'),('final branch raises','lightcone.py:make_lightcone')])

p('P13', 'The line-of-sight axis is honoured for every axis',
  "Functions that take a line-of-sight or frequency axis give, for each of the three axes, the result obtained for the default axis on the correspondingly transposed data. Negative axis numbers mean the same axis as elsewhere in numpy or are rejected.",
  ['inputs', 'configurations'], 'every axis value and every input shape, cubic or not',
  'Tests use the default axis and cubes, where a transposed result has the right shape.',
  ['statistics.py','lightcone.py','power_spectrum.py','smoothing.py','temperature.py','angular_coordinates.py','pv_mpm.py','lyman_alpha_transmission.py'],
  [('axis selection','statistics.py:_get_slice'),('axis selection','power_spectrum.py:_get_mu'),('axis selection','lightcone.py:_get_slice')])

p('P14', 'Forward and backward conversions undo each other',
  "Redshift to frequency, redshift to comoving distance, comoving to proper, Kelvin to Jansky, apparent to absolute magnitude, halo mass to virial temperature and geographic to Cartesian conversions are exact inverses of their counterparts for every value in the physical range.",
  ['inputs'], 'every value in the physical range',
  'Tests check single numbers; being inverse is a statement about all of them.',
  ['cosmo.py','radio_telescope_sensitivity.py','astro_tools.py','radio_telescope_layout.py','conv.py','usefuls.py'],
  [('paired formulae','cosmo.py:nu_to_z'),('paired formulae','radio_telescope_sensitivity.py:jansky_2_kelvin'),('paired formulae','cosmo.py:Tvir_to_M')])

p('P15', '21-cm brightness temperature follows its definition',
  "For every density, ionised fraction, spin temperature and redshift the differential brightness temperature is the mean signal at that redshift times the neutral fraction times the overdensity, and, with spin temperature, times the CMB contrast (1 - T_cmb/T_s). Coeval and lightcone versions use the redshift of each cell and agree with each other.",
  ['inputs', 'configurations'], 'all fields, redshifts and axes',
  'A test compares one number for one input; the formula must hold for every cell and redshift.',
  ['temperature.py','const.py'],
  [('definition','temperature.py:_dt'),('definition','temperature.py:_dt_full'),('mean signal','temperature.py:mean_dt')])

p('P16', 'Cosmological distances, ages and frequencies follow their definitions',
  "Luminosity, angular-diameter and comoving distances, Hubble rate, age, angular sizes and 21-cm frequency relations are those of the configured cosmology for every redshift, for scalars and arrays alike, and for matter-only as well as flat models.",
  ['inputs', 'configurations'], 'all redshifts and cosmological parameter values',
  'Tests compare a few values for one default cosmology.',
  ['cosmo.py','const.py','lightcone.py'],
  [('distance formulae','cosmo.py:luminosity_distance'),('expansion rate','cosmo.py:hubble_parameter'),('frequency relation','cosmo.py:nu_to_z')])

p('P17', 'Power spectrum estimators share one normalisation and binning',
  "The power in each bin is the mean of |FFT|^2 times volume over cell count squared over exactly the modes whose wavenumber lies in the bin, every mode being in at most one bin, and the number of modes returned is the number averaged. Auto spectra equal cross spectra of a field with itself, and the spherical, cylindrical, angle-resolved and dimensionless estimators are all built on this same spectrum.",
  ['inputs', 'configurations'], 'all fields, box shapes, bin choices and window options',
  'Tests check the slope of one spectrum on a cube; normalisation, binning edges and agreement between estimators need all shapes.',
  ['power_spectrum.py','power_legendre.py','position_dependent_power_spectrum.py'],
  [('spectrum','power_spectrum.py:power_spectrum_nd'),('spectrum','power_spectrum.py:cross_power_spectrum_nd'),('binning','power_spectrum.py:radial_average'),('binning','power_spectrum.py:mu_binning')])

p('P18', 'Wavenumber grids match the transform they index',
  "The wavenumber, direction cosine and zero-mode positions used with a Fourier transform belong to the frequencies of that transform, for even and odd grids and for boxes with unequal sides. Shifting to the centre and back uses matching shifts.",
  ['inputs'], 'every grid size (even and odd), dimension and box aspect ratio',
  'Tests use even cubic grids, where both kinds of shift coincide.',
  ['power_spectrum.py','gaussian_random_field.py','radio_telescope_noise.py','bispectrum.py','fft_functions.py'],
  [('k grid','power_spectrum.py:_get_k'),('direction cosine','power_spectrum.py:_get_mu'),('shift pairs','gaussian_random_field.py:make_gaussian_random_field')])

p('P19', 'Smoothing kernels have the documented shape and unit weight',
  "Every smoothing kernel is centred, has the requested width on each axis and sums to one, so smoothing preserves the mean; the width used for telescope beams is the one that follows from baseline and redshift. Smoothing a lightcone treats each slice with the width of its own redshift.",
  ['inputs'], 'all kernel sizes, widths, redshifts and boxes',
  'Tests compare a standard deviation for one kernel.',
  ['smoothing.py','radio_telescope_noise.py','beam_convolve.py'],
  [('kernels','smoothing.py:gauss_kernel'),('kernels','smoothing.py:tophat_kernel'),('beam width','smoothing.py:get_beam_w')])

p('P20', 'Lightcone slices come from the snapshots that bracket their redshift',
  "Each slice of a lightcone is taken at its own position along the line of sight from the two snapshots bracketing its redshift, weighted so that the result equals the snapshot when redshifts coincide. Output redshifts are equally spaced in comoving distance or in frequency over the requested range, and slices and redshifts are returned in matching order.",
  ['inputs', 'histories'], 'all snapshot redshift lists, ranges, interpolation modes and axes',
  'No stable test builds a lightcone; bracketing errors appear only for particular redshift layouts.',
  ['lightcone.py','angular_coordinates.py'],
  [('bracketing','lightcone.py:make_lightcone'),('interpolation','lightcone.py:_get_interp_slice'),('redshift grid','lightcone.py:redshifts_at_equal_comoving_distance')])

p('P21', 'Telescope noise level and unit conversions follow the radiometer equation',
  "The noise per visibility and per image falls with the square root of bandwidth and time and number of baselines as the radiometer equation says, for every redshift, depth and integration time, and Jansky and Kelvin maps are related by the beam solid angle at the observed frequency. System temperature, collecting area and sensitivity curves are the documented functions of frequency.",
  ['inputs', 'configurations'], 'all redshifts, integration settings and arrays',
  'Random noise is never asserted; a wrong exponent or factor changes only an amplitude.',
  ['radio_telescope_sensitivity.py','radio_telescope_noise.py'],
  [('radiometer equation','radio_telescope_sensitivity.py:sigma_noise_radio'),('SEFD','radio_telescope_sensitivity.py:get_SEFD'),('conversion','radio_telescope_sensitivity.py:kelvin_jansky_conversion')])

p('P22', 'uv coverage is the same however it is computed or cached',
  "The uv coverage used for a redshift is the one for exactly the requested grid, box, declination, observation and integration times, and array, whether it was computed serially, in parallel or loaded from a saved file. A cached map made for different settings is never reused as if it matched.",
  ['histories', 'configurations', 'schedules'], 'all settings, cache contents and worker counts',
  'No stable test saves or reloads coverage or compares serial and parallel runs.',
  ['radio_telescope_noise.py','radio_telescope_layout.py','radio_telescope_calibration.py'],
  [('cache lookup','radio_telescope_noise.py:get_uv_map_lightcone'),('gridding','radio_telescope_layout.py:grid_uv_tracks'),('tracks','radio_telescope_layout.py:earth_rotation_effect')])

p('P23', 'Topology measures agree across back-ends and obey periodicity',
  "Every acceleration back-end computes the same cell complex and Euler characteristic for every field, with neighbours wrapped periodically on all axes. Betti numbers, genus and Euler characteristic satisfy the Euler relation and count the above-threshold phase as documented.",
  ['inputs', 'configurations'], 'every binary field, threshold, connectivity and back-end',
  'No stable test runs more than one back-end or a field touching the boundary.',
  ['topology.py','ViteBetti.py','numba_functions.py'],
  [('cell complex','ViteBetti.py:CubeMap'),('cell complex','numba_functions.py:CubeMap_numba'),('Euler relation','topology.py:betti1')])

p('P24', 'Region identification selects the documented side of the threshold',
  "Bubble finders and identifiers mark exactly the cells on the documented side of the threshold, and asking two-phase methods for the upper or lower limit gives complementary phases for every field, apart from cells exactly equal to the threshold. Percentages, labels and thresholds refer to the data the caller supplied.",
  ['inputs', 'configurations'], 'every field, threshold and polarity option',
  'Tests use one well-separated ball and the default polarity.',
  ['identify_regions.py','bubble_stats.py','mfp_np.py','spa_np.py','superpixels.py'],
  [('polarity','identify_regions.py:bubbles_from_fixed_threshold'),('polarity','bubble_stats.py:mfp'),('polarity','bubble_stats.py:spa')])

p('P25', 'Bubble sizes are reported in the units of the box',
  "Sizes and volumes returned by all bubble-statistics methods scale with the given box length over the number of cells (cubed for volumes) and their distributions are normalised as documented, for every grid and box size. Default box sizes are the configured simulation box.",
  ['inputs', 'configurations'], 'every grid, box size and binning option',
  'Tests use one grid and one box.',
  ['bubble_stats.py','corr_function.py'],
  [('cell size scaling','bubble_stats.py:mfp'),('cell size scaling','bubble_stats.py:spa'),('distribution','bubble_stats.py:dist_from_volumes')])

p('P26', 'Optical depth integrates the electron column from redshift zero',
  "The Thomson optical depth adds, step by step in redshift, the free electrons implied by the ionised fraction and helium content, starting with a fully ionised universe below the first input redshift. The map version treats each line of sight as the scalar version does.",
  ['inputs'], 'every ionisation history and redshift list',
  'One test compares one history.',
  ['tau.py'],
  [('integration','tau.py:tau'),('map version','tau.py:tau_map')])

p('P27', 'Point statistics are the documented moments',
  "Skewness, kurtosis, mass-weighted means, mean-subtracted and overdensity signals are the documented moments of the data for every field, and combined means and variances equal those of the pooled sample.",
  ['inputs'], 'every field, axis and partition of a sample',
  'Tests check one small field.',
  ['statistics.py','helper_functions.py'],
  [('moments','statistics.py:skewness'),('mean subtraction','statistics.py:subtract_mean_signal'),('pooling','helper_functions.py:combined_mean_variance')])

p('P28', 'Peculiar-velocity distortion moves signal without creating it',
  "Redshift-space distortion shifts the signal along the line of sight by velocity over Hubble rate at the given redshift, wrapping periodically, and the total signal of every line of sight is unchanged. Gridding halos or particles assigns each object to the cell that contains it and conserves the total.",
  ['inputs', 'configurations'], 'every field, velocity field, redshift and axis',
  'No stable test runs the distortion or gridding.',
  ['pv_mpm.py','nbody_file.py','line_intensity.py'],
  [('displacement','pv_mpm.py:get_distorted_dt'),('gridding','nbody_file.py:halo_list_to_grid')])

p('P29', 'Simulation grid units convert with the configured box',
  "Positions, velocities and masses in simulation grid units convert to Mpc, km/s and solar masses with the box length and cosmology configured at the time, for all supported boxes. Density, clumping, velocity and source files apply these conversions exactly once.",
  ['configurations', 'inputs'], 'every configured box size and cosmology, every file',
  'Conversions are only exercised with the default box.',
  ['conv.py','density_file.py','vel_file.py','source_file.py','usefuls.py'],
  [('conversion','conv.py:gridpos_to_mpc'),('conversion','conv.py:gridmass_to_msol'),('conversion','vel_file.py:VelocityFile')])
p('P30', 'Correlation functions, multipoles and bispectra follow their definitions',
  "Two-point correlation functions, power spectrum multipoles, position-dependent power spectra and bispectra equal their definitions for every field, box, bin choice and line-of-sight axis: the correlation function is the spherical transform of the measured power spectrum, multipoles carry the Legendre weight (2l+1) of the cosine to the chosen axis, the integrated bispectrum correlates sub-box power with sub-box mean, and a bispectrum averages the closed triangles of the requested sides.",
  ['inputs', 'configurations'], 'every field, box, bin choice and axis',
  'Only a few of these estimators run in stable tests, on one field each.',
  ['corr_function.py','power_legendre.py','position_dependent_power_spectrum.py','bispectrum.py'],
  [('transform','corr_function.py:ps_to_corr'),('multipoles','power_legendre.py:power_spectrum_multipoles'),('sub-boxes','position_dependent_power_spectrum.py:integrated_bispectrum_cross'),('triangles','bispectrum.py:Bispectrum.bispectrum_fast')])

p('P31', 'Physical and observational lightcones convert consistently',
  "Converting a lightcone between physical (comoving Mpc) and observational (angle, frequency) coordinates places each output cell at the sky position and frequency its label says, for every cosmology, output resolution and padding mode: slices are resampled to the same comoving or angular size at each redshift, frequency bins average the slices that fall inside them, and padding repeats the signal periodically.",
  ['inputs', 'configurations'], 'every lightcone, redshift range, resolution and cosmology',
  'Tests convert one lightcone forth and back.',
  ['angular_coordinates.py'],
  [('slice resampling','angular_coordinates.py:physical_slice_to_angular'),('frequency bins','angular_coordinates.py:bin_lightcone_in_frequency'),('padding','angular_coordinates.py:_get_padded_slice')])

p('P32', 'Foreground, wedge and primary beam models follow their formulae',
  "Foreground maps, wedge filters and primary beams are the documented functions of sky position, redshift, station diameter and box size, for every grid, box and line-of-sight axis: spectra fall with frequency as stated, a cell holds the flux of all the sources that fall in it, wedge filters remove exactly the modes below the wedge slope, and beams are one on axis and have their first null where the diffraction limit puts it.",
  ['inputs', 'configurations'], 'every redshift, box, grid and beam model',
  'Nothing in the stable tests covers them beyond one shape check.',
  ['foreground_model.py','primary_beam.py'],
  [('foregrounds','foreground_model.py:galactic_synch_fg'),('wedge','foreground_model.py:diabolo_filter'),('beam','primary_beam.py:primary_beam')])

p('P33', 'Lyman-alpha transmission and line intensities follow their recipes',
  "Lyman-alpha optical depths and HI or CII line maps are those of the published recipe that was asked for, for every density, ionisation, temperature, redshift, cosmology and line of sight; values given with units and plain values in the documented units give the same answer.",
  ['inputs', 'configurations'], 'every field, recipe, cosmology and axis',
  'No stable test covers them.',
  ['lyman_alpha_transmission.py','line_intensity.py'],
  [('optical depth','lyman_alpha_transmission.py:tau_nu_lyA'),('line of sight','lyman_alpha_transmission.py:tau_nu_lyA_los'),('line maps','line_intensity.py:L_CII_on_grid')])

p('P34', 'Antenna gains and antenna tags are kept on the right baseline and cell',
  "The uv maps that carry antenna gains or antenna tags put every baseline in the cell the plain uv map would put it in, drop those outside the grid, and accumulate beside the count the product of the gains of the two antennas that form it (or their tags): the counts, gains and tags read back are those of the layout, time step, redshift, box and declination that were asked for, however many jobs share the work; the gain response applied to an image is the mean gain product per cell.",
  ['inputs', 'configurations'], 'every layout, gain model, time step, box, declination and job count',
  'No stable test builds a map with gains or tags.',
  ['radio_telescope_calibration.py'],
  [('gains','radio_telescope_calibration.py:get_uv_map_with_gains'),('antenna tags','radio_telescope_calibration.py:get_full_uv_map_with_antenna_stamp'),('image response','radio_telescope_calibration.py:apply_uv_with_gains_response_on_image')])
p('P35', 'Coeval cubes at a redshift come from the outputs that bracket it',
  "The ionised fraction, density, overdensity, velocity and 21-cm cubes read for a redshift are the stored output when one exists at that redshift, and otherwise the linear interpolation in redshift between the nearest output below and the nearest above, whatever the order in which the files are listed; unknown interpolations are refused; mass conversions between grid and solar units are inverse to each other.",
  ['inputs', 'configurations'], 'every directory listing and redshift in range',
  'No stable test reads coeval cubes.',
  ['usefuls.py'],
  [('coeval cubes','usefuls.py:coeval_xfrac'),('density','usefuls.py:coeval_dens'),('velocity','usefuls.py:coeval_vel')])

p('P36', 'Halo and particle catalogues are read record for record',
  "Every halo or particle in a catalogue that passes the caller's mass and number limits, and none that does not, ends up in memory once with the mass, position, velocity, radius, dispersion, angular momentum and identity that its record holds, in the documented units: positions are shifted from their node to the whole box, header counts agree with what is read, selected arrays follow the order of the records, and unknown quantities or mass definitions are refused.",
  ['inputs', 'configurations'], 'every catalogue, node, selection and unit choice',
  'No stable test reads a catalogue.',
  ['halo_list.py','nbody_file.py','nbody_pkdgrav.py'],
  [('halo records','halo_list.py:HaloCubeP3M.read_from_file'),('node to box','halo_list.py:HaloCubeP3M._reposition'),('selection','halo_list.py:HaloList.read_from_file'),('particles','nbody_file.py:NbodyFile.read_from_file'),('particles','nbody_pkdgrav.py:ReaderPkdgrav3.read_particles')])

# ---- properties listed as not applicable to static analysis --------------------------------
p('N01', 'Interpolated distance table is accurate',
  "Distances obtained from the tabulated redshift-distance relation agree with direct integration to the advertised precision over the whole tabulated range.",
  ['inputs'], 'all redshifts in the table', 'Only spot values are tested.', ['cosmo.py','const.py'],
  [('table interpolation','cosmo.py:z_to_cdist')])
p('N02', 'Noise and random fields have the requested statistics',
  "Realisations of noise, foregrounds and Gaussian random fields have the requested power spectrum and variance on average.",
  ['inputs'], 'the ensemble of realisations', 'A statement about distributions.', ['gaussian_random_field.py','radio_telescope_noise.py','foreground_model.py'],
  [('realisation','gaussian_random_field.py:make_gaussian_random_field')])
p('N03', 'Segmentation quality',
  "Clustering, superpixel and neural-network segmentations recover the ionised regions of realistic maps with the published accuracy.",
  ['inputs'], 'realistic maps', 'Needs data and ground truth.', ['superpixels.py','segmentation.py','identify_regions.py'],
  [('superpixels','superpixels.py:slic_cube')])
p('N04', 'Ray-traced size distributions converge with the number of rays',
  "The mean-free-path size distribution converges as the number of rays grows, independently of the field.",
  ['inputs'], 'ray counts', 'A limit statement.', ['bubble_stats.py','mfp_np.py'], [('rays','mfp_np.py:mfp3d')])
p('N05', 'Large runs fit in memory and finish in reasonable time',
  "Memory and run time scale with grid size as documented.",
  ['inputs'], 'grid sizes', 'Performance.', ['radio_telescope_calibration.py','bispectrum.py'], [('chunking','radio_telescope_calibration.py:get_full_uv_map_with_antenna_stamp')])
p('N06', 'Interrupted writes leave no half-written file behind',
  "If the process dies while saving, an existing file of that name is still intact.",
  ['crash_points'], 'every instant of a save', 'Never interrupted in tests.', ['read_files.py','helper_functions.py'], [('save','helper_functions.py:save_cbin')])
p('N07', 'Interfaces to external simulation codes match their installed versions',
  "Runs started through the interfaces to external simulation codes pass the options in the form the installed version of that code understands.",
  ['programs'], 'versions of external codes', 'The codes are not installed.', ['model_21cmfast.py','nbody_pkdgrav.py'], [('interface','model_21cmfast.py:run_21cmfast_coeval')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
