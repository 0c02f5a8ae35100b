From 551a918b06c486827024aa4ca003446d22f7d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 01/83] fix: taper windows and mu weights are applied to a copy
 and may be arrays

apply_window and mu_binning updated the caller's array in place, and both
failed when the window or the weights were given as an array.
---
 src/tools21cm/power_spectrum.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 2faaa86..9bb3d57 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -12,13 +12,13 @@ from scipy import fftpack, stats
 def apply_window(input_array, window):
     if window is None: return input_array
     from scipy.signal import windows
+    if not isinstance(window, str):
+            return input_array*window
     if window.lower()=='blackmanharris':
-            input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
+            return input_array*windows.blackmanharris(input_array.shape[-1])[None,None,:]
     elif window.lower()=='tukey':
-            input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
-    else:
-            input_array *= window
-    return input_array
+            return input_array*windows.tukey(input_array.shape[-1])[None,None,:]
+    raise ValueError("Unknown window %s: use 'blackmanharris', 'tukey' or an array." % window)
 
 
 def power_spectrum_nd(input_array, box_dims=None, verbose=False, **kwargs):
@@ -383,8 +383,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         This function is for internal use only.
         '''
         
-        if weights != None:
-                powerspectrum *= weights
+        powerspectrum = powerspectrum.copy() if weights is None else powerspectrum*weights
 
         assert(len(powerspectrum.shape)==3)
 
@@ -429,7 +428,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                         idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
-                        if weights != None:
+                        if weights is not None:
                                 outdata[i,ki] /= weights[idx].mean()
 
         return outdata, mubins[:-1]+dmu, kbins[:-1]+dk, n_modes
-- 
2.43.0


From 703bdd2b29f5cc9eaa66175fd48b536343420a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 02/83] fix: find_idx clamps a copy of the values instead of
 the caller's array

---
 src/tools21cm/helper_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bcf86a6..408f031 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -526,9 +526,7 @@ def find_idx(ar, values):
         '''
         
         #Make input into an array and clamp outliers
-        values = np.atleast_1d(values)
-        values[values > ar.max()] = ar.max()
-        values[values < ar.min()] = ar.min()
+        values = np.clip(np.atleast_1d(values), ar.min(), ar.max())
         
         #Make sure that the values are monotonically increasing/decreasing
         dv = ar[1:]-ar[:-1]
-- 
2.43.0


From 09863cabc50b41ddfc0dc516094eaa1a414c356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 03/83] fix: uniform uv weighting works on a copy and unknown
 weightings raise

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 7f20458..89f13bf 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -466,9 +466,9 @@ def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural',
 			uv_map_smooth = uv_map
 		out = noise/np.sqrt(uv_map_smooth)
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = noise
+		out = noise.copy()
 	else:
-		print(f'{uv_weighting} scheme is not known or implemented')
+		raise ValueError(f'{uv_weighting} scheme is not known or implemented')
 	out[uv_map<uv_map_min] = 0.
 	return out
 
-- 
2.43.0


From 20ac5281dca15bdbf63340600b4d0a7d474e5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 04/83] fix: print_chain_stats no longer rescales the caller's
 weights

---
 src/tools21cm/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index 9b96958..efabc66 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -143,7 +143,7 @@ def print_chain_stats(samples_dict, weights_dict, param_names):
     for name, samples in samples_dict.items():
         weights = weights_dict[name] if weights_dict else np.ones(len(samples))
         # Normalize weights
-        weights /= np.sum(weights)
+        weights = weights/np.sum(weights)
         
         for i, p_name in enumerate(param_names):
             data = samples[:, i]
-- 
2.43.0


From d5b14740817cda4fd3853be768f2ae5fd658dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 05/83] fix: power_spect_2d applies its window to a copy

---
 src/tools21cm/power_spect_fast.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spect_fast.py b/src/tools21cm/power_spect_fast.py
index 88acb6c..9f6da84 100755
--- a/src/tools21cm/power_spect_fast.py
+++ b/src/tools21cm/power_spect_fast.py
@@ -173,12 +173,14 @@ def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 	'''
 	if window is not None:
 		from scipy.signal import windows
-		if window.lower()=='blackmanharris':
-				input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
+		if not isinstance(window, str):
+				input_array = input_array*window
+		elif window.lower()=='blackmanharris':
+				input_array = input_array*windows.blackmanharris(input_array.shape[-1])[None,None,:]
 		elif window.lower()=='tukey':
-				input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
+				input_array = input_array*windows.tukey(input_array.shape[-1])[None,None,:]
 		else:
-				input_array *= window
+				raise ValueError("Unknown window %s: use 'blackmanharris', 'tukey' or an array." % window)
 
 	if np.array(kbins).size==1: 
 		kbins = [kbins, kbins]
-- 
2.43.0


From f3e8d8b4392ab7ab54b5fd61146964d96ece3611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 06/83] fix: cosmology setters update every derived constant
 and the simulation conversions

---
 src/tools21cm/const.py | 30 ++++++++++++++++++++++++------
 src/tools21cm/conv.py  | 38 ++++++++++++++++++++++----------------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 810a56c..1079872 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -27,6 +27,7 @@ def set_abundance_helium(value):
 	global abu_he_mass, abu_h_mass
 	abu_he_mass = value
 	abu_h_mass = 1.0-abu_he_mass
+	_update_derived()
 
 mean_molecular = 1.0/(1.0-abu_he_mass)
 solar_masses_per_gram = 5.02785431e-34
@@ -48,19 +49,18 @@ def set_hubble_h(value):
 	'''
 	Define new hubble constant value (little h).
 	'''
-	global h, H0
+	global h
 	h  = value 
-	H0 = 100.0*h
+	_update_derived()
 
 def set_omega_matter(value): 
 	'''
 	Define new omega matter value.
 	'''
-	global Omega0, lam, q0
+	global Omega0, lam
 	Omega0 = value
 	lam = 1.0-Omega0
-	q0 = 0.5*Omega0 - lam
-	# print(Omega0, q0)
+	_update_derived()
 
 def set_omega_baryon(value):
 	'''
@@ -68,14 +68,16 @@ def set_omega_baryon(value):
 	'''
 	global OmegaB
 	OmegaB = value 
+	_update_derived()
 
 def set_omega_lambda(value):
 	'''
 	Define new omega lambda value.
 	'''
-	global lam
+	global lam, OmegaL
 	lam = value 
 	OmegaL = value
+	_update_derived()
 
 def set_ns(value):
 	'''
@@ -98,6 +100,22 @@ rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
 rho_matter = rho_crit_0*Omega0  
 Tcmb0 = 2.725
 
+def _update_derived():
+	'''
+	Recompute every quantity that is derived from the cosmological parameters.
+	'''
+	global mean_molecular, q0, H0, H0cgs, rho_crit_0, rho_matter, num_h_0, meandt
+	mean_molecular = 1.0/(1.0-abu_he_mass)
+	q0 = 0.5*Omega0 - lam
+	H0 = 100.0*h
+	H0cgs = H0*1e5/Mpc
+	rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
+	rho_matter = rho_crit_0*Omega0
+	num_h_0 = (1-abu_he_mass)*OmegaB*rho_crit_0/m_p
+	meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
+	from . import conv
+	conv._update_derived()
+
 # Redshift dependent Hubble parameter, km/s/Mpc
 Hz = lambda z: H0*np.sqrt(Omega0*(1.0+z)**3.+lam) 
 
diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index ac939b4..f3bacf6 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -19,6 +19,17 @@ lscale = (LB)/float(nbox_fine)*const.Mpc # size of a cell in cm, comoving
 tscale = 2.0/(3.0*np.sqrt(const.Omega0)*const.H0/const.Mpc*1.e5) # time scale, when divided by (1+z)2
 velconvert = lambda z: lscale/tscale*(1.0+z)/1.e5
 
+def _update_derived():
+	'''
+	Recompute the conversion factors from the box size and the cosmology.
+	'''
+	global LB, M_box, M_grid, lscale, tscale
+	LB = boxsize/const.h
+	M_box      = const.rho_matter*(LB*const.Mpc)**3 # mass in box (g, not M0)
+	M_grid     = M_box/(float(nbox_fine)**3)
+	lscale = (LB)/float(nbox_fine)*const.Mpc # size of a cell in cm, comoving
+	tscale = 2.0/(3.0*np.sqrt(const.Omega0)*const.H0/const.Mpc*1.e5) # time scale, when divided by (1+z)2
+
 def set_sim_constants(boxsize_cMpc):
 	'''This method will set the values of relevant constants depending on the 
 	simulation
@@ -29,42 +40,37 @@ def set_sim_constants(boxsize_cMpc):
 	Returns:
 		Nothing.
 	'''
-	global boxsize, LB, nbox_fine, M_box, M_grid, lscale, tscale, velconvert
+	global boxsize, nbox_fine
 
-	boxsize = boxsize_cMpc
-	LB = boxsize/const.h	
-	if hf.flt_comp(boxsize, 425.):
+	if hf.flt_comp(boxsize_cMpc, 425.):
 		hf.print_msg('Setting conversion factors for 425/h Mpc box')
 		nbox_fine = 10976
-	elif hf.flt_comp(boxsize, 114.):
+	elif hf.flt_comp(boxsize_cMpc, 114.):
 		hf.print_msg('Setting conversion factors for 114/h Mpc box')
 		nbox_fine = 6144
-	elif hf.flt_comp(boxsize, 64.):
+	elif hf.flt_comp(boxsize_cMpc, 64.):
 		hf.print_msg('Setting conversion factors for 64/h Mpc box')
 		nbox_fine = 3456
-	elif hf.flt_comp(boxsize, 37.):
+	elif hf.flt_comp(boxsize_cMpc, 37.):
 		hf.print_msg('Setting conversion factors for 37/h Mpc box')
 		nbox_fine = 2048
-	elif hf.flt_comp(boxsize, 500.):
+	elif hf.flt_comp(boxsize_cMpc, 500.):
 		hf.print_msg('Setting_conversion_factors for 500/h Mpc box')
 		nbox_fine = 13824
-	elif hf.flt_comp(boxsize, 244.):
+	elif hf.flt_comp(boxsize_cMpc, 244.):
 		hf.print_msg('Setting_conversion_factors for 244/h Mpc box')
 		nbox_fine = 8000
-	elif hf.flt_comp(boxsize, 47.):
+	elif hf.flt_comp(boxsize_cMpc, 47.):
 		hf.print_msg('Setting_conversion_factors for 47/h Mpc box')
 		nbox_fine = 3456
-	elif hf.flt_comp(boxsize, 200.):
+	elif hf.flt_comp(boxsize_cMpc, 200.):
 		hf.print_msg('Setting_conversion_factors for 200/h Mpc box')
 		nbox_fine = 3456
 	else:
 		raise Exception('Invalid boxsize (%.3f cMpc)' % boxsize_cMpc)
 
-	M_box      = const.rho_matter*(LB*const.Mpc)**3 # mass in box (g, not M0)
-	M_grid     = M_box/(float(nbox_fine)**3)
-	lscale = (LB)/float(nbox_fine)*const.Mpc # size of a cell in cm, comoving
-	tscale = 2.0/(3.0*np.sqrt(const.Omega0)*const.H0/const.Mpc*1.e5) # time scale, when divided by (1+z)2
-	velconvert = lambda z: lscale/tscale*(1.0+z)/1.e5
+	boxsize = boxsize_cMpc
+	_update_derived()
 
 
 def gridpos_to_mpc(gridpos):
-- 
2.43.0


From a721bab1be92ce31061269eaf9b7f670969bf61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 07/83] fix: noise simulations honour N_ant, pass options by
 name and reject unknown uv weightings

---
 src/tools21cm/radio_telescope_noise.py | 43 +++++++++++++++-----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 89f13bf..2f62f8b 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -149,12 +149,12 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 	if boxsize is None:
 		boxsize = conv.LB
 
-	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
+	antxyz, N_ant_layout = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 
 	if uv_map is None: 
-		uv_map, N_ant = get_uv_map(ncells, z, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
+		uv_map, N_ant_layout = get_uv_map(ncells, z, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
 	if N_ant is None: 
-		N_ant = antxyz.shape[0]
+		N_ant = N_ant_layout
 
 	sigma, rms_noi = sigma_noise_radio(z, depth_mhz, obs_time, int_time, uv_map=uv_map, N_ant=N_ant, verbose=False, 
 									T_sys=T_sys, sefd_data=sefd_data, nu_data=nu_data, D_station=D_station, ep_aperture=ep_aperture)
@@ -166,7 +166,7 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
 		out = rms_noi
 	else:
-		print(f'{uv_weighting} scheme is not known or implemented')
+		raise ValueError(f'{uv_weighting} scheme is not known or implemented')
 
 	power = np.fft.fftshift(out**2)
 	# scale
@@ -217,7 +217,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 	if boxsize is None: boxsize = conv.LB
 	if isinstance(zs, list): zs = np.array(zs)
-	if subarray_type.upper()=='AA*': subarray_type = 'AAstar'
+	if isinstance(subarray_type, str) and subarray_type.upper()=='AA*': subarray_type = 'AAstar'
 
 	# Define a dictionary of simulation parameters 
 	params = {
@@ -240,7 +240,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		for key, current_val in params.items():
 			cached_val = uvs.get(key)
 			# Check for a mismatch
-			if cached_val is not None and cached_val != current_val:
+			if cached_val is not None and not np.array_equal(cached_val, current_val):
 				# Add the error message to a list instead of raising immediately
 				mismatch_msg = f"  - '{key}': Cached value is '{cached_val}', but current call requested '{current_val}'."
 				mismatches.append(mismatch_msg)
@@ -376,12 +376,15 @@ def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=
 	np.ndarray
 		A 2D array representing the noise map in the image domain (in muJy).
 	"""	
-	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
+	if boxsize is None: 
+		boxsize = conv.LB
+
+	antxyz, N_ant_layout = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 
 	if uv_map is None: 
-		uv_map, N_ant = get_uv_map(ncells, z, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
+		uv_map, N_ant_layout = get_uv_map(ncells, z, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
 	if N_ant is None: 
-		N_ant = antxyz.shape[0]
+		N_ant = N_ant_layout
 
 	sigma, rms_noi = sigma_noise_radio(z, depth_mhz, obs_time, int_time, uv_map=uv_map, N_ant=N_ant, verbose=False,
 									T_sys=T_sys, sefd_data=sefd_data, nu_data=nu_data, D_station=D_station, ep_aperture=ep_aperture)
@@ -701,14 +704,16 @@ def noise_cube_coeval(ncells, z, depth_mhz=None, obs_time=1000, subarray_type="A
 	np.ndarray
 		A 3D cube `(ncells, ncells, ncells)` of instrumental noise in mK.
 	"""
-	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
+	antxyz, N_ant_layout = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 
 	if boxsize is None: 
 		boxsize = conv.LB
 	if depth_mhz is None: 
 		depth_mhz = (cm.z_to_nu(cm.cdist_to_z(cm.z_to_cdist(z)-boxsize/2))-cm.z_to_nu(cm.cdist_to_z(cm.z_to_cdist(z)+boxsize/2)))/ncells
 	if uv_map is None: 
-		uv_map, N_ant  = get_uv_map(ncells, z, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
+		uv_map, N_ant_layout = get_uv_map(ncells, z, subarray_type=antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
+	if N_ant is None: 
+		N_ant = N_ant_layout
 
 	# ncells = int(ncells); print(ncells)
 	noise3d = np.zeros((ncells,ncells,ncells))
@@ -754,20 +759,20 @@ def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type="AA4", boxsize=
 	np.ndarray
 		A 3D `(ncells, ncells, ncells)` lightcone of instrumental noise in mK.
 	"""
-	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 	if boxsize is None: 
 		boxsize = conv.LB
 	zs = cm.cdist_to_z(np.linspace(cm.z_to_cdist(z)-boxsize/2, cm.z_to_cdist(z)+boxsize/2, ncells))
 
 	# This function body is very similar to `noise_lightcone`. Consider refactoring.
-	return noise_lightcone(ncells, zs, obs_time, subarray_type, boxsize, save_uvmap, 
-						total_int_time, int_time, declination, N_ant, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
-						T_sys, sefd_data, nu_data, D_station, ep_aperture,
-						suppress_sharp_features_uv_map)
+	return noise_lightcone(ncells, zs, obs_time=obs_time, subarray_type=subarray_type, boxsize=boxsize, save_uvmap=save_uvmap, 
+						total_int_time=total_int_time, int_time=int_time, declination=declination, uv_weighting=uv_weighting, 
+						fft_wrap=fft_wrap, verbose=verbose, n_jobs=n_jobs, checkpoint=checkpoint, 
+						T_sys=T_sys, sefd_data=sefd_data, nu_data=nu_data, D_station=D_station, ep_aperture=ep_aperture,
+						suppress_sharp_features_uv_map=suppress_sharp_features_uv_map, N_ant=N_ant)
 
 def noise_lightcone(ncells, zs, obs_time=1000, subarray_type="AA4", boxsize=None, save_uvmap=None, 
 					total_int_time=6., int_time=10., declination=-30., uv_weighting='natural', fft_wrap=False, verbose=True, n_jobs=4, checkpoint=16, 
-					T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None, suppress_sharp_features_uv_map=False):
+					T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep_aperture=None, suppress_sharp_features_uv_map=False, N_ant=None):
     """
     Generates a 3D lightcone of instrumental noise over a list of redshifts.
 
@@ -819,6 +824,8 @@ def noise_lightcone(ncells, zs, obs_time=1000, subarray_type="AA4", boxsize=None
     suppress_sharp_features_uv_map : bool, optional
         If True, applies a suppression filter to the UV map to mitigate sharp
         features. Default is False.
+    N_ant : int, optional
+        Number of antennas. If None, the number in the telescope layout is used.
 
     Returns
     -------
@@ -839,7 +846,7 @@ def noise_lightcone(ncells, zs, obs_time=1000, subarray_type="AA4", boxsize=None
         int_time=int_time, boxsize=boxsize, declination=declination, 
         save_uvmap=save_uvmap, n_jobs=n_jobs, verbose=verbose, checkpoint=checkpoint,
     )
-    N_ant = uvs.get('Nant')
+    if N_ant is None: N_ant = uvs.get('N_ant')
 
     # Step 2: Create the noise cube using the pre-computed UV maps.
     if verbose:
-- 
2.43.0


From ce5d5dae1d6195fdfc10d2d1afb125662f37b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 08/83] fix: uv-plane cuts, sharp-feature suppression and
 wrapped transforms work on every grid size

---
 src/tools21cm/radio_telescope_noise.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 2f62f8b..c64b033 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -420,6 +420,8 @@ def _suppress_sharp_features_uv_map(uv_map, boxsize=None, method='gaussian', fil
 	np.ndarray
 		The smoothed UV map.
 	"""
+	if method is True:
+		method = 'gaussian'
 	if method.lower()=='gaussian':
 		uv_map_smooth = np.sqrt(gaussian_filter(uv_map, filter_param))
 		uv_map_smooth *= uv_map.max()/uv_map_smooth.max()
@@ -430,9 +432,9 @@ def _suppress_sharp_features_uv_map(uv_map, boxsize=None, method='gaussian', fil
 		uv_rad_avg, k_rad_avg, n_modes = radial_average(np.fft.fftshift(uv_map), box_dims, kbins=filter_param, binning='log')
 		k_comp, k_mag = _get_k(uv_map, [boxsize,boxsize])
 		xx, yy = np.log10(k_rad_avg[k_rad_avg<k_nq/2]), np.log10(uv_rad_avg[k_rad_avg<k_nq/2])
-		uv_map_smooth = np.fft.fftshift(10**interp1d(xx[np.isfinite(yy)], yy[np.isfinite(yy)], fill_value='extrapolate')(np.log10(k_mag)))
+		uv_map_smooth = np.fft.ifftshift(10**interp1d(xx[np.isfinite(yy)], yy[np.isfinite(yy)], fill_value='extrapolate')(np.log10(k_mag)))
 	else:
-		print(f'{method} to suppress sharp features in the uv maps is not supported. Choose from "gaussian", "binned".')
+		raise ValueError(f'{method} to suppress sharp features in the uv maps is not supported. Choose from "gaussian", "binned".')
 	return uv_map_smooth
 
 def apply_uv_response_noise(noise, uv_map, boxsize=None, uv_weighting='natural', uv_map_min=0.01, suppress_sharp_features_uv_map=False):
@@ -522,11 +524,12 @@ def ifft2_wrap(nn1):
 	"""
 	assert nn1.ndim==2
 	bla0 = np.vstack((nn1,nn1))
-	bla1 = np.roll(bla0, nn1.shape[0]/2, 0)
+	bla1 = np.roll(bla0, nn1.shape[0]//2, 0)
 	bla2 = np.hstack((bla1,bla1))
-	bla3 = np.roll(bla2, nn1.shape[1]/2, 1)
+	bla3 = np.roll(bla2, nn1.shape[1]//2, 1)
 	imap = np.fft.ifft2(bla3)
-	return imap[nn1.shape[0]/2:-nn1.shape[0]/2,nn1.shape[1]/2:-nn1.shape[1]/2]
+	x0, y0 = nn1.shape[0]//2, nn1.shape[1]//2
+	return imap[x0:x0+nn1.shape[0],y0:y0+nn1.shape[1]]
 
 def apply_uv_response_on_image(array, uv_map):
 	"""
@@ -617,12 +620,12 @@ def get_uv_map(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10.,
 	uv_map, N_ant  = get_uv_daily_observation(ncells, z, antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, include_mirror_baselines=include_mirror_baselines, verbose=verbose)
 	if max_baseline is not None:
 		kcut = max_baseline_to_max_k(z, max_baseline)
-		kk = np.linspace(-ncells/2, ncells/2, ncells) * np.pi / boxsize
+		kk = (np.arange(ncells) - ncells//2) * np.pi / boxsize
 		kx, ky = np.meshgrid(kk, kk)
 		ksq = kx**2 + ky**2
 		uv_map_shift = np.fft.fftshift(uv_map)
 		uv_map_shift[ksq>kcut**2] = 0.0
-		uv_map = np.fft.fftshift(uv_map_shift)
+		uv_map = np.fft.ifftshift(uv_map_shift)
 	return uv_map, N_ant
 
 def make_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., verbose=True):
@@ -922,6 +925,6 @@ def smooth_gauss_3d(array, fwhm):
 	np.ndarray
 		The smoothed 3D array.
 	"""
-	gg = gauss_kernel_3d(array.shape[0],fwhm=fwhm)
-	out = scipy.signal.fftconvolve(array, gg)
+	gg = gauss_kernel_3d(2*(array.shape[0]//2)+1,fwhm=fwhm)
+	out = scipy.signal.fftconvolve(array, gg, mode='same')
 	return out
-- 
2.43.0


From f167ff48530e300eb608384df2d6b9aea74a5e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 09/83] fix: antenna layouts and stamps reject unsupported
 options, keep baselines aligned and accept plain arrays

---
 src/tools21cm/radio_telescope_calibration.py | 31 +++++++++-----------
 src/tools21cm/radio_telescope_layout.py      | 18 +++++++-----
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 1bc88e5..a00e10b 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -54,7 +54,7 @@ def from_antenna_config_with_gains(antxyz, z, nu=None,
         antll  = SKA1_LowConfig_Sept2016()
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
-    else:
+    elif hasattr(antxyz, 'unit'):
         antxyz = antxyz.to('m').value
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
@@ -69,7 +69,7 @@ def from_antenna_config_with_gains(antxyz, z, nu=None,
                 mn, mx = gain_model['min'], gain_model['max']
                 gain_model_gen = lambda N: np.random.uniform(mn, mx, N)
             else:
-                pass
+                raise ValueError('The provided gain_model is not implemented.')
             all_gains_r = gain_model_gen(N_ant) #Real or Amplitudes
             all_gains_i = gain_model_gen(N_ant) #Imag or phases
         elif 'real' in gain_model.keys():
@@ -79,8 +79,7 @@ def from_antenna_config_with_gains(antxyz, z, nu=None,
             all_gains_r = gain_model['amplitude'](N_ant) #Real or Amplitudes
             all_gains_i = gain_model['phase'](N_ant) #Imag or phases
         else:
-            print('The provided gain_model is not implemented.')
-            return None
+            raise ValueError('The provided gain_model is not implemented.')
     else:
         all_gains_r, all_gains_i = gain_model[:,0], gain_model[:,1]
     
@@ -311,7 +310,7 @@ def from_antenna_config_with_antenna_stamp(antxyz, z, nu=None):
         antll  = SKA1_LowConfig_Sept2016()
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
-    else:
+    elif hasattr(antxyz, 'unit'):
         antxyz = antxyz.to('m').value
     if not nu: 
         nu = cm.z_to_nu(z)                                 # MHz
@@ -369,6 +368,9 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
     N_ant : int
         Number of antennas.
     """
+    if include_mirror_baselines:
+        raise NotImplementedError('include_mirror_baselines is not implemented yet.')
+
     antxyz, N_ant = subarray_type_to_antxyz(subarray_type)
 
     total_observations = int(3600. * total_int_time / int_time)
@@ -512,8 +514,7 @@ def _grid_uv_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map, z, ncells
     
     for (x, y), ant1, ant2 in zip(Nb[:, :2].astype(int), ant_tag1.astype(int), ant_tag2.astype(int)):
         ant_tag_uv_map[time_idx, x, y].append([ant1, ant2])
-        if include_mirror_baselines:
-            print('include_mirror_baselines is not implemented yet.')
+
 
 def full_uv_map_with_antenna_stamp_to_uv_map(ant_tag_uv_map, verbose=True):
     uv_map = np.zeros_like(ant_tag_uv_map[0,:,:])
@@ -568,6 +569,9 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
         A 2D array of shape `(n_baselines, 2)` where each row contains the
         integer tags of the two antennas forming the corresponding baseline.
     """
+    if include_mirror_baselines:
+        raise NotImplementedError('include_mirror_baselines is not implemented yet.')
+
     antxyz, N_ant = subarray_type_to_antxyz(subarray_type)
 
     total_observations = int(3600. * total_int_time / int_time)
@@ -708,13 +712,6 @@ def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map
         (Nb[:, 0] < ncells / 2) & (Nb[:, 1] < ncells / 2) &
         (Nb[:, 0] >= -ncells / 2) & (Nb[:, 1] >= -ncells / 2)
     )
-    ant_tag1, ant_tag2 = ant_tag[:,0], ant_tag[:,1]
-    Nb, ant_tag1, ant_tag2 = Nb[in_bounds], ant_tag1[in_bounds], ant_tag2[in_bounds]
-    
-    count = 0
-    for (x, y), ant1, ant2 in zip(Nb[:, :2].astype(int), ant_tag1.astype(int), ant_tag2.astype(int)):
-        ant_tag_uv_map[time_idx, count, 0] = x
-        ant_tag_uv_map[time_idx, count, 1] = y
-        count += 1
-        if include_mirror_baselines:
-            print('include_mirror_baselines is not implemented yet.')
\ No newline at end of file
+    for i, (x, y) in zip(np.flatnonzero(in_bounds), Nb[in_bounds, :2].astype(int)):
+        ant_tag_uv_map[time_idx, i, 0] = x
+        ant_tag_uv_map[time_idx, i, 1] = y
diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index ed23305..7fd12ee 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -67,7 +67,7 @@ def from_antenna_config(antxyz, z, nu=None):
         antll  = SKA1_LowConfig_Sept2016()
         antll  = antll[:,-2:].astype(float)
         antxyz = geographic_to_cartesian_coordinate_system(antll)
-    else:
+    elif hasattr(antxyz, 'unit'):
         antxyz = antxyz.to('m').value
     if not nu: 
         nu = cm.z_to_nu(z)                           # MHz
@@ -294,7 +294,7 @@ def geographic_to_cartesian_coordinate_system(antll):
     """
     Re = 6371. * u.km  # Earth's radius
     if not isinstance(antll, u.quantity.Quantity):
-        antll *= u.deg
+        antll = antll * u.deg
     lon = antll[:, 0] 
     lat = antll[:, 1] 
 
@@ -337,8 +337,8 @@ def cartesian_to_geographic_coordinate_system(antxyz):
     Re = 6371. * u.km  # Earth's radius
 
     # Extract Cartesian coordinates and attach units
-    if isinstance(antxyz, u.quantity.Quantity):
-        antxyz *= u.m
+    if not isinstance(antxyz, u.quantity.Quantity):
+        antxyz = antxyz * u.m
     x = antxyz[:, 0]
     y = antxyz[:, 1]
     z = antxyz[:, 2]
@@ -448,7 +448,8 @@ def get_SKA_Low_layout(subarray_type="AA4", unit='ecef', verbose=True):
     Parameters
     ----------
     subarray_type : str, optional
-        The name of the SKA Low subarray, e.g., "AA4", "AA2", "AASTAR".
+        The name of the SKA Low subarray: "AA4", "AASTAR" (or "AA*"), "AA2", "AA1",
+        "AA0.5" or "skalow1".
     unit : str, optional
         The desired output coordinate system: 'ecef', 'enu', or 'xyz'.
     verbose : bool, optional
@@ -469,8 +470,10 @@ def get_SKA_Low_layout(subarray_type="AA4", unit='ecef', verbose=True):
         filename = 'input_data/skalow_AA1_layout.txt'
     elif subarray_type.upper() == "AA0.5":
         filename = 'input_data/skalow_AA0.5_layout.txt'
-    else:
+    elif subarray_type.upper() == "SKALOW1":
         filename = 'input_data/skalow1_layout.txt'
+    else:
+        raise ValueError(f"Unknown subarray_type '{subarray_type}'. Must be one of 'AA4', 'AAstar', 'AA2', 'AA1', 'AA0.5' or 'skalow1'.")
 
     # Load lat, lon, height from file
     lon, lat, height = np.loadtxt(get_package_resource_path('tools21cm', 'input_data/central_geographic_position.txt'))
@@ -503,7 +506,8 @@ def get_SKA_Low_layout(subarray_type="AA4", unit='ecef', verbose=True):
         ant_ecef = enu_to_ecef(ant_enu, lat, lon, origin_ecef)
         ant_xyz = ecef_to_xyz(ant_ecef, lon, origin_ecef)
         return ant_xyz * u.m
-    elif unit in ['latlon', 'geodetic']:
+    elif unit.lower() in ['latlon', 'geodetic']:
+        ant_ecef = enu_to_ecef(ant_enu, lat, lon, origin_ecef)
         locations = EarthLocation.from_geocentric(ant_ecef[:, 0], ant_ecef[:, 1], ant_ecef[:, 2], unit=u.m)
         return locations.lat.deg, locations.lon.deg, locations.height.to(u.m).value
     else:
-- 
2.43.0


From 9ce43b526951ad84da42d057e8a501cb3349b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 10/83] fix: calibration uv tracks use the total integration
 time for the hour angle

---
 src/tools21cm/radio_telescope_calibration.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index a00e10b..0ad20d7 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -171,7 +171,7 @@ def get_uv_map_with_gains(ncells, z,
             Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)
 
         # Apply incremental rotation for the time step
-        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, total_int_time, declination)
 
         # Grid the rotated baselines with gain values
         _grid_uv_tracks_with_gains(rotated_Nbase, Nbase[:,3:], gain_uv_map, z, ncells,
@@ -388,13 +388,13 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -406,7 +406,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
 
     return ant_tag_uv_map, N_ant
 
-def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Process a chunk of time slices.
 
@@ -451,7 +451,7 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, total_int_time, declination)
         _grid_uv_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
@@ -589,13 +589,13 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -608,7 +608,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     ant_pairs = Nbase[:,-2:]
     return ant_tag_uv_lagr, ant_pairs
 
-def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Processes a chunk of observation time slices for parallel computation.
 
@@ -654,7 +654,7 @@ def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, total_int_time, declination)
         _grid_uv_lagrangian_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
-- 
2.43.0


From a3e439b5c8bdc085497a3bcd7bbe94d557b19ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 11/83] fix: foreground models accept every redshift type and
 the seed zero, and run on current numpy

---
 src/tools21cm/foreground_model.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3a8df22..ce8bfae 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -27,13 +27,10 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(z)
 	gf_data = np.zeros((ncells, ncells, z.size))
 
-	if(rseed): np.random.seed(rseed)
+	if rseed is not None and rseed is not False: np.random.seed(rseed)
 	X  = np.random.normal(size=(ncells, ncells))
 	Y  = np.random.normal(size=(ncells, ncells))
 	nu_s,A150,beta_,a_syn,Da_syn = 150,513,2.34,2.8,0.1
@@ -69,19 +66,16 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(z)
 	exgf_data = np.zeros((ncells, ncells, z.size))
 
 	dS, nu_s = 0.01, 150
 	solid_angle = boxsize**2/cm.z_to_cdist(z.min())**2
 	
 	Ss = np.arange(0.1, S_max, dS)
-	N  = int(10**3.75*np.trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
-	if(rseed): np.random.seed(rseed)
-	x, y = np.random.random_integers(0, high=ncells-1, size=(2,N))
+	N  = int(10**3.75*trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
+	if rseed is not None and rseed is not False: np.random.seed(rseed)
+	x, y = np.random.randint(0, high=ncells, size=(2,N))
 	alpha_ps = 0.7+0.1*np.random.random(size=N)
 	S_s  = np.random.choice(Ss, N)
 
-- 
2.43.0


From f98e7a0eb7bdc152e548c913d731856645f74e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 12/83] fix: wedge filters and beam convolution run and use the
 wavenumbers of the transform

---
 src/tools21cm/beam_convolve.py    |  8 ++------
 src/tools21cm/foreground_model.py | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/tools21cm/beam_convolve.py b/src/tools21cm/beam_convolve.py
index a98774e..ebadb1a 100755
--- a/src/tools21cm/beam_convolve.py
+++ b/src/tools21cm/beam_convolve.py
@@ -45,14 +45,10 @@ def beam_convolve(input_array, z, fov_mpc, beam_w = None, max_baseline = None, \
 		sigma0 = (beam_w)/angle/(2.0 * np.sqrt(2.0*np.log(2.)))*mx
 		kernel = gauss_kernel(sigma=sigma0, size=mx)
 	else:
-		raise Exception('Unknown beamshape: %g' % beamshape)
+		raise Exception('Unknown beamshape: %s' % beamshape)
 
 	out =  signal.fftconvolve(input_array, kernel, mode='same')
 	# out =  fftconvolve(input_array, kernel)
 
-	#fftconvolve makes the output twice the size, so return only the central part	
-	ox = out.shape[0]
-	return out[ox*0.25:ox*0.75, ox*0.25:ox*0.75]
-
-
+	return out
 
diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index ce8bfae..64bd753 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -88,12 +88,12 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 
 
 def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step', small_base=40):
-	assert funct in ['step', 'sigmoid', 'gaussian']
+	assert funct in ['step', 'sigmoid']
 	assert ncells or array is not None
 	if boxsize is None: boxsize = conv.LB
 	if array is not None: ncells = max(array.shape)
 	filt = np.zeros((ncells, ncells, ncells))
-	k0   = np.linspace(-ncells*np.pi/boxsize, ncells*np.pi/boxsize, ncells)
+	k0   = (np.arange(ncells)-ncells//2)*2*np.pi/boxsize
 	a = k0.reshape(-1,1)
 	for i in range(k0.size-1): a = np.hstack((a,k0.reshape(-1,1)))
 	b = k0.reshape(1,-1)
@@ -112,7 +112,9 @@ def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step
 			ss[k2<=kpr]  = 0
 		ss[k2<=kmin] = 0
 		filt[:,:,i] = ss
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
+	if array is not None and array.shape[2]<ncells:
+		start = ncells//2-array.shape[2]//2
+		filt = filt[:,:,start:start+array.shape[2]]
 	print("A diabolo filter made with %s function."%funct)
 	return filt
 
@@ -120,7 +122,7 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 	assert ncells or array is not None
 	if boxsize is None: boxsize = conv.LB
 	if array is not None: ncells = max(array.shape)
-	k0   = np.linspace(-ncells*np.pi/boxsize, ncells*np.pi/boxsize, ncells)
+	k0   = (np.arange(ncells)-ncells//2)*2*np.pi/boxsize
 	a = k0.reshape(-1,1)
 	for i in range(k0.size-1): a = np.hstack((a,k0.reshape(-1,1)))
 	b = k0.reshape(1,-1)
@@ -130,15 +132,17 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 	ss = np.ones(k2.shape)
 	ss[k2<=k_par_min] = 0
 	filt = np.zeros((ncells,ncells,ncells))
-	for i in range(ncells): filt[:,:,i] = filt
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
+	for i in range(ncells): filt[:,:,i] = ss
+	if array is not None and array.shape[2]<ncells:
+		start = ncells//2-array.shape[2]//2
+		filt = filt[:,:,start:start+array.shape[2]]
 	print("A barrel filter made with step function.")
 	return filt	
 
 def remove_wedge_image(dt, z, mu=0.5, funct='step', boxsize=None, filt=None):
 	if filt is None: filt = diabolo_filter(z, array=dt, mu=mu, funct=funct, boxsize=boxsize)
 	fft_dt = np.fft.fftn(dt)
-	apply_filt = np.fft.fftshift(np.fft.fftshift(fft_dt)*filt)
+	apply_filt = np.fft.ifftshift(np.fft.fftshift(fft_dt)*filt)
 	dt_new = np.real(np.fft.ifftn(apply_filt))
 	return dt_new
 
@@ -192,7 +196,7 @@ def rolling_wedge_removal_lightcone(lightcone, redshifts, cell_size=None, chunk_
 	Box_uv = np.concatenate((empty_box, Box_uv, empty_box), axis = 2)
     
 	for i in range(chunk_length, box_shape[-1] + chunk_length):
-		t_box = np.copy(Box_uv[..., i-chunk_length//2: i+chunk_length//2])
+		t_box = np.copy(Box_uv[..., i-chunk_length//2: i-chunk_length//2+chunk_length])
 		t_box *= BM
 		W = k_par / (k_perp * MF[min(i - chunk_length // 2 - 1, box_shape[-1] - 1)] + buffer)
 		w = np.logical_or(W < -1., W > 1.)
-- 
2.43.0


From d88fa720a5308cea5b6a2af9097cc3fd63b127fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 13/83] fix: bispectrum estimators run, use matching shifts and
 report the wavenumbers they evaluate

---
 src/tools21cm/bispectrum.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 71d0c26..5986e07 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -46,7 +46,7 @@ class Bispectrum:
          
     def spherical_shell_mask(self, array_shape, k_center, k_width, k_comp=None, k_mag=None):
         assert k_comp is not None or k_mag is not None
-        if k_mag is None: k_mag = np.sum(np.array(k_comp)**2, axis=0)
+        if k_mag is None: k_mag = np.sqrt(np.sum(np.array(k_comp)**2, axis=0))
         try: out = np.zeros(array_shape)
         except: out = np.zeros((array_shape[0],array_shape[1],array_shape[2]))
         out[np.abs(k_mag-k_center)<k_width/2] = 1
@@ -69,16 +69,16 @@ class Bispectrum:
         
         shell1 = self.spherical_shell_mask(input_array_fft.shape, k1, dk1, k_mag=k_mag)
         dfft1  = input_array_fft*shell1
-        s1     = np.fft.ifftn(np.fft.fftshift(shell1))
-        d1     = np.fft.ifftn(np.fft.fftshift(dfft1))
+        s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
+        d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
         if k2==k1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
             dfft2  = input_array_fft*shell2
-            s2     = np.fft.ifftn(np.fft.fftshift(shell2))
-            d2     = np.fft.ifftn(np.fft.fftshift(dfft2))
+            s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
+            d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
         if k3==k1: 
             s3, d3 = s1, d1
@@ -87,8 +87,8 @@ class Bispectrum:
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
             dfft3  = input_array_fft*shell3
-            s3     = np.fft.ifftn(np.fft.fftshift(shell3))
-            d3     = np.fft.ifftn(np.fft.fftshift(dfft3))
+            s3     = np.fft.ifftn(np.fft.ifftshift(shell3))
+            d3     = np.fft.ifftn(np.fft.ifftshift(dfft3))
             
         d123 = np.real(d1*d2*d3)
         s123 = np.real(s1*s2*s3)
@@ -108,8 +108,7 @@ class Bispectrum:
                         n_jobs=1,
                     ):
         tstart = time()
-        input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(self.input_array.astype(np.float64), window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
@@ -164,8 +163,7 @@ class Bispectrum:
                     n_jobs=1,
                     ):
         tstart = time()
-        input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(self.input_array.astype(np.float64), window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
@@ -175,10 +173,11 @@ class Bispectrum:
         if verbose: print('FFT of data done')
 
         kbins = _get_kbins(n_bins, box_dims, k_mag, binning=binning, kmax=k_mag.max()/2, kmin=None)
-        dk = dk*np.ones_like(kbins) if isinstance(dk,float) else dk
+        k_centres = kbins[1:]/2+kbins[:-1]/2
+        dk = dk*np.ones_like(k_centres) if np.ndim(dk)==0 else dk
         
         def run_loop(i):
-            k1 = kbins[i]
+            k1 = k_centres[i]
             dk1 = dk[i]
             b123 = self.bispectrum_fast(input_array_fft,
                             k1, k1, k1,
@@ -198,7 +197,7 @@ class Bispectrum:
         
         out_dict = {
             'B': B_list,
-            'k': kbins[1:]/2+kbins[:-1]/2, 
+            'k': k_centres, 
             }
         
         if verbose: print(f'...done | Runtime: {time()-tstart:.3f} s')
@@ -213,6 +212,7 @@ class BispectrumPylians:
         except:
             print('Install the Pylians package to use this class:')
             print('https://pylians3.readthedocs.io/en/master/installation.html')
+            raise
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array.shape)[0], box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
@@ -311,7 +311,7 @@ def bispectrum_equilateral(input_array, n_bins=15, box_dims=None, window=None, n
     tstart = time()
     input_array = apply_window(input_array, window).astype(np.float32)
     binning = kwargs.get('binning', 'log')
-    kmin = 2 * np.pi / box_dims
+    kmin = 2 * np.pi / _get_dims(box_dims, input_array.shape)[0]
     kmax = kmin * np.min(input_array.shape) / 2
     if binning.lower() in ['linear', 'lin']:
         kbins = np.linspace(kmin, kmax, n_bins + 1)
@@ -319,6 +319,8 @@ def bispectrum_equilateral(input_array, n_bins=15, box_dims=None, window=None, n
     elif binning.lower() in ['logarithmic', 'log']:
         kbins = np.linspace(np.log10(kmin), np.log10(kmax), n_bins + 1)
         kbins = 10 ** ((kbins[1:] + kbins[:-1]) / 2)
+    else:
+        raise ValueError('Unknown binning: %s' % binning)
     verbose = kwargs.get('verbose', True)
     bisp = BispectrumPylians(input_array, box_dims=box_dims, verbose=False, n_jobs=n_jobs)
     outp = {ke: np.array([]) for ke in ['k1', 'k2', 'k3', 'theta', 'Bk', 'Qk', 'Pk']}
-- 
2.43.0


From 34cc353ae58535ead39c11ab88453120262a6252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 14/83] fix: granulometry and watershed sizes run on current
 numpy, use cell counts and reject bad dimensions

---
 src/tools21cm/bubble_stats.py | 43 +++++++++++++++--------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 59e10b1..98c63ba 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -142,8 +142,7 @@ def mfp(data, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_li
 		if verbose: print("MFP method applied on 3D data.")
 		out = mfp_np.mfp3d(data, xth, iterations=iterations, verbose=verbose)
 	else:
-		if verbose: print("The data doesn't have the correct dimension")
-		return 0
+		raise ValueError("The data doesn't have the correct dimension")
 	nn = out[0]/iterations
 	rr = out[1]
 	t2 = datetime.datetime.now()
@@ -227,8 +226,7 @@ def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_poin
 		size_px, num_sz = np.unique(ray_list, return_counts=1)
 		out = [num_sz, size_px]
 	else:
-		print("The data doesn't have the correct dimension")
-		return 0
+		raise ValueError("The data doesn't have the correct dimension")
 	if out is None: return None
 
 	# nn = out[0]/iterations
@@ -305,8 +303,7 @@ def mfp_from_point(data, point, xth=0.5, boxsize=None, iterations=10000000, verb
 		print("MFP method applied on 3D data")
 		out = mfp_np.mfp3d(data, xth, iterations=iterations, verbose=verbose, point=point)
 	else:
-		print("The data doesn't have the correct dimension")
-		return 0
+		raise ValueError("The data doesn't have the correct dimension")
 	if out is None: return None
 
 	nn = out[0]/iterations
@@ -418,22 +415,19 @@ def disk_structure(n):
     x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
     mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
     struct[mask] = 1
-    return struct.astype(np.bool)
+    return struct.astype(bool)
 
 
 def granulometry_CDF(data, sizes=None, verbose=True, n_jobs=1):
 	s = max(data.shape)
 	if sizes is None: sizes = np.arange(1, s/2, 2)
-	sizes = sizes.astype(int)
+	sizes = np.asarray(sizes).astype(int)
 	# granulo = np.zeros((len(sizes)))
-	np.random.shuffle(sizes)
-	verbose = True
-	if verbose:
-		# func = lambda n: ndimage.binary_opening(data, structure=disk_structure(sizes[n])).sum()
-		func = lambda n: morph.binary_opening(data, structure=disk_structure(sizes[n])).sum()
-		granulo = np.array(Parallel(n_jobs=n_jobs)(delayed(func)(i) for i in tqdm(range(len(sizes))) ))
-		# for n in tqdm(range(len(sizes))): granulo[n] = ndimage.binary_opening(data, structure=disk_structure(sizes[n])).sum()
-		print("Completed.")
+	# func = lambda n: ndimage.binary_opening(data, structure=disk_structure(sizes[n])).sum()
+	func = lambda n: morph.binary_opening(data, structure=disk_structure(sizes[n])).sum()
+	granulo = np.array(Parallel(n_jobs=n_jobs)(delayed(func)(i) for i in tqdm(range(len(sizes)), disable=not verbose) ))
+	# for n in tqdm(range(len(sizes))): granulo[n] = ndimage.binary_opening(data, structure=disk_structure(sizes[n])).sum()
+	if verbose: print("Completed.")
 	arg_sort = np.argsort(sizes)
 	return granulo[arg_sort]
 
@@ -477,8 +471,7 @@ def granulometry_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False,
 	# granulo = granulometry_CDF(mask, sizes=sz, verbose=verbose, n_jobs=n_jobs)
 	# rr = (sz*boxsize/data.shape[0])[:-1]
 	# nn = np.array([(granulo[i]-granulo[i+1])/np.abs(sz[i]-sz[i+1]) for i in range(len(granulo)-1)])
-	if n_jobs>1: print('Parallelization not implemented yet.')
-	area, dFdR, R = _granulometry(mask, verbose=verbose)
+	area, dFdR, R = _granulometry(mask, n_jobs=n_jobs, verbose=verbose)
 	Rs = (R*boxsize/data.shape[0])
 	dFdlnR = R*dFdR
 	t2 = datetime.datetime.now()
@@ -498,18 +491,18 @@ def _granulometry(data, n_jobs=1, verbose=True):
         x, y = np.indices((2 * n + 1, 2 * n + 1))
         mask = (x - n)**2 + (y - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
     def ball(n):
         struct = np.zeros((2*n+1, 2*n+1, 2*n+1))
         x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
         mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
 
     s = max(data.shape)
     dim   = data.ndim
-    pixel = range(np.int(s/2))
-    area0 = np.float(data.sum())
+    pixel = range(int(s/2))
+    area0 = float(data.sum())
     area  = np.zeros_like(pixel)
 
     def func(n):
@@ -609,10 +602,10 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	# rr = (sz*boxsize/data.shape[0])[:-1]
 	# nn = np.array([(granulo[i]-granulo[i+1])/np.abs(sz[i]-sz[i+1]) for i in range(len(granulo)-1)])
 	if n_jobs>1: print('Parallelization not implemented yet.')
-	labels = _watershed(mask, h=h)
+	labels = _watershed(mask, h=h, verbose=verbose)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
-	r_list = np.cbrt(3*uniq[0]/4/np.pi)
-	r_pixl = np.arange(0, np.int(r_list.max()+2), 1)-0.5 
+	r_list = np.cbrt(3*uniq[1]/4/np.pi)
+	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From 03b654e2a2de1b6a1f85ff1d68f27266c8b7093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 15/83] fix: ray tracing from an array point and the
 friends-of-friends fallback work

---
 src/tools21cm/Friends_of_Friends.py | 5 +++--
 src/tools21cm/bubble_stats.py       | 2 +-
 src/tools21cm/mfp_np.py             | 6 +++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/Friends_of_Friends.py b/src/tools21cm/Friends_of_Friends.py
index f1c6100..beb4122 100755
--- a/src/tools21cm/Friends_of_Friends.py
+++ b/src/tools21cm/Friends_of_Friends.py
@@ -11,7 +11,8 @@ sizes_list = ast.literal_eval(sizes_string)
 import numpy as np
 from itertools import count
 #from Queue import Queue
-from multiprocessing import Queue
+from queue import Queue
+from functools import reduce
 
 
 def FoF_search(array, threshold):
@@ -29,7 +30,7 @@ def FoF_search(array, threshold):
                 yield tuple(new_coordinate)
 
     out_map = np.zeros(array.shape, dtype=int)   # creates an array with the same shape as the input search array
-    possibilities = zip(*np.where(array > threshold))  # creates a list of indices of points above the threshold
+    possibilities = list(zip(*np.where(array > threshold)))  # creates a list of indices of points above the threshold
     poss_set = set(possibilities)
     
     def recursive_search(point, current_group, currentsize):     # function to calculate group membership of a point
diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 98c63ba..c84f067 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -41,7 +41,7 @@ def fof(data, xth=0.5, connectivity=1):
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
 		size_list = size_list[1:]
-	else: out_map, size_list = FoF_search(data, xth)
+	else: out_map, size_list = FoF_search(data, 0.5)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
 
diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 845bb60..99272dd 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -75,13 +75,13 @@ def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
     ms = sin_thetas * sin_phis
     ns = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str) and point == 'random':
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys, zs = loc[rand_loc, 0], loc[rand_loc, 1], loc[rand_loc, 2]
     else:
         xs, ys, zs = point
-        if isinstance(xs, (int,float)):
+        if np.ndim(xs)==0:
             if ar[xs, ys, zs] == 0:
                 print('Given point is outside the structure.')
                 return None
@@ -112,7 +112,7 @@ def mfp2d(arr, xth=0.5, iterations=1000000, verbose=True, point='random'):
     ls = sin_thetas
     ms = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str) and point == 'random':
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys = loc[rand_loc, 0], loc[rand_loc, 1]
-- 
2.43.0


From 9a71fd5d7dbbf4ec8620fc5dad4fb277ff2dadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 16/83] fix: halo catalogues close their files, honour row
 limits and raise their errors

---
 src/tools21cm/halo_list.py | 351 +++++++++++++++++++------------------
 1 file changed, 179 insertions(+), 172 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 344066a..332461f 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -34,82 +34,84 @@ class HaloRockstar:
 		self.mass_def = mass_def
 
 		if filename:
-			self.read_from_file(filename, max_select_number)
+			self.read_from_file(filename, max_select_number, startline)
 
-	def read_from_file(self, filename, max_select_number=-1):
+	def read_from_file(self, filename, max_select_number=-1, startline=0):
 		'''
 		Read a Rockstar halo list.
 		
 		Parameters:
 			filename (string): The file to read from
 			max_select_number = -1 (int): The max number of halos to read. If -1, there is no limit.
+			startline = 0 (int): The line in the file where reading will start.
 		Returns:
 			True if all the halos were read. False otherwise.
 		'''
 
+		self.halos = []
+
 		print_msg('Reading Rockstar Halo Catalog %s...' % filename)
 		self.filename = filename
 		
-		import fileinput
 		from astropy import units as U
 
 		#Read the file line by line, since it's large
-		for linenumber, line in tqdm(enumerate(fileinput.input(filename))):
-			if(linenumber == 0):
-				# Store the variable from the file header
-				header = line.split()
-				if(self.filename[self.filename.rfind('.')+1:] == 'list'):
-					idx_pos = header.index('X')
-					idx_vel = header.index('VX')
-					idx_l = header.index('JX')
-					idx_vrms = header.index('Vrms')
-					idx_r = header.index('R'+self.mass_def)
-					idx_m = header.index('M'+self.mass_def)
-					lnr_cosm = 2
-					lnr_part = 5
-					lnr_vals = 15
-				elif(self.filename[self.filename.rfind('.')+1:] == 'ascii'):
-					idx_pos = header.index('x')
-					idx_vel = header.index('vx')
-					idx_l = header.index('Jx')
-					idx_vrms = header.index('vrms')
-					idx_r = header.index('r'+self.mass_def)
-					idx_m = header.index('m'+self.mass_def)
-					lnr_cosm = 3
-					lnr_part = 6
-					lnr_vals = 19
-				else:
-					ValueError('ERROR: wrong file format (must be .list or .ascii).')
-			elif(linenumber == 1):
-				# Store the redshift from the file header
-				a = float(line.split()[-1])
-				self.z = 1./a - 1.
-			elif(linenumber == lnr_cosm):
-				# Store cosmology quanity from the file header
-				cosm = line.split()
-				self.Om, self.Ol, self.h = float(cosm[2][:-1]), float(cosm[5][:-1]), float(cosm[-1])
-			elif(linenumber == lnr_part):
-				# Store particle mass from the file header
-				self.part_mass = float(line.split()[2]) #* U.Msun/self.h
-			elif(linenumber > lnr_vals):
-				vals = line.split()
+		with open(filename) as lines:
+			for linenumber, line in tqdm(enumerate(lines)):
+				if(linenumber == 0):
+					# Store the variable from the file header
+					header = line.split()
+					if(self.filename[self.filename.rfind('.')+1:] == 'list'):
+						idx_pos = header.index('X')
+						idx_vel = header.index('VX')
+						idx_l = header.index('JX')
+						idx_vrms = header.index('Vrms')
+						idx_r = header.index('R'+self.mass_def)
+						idx_m = header.index('M'+self.mass_def)
+						lnr_cosm = 2
+						lnr_part = 5
+						lnr_vals = 15
+					elif(self.filename[self.filename.rfind('.')+1:] == 'ascii'):
+						idx_pos = header.index('x')
+						idx_vel = header.index('vx')
+						idx_l = header.index('Jx')
+						idx_vrms = header.index('vrms')
+						idx_r = header.index('r'+self.mass_def)
+						idx_m = header.index('m'+self.mass_def)
+						lnr_cosm = 3
+						lnr_part = 6
+						lnr_vals = 19
+					else:
+						raise ValueError('ERROR: wrong file format (must be .list or .ascii).')
+				elif(linenumber == 1):
+					# Store the redshift from the file header
+					a = float(line.split()[-1])
+					self.z = 1./a - 1.
+				elif(linenumber == lnr_cosm):
+					# Store cosmology quanity from the file header
+					cosm = line.split()
+					self.Om, self.Ol, self.h = float(cosm[2][:-1]), float(cosm[5][:-1]), float(cosm[-1])
+				elif(linenumber == lnr_part):
+					# Store particle mass from the file header
+					self.part_mass = float(line.split()[2]) #* U.Msun/self.h
+				elif(linenumber > lnr_vals and linenumber+1 >= startline):
+					vals = line.split()
 				
-				#Create a halo and add it to the list
-				if(len(self.halos) > max_select_number):
-					halo = Halo()
-					halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
-					halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
-					halo.pos_cm = halo.pos
-					halo.l = np.array(vals[idx_l:idx_l+3]).astype(float) #* U.Msun/self.h*U.Mpc/self.h*U.km/U.s
-					halo.vel_disp = float(vals[idx_vrms]) #*U.km/U.s
-					halo.r = float(vals[idx_r]) #* U.kpc/self.h
-					halo.m = float(vals[idx_m]) #* U.Msun/self.h
-					halo.mp = int(round(halo.m / self.part_mass, 0))
-					self.halos.append(halo)
-				else:
-					break
+					#Create a halo and add it to the list
+					if(max_select_number < 0 or len(self.halos) < max_select_number):
+						halo = Halo()
+						halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
+						halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
+						halo.pos_cm = halo.pos
+						halo.l = np.array(vals[idx_l:idx_l+3]).astype(float) #* U.Msun/self.h*U.Mpc/self.h*U.km/U.s
+						halo.vel_disp = float(vals[idx_vrms]) #*U.km/U.s
+						halo.r = float(vals[idx_r]) #* U.kpc/self.h
+						halo.m = float(vals[idx_m]) #* U.Msun/self.h
+						halo.mp = int(round(halo.m / self.part_mass, 0))
+						self.halos.append(halo)
+					else:
+						return False
 		
-		fileinput.close()
 		return True
 	
 	def get(self, var=None):
@@ -127,6 +129,8 @@ class HaloRockstar:
 			data = np.array([halo.l for halo in tqdm(self.halos)])
 		elif(var == 'pos_cm'):
 			data = np.array([halo.pos_cm for halo in tqdm(self.halos)])
+		else:
+			raise ValueError('Unknown halo variable: %s' % var)
 		return data
 
 
@@ -160,7 +164,7 @@ class HaloCubeP3MFull:
 		self.halos = []
 
 		if box_len == None:
-			ValueError('need to define the refined number of particles from the N-body simulation: n_box')
+			raise ValueError('need to define the size of the box: box_len')
 		else:
 			conv.set_sim_constants(boxsize_cMpc=box_len)
 			self.box_len = float(box_len)
@@ -195,7 +199,6 @@ class HaloCubeP3MFull:
 
 		print_msg('Reading halo file %s...' % filename)
 		self.filename = filename
-		import fileinput
 		#Store the redshift from the filename
 		import os.path
 		name = os.path.split(filename)[1]
@@ -211,49 +214,48 @@ class HaloCubeP3MFull:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
-				if linenumber < startline: #If you want to read from a particular line
-						linenumber += 1
-						continue
-				if max_select_number >= 0 and len(self.halos) >= max_select_number:
-						fileinput.close()
-						return False
-				if linenumber % 100000 == 0:
-						print_msg(f'{linenumber} lines read in {(time()-tstart):.2f} s' )
-				linenumber += 1
-				# print('LINE:', line)
-				vals = line.split()
-				if len(vals)==1:
-						skipped_lines += 1
-						# print('skipping this line')
-						continue
-				# print('VALS:', vals)
-				grid_mass = float(vals[-3])
-
-				# Create a halo and add it to the list
-				if grid_mass > min_select_grid_mass and (max_select_mass == None or grid_mass < max_select_grid_mass):
-						halo = Halo()
-						# The following lines used the map() function to convert
-						# parts of the vals list into floats before putting them
-						# into an array. In Python 3 map() returns an iterable,
-						# not a list, so changed this to a list operation.
-						# GM/200601
-
-						halo.pos    = self._reposition(np.array([float(i) for i in vals[:3]]) * self.box_len / self.nbox_fine) # same units as box_len
-						halo.pos_cm = self._reposition(np.array([float(i) for i in vals[3:6]]) * self.box_len / self.nbox_fine) # same units as box_len
-						halo.vel = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[6:9]]), z=self.z)	# km/s
-						halo.l   = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
-						halo.vel_disp = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[12:15]]), z=self.z)	# km/s
-						halo.m  = 10**(conv.gridmass_to_msol(float(vals[16]))) * const.h # Msun/h
-						halo.mp = float(vals[17])
-						halo_mass_1 = float(vals[18])
-						var_x = np.array([float(i) for i in vals[19:22]])
-						halo.solar_masses = grid_mass*conv.M_grid*const.solar_masses_per_gram
-						self.halos.append(halo)
-
-				# if linenumber==50:
-				#         break
-		fileinput.close()
+		with open(filename) as lines:
+			for line in tqdm(lines):
+					if linenumber < startline: #If you want to read from a particular line
+							linenumber += 1
+							continue
+					if max_select_number >= 0 and len(self.halos) >= max_select_number:
+							return False
+					if linenumber % 100000 == 0:
+							print_msg(f'{linenumber} lines read in {(time()-tstart):.2f} s' )
+					linenumber += 1
+					# print('LINE:', line)
+					vals = line.split()
+					if len(vals)==1:
+							skipped_lines += 1
+							# print('skipping this line')
+							continue
+					# print('VALS:', vals)
+					grid_mass = float(vals[-3])
+
+					# Create a halo and add it to the list
+					if grid_mass > min_select_grid_mass and (max_select_mass == None or grid_mass < max_select_grid_mass):
+							halo = Halo()
+							# The following lines used the map() function to convert
+							# parts of the vals list into floats before putting them
+							# into an array. In Python 3 map() returns an iterable,
+							# not a list, so changed this to a list operation.
+							# GM/200601
+
+							halo.pos    = self._reposition(np.array([float(i) for i in vals[:3]]) * self.box_len / self.nbox_fine) # same units as box_len
+							halo.pos_cm = self._reposition(np.array([float(i) for i in vals[3:6]]) * self.box_len / self.nbox_fine) # same units as box_len
+							halo.vel = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[6:9]]), z=self.z)	# km/s
+							halo.l   = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+							halo.vel_disp = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[12:15]]), z=self.z)	# km/s
+							halo.m  = 10**(conv.gridmass_to_msol(float(vals[16]))) * const.h # Msun/h
+							halo.mp = float(vals[17])
+							halo_mass_1 = float(vals[18])
+							var_x = np.array([float(i) for i in vals[19:22]])
+							halo.solar_masses = grid_mass*conv.M_grid*const.solar_masses_per_gram
+							self.halos.append(halo)
+
+					# if linenumber==50:
+					#         break
 			
 		print(f'Total number of lines read: {linenumber-1}')
 		print(f'Number of lines skipped   : {skipped_lines}')
@@ -273,6 +275,8 @@ class HaloCubeP3MFull:
 			data = np.array([halo.l for halo in tqdm(self.halos)])
 		elif(var == 'pos_cm'):
 			data = np.array([halo.pos_cm for halo in tqdm(self.halos)])
+		else:
+			raise ValueError('Unknown halo variable: %s' % var)
 		return data
 
 	def _reposition(self, pos):
@@ -357,6 +361,9 @@ class HaloCubeP3M:
 			Nothing
 		'''
 
+		if mass_def not in ['vir', 'odc']:
+			raise ValueError('Unknown mass definition: %s' % mass_def)
+
 		self.filespath = filespath
 		self.z = z
 
@@ -371,45 +378,45 @@ class HaloCubeP3M:
 		self.nhalo = 0
 
 		for fn in filesname:
-			f = open(fn, 'rb')
-			nhalo_node, halo_vir, halo_odc = self._get_header(f)				
-			self.nhalo += nhalo_node
+			with open(fn, 'rb') as f:
+				nhalo_node, halo_vir, halo_odc = self._get_header(f)				
+				self.nhalo += nhalo_node
 			
-			for i in range(nhalo_node):
-				halo = Halo()
-				halo.pos = np.fromfile(f, count=3, dtype='float32')		# grid length
-				mass_vir, mass_odc, r_vir, r_odc = np.fromfile(f, count=4, dtype='float32')
+				for i in range(nhalo_node):
+					halo = Halo()
+					halo.pos = np.fromfile(f, count=3, dtype='float32')		# grid length
+					mass_vir, mass_odc, r_vir, r_odc = np.fromfile(f, count=4, dtype='float32')
 				
-				if(mass_def == 'vir'):
-					halo.m = mass_vir # Msun/h
-					halo.r = r_vir # Mpc/h
-				else:
-					halo.m = mass_odc # Msun/h
-					halo.r = r_odc # Mpc/h
+					if(mass_def == 'vir'):
+						halo.m = mass_vir # Msun/h
+						halo.r = r_vir # Mpc/h
+					else:
+						halo.m = mass_odc # Msun/h
+						halo.r = r_odc # Mpc/h
 				
-				halo.mp = 0		# TODO: DOUBLE CHEKC THIS QUANITTY
-				halo.pos_cm = np.fromfile(f, count=3, dtype='float32')
-				halo.vel = np.fromfile(f, count=3, dtype='float32')
-				halo.l = np.fromfile(f, count=3, dtype='float32')
-				halo.vel_disp = np.linalg.norm(np.fromfile(f, count=3, dtype='float32'))
-				var_x = np.fromfile(f, count=3, dtype='float32')	# shape-related quantity(?)
+					halo.mp = 0		# TODO: DOUBLE CHEKC THIS QUANITTY
+					halo.pos_cm = np.fromfile(f, count=3, dtype='float32')
+					halo.vel = np.fromfile(f, count=3, dtype='float32')
+					halo.l = np.fromfile(f, count=3, dtype='float32')
+					halo.vel_disp = np.linalg.norm(np.fromfile(f, count=3, dtype='float32'))
+					var_x = np.fromfile(f, count=3, dtype='float32')	# shape-related quantity(?)
 				
-				if(pid_flag):
-					pid_halo_node = np.fromfile(f, count=50, dtype='int64')
-					xv_halo_node = np.fromfile(f, count=50*6, dtype='float32').reshape((50,6), order='C')
-				else:
-					_ = np.fromfile(f, count=6, dtype='float32')
-
-				if(cosm_unit):
-					halo.pos = self._reposition(pos=conv.gridpos_to_mpc(halo.pos) * const.h)	# Mpc/h
-					halo.m = 10**(conv.gridmass_to_msol(halo.m)) * const.h 		# Msun/h
-					halo.r = conv.gridpos_to_mpc(halo.r) * const.h 				# Mpc/h
-					halo.pos_cm = self._reposition(pos=conv.gridpos_to_mpc(halo.pos_cm) * const.h)	# Mpc/h
-					halo.vel = conv.gridvel_to_kms(gridvel=halo.vel, z=self.z)	# km/s
-					halo.l = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
-					halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
-
-				self.halos.append(halo)
+					if(pid_flag):
+						pid_halo_node = np.fromfile(f, count=50, dtype='int64')
+						xv_halo_node = np.fromfile(f, count=50*6, dtype='float32').reshape((50,6), order='C')
+					else:
+						_ = np.fromfile(f, count=6, dtype='float32')
+
+					if(cosm_unit):
+						halo.pos = self._reposition(pos=conv.gridpos_to_mpc(halo.pos) * const.h)	# Mpc/h
+						halo.m = 10**(conv.gridmass_to_msol(halo.m)) * const.h 		# Msun/h
+						halo.r = conv.gridpos_to_mpc(halo.r) * const.h 				# Mpc/h
+						halo.pos_cm = self._reposition(pos=conv.gridpos_to_mpc(halo.pos_cm) * const.h)	# Mpc/h
+						halo.vel = conv.gridvel_to_kms(gridvel=halo.vel, z=self.z)	# km/s
+						halo.l = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+						halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
+
+					self.halos.append(halo)
 		return True
 
 	def get(self, var=None):
@@ -427,6 +434,8 @@ class HaloCubeP3M:
 			data = np.array([halo.l for halo in tqdm(self.halos)])
 		elif(var == 'pos_cm'):
 			data = np.array([halo.pos_cm for halo in tqdm(self.halos)])
+		else:
+			raise ValueError('Unknown halo variable: %s' % var)
 		return data
 
 
@@ -487,7 +496,6 @@ class HaloList:
 
 		print_msg('Reading halo file %s...' % filename)
 		self.filename = filename
-		import fileinput
 
 		#Store the redshift from the filename
 		import os.path
@@ -501,40 +509,39 @@ class HaloList:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-		for line in tqdm(fileinput.input(filename)):
-			if linenumber < startline: #If you want to read from a particular line
+		with open(filename) as lines:
+			for line in tqdm(lines):
+				if linenumber < startline: #If you want to read from a particular line
+					linenumber += 1
+					continue
+				if max_select_number >= 0 and len(self.halos) >= max_select_number:
+					return False
+				if linenumber % 100000 == 0:
+					print_msg('Read %d lines' % linenumber)
 				linenumber += 1
-				continue
-			if max_select_number >= 0 and len(self.halos) >= max_select_number:
-				fileinput.close()
-				return False
-			if linenumber % 100000 == 0:
-				print_msg('Read %d lines' % linenumber)
-			linenumber += 1
-
-			vals = line.split()			
-			grid_mass = float(vals[-3])
-
-			#Create a halo and add it to the list
-			if grid_mass > min_select_grid_mass and (max_select_mass == None or grid_mass < max_select_grid_mass):
-				halo = Halo()
-                                # The following lines used the map() function to convert
-                                # parts of the vals list into floats before putting them
-                                # into an array. In Python 3 map() returns an iterable,
-                                # not a list, so changed this to a list operation.
-                                # GM/200601
-				halo.pos = np.array([float(i) for i in vals[:3]])
-				halo.pos_cm = np.array([float(i) for i in vals[3:6]])
-				halo.vel = np.array([float(i) for i in vals[6:9]])
-				halo.l = np.array([float(i) for i in vals[9:12]])
-				halo.vel_disp = np.array([float(i) for i in vals[12:15]])
-				halo.m = float(vals[16])
-				halo.mp = float(vals[17])
-				halo_mass_1 = float(vals[18])
-				var_x = np.array([float(i) for i in vals[19:22]])
-				halo.solar_masses = grid_mass*conv.M_grid*const.solar_masses_per_gram
-				self.halos.append(halo)
-
-		fileinput.close()
+
+				vals = line.split()			
+				grid_mass = float(vals[-3])
+
+				#Create a halo and add it to the list
+				if grid_mass > min_select_grid_mass and (max_select_mass == None or grid_mass < max_select_grid_mass):
+					halo = Halo()
+	                                # The following lines used the map() function to convert
+	                                # parts of the vals list into floats before putting them
+	                                # into an array. In Python 3 map() returns an iterable,
+	                                # not a list, so changed this to a list operation.
+	                                # GM/200601
+					halo.pos = np.array([float(i) for i in vals[:3]])
+					halo.pos_cm = np.array([float(i) for i in vals[3:6]])
+					halo.vel = np.array([float(i) for i in vals[6:9]])
+					halo.l = np.array([float(i) for i in vals[9:12]])
+					halo.vel_disp = np.array([float(i) for i in vals[12:15]])
+					halo.m = float(vals[16])
+					halo.mp = float(vals[17])
+					halo_mass_1 = float(vals[18])
+					var_x = np.array([float(i) for i in vals[19:22]])
+					halo.solar_masses = grid_mass*conv.M_grid*const.solar_masses_per_gram
+					self.halos.append(halo)
+
 
 		return True
-- 
2.43.0


From dd50f60d1031f2d4389296ab236fad37edc55475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 17/83] fix: wavenumber grids in one and two dimensions and for
 odd grids put zero where the transform does

---
 src/tools21cm/power_spectrum.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 9bb3d57..6106621 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -454,12 +454,12 @@ def _get_k(input_array, box_dims):
     dim = len(input_array.shape)
     if dim == 1:
         x = np.arange(len(input_array))
-        center = x.max()/2.
+        center = len(input_array)//2
         kx = 2.*np.pi*(x-center)/box_dims[0]
-        return [kx], kx
+        return [kx], np.abs(kx)
     elif dim == 2:
         x,y = np.indices(input_array.shape, dtype='int32')
-        center = np.array([(x.max()-x.min())/2, (y.max()-y.min())/2])
+        center = np.array(input_array.shape)//2
         kx = 2.*np.pi * (x-center[0])/box_dims[0]
         ky = 2.*np.pi * (y-center[1])/box_dims[1]
         k = np.sqrt(kx**2 + ky**2)
@@ -496,7 +496,7 @@ def _get_mu(k_comp, k, los_axis, absolute_mus):
 
         #mu=cos(theta) = k_par/k
         mu = np.abs(los_dist/k) if absolute_mus else los_dist/np.abs(k)
-        mu[np.where(k < 0.001)] = np.nan
+        mu[np.where(k == 0)] = np.nan
         
         return mu
 
@@ -565,11 +565,11 @@ def _get_nonzero_idx(ps_shape, los_axis):
         '''
         x,y,z = np.indices(ps_shape)
         if los_axis == 0:
-                zero_idx = (y == ps_shape[1]/2)*(z == ps_shape[2]/2)
+                zero_idx = (y == ps_shape[1]//2)*(z == ps_shape[2]//2)
         elif los_axis == 1:
-                zero_idx = (x == ps_shape[0]/2)*(z == ps_shape[2]/2)
+                zero_idx = (x == ps_shape[0]//2)*(z == ps_shape[2]//2)
         else:
-                zero_idx = (x == ps_shape[0]/2)*(y == ps_shape[1]/2)
+                zero_idx = (x == ps_shape[0]//2)*(y == ps_shape[1]//2)
         good_idx = np.invert(zero_idx)
         return good_idx
 
-- 
2.43.0


From f2a31bd8e013ebdaadba26e675dcfb893536ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 18/83] fix: box dimensions given as arrays, single numbers or
 left out work in all spectrum estimators

---
 src/tools21cm/power_spectrum.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 6106621..412a35f 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -118,6 +118,7 @@ def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.
         '''
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
+        box_dims = _get_dims(box_dims, input_array.shape)
         k_comp, k = _get_k(input_array, box_dims)
         kbins = _get_kbins(kbins, box_dims, k, binning=binning, breakpoint=breakpoint)
         
@@ -439,7 +440,7 @@ def get_k(input_array, box_dims):
         
 def get_kbins(kbins, box_dims, k=None, array=None, binning='log'):
         assert k is not None or array is not None
-        box_dims = _get_dims(box_dims, array.shape)
+        box_dims = _get_dims(box_dims, array.shape if array is not None else k.shape)
         if k is None: k_comp, k = _get_k(array, box_dims)
         return _get_kbins(kbins, box_dims, k, binning=binning)
 
@@ -526,7 +527,7 @@ def _get_dims(box_dims, ashape):
         size
         Otherwise, return as it is
         '''
-        if box_dims == None:
+        if box_dims is None:
                 return [conv.LB]*len(ashape)
         if not hasattr(box_dims, '__iter__'):
                 return [box_dims]*len(ashape)
@@ -604,10 +605,12 @@ def anisotropy_ratio_r_mu(input_array, los_axis=0, mu_cut=0.5, mubins=20, kbins=
             kbins is an array with the k bin centers.
 
     '''
-    Pk, mubins, kbins = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=return_n_modes, absolute_mus=absolute_mus, **kwargs)
+    Pk, mubins, kbins, n_modes = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=True, absolute_mus=absolute_mus, **kwargs)
     Pup = Pk[mubins>=mu_cut,:]
     Pdn = Pk[mubins<mu_cut,:]
     rup = np.array([pp[np.isfinite(pp)].mean() for pp in Pup.T])
     rdn = np.array([pp[np.isfinite(pp)].mean() for pp in Pdn.T])     
     rmu = rup/rdn-1.0
+    if return_n_modes:
+        return rmu, kbins, n_modes
     return rmu, kbins
\ No newline at end of file
-- 
2.43.0


From a7b2dfaf4d92e85deffb3b60db44f6174f884793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 19/83] fix: cylindrical spectrum accepts bin counts per axis
 and mixed bins, unknown binning is an error

---
 src/tools21cm/power_spectrum.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 412a35f..ac31710 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -208,11 +208,9 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
         '''
         input_array = apply_window(input_array, window)
         
-        if type(kbins) == list:
-                binning = None
-        elif np.array(kbins).size==1: 
+        if not hasattr(kbins, '__iter__'):
                 kbins = [kbins, kbins]
-        elif not isinstance(kbins[0], int): 
+        elif not isinstance(kbins[0], (int, np.integer)): 
                 binning = None
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
@@ -237,6 +235,11 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
                 elif binning=='linear':
                         kper = np.linspace(kp[kp!=0].min(), kp.max(), kbins[0]+1)
                         kpar = np.linspace(kz[kz!=0].min(), kz.max(), kbins[1]+1)
+                elif binning=='mixed':
+                        kper = _get_kbins(kbins[0], box_dims, kp, binning=binning, kmin=kp[kp!=0].min())
+                        kpar = _get_kbins(kbins[1], box_dims, kz, binning=binning, kmin=kz[kz!=0].min())
+                else:
+                        raise ValueError("Unknown binning %s: use 'log', 'linear' or 'mixed'." % binning)
         
         kp, kz, power = kp.flatten(), kz.flatten(), power.flatten()
         ps = stats.binned_statistic_2d(x=kp, y=kz, values=power, statistic='mean', bins=[kper, kpar])
@@ -512,6 +515,8 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
                 kmax = k.max() if kmax is None else kmax
                 if binning=='linear': kbins = np.linspace(kmin, kmax, kbins+1)
                 elif binning=='log': kbins = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
+                elif binning!='mixed':
+                        raise ValueError("Unknown binning %s: use 'log', 'linear' or 'mixed'." % binning)
                 else:
                         kbins_low  = np.linspace(kmin, kmax, kbins+1)
                         kbins_high = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
-- 
2.43.0


From 87bac1dd33a859b0cf055fe43bd651360de97a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 20/83] fix: redshift-distance relations use the configured
 cosmology, keep fractions of whole-number input and return scalars for
 scalars

---
 src/tools21cm/cosmo.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 1c836b9..cdf0799 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -112,7 +112,7 @@ def luminosity_distance(z, k=0):
     if const.lam == 0:
         denom = np.sqrt(1+2*const.q0*z) + 1 + const.q0*z 
         dlum = (const.c*z/const.H0)*(1 + z*(1-const.q0)/denom)
-        return dlum
+        return outputify(dlum)
     else:
         dlum = np.zeros(n)
         for i in range(n):
@@ -138,7 +138,7 @@ def z_to_cdist(z):
         Comoving distance in Mpc
     '''
     z = np.atleast_1d(z)
-    dist = np.zeros_like(z)
+    dist = np.zeros(z.shape)
     for i in range(len(z)):
         Ez_func = lambda x: 1./np.sqrt(const.Omega0*(1.+x)**3+const.lam)
         dist[i] = const.c/const.H0 * quad(Ez_func, 0, z[i])[0]
@@ -160,14 +160,9 @@ def cdist_to_z(dist):
         
     '''
     dist = np.atleast_1d(dist)
-    z = np.zeros_like(dist)
-    func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
-    z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
-    z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
-    table_z     = precalc_table_z[precalc_table_z>z_min_guess]
-    table_z     = table_z[table_z<z_max_guess]
-    table_cdist = z_to_cdist(table_z)
-    func = interp1d(table_cdist, table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
+    z = np.zeros(dist.shape)
+    table_cdist = z_to_cdist(precalc_table_z) #The distances of the configured cosmology
+    func = interp1d(table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     for i in range(len(dist)):
         z[i] = func(dist[i])
     return outputify(z)
@@ -183,7 +178,7 @@ def z_to_age(z):
     '''
     z = np.atleast_1d(z)
     a = 1/(1+z)
-    tage = np.zeros_like(z)
+    tage = np.zeros(z.shape)
     for i in range(len(a)):
         Ea_func = lambda x: 1./x/np.sqrt(const.Omega0*x**-3+const.lam)
         tage[i] = 1/const.H0 * quad(Ea_func, 0, a[i])[0]
@@ -202,7 +197,7 @@ def angular_size(dl, z):
         
     '''
 
-    angle = 180./(3.1415)*3600.*dl*(1+z)**2/(1000*luminosity_distance(z))
+    angle = 180./np.pi*3600.*dl*(1+z)**2/(1000*luminosity_distance(z))
     return outputify(angle)
 
 
-- 
2.43.0


From 4536b773dfef5b869019b7977e5559cb0e1eb45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 21/83] fix: magnitude conversions invert each other and accept
 plain numbers, field of view is in square degrees

---
 src/tools21cm/astro_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 84d8e1e..874a25f 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -30,7 +30,7 @@ def FoV_cMpc2(FoV, redshift, cosmo=None):
     if cosmo is None:
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
-    if isinstance(FoV,(int,float)): FoV *= units.rad**2
+    if isinstance(FoV,(int,float)): FoV *= units.deg**2
     D = cosmo.comoving_distance(redshift)
     FoV_cMpc2 = FoV.to('rad2').value * D**2
     return FoV_cMpc2
@@ -88,8 +88,8 @@ def Muv_to_muv(Muv, z, cosmo=None):
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
     if isinstance(Muv, (int,float)): Muv *= units.mag
-    Kcorrection = 2.5 * np.log10(1 + z) 
-    m_uv = Muv + cosmo.distmod(z).value - Kcorrection
+    Kcorrection = 2.5 * np.log10(1 + z) * units.mag
+    m_uv = Muv + cosmo.distmod(z) - Kcorrection
     return m_uv
 
 
@@ -145,7 +145,7 @@ def Muv_to_L1500(M_AB):
     This conversion is based on the AB magnitude system, where a magnitude of M_AB = 34.1 corresponds 
     to a luminosity of 10^34.1 erg/s/Hz.
     '''
-    if isinstance(Muv, (int,float)): Muv *= units.mag
+    if isinstance(M_AB, (int,float)): M_AB *= units.mag
     SI2cgs = 1e7  # 1 W/Hz = 1e7 erg/s/Hz
     L1500 = SI2cgs * 10.**((34.1 - M_AB.to('mag').value)/2.5) * units.erg/units.s/units.Hz
     return L1500
-- 
2.43.0


From 40b1b102529dd3a7af153f604d8d71bcd35316f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 22/83] fix: brightness temperature uses the redshift of each
 cell along any line of sight and is zero where fully ionised

---
 src/tools21cm/temperature.py | 39 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 815c4ae..04a9551 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -133,20 +133,16 @@ def calc_dt_lightcone(xfrac, dens, lowest_z, los_axis = 2):
 		the same dimensions as xfrac.
 	'''
 	
-	try:
+	if isinstance(xfrac, str):
 		xfrac = read_cbin(xfrac)
-	except Exception:
-		pass
-	try:
+	if isinstance(dens, str):
 		dens = read_cbin(dens)
-	except:
-		pass
 	dens = dens.astype('float64')
 		
 	cell_size = conv.LB/xfrac.shape[(los_axis+1)%3]
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
-	z = cosmo.cdist_to_z(cdist)
+	z = _along_los(cosmo.cdist_to_z(cdist), los_axis)
 	return _dt(dens, xfrac, z)
 
 def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=True):
@@ -172,24 +168,18 @@ def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=Tr
 		the same dimensions as xfrac.
 	'''
 	
-	try:
+	if isinstance(xfrac, str):
 		xfrac = read_cbin(xfrac)
-	except Exception:
-		pass
-	try:
+	if isinstance(temp, str):
 		temp = read_cbin(temp)
-	except Exception:
-		pass
-	try:
+	if isinstance(dens, str):
 		dens = read_cbin(dens)
-	except:
-		pass
 	dens = dens.astype('float64')
 		
 	cell_size = conv.LB/xfrac.shape[(los_axis+1)%3]
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
-	z = cosmo.cdist_to_z(cdist)
+	z = _along_los(cosmo.cdist_to_z(cdist), los_axis)
 	print("Redshift: ", str(z))
 	return _dt_full(dens, xfrac,temp, z, correct)
 
@@ -212,6 +202,14 @@ def mean_dt(z):
 	return Cdt
 	
 
+def _along_los(z, los_axis):
+	'''
+	Shape the redshifts of the slices so that they vary along the line of sight of a data cube.
+	'''
+	shape = [1, 1, 1]
+	shape[los_axis] = -1
+	return np.reshape(z, shape)
+
 def _dt(rho, xi, z):
 		
 	rho_mean = const.rho_crit_0*const.OmegaB if rho.min()>=0 else 1
@@ -222,8 +220,7 @@ def _dt(rho, xi, z):
 	return dt
 
 def _dt_full(rho, xi, Ts, z, correct):
-        z = np.mean(z)
-        print("Redshift:" , str(z))
+        print("Redshift:" , str(np.mean(z)))
         rho_mean = const.rho_crit_0*const.OmegaB
         Tcmb 	 = const.Tcmb0*(1+z) 
         Cdt      = mean_dt(z)
@@ -249,8 +246,8 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # assuming that the ionized part of the cell is fully ionized
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
-                Ts_new = (Ts-xi*T_HII)/(1.-xi)
-                Ts_new[Ts_new < T_min] = T_min
+                Ts_new = (Ts-xi*T_HII)/np.where(xi < 1, 1.-xi, 1.)
+                Ts_new = np.where(Ts_new < T_min, T_min, Ts_new)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
                 Ts_new=Ts
-- 
2.43.0


From b343570bb6889e64e632393d6058ab3042f9c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 23/83] fix: mean subtraction and overdensity accept negative
 axes and whole-number data

---
 src/tools21cm/statistics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index 615becf..d263c42 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -72,7 +72,7 @@ def subtract_mean_signal(signal, los_axis=2):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(np.result_type(signal, np.float32))
 	
 	for i in range(signal.shape[los_axis]):
 		if los_axis in [0,-3]:
@@ -98,14 +98,14 @@ def signal_overdensity(signal, los_axis):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(np.result_type(signal, np.float32))
 	
 	for i in range(signal.shape[los_axis]):
-		if los_axis == 0:
+		if los_axis in [0,-3]:
 			signal_out[i,:,:] /= signal[i,:,:].mean()
-		if los_axis == 1:
+		if los_axis in [1,-2]:
 			signal_out[:,i,:] /= signal[:,i,:].mean()
-		if los_axis == 2:
+		if los_axis in [2,-1]:
 			signal_out[:,:,i] /= signal[:,:,i].mean()
 
 	return signal_out - 1.
-- 
2.43.0


From 61935a88773dbb3a84710e00dce1a96abb4f2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 24/83] fix: redshift of data files comes from the file object

---
 src/tools21cm/helper_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 408f031..cf5a800 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -485,6 +485,9 @@ def determine_redshift_from_filename(filename):
                 * redshift (float) 
                 If no redshift could be found, return -1
         '''
+        if not isinstance(filename, str): #Data files know their redshift, plain arrays do not
+                z = getattr(filename, 'z', None)
+                return -1 if z is None else z
         filename = os.path.basename(filename)
         filename = os.path.splitext(filename)[0]
         
-- 
2.43.0


From 1ca5a59c361aef31c2cdb34f28e13b9ef21979ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 25/83] fix: simulation data files close on every exit, report
 write errors and read back what they wrote

---
 src/tools21cm/density_file.py | 116 +++++++++++++++-------------------
 src/tools21cm/irate_file.py   |  21 +++---
 src/tools21cm/temper_file.py  |  13 ++--
 src/tools21cm/vel_file.py     |  55 ++++++++--------
 src/tools21cm/xfrac_file.py   |  34 +++++-----
 5 files changed, 108 insertions(+), 131 deletions(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 305b9d6..c4a69c4 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -37,20 +37,17 @@ class DensityFile:
 		print_msg('Reading density file:%s ...' % filename)
 		self.filename = filename
 		#Read raw data from density file
-		f = open(filename, 'rb')
-
-		if old_format:
-			self.mesh_x = 203
-			self.mesh_y = 203
-			self.mesh_z = 203
-		else:
-			temp_mesh = np.fromfile(f,count=3,dtype='int32')
-			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh
+		with open(filename, 'rb') as f:
+			if old_format:
+				self.mesh_x = 203
+				self.mesh_y = 203
+				self.mesh_z = 203
+			else:
+				temp_mesh = np.fromfile(f,count=3,dtype='int32')
+				self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh
 
-		self.raw_density = np.fromfile(f, dtype='float32')
+			self.raw_density = np.fromfile(f, dtype='float32')
 		self.raw_density = self.raw_density.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
-		
-		f.close()
 
 		#Convert to g/cm^3 (comoving)
 		conv_factor = const.rho_crit_0*(float(self.mesh_x)/float(conv.nbox_fine))**3*const.OmegaB
@@ -95,35 +92,31 @@ class DensityFile:
 			self.cgs_density = cgs_density
 			self.mesh_x, self.mesh_y, self.mesh_z = self.cgs_density.shape
 			conv_factor = const.rho_crit_0*(float(self.mesh_x)/float(conv.nbox_fine))**3*const.OmegaB
-			self.raw_density = cgs_density/self.conv_factor
+			self.raw_density = cgs_density/conv_factor
 		else:
 			pass 
 
 		print_msg(f'Writing density file: {filename}...')
 		self.filename = filename
 
-		try:
-			with open(filename, 'wb') as f:
-				# Write mesh dimensions only if not old_format
-				if not old_format:
-					# Ensure mesh dimensions are set; use self.raw_density.shape if available
-					if self.raw_density.shape:
-						self.mesh_x, self.mesh_y, self.mesh_z = self.raw_density.shape
-					else:
-						print_msg("Warning: 'raw_density' attribute does not have a valid shape. Writing with current mesh dimensions.")
-
-					temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype=np.int32)
-					temp_mesh.tofile(f)
-				
-				# Write the raw density data (always float32)
-				# Flatten the data array and write it.
-				# Use 'F' order to match Fortran-style reshaping on read.
-				self.raw_density.astype(np.float32).T.flatten().tofile(f)
-				
-			print_msg('...done')
-
-		except Exception as e:
-			print_msg(f"Error writing density file: {e}")
+		with open(filename, 'wb') as f:
+			# Write mesh dimensions only if not old_format
+			if not old_format:
+				# Ensure mesh dimensions are set; use self.raw_density.shape if available
+				if self.raw_density.shape:
+					self.mesh_x, self.mesh_y, self.mesh_z = self.raw_density.shape
+				else:
+					print_msg("Warning: 'raw_density' attribute does not have a valid shape. Writing with current mesh dimensions.")
+
+				temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype=np.int32)
+				temp_mesh.tofile(f)
+			
+			# Write the raw density data (always float32)
+			# Flatten the data array and write it.
+			# Use 'F' order to match Fortran-style reshaping on read.
+			self.raw_density.astype(np.float32).T.flatten().tofile(f)
+			
+		print_msg('...done')
 			
 
 class ClumpingFile:
@@ -159,13 +152,12 @@ class ClumpingFile:
 				(filename.rpartition("/")[-1]))
 		self.filename = filename
 		# Read raw data from clumping factor file
-		f = open(filename, 'rb')
-		temp_mesh = np.fromfile(f, count=3, dtype='int32')
-		self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh
-		self.raw_clumping = np.fromfile(f, dtype='float32')
+		with open(filename, 'rb') as f:
+			temp_mesh = np.fromfile(f, count=3, dtype='int32')
+			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh
+			self.raw_clumping = np.fromfile(f, dtype='float32')
 		self.raw_clumping = self.raw_clumping.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
-		f.close()
 		print('Average raw clumping:\t\t%.3e' % np.mean(self.raw_clumping))
 		print('Min and Max clumping:\t%.3e  %.3e' % (np.min(self.raw_clumping), np.max(self.raw_clumping)))
 
@@ -189,32 +181,28 @@ class ClumpingFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_clumping = raw_clumping
-		if self.raw_clumping is None:
-			print_msg("Error: No raw clumping data to write. Please load a clumping file first or set the 'raw_clumping' attribute.")
-			return
+		if raw_clumping is not None:
+			self.raw_clumping = raw_clumping
+		if getattr(self, 'raw_clumping', None) is None:
+			raise ValueError("No raw clumping data to write. Please load a clumping file first or set the 'raw_clumping' attribute.")
 
 		print_msg(f'Writing clumping factor file: {filename}...')
 		self.filename = filename
 
-		try:
-			with open(filename, 'wb') as f:
-				# Ensure mesh dimensions are set; use self.raw_clumping.shape if available
-				if self.raw_clumping.shape:
-					self.mesh_x, self.mesh_y, self.mesh_z = self.raw_clumping.shape
-				else:
-					print_msg("Warning: 'raw_clumping' attribute does not have a valid shape. Writing with current mesh dimensions.")
+		with open(filename, 'wb') as f:
+			# Ensure mesh dimensions are set; use self.raw_clumping.shape if available
+			if self.raw_clumping.shape:
+				self.mesh_x, self.mesh_y, self.mesh_z = self.raw_clumping.shape
+			else:
+				print_msg("Warning: 'raw_clumping' attribute does not have a valid shape. Writing with current mesh dimensions.")
 
-				# Write mesh dimensions (3 int32 values)
-				temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype=np.int32)
-				temp_mesh.tofile(f)
-				
-				# Write the raw clumping data (always float32)
-				# Flatten the data array and write it.
-				# Use 'F' order to match Fortran-style reshaping on read.
-				self.raw_clumping.astype(np.float32).T.flatten().tofile(f)
-				
-			print_msg('...done')
-
-		except Exception as e:
-			print_msg(f"Error writing clumping file: {e}")
\ No newline at end of file
+			# Write mesh dimensions (3 int32 values)
+			temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype=np.int32)
+			temp_mesh.tofile(f)
+			
+			# Write the raw clumping data (always float32)
+			# Flatten the data array and write it.
+			# Use 'F' order to match Fortran-style reshaping on read.
+			self.raw_clumping.astype(np.float32).T.flatten().tofile(f)
+			
+		print_msg('...done')
\ No newline at end of file
diff --git a/src/tools21cm/irate_file.py b/src/tools21cm/irate_file.py
index 3b72a9a..24e1d0a 100755
--- a/src/tools21cm/irate_file.py
+++ b/src/tools21cm/irate_file.py
@@ -43,21 +43,20 @@ class IonRateFile:
         print_msg('Reading IonRates3 file:%s...' % filename)
         self.filename = filename
 
-        f = open(filename, 'rb')
-        if(binary_format):
-            temp_mesh = np.fromfile(f, count=3, dtype='int32')
-            self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh 
-        else:
-            temp_mesh = np.fromfile(f, count=6, dtype='int32')
-            self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
+        with open(filename, 'rb') as f:
+            if(binary_format):
+                temp_mesh = np.fromfile(f, count=3, dtype='int32')
+                self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh 
+            else:
+                temp_mesh = np.fromfile(f, count=6, dtype='int32')
+                self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
-        if old_format:
+            if old_format:
                 self.irate = np.fromfile(f, dtype='float32')
-        else:
+            else:
                 self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
-        f.close()
         print_msg('...done')
 
         #Store the redshift from the filename
diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 3af9e2f..0e5629a 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -43,17 +43,16 @@ class TemperFile:
         print_msg('Reading Temper3D file:%s...' % filename)
         self.filename = filename
 
-        f = open(filename, 'rb')
-        temp_mesh = np.fromfile(f, count=6, dtype='int32')
-        self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
+        with open(filename, 'rb') as f:
+            temp_mesh = np.fromfile(f, count=6, dtype='int32')
+            self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
-        if old_format:
+            if old_format:
                 self.temper = np.fromfile(f, dtype='float32')
-        else:
+            else:
                 self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
-        f.close()
         print_msg('...done')
 
         #Store the redshift from the filename
diff --git a/src/tools21cm/vel_file.py b/src/tools21cm/vel_file.py
index 3c39ef8..d714d46 100755
--- a/src/tools21cm/vel_file.py
+++ b/src/tools21cm/vel_file.py
@@ -46,11 +46,10 @@ class VelocityFile:
 		self.filename = filename
 
 		#Read raw data from velocity file
-		f = open(filename, 'rb')
-		temp_mesh = np.fromfile(f, count=3, dtype='int32')
-		self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh
-		self.raw_velocity = np.fromfile(f, dtype='float32').astype('float64')
-		f.close()
+		with open(filename, 'rb') as f:
+			temp_mesh = np.fromfile(f, count=3, dtype='int32')
+			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh
+			self.raw_velocity = np.fromfile(f, dtype='float32').astype('float64')
 		self.raw_velocity = self.raw_velocity.reshape((3, self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
 		#Store the redshift from the filename
@@ -79,35 +78,31 @@ class VelocityFile:
 		Returns:
 			Nothing
 		'''
-		self.raw_velocity = raw_velocity
-		if self.raw_velocity is None:
-			print_msg("Error: No raw velocity data to write. Please load a velocity file first or set the 'raw_velocity' attribute.")
-			return
+		if raw_velocity is not None:
+			self.raw_velocity = raw_velocity
+		if getattr(self, 'raw_velocity', None) is None:
+			raise ValueError("No raw velocity data to write. Please load a velocity file first or set the 'raw_velocity' attribute.")
 
 		print_msg(f'Writing velocity file: {filename}...')
 		self.filename = filename
 
-		try:
-			with open(filename, 'wb') as f: # Open in binary write mode
-				# Ensure mesh dimensions are set from raw_velocity shape
-				# The shape will be (3, mesh_x, mesh_y, mesh_z)
-				if self.raw_velocity.shape and self.raw_velocity.shape[0] == 3:
-					_, self.mesh_x, self.mesh_y, self.mesh_z = self.raw_velocity.shape
-				else:
-					print_msg("Warning: 'raw_velocity' attribute does not have a valid shape (expected 4D with first dim 3). Writing with current mesh dimensions.")
-
-				# Write mesh dimensions (3 int32 values)
-				temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype=np.int32)
-				temp_mesh.tofile(f)
-				
-				# Write the raw velocity data (momentum density) as float32
-				# Flatten the 4D array into a 1D array using Fortran-style memory order
-				self.raw_velocity.astype(np.float32).flatten(order='F').tofile(f)
-				
-			print_msg('...done')
-
-		except Exception as e:
-			print_msg(f"Error writing velocity file: {e}")
+		with open(filename, 'wb') as f: # Open in binary write mode
+			# Ensure mesh dimensions are set from raw_velocity shape
+			# The shape will be (3, mesh_x, mesh_y, mesh_z)
+			if self.raw_velocity.shape and self.raw_velocity.shape[0] == 3:
+				_, self.mesh_x, self.mesh_y, self.mesh_z = self.raw_velocity.shape
+			else:
+				print_msg("Warning: 'raw_velocity' attribute does not have a valid shape (expected 4D with first dim 3). Writing with current mesh dimensions.")
+
+			# Write mesh dimensions (3 int32 values)
+			temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype=np.int32)
+			temp_mesh.tofile(f)
+			
+			# Write the raw velocity data (momentum density) as float32
+			# Flatten the 4D array into a 1D array using Fortran-style memory order
+			self.raw_velocity.astype(np.float32).flatten(order='F').tofile(f)
+			
+		print_msg('...done')
 
 	def get_kms_from_density(self, density):
 		''' 
diff --git a/src/tools21cm/xfrac_file.py b/src/tools21cm/xfrac_file.py
index c7ab90e..2138685 100755
--- a/src/tools21cm/xfrac_file.py
+++ b/src/tools21cm/xfrac_file.py
@@ -47,24 +47,23 @@ class XfracFile:
 		print_msg('Reading xfrac file:%s...' % filename)
 		self.filename = filename
 
-		f = open(filename, 'rb')
-		if binary_format:
-			temp_mesh = np.fromfile(f, count=3, dtype='int32')
-			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh #[0:2]
-		else:
-			temp_mesh = np.fromfile(f, count=6, dtype='int32')
-			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
-
-		if old_format:
-			self.xi = np.fromfile(f, dtype='float32')
-		else:
-			self.xi = np.fromfile(f, dtype='float64')
+		with open(filename, 'rb') as f:
+			if binary_format:
+				temp_mesh = np.fromfile(f, count=3, dtype='int32')
+				self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh #[0:2]
+			else:
+				temp_mesh = np.fromfile(f, count=6, dtype='int32')
+				self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
+
+			if old_format:
+				self.xi = np.fromfile(f, dtype='float32')
+			else:
+				self.xi = np.fromfile(f, dtype='float64')
 		self.xi = self.xi.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
 		if neutral:
 			self.xi = 1.0-self.xi
 
-		f.close()
 		print_msg('...done')
 
 		#Store the redshift from the filename
@@ -95,8 +94,6 @@ class XfracFile:
 		print_msg('Writing xfrac file:%s...' % filename)
 		self.filename = filename
 
-		f = open(filename, 'wb')
-
 		# Determine data type for xi based on old_format
 		dtype_xi = 'float32' if old_format else 'float64'
 
@@ -111,7 +108,6 @@ class XfracFile:
 		# Prepare mesh dimensions for writing
 		if binary_format:
 			temp_mesh = np.array([self.mesh_x, self.mesh_y, self.mesh_z], dtype='int32')
-			temp_mesh.tofile(f)
 		else:
 			# For Fortran unformatted, usually there are record markers.
 			# In C2Ray's old format, it seems to write 6 int32 values where [1:4] are the mesh.
@@ -122,7 +118,6 @@ class XfracFile:
 			temp_mesh[1] = self.mesh_x
 			temp_mesh[2] = self.mesh_y
 			temp_mesh[3] = self.mesh_z
-			temp_mesh.tofile(f)
 
 		# Prepare data for writing (handle neutral option)
 		data_to_write = self.xi
@@ -130,8 +125,9 @@ class XfracFile:
 			data_to_write = 1.0 - self.xi
 
 		# Reshape to 1D and write
-		data_to_write.astype(dtype_xi).T.flatten().tofile(f) # Transpose and flatten with Fortran order
+		with open(filename, 'wb') as f:
+			temp_mesh.tofile(f)
+			data_to_write.astype(dtype_xi).T.flatten().tofile(f) # Transpose and flatten with Fortran order
 
-		f.close()
 		print_msg('...done')
 
-- 
2.43.0


From 15513af3bb96c7fcfe0b6bebfc7d5b1500cc8a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 26/83] fix: source files write positions and both mass columns
 in grid units and reject unknown mass ranges

---
 src/tools21cm/source_file.py | 100 +++++++++++++----------------------
 1 file changed, 37 insertions(+), 63 deletions(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index c7c85bc..1e9c9c7 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -22,7 +22,7 @@ class SourceFile:
         
         Parameters:
             filename (string): the file to read from.
-            mass = 'hm' (string) : which mass-range sources from C2Ray. Either 'hm' or 'lm', correspoding to high-mass or low-mass atomically cooling halos
+            mass = 'hm' (string) : which mass-range sources from C2Ray. Either 'hm' or 'lm', correspoding to high-mass or low-mass atomically cooling halos, or 'both' for one column of each
             old_format = False (bool): whether to use the old-style 
         file format.
         Returns:
@@ -52,22 +52,21 @@ class SourceFile:
             nr_src = int(lines[0].split()[0])
 
         if(self.mass == 'hm'):
-            idx_mass = 3
-            self.sources_list = np.zeros((nr_src, 4))
+            idx_mass = [3]
         elif(self.mass  == 'lm'):
-            idx_mass = 4
-            self.sources_list = np.zeros((nr_src, 4))
-        else:
+            idx_mass = [4]
+        elif(self.mass  == 'both'):
             idx_mass = [3, 4]
-            self.sources_list = np.zeros((nr_src, 5))
-            pass
+        else:
+            raise ValueError("Unknown mass range: %s. Use 'hm', 'lm' or 'both'." % self.mass)
+        self.sources_list = np.zeros((nr_src, 3+len(idx_mass)))
 
         # loop over list
         for i in range(nr_src):
             idx = 2*i+1
             text = lines[idx].split()
             self.sources_list[i,:3] = np.array(text[:3], dtype=int)-1
-            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(float(text[idx_mass]))) # Msun
+            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(np.array([float(text[m]) for m in idx_mass]))) # Msun
 
         print_msg('...done')
 
@@ -101,59 +100,34 @@ class SourceFile:
         Returns:
             Nothing
         '''
-        self.sources_list = sources_list
-        if self.sources_list is None or self.sources_list.shape[0] == 0:
-            print_msg("Error: No sources_list data to write. Please load a source file first or set the 'sources_list' attribute.")
-            return
+        if sources_list is not None:
+            self.sources_list = sources_list
+        if getattr(self, 'sources_list', None) is None or self.sources_list.shape[0] == 0:
+            raise ValueError("No sources_list data to write. Please load a source file first or set the 'sources_list' attribute.")
+        if self.sources_list.shape[1] not in [4, 5]:
+            raise ValueError("Unexpected sources_list shape. Expected 4 or 5 columns.")
 
         print_msg(f'Writing Source file: {filename}...')
-        
-        try:
-            with open(filename, 'w') as f: # Open in text write mode
-                nr_src = self.sources_list.shape[0]
-                # Write the first line: number of sources and placeholder (e.g., total mass, typically 0.0)
-                # The read method only uses the first number, so 0.0 is a safe placeholder for the second value.
-                f.write(f"{nr_src} 0.0\n") 
-
-                # Determine which column contains the mass for writing
-                # This depends on how sources_list was populated (by read_from_file or manually).
-                # The original file format has coordinates as 1-indexed integers and log10 of grid mass.
-                
-                # Default to 'hm' column if self.mass is 'hm' or not specified,
-                # otherwise 'lm' column if self.mass is 'lm'.
-                # If self.sources_list has 5 columns, it means both hm and lm are stored.
-                # We need to decide which one to write back to the file format.
-                # Assuming the original file structure implies a single mass value per source line.
-                # Let's prioritize writing the 'hm' mass if available (index 3 for 5-col array).
-
-                for i in range(nr_src):
-                    # Convert coordinates back to 1-indexed integers for writing
-                    x, y, z = self.sources_list[i,:3].astype(int) + 1 
-                    
-                    # Get the mass value(s) in Msun
-                    current_mass_msun = None
-                    if self.sources_list.shape[1] == 5: # (x, y, z, hm_mass, lm_mass)
-                        # Decide which mass to write back: if self.mass is specified use that, else default to hm
-                        if self.mass == 'lm':
-                            current_mass_msun = self.sources_list[i,4] # Use lm_mass
-                        else: # self.mass is 'hm' or default
-                            current_mass_msun = self.sources_list[i,3] # Use hm_mass
-                    elif self.sources_list.shape[1] == 4: # (x, y, z, mass) for hm or lm
-                        current_mass_msun = self.sources_list[i,3]
-                    else:
-                        raise ValueError("Unexpected sources_list shape. Expected 4 or 5 columns.")
-
-                    # Convert Msun back to log10 of grid mass as expected by the file format
-                    # Ensure it's not log10(0) if mass is 0, to avoid errors.
-                    log10_grid_mass = conv.gridmass_to_msol(current_mass_msun) if current_mass_msun > 0 else -99.0 # Use a placeholder for zero mass
-
-                    # Write each source line: x y z log10(grid_mass)
-                    # The original file format has two lines per source, the first is coordinates and log10 grid mass
-                    # and the second is empty. Let's replicate this based on the original parsing logic that does `lines[2*i+1]`
-                    f.write(f"{x} {y} {z} {log10_grid_mass:.6f}\n") # Using .6f for precision
-                    f.write("\n") # Empty line as per typical C2Ray source file format
-
-            print_msg('...done')
-
-        except Exception as e:
-            print_msg(f"Error writing Source file: {e}")
\ No newline at end of file
+
+        nr_src = self.sources_list.shape[0]
+        # Masses of the sources in grid units, as stored in the file: one column
+        # for the high-mass and one for the low-mass sources.
+        grid_mass = np.zeros((nr_src, 2))
+        if self.sources_list.shape[1] == 5:
+            grid_mass[:,:] = self.sources_list[:,3:]
+        elif self.mass == 'lm':
+            grid_mass[:,1] = self.sources_list[:,3]
+        else:
+            grid_mass[:,0] = self.sources_list[:,3]
+        grid_mass = grid_mass/(conv.M_grid*const.solar_masses_per_gram)
+
+        with open(filename, 'w') as f: # Open in text write mode
+            # The first line holds the number of sources; the second value is a placeholder
+            f.write(f"{nr_src} 0.0\n")
+            for i in range(nr_src):
+                # Convert coordinates back to 1-indexed integers for writing
+                x, y, z = self.sources_list[i,:3].astype(int) + 1
+                f.write(f"{x} {y} {z} {float(grid_mass[i,0])!r} {float(grid_mass[i,1])!r}\n")
+                f.write("\n") # The reader takes every second line
+
+        print_msg('...done')
-- 
2.43.0


From 171c0b0d19a6ee09486e87619252b61914076d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 27/83] fix: cbin, fits and pickle helpers close their files,
 honour the header option and refuse unknown file types

---
 src/tools21cm/helper_functions.py | 80 +++++++++++--------------------
 1 file changed, 29 insertions(+), 51 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index cf5a800..8a4b475 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -176,19 +176,16 @@ def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
 
         assert(bits ==32 or bits==64)
 
-        f = open(filename)
-        
         print_msg('Reading cbin file: %s' % filename)
 
-        counter=dimensions+3 if records else dimensions 
-        header = np.fromfile(f, count=counter, dtype='int32')
-        if records: temp_mesh=header[1:4]
-        else: temp_mesh=header[0:3]
-        
         datatype = np.float32 if bits == 32 else np.float64
-        data = np.fromfile(f, dtype=datatype, count=np.prod(temp_mesh))
+        counter=dimensions+3 if records else dimensions 
+        with open(filename, 'rb') as f:
+                header = np.fromfile(f, count=counter, dtype='int32')
+                if records: temp_mesh=header[1:1+dimensions]
+                else: temp_mesh=header[0:dimensions]
+                data = np.fromfile(f, dtype=datatype, count=np.prod(temp_mesh))
         data = data.reshape(temp_mesh, order=order)
-        f.close()
         return data
 
 
@@ -208,12 +205,10 @@ def read_raw_binary(filename, bits=64, order='C'):
 
         assert(bits ==32 or bits==64)
 
-        f = open(filename)
-        
         print_msg('Reading raw binary file: %s' % filename)
 
         datatype = np.float32 if bits == 32 else np.float64
-        data = np.fromfile(f, dtype=datatype)
+        data = np.fromfile(filename, dtype=datatype)
         n = round(len(data)**(1./3.))
         print_msg('Mesh size appears to be: %d' % n)
         data = data.reshape((n, n, n), order=order)
@@ -233,6 +228,7 @@ def save_raw_binary(filename, data, bits=64, order='C'):
         Returns:
                 The data as a three dimensional numpy array.
         '''
+        assert(bits ==32 or bits==64)
         data = data.flatten(order=order)
         datatype = np.float32 if bits == 32 else np.float64
         data = data.astype(datatype)
@@ -254,12 +250,11 @@ def save_cbin(filename, data, bits=32, order='C'):
         '''
         print_msg('Saving cbin file: %s' % filename)
         assert(bits ==32 or bits==64)
-        f = open(filename, 'wb')
         mesh = np.array(data.shape).astype('int32')
-        mesh.tofile(f)
         datatype = (np.float32 if bits==32 else np.float64)
-        data.flatten(order=order).astype(datatype).tofile(f)
-        f.close()
+        with open(filename, 'wb') as f:
+                mesh.tofile(f)
+                data.flatten(order=order).astype(datatype).tofile(f)
         
         
 def read_fits(filename, header=True):
@@ -272,19 +267,14 @@ def read_fits(filename, header=True):
         Returns:
                 numpy array containing the data
         '''
-        try:
-                import pyfits as pf
-                hdulist = pf.open(filename)
-                header = hdulist[0].header
-                data = hdulist[0].data.astype('float64')
-        except:
-                from astropy.io import fits
-                fits_image_filename = fits.util.get_testdata_filepath(filename)
-                hdul = fits.open(fits_image_filename)
-                header = hdul[0].header
-                data = hdul[1].data.astype('float64')
-
-        if header: return data, header
+        from astropy.io import fits
+        with fits.open(filename) as hdulist:
+                #The data is in the primary unit, or in the first extension if that is empty
+                unit = hdulist[0] if hdulist[0].data is not None else hdulist[1]
+                data = unit.data.astype('float64')
+                file_header = hdulist[0].header
+
+        if header: return data, file_header
         else: return data
 
 
@@ -305,15 +295,8 @@ def save_fits(data, filename, header=None):
         
         save_data, datatype = get_data_and_type(data)
 
-        try:
-                import pyfits as pf
-                if type(header)==pf.header.Header: pf.writeto(filename, save_data, header)
-                else: pf.writeto(filename, save_data)
-        except:
-                from astropy.io import fits
-                hdu = pf.PrimaryHDU(save_data.astype('float64'))
-                hdulist = pf.HDUList([hdu])
-                hdulist.writeto(filename, clobber=True)
+        from astropy.io import fits
+        fits.writeto(filename, save_data.astype('float64'), header, overwrite=True)
 
         
 
@@ -389,7 +372,7 @@ def get_data_and_type(indata, cbin_bits=32, cbin_order='c', raw_density=False):
                 elif filetype == 'temper':
                         return get_data_and_type(tools21cm.temper_file.TemperFile(indata))
                 elif filetype == 'density':
-                        return get_data_and_type(tools21cm.density_file.DensityFile(indata))
+                        return get_data_and_type(tools21cm.density_file.DensityFile(indata), raw_density=raw_density)
                 elif filetype == 'cbin':
                         return read_cbin(indata, bits=cbin_bits, order=cbin_order), 'cbin'
                 elif filetype == 'dbt':
@@ -406,7 +389,8 @@ def save_data(savefile, data, filetype=None, **kwargs):
                 np.save(savefile, data)
         elif '.pkl' in savefile[-5:] or filetype.lower() in ['pkl','pickle']:
                 import pickle
-                pickle.dump(data, open(savefile, 'wb'))
+                with open(savefile, 'wb') as f:
+                        pickle.dump(data, f)
         elif '.cbin' in savefile[-5:] or filetype.lower()=='cbin':
                 save_cbin(savefile, data, bits=kwargs.get('bits',32), order=kwargs.get('order','C'))
         elif '.fits' in savefile[-5:] or filetype in ['fits']:
@@ -414,8 +398,7 @@ def save_data(savefile, data, filetype=None, **kwargs):
         elif '.bin' in savefile[-5:] or filetype in ['bin', 'binary']:
                 save_raw_binary(savefile, data, bits=kwargs.get('bits',64), order=kwargs.get('order','C'))
         else:
-                print('Unknown filetype.')
-                return False 
+                raise ValueError('Unknown filetype: %s' % (filetype or savefile))
         return True
         
 
@@ -431,22 +414,17 @@ def get_mesh_size(filename):
                 (mx,my,mz) tuple
         '''
         datatype = determine_filetype(filename)
-        f = open(filename, 'rb')
-        if datatype == 'xfrac':
-                temp_mesh = np.fromfile(f, count=6, dtype='int32')
-                mesh_size = temp_mesh[1:4]
-        elif datatype == 'temper':
-                temp_mesh = np.fromfile(f,count=3,dtype='int32')
+        if datatype == 'xfrac' or datatype == 'temper':
+                temp_mesh = np.fromfile(filename, count=6, dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'density':
-                mesh_size = np.fromfile(f,count=3,dtype='int32')
+                mesh_size = np.fromfile(filename,count=3,dtype='int32')
         elif datatype == 'cbin':
-                mesh_size = np.fromfile(f,count=3,dtype='int32')
+                mesh_size = np.fromfile(filename,count=3,dtype='int32')
         elif datatype == 'dbt':
                 mesh_size = np.array([250,250,250])
         else:
                 raise Exception('Could not determine mesh for filetype %s' % datatype)
-        f.close()
         return mesh_size
                 
 
-- 
2.43.0


From 1f631c541e88e704a2f1f3f89a126109d565453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 28/83] fix: coeval readers pick the snapshot of the requested
 redshift and readers run on current numpy

---
 src/tools21cm/read_files.py | 38 +++++++++++++++++++++----------------
 src/tools21cm/usefuls.py    | 33 +++++++++++++++++++-------------
 2 files changed, 42 insertions(+), 29 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 62538df..ed7031b 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -5,7 +5,7 @@ Methods to read simulations outputs of few popular codes.
 import numpy as np
 import glob
 from .xfrac_file import XfracFile
-from . import helper_functions, density_file, vel_file, lightcone
+from . import helper_functions, vel_file, lightcone
 from . import temperature as tm
 import sys, os
 
@@ -17,7 +17,7 @@ def _load_binary_data(filename, dtype=np.float32):
 	f = open(filename, "rb") 
 	data = f.read() 
 	f.close() 
-	_data = np.fromstring(data, dtype) 
+	_data = np.frombuffer(data, dtype).copy() 
 	if sys.byteorder == 'big':
 		_data = _data.byteswap()
 	return _data 
@@ -57,9 +57,8 @@ def read_c2ray_files(filename, file_type='xfrac', density_file=None):
 		out = dens.astype(np.float64)
 	elif file_type=='vel':
 		assert density_file is not None
-		dfile = density_file.DensityFile(density_file)
-		vel_file = vel_file.VelocityFile(filename)
-		out = vel_file.get_kms_from_density(dfile)
+		vfile = vel_file.VelocityFile(filename)
+		out = vfile.get_kms_from_density(density_file)
 	return out
 
 def read_grizzly_files(filename):
@@ -73,6 +72,13 @@ def read_grizzly_files(filename):
 	return XfracFile(filename).xi
 
 
+def _file_at(files, redshifts, z):
+	'''
+	The file that belongs to redshift z. For internal use.
+	'''
+	return files[int(np.argmin(np.abs(np.asarray(redshifts)-z)))]
+
+
 def coeval_21cm_c2ray(xfrac_dir, dens_dir, z, interpolation='linear', mean_subtract=False):
 	"""
 	Parameters
@@ -120,12 +126,12 @@ def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = XfracFile(_file_at(xfrac_files, xfrac_zs, z)).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = XfracFile(_file_at(xfrac_files, xfrac_zs, z_l)).xi
+		xfrac_h = XfracFile(_file_at(xfrac_files, xfrac_zs, z_h)).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using %s interpolation." %interpolation)
 		print("CAUTION: This data should be used with care.")
@@ -148,16 +154,16 @@ def coeval_dens_c2ray(dens_dir, z):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(_file_at(dens_files, dens_zs, z))
 	else:
 		#z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
 		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_h, dtype = helper_functions.get_data_and_type(_file_at(dens_files, dens_zs, z_h))
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
-		dens = dens_h*(1+z_h)**3/(1+z)**3
+		dens = dens_h #The density is comoving
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
-		print("The density has been scaled from the density at the previous time.")
+		print("The density is the one at the previous time.")
 	return dens.astype(np.float64)
 
 	
@@ -207,13 +213,13 @@ def read_dictionary_data(filename, format=None):
 		return data
 
 	elif format in ['npz']:
-		npzfile = np.load(filename, allow_pickle=True)
-		return dict(npzfile)
+		with np.load(filename, allow_pickle=True) as npzfile:
+			return dict(npzfile)
 
 	elif format in ['nc', 'netcdf']:
 		import xarray as xr
-		ds = xr.open_dataset(filename)
-		return ds.to_dict(data=True)
+		with xr.open_dataset(filename) as ds:
+			return ds.to_dict(data=True)
 	
 	elif format == 'zarr':
 		import xarray as xr
diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 7a54b32..12ff4ce 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -20,6 +20,12 @@ def Mgrid_2_Msolar(M):
 def Msolar_2_Mgrid(M):
 	return M/(conv.M_grid*const.solar_masses_per_gram)
 
+def _file_at(files, redshifts, z):
+	'''
+	The file that belongs to redshift z. For internal use.
+	'''
+	return files[int(np.argmin(np.abs(np.asarray(redshifts)-z)))]
+
 def get_zs_list(xfrac_dir, file_type='/xfrac3d_*.bin'):
 	"""
 	xfrac_dir: Provide the directory whic contains all the data with redshift values in the name.
@@ -62,12 +68,12 @@ def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = xfrac_file.XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = xfrac_file.XfracFile(_file_at(xfrac_files, xfrac_zs, z)).xi
 	else:
 		z_l = xfrac_zs[xfrac_zs<z].max()
 		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		xfrac_l = xfrac_file.XfracFile(_file_at(xfrac_files, xfrac_zs, z_l)).xi
+		xfrac_h = xfrac_file.XfracFile(_file_at(xfrac_files, xfrac_zs, z_h)).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using", interpolation, "interpolation.")
 	return xfrac
@@ -84,12 +90,12 @@ def coeval_dens(dens_dir, z, interpolation='linear'):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(_file_at(dens_files, dens_zs, z))
 	else:
 		z_l = dens_zs[dens_zs<z].max()
 		z_h = dens_zs[dens_zs>z].min()
-		dens_l, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_l, dtype = helper_functions.get_data_and_type(_file_at(dens_files, dens_zs, z_l))
+		dens_h, dtype = helper_functions.get_data_and_type(_file_at(dens_files, dens_zs, z_h))
 		dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		print("The density cube has been interpolated using", interpolation, "interpolation.")
 	return dens.astype(np.float64)
@@ -116,18 +122,19 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 	vel_files  = glob.glob(vel_dir + '/*v_all.dat')
 	vel_zs     = None
 	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)
-	def get_vel(vel_file, dens_file):
-		dfile = density_file.DensityFile(dens_file)
-		vel_file = vel_file.VelocityFile(vel_file)
-		vel = vel_file.get_kms_from_density(dfile)
+	dens_zs    = lightcone._get_file_redshifts(None, dens_files)
+	def get_vel(zf):
+		dfile = density_file.DensityFile(_file_at(dens_files, dens_zs, zf))
+		vfile = vel_file.VelocityFile(_file_at(vel_files, vel_zs, zf))
+		vel = vfile.get_kms_from_density(dfile)
 		return vel
 	if z in vel_zs:
-		vel = get_vel(vel_files[np.argwhere(z==vel_zs)],dens_files[np.argwhere(z==vel_zs)])
+		vel = get_vel(z)
 	else:
 		z_l = vel_zs[vel_zs<z].max()
 		z_h = vel_zs[vel_zs>z].min()
-		vel_l = get_vel(vel_files[vel_zs[vel_zs<z].argmax()],dens_files[vel_zs[vel_zs<z].argmax()])
-		vel_h = get_vel(vel_files[vel_zs[vel_zs>z].argmin()],dens_files[vel_zs[vel_zs>z].argmin()])
+		vel_l = get_vel(z_l)
+		vel_h = get_vel(z_h)
 		vel = vel_h + (vel_l-vel_h)*(z-z_h)/(z_l-z_h)
 		print("The velocity cube has been interpolated using", interpolation, "interpolation.")
 	return vel
-- 
2.43.0


From f7e1014729ad2df5922886ad72e442abf3a88a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 29/83] fix: lightcones take every slice from the snapshots
 that bracket it, accept all documented inputs and are reproducible

---
 src/tools21cm/lightcone.py | 42 +++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 4ad32fa..f174d31 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -105,6 +105,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         assert file_redshifts is not None
         mesh_size = reading_function(filenames[0]).shape
 
+    file_redshifts = np.asarray(file_redshifts)
     assert len(file_redshifts) == len(filenames)
     
     output_z = _get_output_z(file_redshifts, z_low, z_high, mesh_size[0], box_length_mpc=box_length_mpc, dnu=depth_mhz)
@@ -122,14 +123,13 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_bracket(file_redshifts, z)
         
         #Do we need a new file for the low z?
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
             file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
-            if data_high is None:
+            if data_high is None or z_bracket_low != z_bracket_high:
                 if reading_function is None: data_low, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
                 else: data_low = reading_function(filenames[file_idx])#; print('yes')
             else: #No need to read the file again
@@ -241,8 +241,7 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_bracket(file_redshifts, z)
         
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
@@ -271,6 +270,16 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     return lightcone, output_z
 
 
+def _get_bracket(file_redshifts, z):
+    '''
+    The redshifts of the two coeval cubes around z. For internal use.
+    '''
+    above = file_redshifts[file_redshifts > z]
+    if len(above) == 0: #z is that of the last cube
+        return file_redshifts[file_redshifts < z].max(), file_redshifts.max()
+    return file_redshifts[file_redshifts <= z].max(), above.min()
+
+
 def _get_output_z(file_redshifts, z_low, z_high, box_grid_n, box_length_mpc=None, dnu=None):
     '''
     Determine the output redshifts. For internal use.
@@ -381,7 +390,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
         with the dimensions of the subvolume in Mpc
     '''
     
-    assert len(np.nonzero([depth_mhz, depth_mpc])) == 1
+    assert (depth_mhz is None) != (depth_mpc is None)
     
     if fov_Mpc is None:
         fov_Mpc = conv.LB
@@ -419,7 +428,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     box_depth = max_cdist-min_cdist
     box_dims = (fov_Mpc, fov_Mpc, box_depth)
     if(verbose): 
-        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n]))
+        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n-1]))
         print('Slice frequencies (MHz): %.1f %.1f' %(min_freq, max_freq))
         print('Slice comoving distances (cMpc): %.2f %.2f' %(min_cdist, max_cdist))
         print('Slice indices:', low_n, high_n)
@@ -440,7 +449,7 @@ def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
         slice_interp = ((z-z_bracket_low)*slice_high + \
                     (z_bracket_high - z)*slice_low)/(z_bracket_high-z_bracket_low)
     elif interpolation == 'step':
-        transition_z = (z_bracket_high-z_bracket_low)/2.
+        transition_z = (z_bracket_high+z_bracket_low)/2.
         if z < transition_z:
             slice_interp = slice_low.copy()
         else:
@@ -481,7 +490,9 @@ def _get_step_transitions(cell_dist, diff_idx):
     #Replace each value in cell_dist with the number of cells 
     #with a lower value. Then normalize to be between 0 and 1
     values_flat = cell_dist[diff_idx].flatten()
-    values_sorted = sorted(values_flat+np.random.random(len(values_flat))*1.e-9)
+    if len(values_flat) < 2:
+        return np.zeros(cell_dist.shape)
+    values_sorted = sorted(values_flat+np.linspace(0., 1.e-9, len(values_flat)))
     values_uniform = np.linspace(values_sorted[0], values_sorted[-1], len(values_sorted))
     f = scipy.interpolate.interp1d(values_sorted, values_uniform, bounds_error=False, fill_value=0.)
     output_values = f(cell_dist)
@@ -522,18 +533,17 @@ def _get_filenames(filenames_in):
     If it is a text file, read the list of files from the file
     '''
     
-    if hasattr(filenames_in, '__iter__'):
+    if hasattr(filenames_in, '__iter__') and not isinstance(filenames_in, str):
         filenames_out = filenames_in
     elif os.path.isdir(filenames_in):
-        files_in_dir = glob.glob(filenames_in + '/*')
+        files_in_dir = sorted(glob.glob(filenames_in + '/*'))
         extensions = [os.path.splitext(f)[-1] for f in files_in_dir]
         if not _all_same(extensions):
             raise Exception('The directory may only contain one file type.')
         filenames_out = files_in_dir
     elif os.path.isfile(filenames_in):
-        f = open(filenames_in)
-        names = [l.strip() for l in f.readlines()]
-        f.close()
+        with open(filenames_in) as f:
+            names = [l.strip() for l in f.readlines()]
         filenames_out = names
     else:
         raise Exception('Invalid filenames input')
@@ -548,8 +558,8 @@ def _get_file_redshifts(redshifts_in, filenames):
     Else, return as is
     '''
     
-    if hasattr(redshifts_in, '__iter__'):
-        redshifts_out = redshifts_in
+    if hasattr(redshifts_in, '__iter__') and not isinstance(redshifts_in, str):
+        redshifts_out = np.asarray(redshifts_in)
     elif redshifts_in is None:
         redshifts_out = [determine_redshift_from_filename(f) for f in filenames]
         redshifts_out = np.array(redshifts_out)
-- 
2.43.0


From ee4c738c51d59e337292cbba484d5f0f7cd86396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 30/83] fix: freq_box brackets each redshift with the right
 files and names the line of sight

---
 src/tools21cm/deprecated.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/deprecated.py b/src/tools21cm/deprecated.py
index af18da2..3860348 100755
--- a/src/tools21cm/deprecated.py
+++ b/src/tools21cm/deprecated.py
@@ -84,8 +84,8 @@ def freq_box(xfrac_dir, dens_dir, z_low, z_high):
     
     for z in output_z:
         #Find the output files that bracket the redshift
-        z_bracket_low_new = dens_redshifts[dens_redshifts <= z][0]
-        z_bracket_high_new = dens_redshifts[dens_redshifts >= z][0]
+        z_bracket_low_new = dens_redshifts[dens_redshifts <= z][-1]
+        z_bracket_high_new = dens_redshifts[dens_redshifts > z][0]
 
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
@@ -103,17 +103,17 @@ def freq_box(xfrac_dir, dens_dir, z_low, z_high):
         
         #Ionized fraction
         xi_interp = _get_interp_slice(xfrac_file_high.xi, xfrac_file_low.xi, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, 0)
         xfrac_lightcone[:,:,comoving_pos_idx] = xi_interp
 
         #Density
         rho_interp = _get_interp_slice(dens_file_high.cgs_density, dens_file_low.cgs_density, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, 0)
         dens_lightcone[:,:,comoving_pos_idx] = rho_interp
 
         #Brightness temperature
         dt_interp = _get_interp_slice(dt_cube_high, dt_cube_low, z_bracket_high, \
-                                    z_bracket_low, z, comoving_pos_idx)
+                                    z_bracket_low, z, comoving_pos_idx, 0)
         dt_lightcone[:,:,comoving_pos_idx] = dt_interp
 
         print_msg( 'Slice %d of %d' % (comoving_pos_idx, len(output_z)) )
-- 
2.43.0


From af8e0d3378d2c50f6f38777190d94ce7a08f3ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 31/83] fix: halo gridding covers the whole box, uses the
 masses set and rejects unknown units; N-body readers close their files

---
 src/tools21cm/nbody_file.py    | 74 +++++++++++++++++-----------------
 src/tools21cm/nbody_pkdgrav.py | 30 ++++++--------
 src/tools21cm/nbody_tools.py   | 34 +++++++---------
 3 files changed, 64 insertions(+), 74 deletions(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 4a036fe..557dc44 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -1,6 +1,6 @@
 import numpy as np
 from glob import glob
-import astropy
+from astropy import units
 from scipy.spatial import cKDTree
 from scipy.stats import binned_statistic_dd
 
@@ -90,10 +90,9 @@ class NbodyFile:
 		
 		npart = 0
 		for fn_xv in filesname_xv:
-			fxv = open(fn_xv, 'rb')
-			np_local_xv = self._get_header(fxv)
+			with open(fn_xv, 'rb') as fxv:
+				np_local_xv = self._get_header(fxv)
 			npart += np_local_xv
-			fxv.close()
 
 		return npart
 
@@ -117,20 +116,18 @@ class NbodyFile:
 		npart_xv = 0
 		npart_pid = 0
 		for fn_xv, fn_pid in zip(filesname_xv, filesname_pid):
-			fxv = open(fn_xv, 'rb')
-			np_local_xv = self._get_header(fxv)
-			npart_xv += np_local_xv
-			pos_node = np.fromfile(fxv, count=np_local_xv*6, dtype='float32').reshape((np_local_xv,6), order='F')
-			fxv.close()
+			with open(fn_xv, 'rb') as fxv:
+				np_local_xv = self._get_header(fxv)
+				npart_xv += np_local_xv
+				pos_node = np.fromfile(fxv, count=np_local_xv*6, dtype='float32').reshape((np_local_xv,6), order='F')
 
 			if(self.pid_file):
-				fpid = open(fn_pid, 'rb')
-				np_local_pid = self._get_header(fpid)
-				npart_pid += np_local_pid
+				with open(fn_pid, 'rb') as fpid:
+					np_local_pid = self._get_header(fpid)
+					npart_pid += np_local_pid
 
-				# read PID file and return pid array
-				pid_node = np.fromfile(fpid, count=np_local_pid, dtype='int64')
-				fpid.close()
+					# read PID file and return pid array
+					pid_node = np.fromfile(fpid, count=np_local_pid, dtype='int64')
 			
 			if(self.pid_file): assert np_local_pid == np_local_xv
 			
@@ -166,7 +163,7 @@ def read_pkdgrav_fof_halo_catalogue(filename, box_dim, nGrid=None, hlittle=0.67)
 		An array of halo positions and mass [mass, pos_x, pos_y, pos_z].
 	"""
 	box_len = box_dim*hlittle # converted from Mpc to Mpc/h units
-	rd = Pkdgrav3data(box_dim, nGrid, 
+	rd = Pkdgrav3data(box_len, nGrid, 
 			Omega_m=0.31, rho_c=2.77536627e11, verbose=True)
 	fof_data = rd.read_fof_data(filename)
 	fof_data = rd.array_fof_data()
@@ -201,24 +198,29 @@ class Halo2Grid:
 		self.mpc_to_cm = 3.085677581491367e+24 # in cm
 		self.Msun_to_g = 1.988409870698051e+33 # in gram
 		self.pos_grid = None
+		self.mass_Msun = None
+		if method != 'nearest':
+			raise ValueError("Unknown gridding method '%s': only 'nearest' is available." % method)
 
 	def set_halo_pos(self, pos, unit=None):
-		if unit.lower()=='cm':
+		if unit is None or unit.lower()=='grid':
+			self.pos_grid = pos 
+		elif unit.lower()=='cm':
 			self.pos_cm_to_grid(pos) 
 		elif unit.lower()=='mpc':
 			self.pos_mpc_to_grid(pos)
 		else:
-			self.pos_grid = pos 
+			raise ValueError("Unknown position unit '%s': use 'cm', 'Mpc' or 'grid'." % unit)
 
 	def set_halo_mass(self, mass, unit=None):
-		if unit.lower()=='kg':
+		if unit is None or unit.lower()=='msun':
+			self.mass_Msun = mass
+		elif unit.lower()=='kg':
 			self.mass_Msun = mass*1000/self.Msun_to_g
 		elif unit.lower() in ['gram','g']:
 			self.mass_Msun = mass/self.Msun_to_g
-		elif unit.lower()=='msun':
-			self.mass_Msun = mass
 		else:
-			print('Unknown mass units')
+			raise ValueError("Unknown mass unit '%s': use 'kg', 'g' or 'Msun'." % unit)
 
 	def pos_cm_to_grid(self, pos_cm):
 		pos_mpc  = pos_cm/self.mpc_to_cm
@@ -236,8 +238,7 @@ class Halo2Grid:
 	def construct_tree(self, **kwargs):
 		pos = kwargs.get('pos', self.pos_grid)
 		if pos is None:
-			print('Provide the halo positions via parameter "pos".')
-			return None
+			raise ValueError('Provide the halo positions via parameter "pos".')
 
 		print('Creating a tree...')
 		kdtree = cKDTree(pos)
@@ -248,18 +249,18 @@ class Halo2Grid:
 		# https://docs.scipy.org/doc/scipy/reference/generated/scipy.stats.binned_statistic_dd.html
 		statistic = kwargs.get('statistic', 'sum')
 		bins = kwargs.get('bins', self.n_grid)
-		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins)
+		# the grid covers the whole box, not only the part that contains haloes
+		box = [(0, self.n_grid)]*np.shape(positions)[1]
+		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=box)
 		return binned_mass, bin_edges, bin_num
 	
 	def halo_mass_on_grid(self, **kwargs):
 		pos = kwargs.get('pos', self.pos_grid)
 		if pos is None:
-			print('Provide the halo positions via parameter "pos".')
-			return None
-		mass = kwargs.get('mass', self.pos_grid)
+			raise ValueError('Provide the halo positions via parameter "pos".')
+		mass = kwargs.get('mass', self.mass_Msun)
 		if mass is None:
-			print('Provide the halo masses via parameter "mass".')
-			return None
+			raise ValueError('Provide the halo masses via parameter "mass".')
 		binned_mass = kwargs.get('binned_mass')
 		if binned_mass is None: 
 			binned_mass, bin_edges, bin_num = self.value_on_grid(pos, mass, statistic='sum', bins=self.n_grid)
@@ -270,13 +271,12 @@ class Halo2Grid:
 	def halo_value_on_grid(self, value, **kwargs):
 		pos = kwargs.get('pos', self.pos_grid)
 		if pos is None:
-			print('Provide the halo positions via parameter "pos".')
-			return None
+			raise ValueError('Provide the halo positions via parameter "pos".')
 		binned_value = kwargs.get('binned_value')
 		if binned_value is None: 
 			binned_value, bin_edges, bin_num = self.value_on_grid(pos, value, statistic='sum', bins=self.n_grid)
-		binned_pos_list  = np.argwhere(binned_value>0) 
-		binned_value_list = binned_value[binned_value>0]
+		binned_pos_list  = np.argwhere(binned_value!=0) 
+		binned_value_list = binned_value[binned_value!=0]
 		return binned_pos_list, binned_value_list
 	
 def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
@@ -303,15 +303,15 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 	bin_num : ndarray
 		Number of bins.
 	"""
-	if isinstance(mass, astropy.units.quantity.Quantity):
+	if isinstance(mass, units.Quantity):
 		mhalo_msun = mass.to('Msun').value
 	else:
 		print('The provided halo mass is assumed to be in Msun units.')
 		mhalo_msun = mass 
-	if isinstance(mass, astropy.units.quantity.Quantity):
+	if isinstance(pos_xyz, units.Quantity):
 		srcpos_mpc = pos_xyz.to('Mpc').value
 	else:
-		print('The provided halo mass is assumed to be in Mpc units.')
+		print('The provided halo positions are assumed to be in Mpc units.')
 		srcpos_mpc = pos_xyz 
 
 	hg = Halo2Grid(box_len=box_dim, n_grid=n_grid)
diff --git a/src/tools21cm/nbody_pkdgrav.py b/src/tools21cm/nbody_pkdgrav.py
index 37593bd..0e8a061 100755
--- a/src/tools21cm/nbody_pkdgrav.py
+++ b/src/tools21cm/nbody_pkdgrav.py
@@ -52,7 +52,6 @@ class ReaderPkdgrav3:
         return 8677.2079486362706 / dMpcUnit
     
     def read_particles(self, filename):
-        tipsy = open(filename,'rb')
         header_type = np.dtype([('time', '>f8'),('N', '>i4'), ('Dims', '>i4'), ('Ngas', '>i4'), ('Ndark', '>i4'), ('Nstar', '>i4'), ('pad', '>i4')])
         gas_type  = np.dtype([('mass','>f4'), ('x', '>f4'),('y', '>f4'),('z', '>f4'), ('vx', '>f4'),('vy', '>f4'),('vz', '>f4'),
                             ('rho','>f4'), ('temp','>f4'), ('hsmooth','>f4'), ('metals','>f4'), ('phi','>f4')])
@@ -61,15 +60,15 @@ class ReaderPkdgrav3:
         star_type  = np.dtype([('mass','>f4'), ('x', '>f4'),('y', '>f4'),('z', '>f4'), ('vx', '>f4'),('vy', '>f4'),('vz', '>f4'),
                             ('metals','>f4'), ('tform','>f4'), ('eps','>f4'), ('phi','>f4')])
         
-        header = np.fromfile(tipsy,dtype=header_type,count=1)
-        header = dict(zip(header_type.names,header[0]))
-        gas  = np.fromfile(tipsy,dtype=gas_type,count=header['Ngas'])
-        gas  = pd.DataFrame(gas,columns=gas.dtype.names)
-        dark = np.fromfile(tipsy,dtype=dark_type,count=header['Ndark'])
-        dark = pd.DataFrame(dark,columns=dark.dtype.names)
-        star = np.fromfile(tipsy,dtype=star_type,count=header['Nstar'])
-        star = pd.DataFrame(star,columns=star.dtype.names)
-        tipsy.close()
+        with open(filename,'rb') as tipsy:
+            header = np.fromfile(tipsy,dtype=header_type,count=1)
+            header = dict(zip(header_type.names,header[0]))
+            gas  = np.fromfile(tipsy,dtype=gas_type,count=header['Ngas'])
+            gas  = pd.DataFrame(gas,columns=gas.dtype.names)
+            dark = np.fromfile(tipsy,dtype=dark_type,count=header['Ndark'])
+            dark = pd.DataFrame(dark,columns=dark.dtype.names)
+            star = np.fromfile(tipsy,dtype=star_type,count=header['Nstar'])
+            star = pd.DataFrame(star,columns=star.dtype.names)
         
         data = {}
         data['header'] = header
@@ -196,24 +195,19 @@ class HaloCataloguePkdgrav3(ReaderPkdgrav3):
                 print('Returned array contains mass, pos_x, pos_y, pos_z.')
             return str_data 
         else:
-            print('Data unread. Use the read_fof_data attribute.')
-            return None
+            raise ValueError('Data unread. Use the read_fof_data attribute.')
 
     def save_fof_data(self, savefile):
         if '.txt' in savefile[-5:]:
             data_arr = self.array_fof_data() #(dtype='str')            
             np.savetxt(savefile, data_arr)
-            is_saved = True
         elif '.npy' in savefile[-5:]:
             data_arr = self.array_fof_data()
             np.save(savefile, data_arr)
-            is_saved = True #save_data(savefile, data_arr)
         else:
-            is_saved = False
-        if self.verbose and is_saved:
+            raise ValueError(f'The extension used in the filename ({savefile}) provided is unknown.')
+        if self.verbose:
             print(f'The FoF halo data saved as {savefile}')
-        else:
-            print(f'The extension used in the filename ({savefile}) provided is unknown.')
 
     def get_hmf_data(self, hl_mass, bins=25):
         box_len = self.box_len
diff --git a/src/tools21cm/nbody_tools.py b/src/tools21cm/nbody_tools.py
index accddf3..3cd0ef3 100755
--- a/src/tools21cm/nbody_tools.py
+++ b/src/tools21cm/nbody_tools.py
@@ -1,36 +1,32 @@
 import numpy as np 
-import astropy
+from astropy import cosmology
 from astropy import units
 
 def _set_cosmo(cosmo):
-    try:
-        hlittle = cosmo.h
-    except:
+    if isinstance(cosmo, str):
         cosmo_dict = {
-            'PLANCK13': astropy.cosmology.Planck13,
-            'PLANCK15': astropy.cosmology.Planck15,
-            'PLANCK18': astropy.cosmology.Planck18,
-            'WMAP1': astropy.cosmology.WMAP1,
-            'WMAP3': astropy.cosmology.WMAP3,
-            'WMAP5': astropy.cosmology.WMAP5,
-            'WMAP7': astropy.cosmology.WMAP7,
-            'WMAP9': astropy.cosmology.WMAP9, 
+            'PLANCK13': cosmology.Planck13,
+            'PLANCK15': cosmology.Planck15,
+            'PLANCK18': cosmology.Planck18,
+            'WMAP1': cosmology.WMAP1,
+            'WMAP3': cosmology.WMAP3,
+            'WMAP5': cosmology.WMAP5,
+            'WMAP7': cosmology.WMAP7,
+            'WMAP9': cosmology.WMAP9, 
             }
         if cosmo.upper() in cosmo_dict.keys():
             cosmo = cosmo_dict[cosmo.upper()]
         else:
-            print('{} cosmology not implemented and, therefore, using the default Planck18.')
-            cosmo = astropy.cosmology.Planck18
-        # hlittle = cosmo.h
+            raise ValueError("Unknown cosmology '%s': use one of %s or an astropy cosmology." % (cosmo, ', '.join(cosmo_dict)))
     return cosmo 
 
 def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
     cosmo = _set_cosmo(cosmo)
     if not isinstance(particle_mass, units.Quantity): 
-        particle_mass *= units.Msun 
+        particle_mass = particle_mass*units.Msun 
         print('As the particle mass provided is not using Astropy units, Msun is assumed here.')
     if not isinstance(Lbox, units.Quantity): 
-        Lbox *= units.Mpc 
+        Lbox = Lbox*units.Mpc 
         print('As the box length provided is not using Astropy units, Mpc is assumed here.')
     particle_number = (np.cbrt(cosmo.critical_density0*cosmo.Om0/particle_mass)*Lbox).to('')
     print('Particles | along each direction = {} | total = {}'.format(particle_number,particle_number**3))
@@ -38,13 +34,13 @@ def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
 
 def halo_mass_to_particle_number(Lbox, halo_mass, particles_in_halo, cosmo='Planck18'):
     particle_mass = halo_mass/particles_in_halo
-    return particle_number_to_particle_mass(Lbox, particle_mass, cosmo=cosmo)
+    return ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo=cosmo)
 
 def particle_number_to_particle_mass(Lbox, particle_each_direction=None, particle_total=None, cosmo='Planck18'):
     particle_number = particle_each_direction if particle_each_direction is not None else np.cbrt(particle_total)
     cosmo = _set_cosmo(cosmo)
     if not isinstance(Lbox, units.Quantity): 
-        Lbox *= units.Mpc 
+        Lbox = Lbox*units.Mpc 
         print('As the box length provided is not using Astropy units, Mpc is assumed here.')
     particle_mass = cosmo.critical_density0*cosmo.Om0*(Lbox/particle_number)**3
     return particle_mass.to('Msun')
-- 
2.43.0


From eba2bfabf1d989b1d54bd97ec856ee8d4bdfed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 32/83] fix: smoothing kernels are centred on odd grids,
 normalised and act along the documented axes; uv convolution runs

---
 src/tools21cm/beam_convolve.py         |  3 +-
 src/tools21cm/fft_functions.py         | 13 +++--
 src/tools21cm/gaussian_random_field.py |  4 +-
 src/tools21cm/smoothing.py             | 67 ++++++++++++++------------
 4 files changed, 46 insertions(+), 41 deletions(-)

diff --git a/src/tools21cm/beam_convolve.py b/src/tools21cm/beam_convolve.py
index ebadb1a..5c3c1eb 100755
--- a/src/tools21cm/beam_convolve.py
+++ b/src/tools21cm/beam_convolve.py
@@ -47,8 +47,7 @@ def beam_convolve(input_array, z, fov_mpc, beam_w = None, max_baseline = None, \
 	else:
 		raise Exception('Unknown beamshape: %s' % beamshape)
 
-	out =  signal.fftconvolve(input_array, kernel, mode='same')
-	# out =  fftconvolve(input_array, kernel)
+	out =  fftconvolve(input_array, kernel, mode='same', boundary='constant')
 
 	return out
 
diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index 11b752c..87e92c0 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -71,8 +71,8 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
         do_pad = False
     else: 
         do_pad = True
-        pad_before = s2 - 1 if mode == 'full' else s2 // 2
-        pad_after = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_before = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_after = s2 - 1 if mode == 'full' else s2 // 2
         fsize = tuple((s1 + pad_before + pad_after + s2 - 1).tolist())
 
     # --- 2. PyTorch Backend ---
@@ -107,7 +107,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = torch_fft.ifftn(f1 * f2, s=fsize, dim=calc_axes)
 
         if boundary == 'circular':
-            return torch.roll(ret, shifts=tuple((-s2 // 2).tolist()), dims=calc_axes)
+            return torch.roll(ret, shifts=tuple((-(s2 // 2)).tolist()), dims=calc_axes)
 
     # --- 3. JAX Backend ---
     elif backend == 'jax':
@@ -132,7 +132,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = jnp.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return jnp.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return jnp.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 4. NumPy Backend ---
     elif backend == 'numpy':
@@ -154,7 +154,10 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = np.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return np.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return np.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
+
+    else:
+        raise ValueError("backend must be 'numpy', 'torch', or 'jax'")
 
     # --- 5. Cropping Logic (Applies to all backends) ---
     if do_pad:
diff --git a/src/tools21cm/gaussian_random_field.py b/src/tools21cm/gaussian_random_field.py
index 2188938..dfb8cc8 100755
--- a/src/tools21cm/gaussian_random_field.py
+++ b/src/tools21cm/gaussian_random_field.py
@@ -55,7 +55,7 @@ def make_gaussian_random_field(dims, box_dims, power_spectrum, random_seed=None)
     map_ft *= np.sqrt(power_spectrum(k)/scale_factor)
     
     #Inverse FT
-    map_ift = fftpack.ifftn(fftpack.fftshift(map_ft))
+    map_ift = fftpack.ifftn(fftpack.ifftshift(map_ft))
     
     #Return real part
     map_real = np.real(map_ift)
@@ -117,5 +117,5 @@ def fourier_phase_shuffled(input_array, **kwargs):
     ft_phi = np.angle(ft)
     np.random.shuffle(ft_phi)
     ft_new = ft_abs*np.exp(1j * ft_phi)
-    output_array = np.real(fftpack.ifftn(fftpack.fftshift(ft_new)))
+    output_array = np.real(fftpack.ifftn(fftpack.ifftshift(ft_new)))
     return output_array
\ No newline at end of file
diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2a5e27b..a8b5675 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -98,7 +98,7 @@ def tophat_kernel(size, tophat_width):
         '''
         kernel   = np.zeros((size,size))
         center   = kernel.shape[0]/2
-        idx_low  = int(center-np.floor(tophat_width/2.))
+        idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
         idx_high = int(center+np.ceil(tophat_width/2.))
         kernel[idx_low:idx_high, idx_low:idx_high] = 1.
         kernel /= np.sum(kernel)
@@ -119,21 +119,21 @@ def tophat_kernel_3d(size, tophat_width, shape="cube"):
         Returns:
                 The normalized kernel
         '''
-        kernel = np.zeros((size, size, size))
+        size = np.broadcast_to(size, 3)
+        kernel = np.zeros(tuple(size))
         if shape == "cube":
-                center   = kernel.shape[0]/2 
-                idx_low  = int(center-np.floor(tophat_width/2.))
-                idx_high = int(center+np.ceil(tophat_width/2.))
-                kernel[idx_low:idx_high, idx_low:idx_high, idx_low:idx_high ] = 1.
-        else:
-                if size % 2 == 0:
-                        size = int(size/2)
-                        x,y,z = np.mgrid[-size:size, -size:size, -size:size]
-                else:
-                        size = int(size/2)
-                        x,y,z = np.mgrid[-size:size+1, -size:size+1, -size:size+1]
+                box = []
+                for n in size:
+                        idx_low  = max(int(n/2-np.floor(tophat_width/2.)), 0)
+                        idx_high = int(n/2+np.ceil(tophat_width/2.))
+                        box.append(slice(idx_low, idx_high))
+                kernel[tuple(box)] = 1.
+        elif shape == "sphere":
+                x,y,z = np.mgrid[tuple(slice(-(n//2), n-n//2) for n in size)]
                 radius=np.sqrt(x*x+y*y+z*z)
                 kernel[np.nonzero(radius <= 0.5*tophat_width)]=1.
+        else:
+                raise ValueError("Unknown shape '%s': use 'cube' or 'sphere'." % shape)
                 
         kernel /= np.sum(kernel)
         return kernel
@@ -348,8 +348,8 @@ def smooth_lightcone(lightcone, z_array, box_size_mpc=False, max_baseline=2., ra
                 (Smoothed_lightcone, redshifts) 
         """
         if (not box_size_mpc): box_size_mpc=conv.LB
-        if(z_array.shape[0] == lightcone.shape[2]):
-                input_redshifts = z_array.copy()
+        if(np.ndim(z_array) == 1 and len(z_array) == lightcone.shape[2]):
+                input_redshifts = np.array(z_array)
         else:
                 z_low = z_array
                 cell_size = 1.0*box_size_mpc/lightcone.shape[0]
@@ -414,14 +414,14 @@ def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
         Returns:
                 Smoothed_cube
         """
-        kernel = tophat_kernel(cube.shape[nu_axis], width)
-        output_cube = np.zeros(cube.shape)
-        if nu_axis==0:
-                for i in tqdm(range(cube.shape[1]), disable=False if verbose else True):
-                        output_cube[:,i,:] = smooth_with_kernel(cube[:,i,:], kernel)
-        else:
-                for i in tqdm(range(cube.shape[0]), disable=False if verbose else True):
-                        output_cube[i,:,:] = smooth_with_kernel(cube[i,:,:], kernel)
+        # only the frequency axis is smoothed, each line of sight by itself
+        data   = np.moveaxis(cube, nu_axis, 2)
+        kernel = np.zeros(data.shape[1:])
+        kernel[data.shape[1]//2,:] = tophat_kernel(data.shape[2], width).sum(axis=0)
+        output_cube = np.zeros(data.shape)
+        for i in tqdm(range(data.shape[0]), disable=False if verbose else True):
+                output_cube[i,:,:] = smooth_with_kernel(data[i,:,:], kernel)
+        output_cube = np.moveaxis(output_cube, 2, nu_axis)
         return output_cube
 
 def smooth_coeval_gauss(cube, fwhm, nu_axis):
@@ -474,6 +474,7 @@ def smooth_lightcone_gauss(lightcone,fwhm,nu_axis=2):
                 Smoothed_lightcone
         """
         assert lightcone.shape[nu_axis] == len(fwhm)
+        nu_axis = nu_axis % lightcone.ndim
         output_lightcone = np.zeros(lightcone.shape)
         for i in range(output_lightcone.shape[nu_axis]):
                 if nu_axis==0: output_lightcone[i,:,:] = smooth_gauss(lightcone[i,:,:], fwhm=fwhm[i])
@@ -494,8 +495,8 @@ def smooth_lightcone_uv_threshold(lightcone, uv_box, threshold=0.0):
         Returns:
                 Smoothed lightcone.
         """
-        if not isinstance(threshold, float) or threshold < 0.0:
-                return ValueError("Threshold value should be a positive float.")
+        if not isinstance(threshold, (int, float)) or threshold < 0.0:
+                raise ValueError("Threshold value should be a positive float.")
         
         lightcone = np.fft.fft2(lightcone, axes = (0, 1))
         uv_bool = uv_box < threshold
@@ -534,7 +535,7 @@ def convolve_uvmap(array, z=None, uv_map=None, max_baseline=None, box_size_mpc=F
         if uv_map is None: 
                 uv_map, N_ant  = get_uv_map(array.shape[0],
                                                 z,
-                                                filename=filename,
+                                                subarray_type=filename,
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
@@ -574,9 +575,9 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
         if uv_map is None: 
-                uv_map, N_ant  = get_uv_map(array.shape[0],
+                uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
-                                                filename=filename,
+                                                subarray_type=filename,
                                                 total_int_time=total_int_time,
                                                 int_time=int_time,
                                                 boxsize=box_size_mpc,
@@ -589,9 +590,9 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         output_dtheta  = (1+z)*21e-5/max_baseline
         output_ang_res = output_dtheta*cm.z_to_cdist(z) * cube.shape[0]/box_size_mpc
         output_cube = smooth_coeval_tophat(cube, output_ang_res*ratio, nu_axis=nu_axis, verbose=verbose)
-        if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
-        output_cube = np.array([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)])
-        if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
+        output_cube = np.moveaxis(output_cube, nu_axis, 2)
+        output_cube = np.stack([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)], axis=2)
+        output_cube = np.moveaxis(output_cube, 2, nu_axis)
         return output_cube
 
 def smooth_line(y, window=3, kind='tophat'):
@@ -643,13 +644,15 @@ def smooth_line(y, window=3, kind='tophat'):
             window = window / window.sum()
         elif kind.lower() == 'hamming':
             window = np.hamming(window)
+            window = window / window.sum()
         elif kind.lower() == 'hanning':
             window = np.hanning(window)
+            window = window / window.sum()
         else:
             raise ValueError(f"Unsupported window kind: '{kind}'. Choose from 'tophat', 'gaussian', 'triangular', 'hamming', or 'hanning'.")
     elif isinstance(window, (list, np.ndarray)):
         window = np.array(window)
-        window /= np.sum(window)  # Ensure the custom window is normalized
+        window = window / np.sum(window)  # Ensure the custom window is normalized
     else:
         raise ValueError("Window must be an integer or an array-like object.")
 
-- 
2.43.0


From 000e75ac4ce40b3574219886eb144ab6301eb557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 33/83] fix: bispectrum estimators use the box size they were
 created with and shells of the requested width

---
 src/tools21cm/bispectrum.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 5986e07..841d4f6 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -72,7 +72,7 @@ class Bispectrum:
         s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
         d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
-        if k2==k1: 
+        if k2==k1 and dk2==dk1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
@@ -80,9 +80,9 @@ class Bispectrum:
             s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
             d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
-        if k3==k1: 
+        if k3==k1 and dk3==dk1: 
             s3, d3 = s1, d1
-        elif k3==k2: 
+        elif k3==k2 and dk3==dk2: 
             s3, d3 = s2, d2
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
@@ -110,15 +110,15 @@ class Bispectrum:
         tstart = time()
         input_array_nd = apply_window(self.input_array.astype(np.float64), window)
 
-        box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
-        if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
+        box_dims = self.box_dims if box_dims is None else _get_dims(box_dims, input_array_nd.shape)
         
         if verbose: print(f'Computing bispectrum with k1,k2={k1:.2f},{k2:.2f} 1/Mpc...')
         input_array_fft, k_comp, k_mag = fft_nd(input_array_nd, box_dims=box_dims, verbose=verbose)
         if verbose: print('FFT of data done')
             
         if binning=='linear': alphas  = np.linspace(0, np.pi, n_bins)
-        else: alphas  = 10**np.linspace(-2, np.log10(np.pi), n_bins)
+        elif binning=='log': alphas  = 10**np.linspace(-2, np.log10(np.pi), n_bins)
+        else: raise ValueError('Unknown binning: %s' % binning)
         k3_list = self.cosine_rule(k1, k2, alphas) #np.sqrt(k1**2 + k2**2 + 2*k1*k2*np.cos(alphas))
         
         def run_loop(i):
@@ -165,8 +165,7 @@ class Bispectrum:
         tstart = time()
         input_array_nd = apply_window(self.input_array.astype(np.float64), window)
 
-        box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
-        if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
+        box_dims = self.box_dims if box_dims is None else _get_dims(box_dims, input_array_nd.shape)
         
         if verbose: print(f'Computing bispectrum with k1=k2=k3...')
         input_array_fft, k_comp, k_mag = fft_nd(input_array_nd, box_dims=box_dims, verbose=verbose)
-- 
2.43.0


From 7e257be3bb43e096d73283e73599931bcc2ae3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 34/83] fix: superpixels label cubes, and their estimates use
 the labels supplied

---
 src/tools21cm/superpixels.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 457c0c8..e44c17e 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -18,14 +18,9 @@ def slic_cube(cube, n_segments=5000, compactness=0.1,
 	else:
 		multichannel = False
 	if verbose: print('Estimating superpixel labels using SLIC...')
-	try: 
-		labels = slic(cube, n_segments=n_segments, compactness=compactness, 
-					  max_num_iter=max_iter, sigma=sigma, max_size_factor=max_size_factor, 
-					  slic_zero=True, multichannel=multichannel, start_label=0)
-	except: 
-		labels = slic(cube, n_segments=n_segments, compactness=compactness, 
-					  max_num_iter=max_iter, sigma=sigma, max_size_factor=max_size_factor, 
-					  slic_zero=True, start_label=0)
+	labels = slic(cube, n_segments=n_segments, compactness=compactness, 
+				  max_num_iter=max_iter, sigma=sigma, min_size_factor=min_size_factor, max_size_factor=max_size_factor, 
+				  slic_zero=True, channel_axis=-1 if multichannel else None, start_label=0)
 	if verbose: print("The output contains the labels with %d segments"%(labels.max()+1))
 	return labels
 
@@ -177,7 +172,7 @@ def get_superpixel_SNRs(means=None, sigmas=None, n_pix=None, data=None, labels=N
 	means  = means[sorts]
 	if pixels:
 		pxls = get_superpixel_pixels(data=data, labels=labels, slic_segments=slic_segments)
-		pxls = pxls[sorts]
+		pxls = [pxls[i] for i in sorts]
 		return means/sigmas, means, sigmas, n_pix, pxls
 	return means/sigmas, means, sigmas, n_pix
 
@@ -194,7 +189,7 @@ def mean_estimate(data, means=None, sigmas=None, n_pix=None, labels=None, slic_s
 	#if means is None: means  = get_superpixel_means(data, labels=labels, slic_segments=slic_segments)
 	#if sigmas is None: sigmas = get_superpixel_sigmas(data, labels=labels, slic_segments=slic_segments)
 	#if n_pix is None: n_pix = get_superpixel_n_pixels(data, labels=labels, slic_segments=slic_segments)
-	SNRs, means, sigmas, n_pix = get_superpixel_SNRs(means=means, sigmas=sigmas, n_pix=n_pix)
+	SNRs, means, sigmas, n_pix = get_superpixel_SNRs(means=means, sigmas=sigmas, n_pix=n_pix, data=data, labels=labels, slic_segments=slic_segments)
 	if SNR_thres<=0: locs = SNRs<SNR_thres
 	else: locs = SNRs<-SNR_thres
 	global_means  = np.abs(means[locs])
-- 
2.43.0


From 93ffb4d682bccf881b2a1b1c891492d0920064d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 35/83] fix: k-means region identification is reproducible

---
 src/tools21cm/identify_regions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/identify_regions.py b/src/tools21cm/identify_regions.py
index 37f9feb..e0c1ffc 100755
--- a/src/tools21cm/identify_regions.py
+++ b/src/tools21cm/identify_regions.py
@@ -160,7 +160,7 @@ def threshold_kmeans(cube, upper_lim=False, mean_remove=True, n_jobs=1):
 	
 	array = np.zeros(cube.shape)
 	X  = cube.reshape(-1,1)
-	y = KMeans(n_clusters=2, n_init='auto').fit_predict(X)
+	y = KMeans(n_clusters=2, n_init='auto', random_state=0).fit_predict(X)
 	t_th = X[y==0].max()/2.+X[y==1].max()/2.
 	if upper_lim: array[cube<=t_th] = 1
 	else: array[cube>t_th] = 1
@@ -170,7 +170,7 @@ def threshold_kmeans(cube, upper_lim=False, mean_remove=True, n_jobs=1):
 def threshold_kmeans_3cluster(cube, upper_lim=False, n_jobs=1):
 	#The input is the brightness temperature cube.
 	
-	km = KMeans(n_clusters=3, n_init='auto')
+	km = KMeans(n_clusters=3, n_init='auto', random_state=0)
 	X  = cube.reshape(-1,1)
 	array = np.zeros(X.shape)
 	km.fit(X)
-- 
2.43.0


From 577255d5e3fd46b2c345b13a78d120aa0559143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 36/83] fix: primary beam uses the requested first null in two
 dimensions and any frequency axis

---
 src/tools21cm/primary_beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 14542cf..d03d0d6 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -34,12 +34,12 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 	assert array.ndim > 1
 	if boxsize is None: 
 		boxsize = conv.LB
-	beam = np.zeros(array.shape)
 	if array.ndim==2: 
-		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize)
+		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
+		beam = np.zeros(array.shape)
 		if np.array(z).size==1: 
 			z = z*np.ones(array.shape[2])
 		for i in tqdm(range(z.size), disable=not verbose): 
-- 
2.43.0


From 4cda2b93db328cd07934bb1cbe30eaa8500bb174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 37/83] fix: Lyman-alpha coupling runs and passes its arguments
 in order

---
 src/tools21cm/lyman_alpha_coupling.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_coupling.py b/src/tools21cm/lyman_alpha_coupling.py
index eb6431c..6534998 100755
--- a/src/tools21cm/lyman_alpha_coupling.py
+++ b/src/tools21cm/lyman_alpha_coupling.py
@@ -1,5 +1,6 @@
 import numpy as np
-from scipy.interpolate import interp1d, interp2d
+from scipy.interpolate import interp1d
+from . import cosmo as cm
 from .usefuls import *
 import os, glob
 import time, timeit
@@ -32,9 +33,9 @@ def Lya_coupling_coeff(ncells, boxsize, sourcelist, z=-1, SED=None, lum=None, la
 	xc_cube  = np.zeros((ncells, ncells, ncells))
 	src, z   = _read_halofile(sourcelist, z=z)
 	n_src    = src.shape[0]
-	for s in xrange(n_src):
+	for s in range(n_src):
 		source_pos, mass = src[s,:-1]-np.ones(3), src[s,-1]
-		na_cube  = one_source(ncells, boxsize, source_pos, mass, sed_func)
+		na_cube  = one_source(z, ncells, boxsize, source_pos, mass, sed_func)
 		xc_cube += na_cube
 		loading_verbose(str((s+1)*100/n_src)+'%')
 	return xc_cube
@@ -60,6 +61,7 @@ def Lya_coupling_coeff_MPI(ncells, boxsize, sourcelist_loc, z=-1, SED_loc=None,
 	assert type(sourcelist_loc) == str
 	assert SED_loc is not None or (lum is not None and lam is not None)
 	if z<0: z = float(sourcelist_loc.split('-')[-2].split('/')[-1])
+	dummy_SED_name = None
 	if (lum is not None and lam is not None): 
 		sed = np.vstack((lam,lum))
 		dummy_SED_name = 'dummy_SED'+str(time.time())+'.dat'
@@ -81,6 +83,7 @@ def Lya_coupling_coeff_(ncells, boxsize, sourcelist, z=-1, SED=None, lum=None, l
 		if type(lum)==str: lum = np.loadtxt(lum)   # Energy/time/mass
 		if type(lam)==str: lam = np.loadtxt(lam)   # angstrom
 	sed_func = interp1d(lam, lum, kind='cubic')
+	src, z   = _read_halofile(sourcelist, z=z)
 	rr  = 10**np.linspace(-2,np.log10(boxsize*1.8),1000)
 	zs  = cm.cdist_to_z(rr+cm.z_to_cdist(z))
 	lms = lam_lya*(1+z)/(1+zs)
@@ -88,14 +91,13 @@ def Lya_coupling_coeff_(ncells, boxsize, sourcelist, z=-1, SED=None, lum=None, l
 	rp  = rr/(1.0+zs)
 	eng = sed_func(lms)*dlam/(4*np.pi*rp**2)
 	eng_func = interp1d(zs, eng, kind='cubic')
-	src, z   = _read_halofile(sourcelist, z=z)
 	n_src    = src.shape[0]
 	masses   = Mgrid_2_Msolar(src[:,3])               # in solar mass
 	xc_cube  = np.zeros((ncells, ncells, ncells))
 	xx,yy,zz = np.mgrid[0:ncells,0:ncells,0:ncells]
-	for s in xrange(n_src):
+	for s in range(n_src):
 		source_pos = src[s,:-1]-np.ones(3)
-		na_cube  = one_source(xx, yy, zz, ncells, boxsize, source_pos, masses[p], eng_func, zs_HII)
+		na_cube  = one_source_(xx, yy, zz, z, ncells, boxsize, source_pos, masses[s], eng_func, zs_HII)
 		xc_cube += na_cube
 		loading_verbose(str((s+1)*100/n_src)+'%')
 	return xc_cube
@@ -129,12 +131,13 @@ def Lya_coupling_coeff_useprofile(z, ncells, boxsize, source_dir, source_file='*
 	src_zs  = source_zs[source_zs>=z]
 	src_zs  = src_zs[src_zs<=z_max]
 	r_light = c_light*tstep*yr2sec*m2parsec
+	xc_cube = np.zeros((ncells, ncells, ncells))
 	for zi in src_zs:
 		if zi==z: zl = -1
 		else: zl = source_zs[source_zs<zi].max()
 		engs    = _get_profile(z, lam, lum, boxsize, ncells, r_light*(1+zl), r_light*(1+zi))
 		sources = np.loadtxt(sourcelists[source_zs==zi][0], skiprows=1)
-		xc_cube = _get_xc(sources, engs, ncells)
+		xc_cube += _get_xc(sources, engs, ncells)
 	return xc_cube
 
 def _get_xc(sources, engs, ncells, mass_axis=3, time_taken=False):
@@ -142,11 +145,10 @@ def _get_xc(sources, engs, ncells, mass_axis=3, time_taken=False):
 	masses  = Mgrid_2_Msolar(sources[:,mass_axis])
 	xc_cube = np.zeros((ncells, ncells, ncells))
 	n_src   = sources.shape[0]
-	engs   *= mass/E_lya
-	for s in xrange(n_src):
+	for s in range(n_src):
 		i,j,k = sources[s,:3]-np.ones(3)
-		mass  = masses[s]
-		eng_  = engs[(ncells-i):(2*ncells-i),(ncells-j):(2*ncells-j),(ncells-k):(2*ncells-k)]
+		i,j,k = int(i), int(j), int(k)
+		eng_  = masses[s]/E_lya*engs[(ncells-i):(2*ncells-i),(ncells-j):(2*ncells-j),(ncells-k):(2*ncells-k)]
 		xc_cube += eng_
 	stop  = timeit.default_timer()
 	if time_taken: print("%d seconds"%(stop-start))
-- 
2.43.0


From 2f284617277a5e968d55772d446ca9fedf0fc7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 38/83] fix: Lyman-alpha optical depth uses the redshift and
 the requested axis and method

---
 src/tools21cm/lyman_alpha_transmission.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 5b4dedd..67ad341 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -260,7 +260,8 @@ def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
     nH = (X_H*cosmo.Ob0*cosmo.critical_density0/constants.m_p).to('1/cm^3')
-    nHI = xHI*nH
+    nHI = xHI*nH*(1+z)**3
+    dr = dr/(1+z)
     H_xa = approximation_voigt_faddeeva(x_nu, a_nu)
     tau_nu = 1.820e5*H_xa/np.sqrt(Tk4)*nHI.to('1/cm^3').value*dr.to('pc').value
     return tau_nu
@@ -306,6 +307,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
 
     if los_axis!=2:
         xHI = np.swapaxes(xHI,los_axis,2)
+        dn = np.swapaxes(dn,los_axis,2)
     
     if not isinstance(los_len, units.quantity.Quantity):
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
@@ -320,18 +322,22 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         Tk = kwargs.get('Tk')
         dr = kwargs.get('dr')
         nu = kwargs.get('nu', 2.46e15*units.Hz)
-        if los_axis!=2: 
+        if los_axis!=2 and np.ndim(Tk)>0: 
             Tk = np.swapaxes(Tk,los_axis,2)
-        tauA = tau_nu_lyA_Smith2015(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
+        tauA = tau_nu_lyA(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
     elif method.lower()=='fgpa':
         f_alpha = kwargs.get('f_alpha', 0.416)
         lambda_alpha = kwargs.get('lambda_alpha', 1216.0*units.Angstrom)
         k_res = kwargs.get('k_res', 1.0)
         tauA = tau_nu_lyA_FGPA(z, xHI, dn, f_alpha=f_alpha, lambda_alpha=lambda_alpha, k_res=k_res, X_H=X_H, cosmo=cosmo)
+    else:
+        raise ValueError("Unknown method: %s. Use 'FGPA' or 'Smith2015'." % method)
 
-    tauA_padded = np.concatenate((tauA[:,:,-int(los_cells/2):],tauA,tauA[:,:,:int(los_cells/2) if los_cells%2==0 else int(los_cells/2)+1]),axis=2)
+    tauA_padded = np.concatenate((tauA[:,:,tauA.shape[2]-int(los_cells/2):],tauA,tauA[:,:,:int(los_cells/2) if los_cells%2==0 else int(los_cells/2)+1]),axis=2)
     exp_tauA_padded = np.exp(-tauA_padded)
     exp_tauA_los = np.array([exp_tauA_padded[:,:,i:i+los_cells].sum(axis=2).T/los_cells for i in tqdm(range(tauA.shape[2]))])
     tauA_los = -np.log(exp_tauA_los)
     tauA_los = np.swapaxes(tauA_los,0,2)
+    if los_axis!=2:
+        tauA_los = np.swapaxes(tauA_los,los_axis,2)
     return tauA_los
-- 
2.43.0


From 8822606ccabe989985b21f5f3eaff9ebb15d4b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 39/83] fix: correlation functions run on current numpy and
 count pairs by distance

---
 src/tools21cm/corr_function.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 99e59a7..3079fff 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -4,6 +4,7 @@ from scipy.spatial import cKDTree
 from tqdm import tqdm
 from .power_spectrum import power_spectrum_1d, cross_power_spectrum_1d
 from . import conv
+from .scipy_func import trapz
 
 def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	'''
@@ -27,7 +28,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
 	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
-	corr  = np.trapz(integ, knew, axis=1) 
+	corr  = trapz(integ, knew, axis=1) 
 
 	return corr*4*np.pi, rbins
 
@@ -141,6 +142,9 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 			rbins = np.logspace(np.log10(rmin), np.log10(rmax), rbins)
 		else:
 			rbins = np.linspace(rmin, rmax, rbins)
+	else:
+		rbins = np.asarray(rbins)
+		rmax = rbins.max()
 
 	rbin_centers = (rbins[:-1] + rbins[1:]) / 2  # Midpoints of the bins
 
@@ -150,11 +154,15 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 	data_tree = cKDTree(data)
 	random_tree = cKDTree(randoms)
 
+	def pair_distances(tree):
+		pairs = tree.query_pairs(rmax, output_type='ndarray')
+		return np.linalg.norm(tree.data[pairs[:,0]]-tree.data[pairs[:,1]], axis=1)
+
 	# Count DD pairs (data-data)
-	DD, _ = np.histogram(data_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	DD, _ = np.histogram(pair_distances(data_tree), bins=rbins)
 
 	# Count RR pairs (random-random)
-	RR, _ = np.histogram(random_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	RR, _ = np.histogram(pair_distances(random_tree), bins=rbins)
 
 	# Count DR pairs (data-random)
 	DR = np.zeros(len(rbins)-1)
-- 
2.43.0


From b74d979053b3d088b2b21029086116bb85fac270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 40/83] fix: HI line intensity accepts positions with units

---
 src/tools21cm/line_intensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/line_intensity.py b/src/tools21cm/line_intensity.py
index 0960084..dd3e648 100755
--- a/src/tools21cm/line_intensity.py
+++ b/src/tools21cm/line_intensity.py
@@ -49,7 +49,7 @@ def M_HI_on_grid(z, mass, pos_xyz, box_dim, n_grid, cosmo=None,
     else:
         print('The provided halo mass is assumed to be in Msun units.')
         mhalo = mass*units.Msun
-    if isinstance(mass, units.quantity.Quantity):
+    if isinstance(pos_xyz, units.quantity.Quantity):
         srcpos = pos_xyz.to('Mpc')
     else:
         print('The provided halo mass is assumed to be in Mpc units.')
-- 
2.43.0


From 10eb166cb0bd9fb8b291acf432ecf1e4c32be52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 41/83] fix: fast power spectra bin k and mu consistently and
 refuse unknown binning

---
 src/tools21cm/power_spect_fast.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/tools21cm/power_spect_fast.py b/src/tools21cm/power_spect_fast.py
index 9f6da84..1e19eb9 100755
--- a/src/tools21cm/power_spect_fast.py
+++ b/src/tools21cm/power_spect_fast.py
@@ -68,15 +68,8 @@ def phase_spect_nd(input_array, box_dims, verbose=True):
 	ft = np.fft.fftshift(np.fft.fftn(input_array.astype('float64')))
 	phase_spectrum = np.arctan(np.imag(ft)/np.real(ft)) #np.abs(ft)**2
 	if verbose: print( '...done')
-
-	# scale
-	#print(box_dims)
-	boxvol = np.product(box_dims)
-	#print(boxvol)
-	pixelsize = boxvol/(np.product(input_array.shape))
-	power_spectrum *= pixelsize**2/boxvol
 	
-	return power_spectrum
+	return phase_spectrum
 
 def _get_k(input_array, box_dims):
 	'''
@@ -124,6 +117,7 @@ def power_spect_1d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 		n_bin  = 1.*k.size/kbins
 		k_sort = np.sort(k.flatten())
 		ks = np.array([k_sort[int(i)] for i in np.arange(n_bin/2., k.size, n_bin)])
+	else: raise ValueError("Unknown binning %s: use 'log', 'linear' or 'auto'." % binning)
 	if binning!='auto': ks = (ks[:-1]+ks[1:])/2.
 	kkk = np.hstack((k.min(),(ks[1:]+ks[:-1])/2, k.max()))
 	k_width = kkk[1:]-kkk[:-1]
@@ -207,6 +201,7 @@ def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 	elif binning=='linear':
 		kper = np.linspace(np.abs(kp[kp!=0]).min(), kp.max(), kbins[0]+1)
 		kpar = np.linspace(np.abs(kz[kz!=0]).min(), kz.max(), kbins[1]+1)
+	else: raise ValueError("Unknown binning %s: use 'log' or 'linear'." % binning)
 	k_width = kper[1]-kper[0], kpar[1]-kpar[0]
 	# print(10**kper,10**kpar)
 	kper = (kper[:-1]+kper[1:])/2.
@@ -271,7 +266,7 @@ def power_spect_mu(input_array, kbins=10, box_dims=244/.7, return_modes=False, m
 	k, m, power = k.flatten(), m.flatten(), power.flatten()
 	for i,a in enumerate(ks):
 		for j,b in enumerate(mu):
-			arg = np.intersect1d(np.argwhere(np.abs(k-a)<=k_width/2.), np.argwhere(np.abs(m[np.isfinite(m)]-b)<=m_width/2.))
+			arg = np.intersect1d(np.argwhere(np.abs(k-a)<=k_width/2.), np.argwhere(np.abs(m-b)<=m_width/2.))
 			ps[i,j] = power[arg].sum()
 			n_modes[i,j] = arg.size
 
@@ -305,7 +300,6 @@ def plot_2d_power(ps, xlabel='$k_\perp$', ylabel='$k_\parallel$', ps_label='$P(k
 
 	try: pp, kper, kpar = (ps[ke] for ke in ['Pk','kper','kpar'])
 	except: pp, kper, kpar = ps
-	fp = interpolate.interp2d(kper, kpar, pp.T, kind='linear')
 
 	if (fig == None) and (ax == None): 
 		fig, ax = plt.subplots(1,1,figsize=(7,5))
@@ -317,7 +311,7 @@ def plot_2d_power(ps, xlabel='$k_\perp$', ylabel='$k_\parallel$', ps_label='$P(k
 	#X, Y = kper[:-1]/2+kper[1:]/2, kpar[:-1]/2+kpar[1:]/2
 	X, Y = kper, kpar
 
-	C = fp(X,Y)
+	C = np.array(pp).T
 	norm = colors.LogNorm(vmin=C[np.isfinite(C)].min(), vmax=C[np.isfinite(C)].max()) if plotting_scale['z']=='log' else None 
 	pcm = ax.pcolormesh(X, Y, C, norm=norm, **kwargs)
 	if draw_wedge is not None:
-- 
2.43.0


From 2909099c9b84651f240a7294af9dc34d18c679f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 42/83] fix: halo readers accept a maximum halo mass of zero

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 332461f..7a75cf7 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -210,7 +210,7 @@ class HaloCubeP3MFull:
 		tstart = time()
 		
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
@@ -505,7 +505,7 @@ class HaloList:
 		#Read the file line by line, since it's large
 		linenumber = 1
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-- 
2.43.0


From df977653a6b34681594727c72bf242a60d40a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 43/83] fix: box counting uses three-dimensional ball kernels
 of integer size

---
 src/tools21cm/box_counting.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/box_counting.py b/src/tools21cm/box_counting.py
index 8ecb740..4749ad7 100755
--- a/src/tools21cm/box_counting.py
+++ b/src/tools21cm/box_counting.py
@@ -15,16 +15,17 @@ def get_kernel(size, window):
 		kern = np.zeros((size, size, size))
 		if size % 2 == 0:
 			size = int(size/2)
-			x,y = np.mgrid[-size:size, -size:size]
+			x,y,z = np.mgrid[-size:size, -size:size, -size:size]
 		else:
 			size = int(size/2)
-			x,y = np.mgrid[-size:size+1, -size:size+1]
-		kern[x**2+y**2<=size**2] = 1
+			x,y,z = np.mgrid[-size:size+1, -size:size+1, -size:size+1]
+		kern[x**2+y**2+z**2<=size**2] = 1
+	else: raise ValueError("Unknown window %s: use 'ball' or 'cube'." % window)
 	return kern/kern.sum()
 
 def Renyi_diemsnions(data, q):
 	rmin, rmax = 2, min(data.shape)/4
-	rr  = np.round(np.exp(np.linspace(np.log(rmin), np.log(rmax), 10)))
+	rr  = np.unique(np.round(np.exp(np.linspace(np.log(rmin), np.log(rmax), 10))).astype(int))
 	Z_r = np.array([box_count_sliding(data, size, q) for size in rr])
 	dd  = np.log(Z_r)/np.log(rr)
 	fdd = interpolate.interp1d(rr, dd, fill_value='extrapolate', kind='cubic')
-- 
2.43.0


From d89a8f5783d140c482bb94ad4059017d18ecb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 44/83] fix: horizon wedge uses the Hubble parameter of the
 cosmology module

---
 src/tools21cm/power_spect_fast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spect_fast.py b/src/tools21cm/power_spect_fast.py
index 1e19eb9..314fd5a 100755
--- a/src/tools21cm/power_spect_fast.py
+++ b/src/tools21cm/power_spect_fast.py
@@ -339,7 +339,7 @@ def horizon_wedge_equation(z, fov_deg=90.0):
 		A lambda function k_parallel(k_perpendicular).
 	'''
 	f_kpar = lambda kper: kper*np.sin(fov_deg*np.pi/180)/(1+z)*\
-							smoothing.hubble_parameter(z)/const.c*cosmo.z_to_cdist(z)
+							cosmo.hubble_parameter(z)/const.c*cosmo.z_to_cdist(z)
 	return f_kpar
 
 # def plot_2d_power(ps, xticks, yticks, xlabel, ylabel):
-- 
2.43.0


From 3cac3869ba56dcfaf771148b3cdbb2f6b7a10104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 45/83] fix: power spectrum multipoles run and count their
 modes

---
 src/tools21cm/power_legendre.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_legendre.py b/src/tools21cm/power_legendre.py
index d3fc984..d78ad4f 100755
--- a/src/tools21cm/power_legendre.py
+++ b/src/tools21cm/power_legendre.py
@@ -44,13 +44,13 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     k_comp, k = _get_k(input_array, box_dims)
     kbins = _get_kbins(kbins, box_dims, k)
     dk = (kbins[1:]-kbins[:-1])/2.
-    mu = _get_mu(k_comp, k, los_axis)
+    mu = _get_mu(k_comp, k, los_axis, absolute_mus=True)
     
     #Exclude k_perp = 0 modes
     if exclude_zero_modes:
         good_idx = _get_nonzero_idx(ps.shape, los_axis)
     else:
-        good_idx = np.ones_like(ps)
+        good_idx = np.ones(ps.shape, dtype=bool)
 
     #Legendre polynomials
     if 'P0' in output:
@@ -77,7 +77,7 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
         kmax = kbins[i+1]
         idx = get_eval()('(k >= kmin) & (k < kmax)')
         idx *= good_idx
-        nmodes[i] = len(np.nonzero(idx))
+        nmodes[i] = np.count_nonzero(idx)
         if 'P0' in output:
             multipoles['P0'][i] = np.sum(ps[idx]*P0[idx])/np.sum(P0[idx]**2)
         if 'P2' in output:
-- 
2.43.0


From 015871af579b621b27dd36b357278c65080c054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 46/83] fix: granulometry refuses fields that are neither 2D
 nor 3D

---
 src/tools21cm/bubble_stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index c84f067..6486eaf 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -508,8 +508,10 @@ def _granulometry(data, n_jobs=1, verbose=True):
     def func(n):
         if dim == 2:
             opened_data = morph.binary_opening(data,structure=disk(n))
-        if dim == 3:
+        elif dim == 3:
             opened_data = morph.binary_opening(data,structure=ball(n))
+        else:
+            raise ValueError('Granulometry needs a 2D or 3D field, not %dD' % dim)
         return float(opened_data.sum())
 
     if n_jobs>1:
-- 
2.43.0


From 4ca34040c93d2a48b9816386a361aa6ad66987a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 47/83] fix: SegU-Net row selection refuses arrays it cannot
 handle

---
 src/tools21cm/segmentation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/segmentation.py b/src/tools21cm/segmentation.py
index 092472f..2d2c12b 100755
--- a/src/tools21cm/segmentation.py
+++ b/src/tools21cm/segmentation.py
@@ -131,6 +131,8 @@ class segunet21cm:
             new_arr = unique_arr.view(arr.dtype).reshape((unique_arr.shape[0], arr.shape[1]))
         elif arr.ndim == 1:
             new_arr = np.array(list(dict.fromkeys(arr)))
+        else:
+            raise ValueError('UniqueRows needs a 1D or 2D array')
 
         return new_arr
 
-- 
2.43.0


From 2694d38a9344c3c7e307b53800a7ae520d0e9393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 48/83] fix: refuse unknown binning, normalisation, stitching
 and plotting back-ends

---
 src/tools21cm/bubble_stats.py  | 3 ++-
 src/tools21cm/corr_function.py | 4 ++++
 src/tools21cm/plotting.py      | 4 ++++
 src/tools21cm/spa_np.py        | 3 ++-
 src/tools21cm/superpixels.py   | 7 ++++---
 5 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 6486eaf..7c35996 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -403,7 +403,8 @@ def plot_fof_sizes(sizes, bins=100, boxsize=None, normalize='box'):
 	yy = ht[0]*xx[:-1]
 	if boxsize is None: boxsize = conv.LB
 	if normalize=='ionized': zz = yy/np.sum(yy)
-	else: zz = yy/boxsize**3
+	elif normalize=='box': zz = yy/boxsize**3
+	else: raise ValueError("Unknown normalisation %s: use 'box' or 'ionized'." % normalize)
 	dummy = zz[zz!=0].min()/10.
 	zz[zz==0] = dummy
 	zz = np.hstack((zz,dummy))
diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 3079fff..b37d05d 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -12,6 +12,8 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	the correlation function using the following equation:
 	.. math:: \\xi(r) = \\int 4\\pi k^2 P(k) \\mathrm{sinc}(kr)dk
 	'''
+	if binning not in ['log', 'linear']:
+		raise ValueError("Unknown binning %s: use 'log' or 'linear'." % binning)
 	if isinstance(rbins, (int)): 
 		rbins = 10**np.linspace(np.log10(2*box_dims/n_grid), np.log10(box_dims/2), rbins) if binning=='log' \
 					else np.linspace(2*box_dims/n_grid, box_dims/2, rbins)
@@ -131,6 +133,8 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 		randoms = np.random.uniform(data.min(), data.max(), data.shape)
 		
 	# Determine the radial bins
+	if binning not in ['log', 'linear']:
+		raise ValueError("Unknown binning %s: use 'log' or 'linear'." % binning)
 	if isinstance(rbins, int):
 		rmin = kwargs.get('rmin')
 		rmax = kwargs.get('rmax')
diff --git a/src/tools21cm/plotting.py b/src/tools21cm/plotting.py
index efabc66..14f8647 100755
--- a/src/tools21cm/plotting.py
+++ b/src/tools21cm/plotting.py
@@ -261,6 +261,9 @@ def plot_triangle(samples_dict, weights_dict=None,
         extents = truth_dict = {p: v for p, v in zip(param_names, param_range)}
         c.set_plot_config(PlotConfig(bins=bins, extents=extents, smooth=smooth))
         return c.plotter.plot(**kwargs)
+
+    else:
+        raise ValueError(f"Unknown backend {backend}: use 'corner', 'getdist' or 'chainconsumer'.")
         
 class DistributionDiagnostic(ABC):
     """
@@ -389,6 +392,7 @@ class DistributionDiagnostic(ABC):
             return self._plot_corner_backend(levels=levels, **kwargs)
         elif self.backend == 'getdist':
             return self._plot_getdist_backend(levels=levels, **kwargs)
+        raise ValueError(f"Unknown backend {self.backend}: use 'corner' or 'getdist'.")
 
     def _plot_corner_backend(self, levels=None, **kwargs):
         if corner is None: raise ImportError("Please install 'corner'.")
diff --git a/src/tools21cm/spa_np.py b/src/tools21cm/spa_np.py
index dddbaeb..61c607c 100755
--- a/src/tools21cm/spa_np.py
+++ b/src/tools21cm/spa_np.py
@@ -10,7 +10,8 @@ def spa_np(data, xth=0.95, nscales=30, binning='log', verbose=True, use_fftconvo
 	"""
 	Rmx = data.shape[0]
 	if binning=='linear': Rs_ = np.linspace(1,Rmx/2.,nscales)
-	else: Rs_ = np.exp(np.linspace(np.log(2.),np.log(Rmx/2.),nscales))
+	elif binning=='log': Rs_ = np.exp(np.linspace(np.log(2.),np.log(Rmx/2.),nscales))
+	else: raise ValueError("Unknown binning %s: use 'log' or 'linear'." % binning)
 	ins = np.zeros(nscales)
 	#nns = np.zeros(nscales)
 	rad = np.zeros(data.shape)
diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index e44c17e..0597d45 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -34,11 +34,12 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 	X1 = data.reshape(-1,1)
 	y  = labels.reshape(-1,1)
 	y1 = [X1[y==i].mean() for i in np.unique(y)]
-	if not thres:
+	if thres is None:
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
-		else: thres = X1.mean()
+		elif stitch=='mean': thres = X1.mean()
+		else: raise ValueError("Unknown stitch %s: use 'mean' or 'otsu'." % stitch)
 	y2 = np.zeros(y.shape)
-	for i in np.unique(y): y2[y==i] = y1[i]
+	for j, i in enumerate(np.unique(y)): y2[y==i] = y1[j]
 	y2 = y2 < thres
 	return y2.reshape(data.shape)
 
-- 
2.43.0


From 4e02c89ac2cfd02afcddaf51e28bc073dbf8543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 49/83] fix: 21cmFAST reader closes its file when reading fails

---
 src/tools21cm/read_files.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index ed7031b..e9471e3 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -14,9 +14,8 @@ def _load_binary_data(filename, dtype=np.float32):
 	We assume that the data was written 
 	with write_binary_data() (little endian). 
 	""" 
-	f = open(filename, "rb") 
-	data = f.read() 
-	f.close() 
+	with open(filename, "rb") as f:
+		data = f.read() 
 	_data = np.frombuffer(data, dtype).copy() 
 	if sys.byteorder == 'big':
 		_data = _data.byteswap()
-- 
2.43.0


From a16334da7704d3d8ea1d3857f2336bda72edb12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 50/83] fix: radial averages of integer arrays no longer fail

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index ac31710..492a838 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -130,7 +130,7 @@ def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.
                                                 weights = input_array.flatten())[0]
         #Number of modes in each bin
         n_modes = np.histogram(k.flatten(), bins=kbins)[0].astype('float')
-        outdata /= n_modes
+        outdata = outdata/n_modes
         
         return outdata, kbins[:-1]+dk, n_modes
         
-- 
2.43.0


From b72e42b34bcd1b37ac97fc7e3ae24448f20b4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 51/83] fix: interpolation of integer arrays no longer
 truncates the values

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index a8b5675..46fab02 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -298,7 +298,7 @@ def interpolate3d(input_array, x, y, z, order=0):
         inds[1,:,:] = y[np.newaxis,:,np.newaxis]
         inds[2,:,:] = z[np.newaxis,np.newaxis,:]
         new_array = ndimage.map_coordinates(input_array, inds, mode='wrap', \
-                                                                        order=order)
+                                                                        order=order, output=np.result_type(input_array, np.float32))
         
         return new_array
 
@@ -326,7 +326,7 @@ def interpolate2d(input_array, x, y, order=0):
         inds[0,:] = x[:,np.newaxis]
         inds[1,:] = y[np.newaxis,:]
         new_array = ndimage.map_coordinates(input_array, inds, mode='wrap', \
-                                                                        order=order, prefilter=True)
+                                                                        order=order, prefilter=True, output=np.result_type(input_array, np.float32))
         
         return new_array
 
-- 
2.43.0


From 7534f199db0502ec8c7a1e917477fa0003acf4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 52/83] fix: particle-based velocity distortion of integer
 boxes no longer truncates the signal

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index a2c01a9..04a3c44 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -83,7 +83,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     dr = (1.+z_obs)*vpar/const.Hz(z_obs)
 
     #Make the distorted box
-    distbox = np.zeros_like(dT)
+    distbox = np.zeros(dT.shape, dtype=np.result_type(dT, np.float32))
     particle_dT = np.zeros(grid_depth*num_particles)
 
     last_percent = 0
-- 
2.43.0


From bdd7b6e026c4ed9c96deefd908c39470cf361955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 53/83] fix: suppression of sharp uv features keeps real values
 for integer baseline counts

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index c64b033..dc9c35c 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -423,7 +423,7 @@ def _suppress_sharp_features_uv_map(uv_map, boxsize=None, method='gaussian', fil
 	if method is True:
 		method = 'gaussian'
 	if method.lower()=='gaussian':
-		uv_map_smooth = np.sqrt(gaussian_filter(uv_map, filter_param))
+		uv_map_smooth = np.sqrt(gaussian_filter(uv_map, filter_param, output=np.result_type(uv_map, np.float32)))
 		uv_map_smooth *= uv_map.max()/uv_map_smooth.max()
 	elif method.lower() in ['binned', 'bin']:
 		assert boxsize is not None
-- 
2.43.0


From 76c0149096b06529834b2aec6cfb803e185529b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 54/83] fix: genus inverted a boolean field, which numpy
 rejects, and used a removed scipy namespace

---
 src/tools21cm/topology.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/topology.py b/src/tools21cm/topology.py
index 3985e78..2e6fd44 100755
--- a/src/tools21cm/topology.py
+++ b/src/tools21cm/topology.py
@@ -1,5 +1,6 @@
 import numpy as np
-import sys, scipy, os
+import sys, os
+import scipy.ndimage
 from time import time
 from sklearn.neighbors import BallTree, KDTree
 from sklearn.neighbors import NearestNeighbors
@@ -157,7 +158,7 @@ def genus(data, xth=0.5):
 	-------
 	Genus
 	"""
-	data = data>=xth
+	data = (data>=xth).astype(int)
 	stela = np.zeros((3,3,3))
 	stela[:2,:2,:2] = 1
 	ma    = count_neighbors(data, stela)+count_neighbors(1-data, stela)
@@ -199,8 +200,8 @@ def count_neighbors(data, stela):
 
 def count_neighbors_once(data, stela):
 	stel26 = np.ones((3,3,3))
-	neb26  = scipy.ndimage.filters.convolve(data, stel26, mode='wrap')*data
-	neba   = scipy.ndimage.filters.convolve(data, stela, mode='wrap')*data
+	neb26  = scipy.ndimage.convolve(data, stel26, mode='wrap')*data
+	neba   = scipy.ndimage.convolve(data, stela, mode='wrap')*data
 	elem, numb = np.unique(neba[neba==neb26], return_counts=1)
 	return 0 if numb[elem==stela.sum()].size==0 else numb[elem==stela.sum()][0]
 
-- 
2.43.0


From f188b9a81a2cfbb1ddc8c580731c74ccbd4248c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 55/83] fix: numpy redshift scalars are accepted like Python
 numbers in physical_lightcone_to_observational

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 79a088d..3d904d8 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -64,7 +64,7 @@ def physical_lightcone_to_observational(physical_lightcone, input_z_low, output_
     if input_box_size_mpc == None:
         input_box_size_mpc = conv.LB
 
-    if isinstance(input_z_low,(float,int)):
+    if np.ndim(input_z_low)==0:
         cell_size = input_box_size_mpc/physical_lightcone.shape[0]
         distances = cm.z_to_cdist(input_z_low) + np.arange(physical_lightcone.shape[2])*cell_size
         input_z_high = cm.cdist_to_z(distances).max()
-- 
2.43.0


From 584574b2c1990555e3001e07945fc86c4c655fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 56/83] fix: superpixel boundaries stay visible on integer
 slices

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 0597d45..da80700 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -46,7 +46,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 def boundaries(sl, lab, mark=True, factor=1.01):
 	assert sl.ndim == 2 and lab.ndim == 2
 	bd  = mark_boundaries(np.zeros(sl.shape), lab)
-	out = sl.copy()
+	out = sl.astype(np.result_type(sl, np.float32))
 	if mark: out[bd[:,:,0]==1] = sl.max()*factor
 	else: out[0,0] = sl.max()*factor
 	return out
-- 
2.43.0


From 8ea50195001fe96d209437b3c8d8c9cf1ee263ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 57/83] fix: step-weighted lightcone slices no longer take the
 element type of the higher-redshift snapshot

---
 src/tools21cm/lightcone.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index f174d31..7949459 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -481,8 +481,7 @@ def _get_step_weighted_slice(slice_low, slice_high, z_bracket_high, z_bracket_lo
     step_transitions = _get_step_transitions(smoothed, diff>1.e-3)
     step_transitions = z_bracket_low + step_transitions*(z_bracket_high-z_bracket_low)
     
-    interp_slice = slice_high.copy()
-    interp_slice[z < step_transitions] = slice_low[z < step_transitions]
+    interp_slice = np.where(z < step_transitions, slice_low, slice_high)
     return interp_slice
 
 
-- 
2.43.0


From 987cc1d40d5e799392cc3b18c60f75b1be7f0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 58/83] fix: mean free paths of fields without any region no
 longer fail for thresholds above one

---
 src/tools21cm/bubble_stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 7c35996..0ae0318 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -133,7 +133,7 @@ def mfp(data, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_li
 	if verbose:
 		print(f'{check_box}/{data.size} cells are marked as region of interest (ROI).')
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth)
 		iterations = 3
 	if dim == 2:
 		if verbose: print("MFP method applied on 2D data.")
@@ -206,7 +206,7 @@ def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_poin
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth)
 		iterations = 3
 	if dim == 3:
 		ar = np.zeros_like(data)
@@ -294,7 +294,7 @@ def mfp_from_point(data, point, xth=0.5, boxsize=None, iterations=10000000, verb
 		xth  = -1.*xth
 	check_box = (data>=xth).sum()
 	if check_box==0:
-		data = np.ones(data.shape)
+		data = np.full(data.shape, xth)
 		iterations = 3
 	if dim == 2:
 		print("MFP method applied on 2D data")
-- 
2.43.0


From 6035498b84a0a13c468bfe64a7149cc78df3054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 59/83] fix: get_distribution scales volumes with the cell
 volume

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 0ae0318..89884a0 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -391,7 +391,7 @@ def get_distribution(array, resolution=1., bins=100, sizes=False):
 			print(label,)
 	ht   = np.histogram(np.log(sizes), bins=bins)
 	vols, dist = np.zeros(len(ht[0])+1), np.zeros(len(ht[0])+1)
-	vols      = np.exp(ht[1])*resolution
+	vols      = np.exp(ht[1])*resolution**3
 	dist[:-1] = ht[0]
 
 	return sizes, dist/np.sum(dist), vols
-- 
2.43.0


From 2f78902ff9bd11fc59048370b80006a9c6a71282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 60/83] fix: superpixel labels need not be numbered from zero
 without gaps

---
 src/tools21cm/superpixels.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index da80700..ffaf60b 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -123,13 +123,13 @@ def apply_operator_labelled_data(data, labels, operator=np.mean, verbose=True):
 	idx_low = 0
 	if verbose:
 		time.sleep(1)
-		for i in tqdm(elems, disable=False if verbose else True):
-			idx_high = idx_low + num[i]
+		for n in tqdm(num, disable=False if verbose else True):
+			idx_high = idx_low + n
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
 	else:
-		for i in elems:
-			idx_high = idx_low + num[i]
+		for n in num:
+			idx_high = idx_low + n
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
 	return out
@@ -223,9 +223,9 @@ def superpixel_map(data, labels, mns=None, verbose=True):
 	if verbose:
 		print('Constructing the superpixel map...')
 		time.sleep(1)
-		for i in tqdm(range(mns.size)): sp_map[labels==i] = mns[i]
-	else:
-		for i in range(mns.size): sp_map[labels==i] = mns[i]
+	elems = np.unique(labels)
+	if elems.size != mns.size: elems = np.arange(mns.size)
+	for i in tqdm(range(mns.size), disable=not verbose): sp_map[labels==elems[i]] = mns[i]
 	return sp_map
 
 
-- 
2.43.0


From 2dd92e8f5904ded3b22e2c527c1bdd76913c174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 61/83] fix: shifts larger than the box wrap instead of losing
 signal

---
 src/tools21cm/pv_mpm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 04a3c44..8b7ae7f 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -112,8 +112,8 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
 
             #Periodic boundary conditions
             if periodic:
-                particle_pos[np.where(particle_pos < 0)] += box_depth
-                particle_pos[np.where(particle_pos > box_depth)] -= box_depth
+                outside = (particle_pos < 0) | (particle_pos > box_depth)
+                particle_pos[outside] %= box_depth
 
             #Regrid particles to original resolution
             dist_skewer = np.histogram(particle_pos, \
-- 
2.43.0


From b1670e6bcc1301727144cb80db425548fa03c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 62/83] fix: velocity distortion checks the two dimensions that
 have to be equal

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 8b7ae7f..cc15b47 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -56,7 +56,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     '''
     #Volume dimensions
     mx,my,mz = dT.shape
-    assert(mx == my or my == mz or mx == mz) #TODO: this should not be a requirement 
+    assert(dT.shape[(los_axis+1)%3] == dT.shape[(los_axis+2)%3]) #TODO: this should not be a requirement 
     grid_depth = dT.shape[los_axis]
     grid_width = dT.shape[(los_axis+1)%3]
     box_depth = grid_depth * (conv.LB/float(grid_width))
-- 
2.43.0


From 8c4ab0a4ae5b272618a1106a07b84d30dcaa5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 63/83] fix: tau_map accepts slices in any redshift order, like
 tau

---
 src/tools21cm/tau.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/tau.py b/src/tools21cm/tau.py
index 4b4e835..78d05b4 100755
--- a/src/tools21cm/tau.py
+++ b/src/tools21cm/tau.py
@@ -110,7 +110,8 @@ def tau_map(ionfractions, redshifts=None, num_points=50, reading_function=None):
         redshifts = np.sort(np.array(list(ionfractions.keys())))
 
     if isinstance(ionfractions, np.ndarray):
-        lightcone, output_z = ionfractions, redshifts
+        order = np.argsort(redshifts)
+        lightcone, output_z = ionfractions[:, :, order], np.asarray(redshifts)[order]
     else:
         lightcone, output_z = make_lightcone(ionfractions, file_redshifts=redshifts, reading_function=reading_function)
 
-- 
2.43.0


From 29caa2706440a7f1b1234564345c5e8d30983def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 64/83] fix: three-dimensional rays longer than the box side
 are counted

---
 src/tools21cm/mfp_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 99272dd..c9ef537 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -7,7 +7,7 @@ from tqdm import tqdm
 def _ray3d(ar, xs, ys, zs, ls, ms, ns, verbose):
 
     info = ar.shape
-    longest = max(info)
+    longest = int(np.sqrt(3) * max(info))
     num_sz  = np.zeros(longest)
 
     # Ensure coordinates are of type float64 for compatibility with interpolation
-- 
2.43.0


From d0eb66a19d1cbdaed1a819d1e62b29ccb1607d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 65/83] fix: scalar system temperature and aperture efficiency
 are accepted together in get_SEFD

---
 src/tools21cm/radio_telescope_sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_sensitivity.py b/src/tools21cm/radio_telescope_sensitivity.py
index ab00297..307fcda 100755
--- a/src/tools21cm/radio_telescope_sensitivity.py
+++ b/src/tools21cm/radio_telescope_sensitivity.py
@@ -90,7 +90,7 @@ def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep
 	A_eff = ep_aperture_val * np.pi * ant_radius_ska ** 2  # m^2
 
 	# SEFD in Jy
-	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt  # Jy
+	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt * np.ones(nu_obs.shape)  # Jy
 
 	# Return a scalar if input was scalar
 	return sefd[0] if nu_obs.size == 1 else sefd
-- 
2.43.0


From a5a7ef648b564f1d04ec9a6bf78f81c22fa95a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 66/83] fix: uv maps with an odd number of cells have their
 zero baseline at the first cell

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index 7fd12ee..2d9cc30 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -265,7 +265,7 @@ def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=Fals
         # uv_map += np.flip(np.flip(uv_map, axis=0), axis=1)  # Flip along both axes for mirror effect
         uv_map = uv_map/2.  # Average with mirrored baselines
     
-    return np.fft.fftshift(uv_map)
+    return np.fft.ifftshift(uv_map)
 
 def geographic_to_cartesian_coordinate_system(antll):
     """
-- 
2.43.0


From c8ad3fefe7f2115c27b23260e7c57d467f18a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 67/83] fix: window of the noise maps is centred on the zero
 baseline for odd grids

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index dc9c35c..2ca6213 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -394,7 +394,7 @@ def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=
 	noise_four = apply_uv_response_noise(noise_arr, uv_map, boxsize=boxsize, uv_weighting=uv_weighting, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
 	# noise_four = apply_uv_response_noise_briggs(noise_arr, uv_map, robust=2.0, epsilon=1e-6)
 	win_2d = signal_window(ncells, 'blackmanharris', ndim=2)
-	noise_four = noise_four*np.fft.fftshift(win_2d)
+	noise_four = noise_four*np.fft.ifftshift(win_2d)
 	if fft_wrap: noise_map  = ifft2_wrap(noise_four)*np.sqrt(int_time/3600./obs_time)
 	else: noise_map  = np.fft.ifft2(noise_four)*np.sqrt(int_time/3600./obs_time)
 	return np.real(noise_map)
-- 
2.43.0


From 8e48eed49444d1a5c2ce9cc7ebea66e61229e7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 68/83] fix: noise power spectrum falls with the observing time

---
 src/tools21cm/radio_telescope_noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 2ca6213..1f44bff 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -168,6 +168,7 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 	else:
 		raise ValueError(f'{uv_weighting} scheme is not known or implemented')
 
+	out = out*np.sqrt(int_time/3600./obs_time)
 	power = np.fft.fftshift(out**2)
 	# scale
 	boxvol = numpy_product(box_dims)
-- 
2.43.0


From ebcda73b8d5a616c646d27d5c5091b138e583da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 69/83] fix: uv response of boxes with another number of slices
 uses the grid of the sky plane

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 1f44bff..ea7f5b6 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -676,13 +676,13 @@ def apply_uv_response_on_coeval(array, z, subarray_type="AA4", boxsize=None, tot
 	np.ndarray
 		The observed 3D data cube after applying the UV mask to each slice.
 	"""
-	ncells = array.shape[-1]
+	ncells = array.shape[0]
 	if boxsize is None: boxsize = conv.LB
 	if uv_map is None: 
 		uv_map, N_ant  = get_uv_map(ncells, z, subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
 	data3d = np.zeros(array.shape)
 	print("Applying the uv tracks to the the coeval signal cube...")
-	for k in tqdm(range(ncells)):
+	for k in tqdm(range(array.shape[-1])):
 		data2d = apply_uv_response_on_image(array[:,:,k], uv_map=uv_map)
 		data3d[:,:,k] = data2d
 	return data3d
-- 
2.43.0


From 440b46a46219386e96b2e6f776dc4afe2076ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 70/83] fix: noise power spectrum with uniform weighting no
 longer fails

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index ea7f5b6..c219786 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -164,7 +164,7 @@ def noise_coeval_power_spectrum_1d(ncells, z, depth_mhz, obs_time=1000, subarray
 	if uv_weighting.lower() in ['nat', 'natural', 'natural_weighting']:
 		out = rms_noi/np.sqrt(uv_map)
 	elif uv_weighting.lower() in ['uni', 'uniform', 'uniform_weighting']:
-		out = rms_noi
+		out = rms_noi*np.ones(uv_map.shape)
 	else:
 		raise ValueError(f'{uv_weighting} scheme is not known or implemented')
 
-- 
2.43.0


From f2a5c0128c5e0ce07465507c3e86eb4ee9f6a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 71/83] fix: correlation functions use the current box when no
 box size is given

---
 src/tools21cm/corr_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index b37d05d..d628ebe 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -15,6 +15,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	if binning not in ['log', 'linear']:
 		raise ValueError("Unknown binning %s: use 'log' or 'linear'." % binning)
 	if isinstance(rbins, (int)): 
+		if box_dims is None: box_dims = conv.LB
 		rbins = 10**np.linspace(np.log10(2*box_dims/n_grid), np.log10(box_dims/2), rbins) if binning=='log' \
 					else np.linspace(2*box_dims/n_grid, box_dims/2, rbins)
 
-- 
2.43.0


From aa403d35ad3341fe143364e112e4c22436e89667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 72/83] fix: correlation functions use sin(kr)/kr, numpy.sinc
 has another normalisation

---
 src/tools21cm/corr_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index d628ebe..0380c6b 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -30,7 +30,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	# pnew = ps_fun(knew)
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
-	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
+	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None]/np.pi)
 	corr  = trapz(integ, knew, axis=1) 
 
 	return corr*4*np.pi, rbins
-- 
2.43.0


From 80aead1502d13fd79775b7963f0ae627508ad50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 73/83] fix: frequency binning averages the slices around each
 frequency, not the ones before it

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 3d904d8..4f20e79 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -290,7 +290,7 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
     hf.print_msg('Smooth along LoS with scale %f' % smooth_scale)
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d)
+    lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
     
     for i in range(output_lightcone.shape[2]):
         nu = output_frequencies[i]
-- 
2.43.0


From 8f72f6181453b74f5add6ac58b14bf0fbbc9ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 74/83] fix: power_spect_fast puts k=0 on the zero mode and
 counts each mode in the bin that contains it

---
 src/tools21cm/power_spect_fast.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/power_spect_fast.py b/src/tools21cm/power_spect_fast.py
index 314fd5a..16de329 100755
--- a/src/tools21cm/power_spect_fast.py
+++ b/src/tools21cm/power_spect_fast.py
@@ -81,20 +81,19 @@ def _get_k(input_array, box_dims):
 	dim = len(input_array.shape)
 	if dim == 1:
 		x = np.arange(len(input_array))
-		center = x.max()/2.
+		center = len(input_array)//2
 		kx = 2.*np.pi*(x-center)/box_dims[0]
 		return [kx], kx
 	elif dim == 2:
 		x,y = np.indices(input_array.shape, dtype='int32')
-		center = np.array([(x.max()-x.min())/2, (y.max()-y.min())/2])
+		center = np.array(input_array.shape)//2
 		kx = 2.*np.pi * (x-center[0])/box_dims[0]
 		ky = 2.*np.pi * (y-center[1])/box_dims[1]
 		k = np.sqrt(kx**2 + ky**2)
 		return [kx, ky], k
 	elif dim == 3:
 		x,y,z = np.indices(input_array.shape, dtype='int32')
-		center = np.array([(x.max()-x.min())/2, (y.max()-y.min())/2, \
-						(z.max()-z.min())/2])
+		center = np.array(input_array.shape)//2
 		kx = 2.*np.pi * (x-center[0])/box_dims[0]
 		ky = 2.*np.pi * (y-center[1])/box_dims[1]
 		kz = 2.*np.pi * (z-center[2])/box_dims[2]
@@ -118,14 +117,13 @@ def power_spect_1d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 		k_sort = np.sort(k.flatten())
 		ks = np.array([k_sort[int(i)] for i in np.arange(n_bin/2., k.size, n_bin)])
 	else: raise ValueError("Unknown binning %s: use 'log', 'linear' or 'auto'." % binning)
-	if binning!='auto': ks = (ks[:-1]+ks[1:])/2.
-	kkk = np.hstack((k.min(),(ks[1:]+ks[:-1])/2, k.max()))
-	k_width = kkk[1:]-kkk[:-1]
+	if binning!='auto': kkk, ks = ks, (ks[:-1]+ks[1:])/2.
+	else: kkk = np.hstack((k.min(),(ks[1:]+ks[:-1])/2, k.max()))
 	ps = np.zeros(kbins)
 	n_modes = np.zeros(kbins)
 	k, power = k.flatten(), power.flatten()
 	for i,a in enumerate(ks):
-		arg = np.argwhere(np.abs(k-a)<=k_width[i]/2.)
+		arg = np.argwhere((k>=kkk[i])&((k<kkk[i+1]) if i<len(ks)-1 else (k<=kkk[i+1])))
 		ps[i] = power[arg].sum()
 		n_modes[i] = arg.size
 
-- 
2.43.0


From e60561722ea40e38e4cc02d7f60d7aaa07b35208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 75/83] fix: make_pv_box distorts with the velocity component
 along the line of sight it was given

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index cc15b47..f582937 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -153,6 +153,6 @@ def make_pv_box(dT_filename, vel_filename, dens_filename, z, los = 0, num_partic
     dfile = density_file.DensityFile(dens_filename)
     kms = vfile.get_kms_from_density(dfile)
     dT_pv = get_distorted_dt(dT, kms, redsh = z, los_axis = los, \
-                            num_particles = num_particles)
+                            velocity_axis = los, num_particles = num_particles)
     return dT_pv
 
-- 
2.43.0


From 80faca2ce444d5f8b769c1630ef4dff89aa4330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:47 +0000
Subject: [PATCH 76/83] fix: fof keeps the size of a region that fills the
 whole grid

---
 src/tools21cm/bubble_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 89884a0..0f9c0d7 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -40,7 +40,7 @@ def fof(data, xth=0.5, connectivity=1):
 		from skimage import morphology
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
-		size_list = size_list[1:]
+		size_list = size_list[elements>0]
 	else: out_map, size_list = FoF_search(data, 0.5)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
-- 
2.43.0


From f7d779a5901b3d6eb068eae225f214f2249f5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:49 +0000
Subject: [PATCH 77/83] fix: binning a lightcone in Mpc cells finer than the
 frequency spacing no longer fails

---
 src/tools21cm/angular_coordinates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 4f20e79..00124a0 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -311,6 +311,8 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     
     #Bin in Mpc by smoothing and indexing
     smooth_scale = np.round(len(frequencies)/n_output_cells)
+    if smooth_scale < 1:
+        smooth_scale = 1
 
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-- 
2.43.0


From a32a886dee30265de9d6b915ea0e77a63400dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:49 +0000
Subject: [PATCH 78/83] fix: binning a lightcone in Mpc returns one redshift
 per slice

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 00124a0..2c9a0dc 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -322,7 +322,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
         idx = int(hf.find_idx(distances, output_distances[i]))
         output_lightcone[:,:,i] = lightcone_smoothed[:,:,int(idx)]
     
-    output_redshifts = cm.cdist_to_z(output_distances)
+    output_redshifts = cm.cdist_to_z(output_distances[:output_lightcone.shape[2]])
         
     return output_lightcone, output_redshifts
 
-- 
2.43.0


From 050f1b9f5611f5c2c1a3197403d31bf3d0f9fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:50 +0000
Subject: [PATCH 79/83] fix: Lyman-alpha lines have the Doppler width
 sqrt(2kT/m), as their amplitude and Voigt parameter assume

---
 src/tools21cm/lyman_alpha_transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 67ad341..75a6ee3 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -128,7 +128,7 @@ def lyA_scattering_cross_section(nu, Tk):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
@@ -255,7 +255,7 @@ def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
-- 
2.43.0


From 5f9aa2d86b75689cc89cf1fee4205c2a2e7291f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 80/83] fix: angular momenta of halos keep negative components
 instead of becoming NaN

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 7a75cf7..d91e5eb 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -245,7 +245,7 @@ class HaloCubeP3MFull:
 							halo.pos    = self._reposition(np.array([float(i) for i in vals[:3]]) * self.box_len / self.nbox_fine) # same units as box_len
 							halo.pos_cm = self._reposition(np.array([float(i) for i in vals[3:6]]) * self.box_len / self.nbox_fine) # same units as box_len
 							halo.vel = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[6:9]]), z=self.z)	# km/s
-							halo.l   = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+							halo.l   = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z))*conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
 							halo.vel_disp = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[12:15]]), z=self.z)	# km/s
 							halo.m  = 10**(conv.gridmass_to_msol(float(vals[16]))) * const.h # Msun/h
 							halo.mp = float(vals[17])
@@ -413,7 +413,7 @@ class HaloCubeP3M:
 						halo.r = conv.gridpos_to_mpc(halo.r) * const.h 				# Mpc/h
 						halo.pos_cm = self._reposition(pos=conv.gridpos_to_mpc(halo.pos_cm) * const.h)	# Mpc/h
 						halo.vel = conv.gridvel_to_kms(gridvel=halo.vel, z=self.z)	# km/s
-						halo.l = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+						halo.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z))*conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
 						halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
 
 					self.halos.append(halo)
-- 
2.43.0


From 7dfcb9b2803ad957b1324fe1d8d296afb5e96dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:13 +0000
Subject: [PATCH 81/83] fix: 2D and mu power spectra of power_spect_fast count
 each mode once and take unequal bin edges

---
 src/tools21cm/power_spect_fast.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/power_spect_fast.py b/src/tools21cm/power_spect_fast.py
index 16de329..ea90aca 100755
--- a/src/tools21cm/power_spect_fast.py
+++ b/src/tools21cm/power_spect_fast.py
@@ -132,6 +132,14 @@ def power_spect_1d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 	if return_modes: return ps, ks, n_modes
 	return ps, ks
 
+def _in_bin(k, edges, i):
+	'''
+	Select the modes in bin i. The last bin contains its upper edge, so that every mode
+	between the first and the last edge is in one bin. For internal use.
+	'''
+	if i==len(edges)-2: return (k>=edges[i])&(k<=edges[i+1])
+	return (k>=edges[i])&(k<edges[i+1])
+
 def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return_modes=False, nu_axis=2, window=None):
 	'''
 	Calculate the power spectrum and bin it in kper and kpar
@@ -191,7 +199,7 @@ def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 	if binning is None:
 		kper = np.array(kbins[0])
 		kpar = np.array(kbins[1])
-		kbins = [len(kper),len(kpar)]
+		kbins = [len(kper)-1,len(kpar)-1]
 	elif binning=='log':
 		kper = np.linspace(np.log10(np.abs(kp[kp!=0]).min()), np.log10(kp.max()), kbins[0]+1)
 		kpar = np.linspace(np.log10(np.abs(kz[kz!=0]).min()), np.log10(kz.max()), kbins[1]+1)
@@ -200,7 +208,7 @@ def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 		kper = np.linspace(np.abs(kp[kp!=0]).min(), kp.max(), kbins[0]+1)
 		kpar = np.linspace(np.abs(kz[kz!=0]).min(), kz.max(), kbins[1]+1)
 	else: raise ValueError("Unknown binning %s: use 'log' or 'linear'." % binning)
-	k_width = kper[1]-kper[0], kpar[1]-kpar[0]
+	kper_edges, kpar_edges = kper, kpar
 	# print(10**kper,10**kpar)
 	kper = (kper[:-1]+kper[1:])/2.
 	kpar = (kpar[:-1]+kpar[1:])/2.
@@ -210,7 +218,7 @@ def power_spect_2d(input_array, kbins=10, binning='log', box_dims=244/.7, return
 	kp, kz, power = kp.flatten(), kz.flatten(), power.flatten()
 	for i,a in tqdm(enumerate(kper)):
 		for j,b in enumerate(kpar):
-			arg = np.intersect1d(np.argwhere(np.abs(kp-a)<=k_width[0]/2.), np.argwhere(np.abs(kz-b)<=k_width[1]/2.))
+			arg = np.argwhere(_in_bin(kp, kper_edges, i)&_in_bin(kz, kpar_edges, j))
 			ps[i,j] = power[arg].sum()
 			n_modes[i,j] = arg.size
 
@@ -247,16 +255,14 @@ def power_spect_mu(input_array, kbins=10, box_dims=244/.7, return_modes=False, m
 		ks = np.linspace(np.log10(np.abs(k[k!=0]).min()), np.log10(k.max()), kbins+1)
 		k  = np.log10(k)
 	else: ks = np.linspace(np.abs(k[k!=0]).min(), k.max(), kbins+1)
-	ks = (ks[:-1]+ks[1:])/2.
-	k_width = ks[1]-ks[0]
+	k_edges, ks = ks, (ks[:-1]+ks[1:])/2.
 
 	if binning[1]=='log': 
 		m1 = m[np.isfinite(m)]
 		mu = np.linspace(np.log10(np.abs(m1[m1!=0]).min()), np.log10(m1.max()), mubins+1)
 		m  = np.log10(m)
 	else: mu = np.linspace(0,1,mubins+1); 
-	mu = (mu[:-1]+mu[1:])/2.
-	m_width = mu[1]-mu[0]
+	mu_edges, mu = mu, (mu[:-1]+mu[1:])/2.
 
 	ps = np.zeros((kbins, mubins))
 	n_modes = np.zeros((kbins, mubins))
@@ -264,7 +270,7 @@ def power_spect_mu(input_array, kbins=10, box_dims=244/.7, return_modes=False, m
 	k, m, power = k.flatten(), m.flatten(), power.flatten()
 	for i,a in enumerate(ks):
 		for j,b in enumerate(mu):
-			arg = np.intersect1d(np.argwhere(np.abs(k-a)<=k_width/2.), np.argwhere(np.abs(m-b)<=m_width/2.))
+			arg = np.argwhere(_in_bin(k, k_edges, i)&_in_bin(m, mu_edges, j))
 			ps[i,j] = power[arg].sum()
 			n_modes[i,j] = arg.size
 
-- 
2.43.0


From 01f0214e6f1e3392eb61d10d5ba436d6699ee479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:03 +0000
Subject: [PATCH 82/83] fix: extragalactic foreground adds the point sources
 that fall in one cell

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 64bd753..4179113 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -83,7 +83,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 		nu = cm.z_to_nu(z[i])
 		S_nu = S_s*(nu/nu_s)**(-alpha_ps)
 		for p in range(S_nu.size):
-			exgf_data[x[p], y[p], i] = jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
+			exgf_data[x[p], y[p], i] += jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
 	return exgf_data.squeeze()
 
 
-- 
2.43.0


From 852b83194411f3cacb6bb94eff81dc9a42e2ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:40 +0000
Subject: [PATCH 83/83] fix: gridding halos accepts a box length with units

---
 src/tools21cm/nbody_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 557dc44..b959c65 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -313,6 +313,8 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 	else:
 		print('The provided halo positions are assumed to be in Mpc units.')
 		srcpos_mpc = pos_xyz 
+	if isinstance(box_dim, units.Quantity):
+		box_dim = box_dim.to('Mpc').value
 
 	hg = Halo2Grid(box_len=box_dim, n_grid=n_grid)
 	hg.set_halo_pos(srcpos_mpc, unit='mpc')
-- 
2.43.0

