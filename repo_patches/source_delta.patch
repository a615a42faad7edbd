From 12accf8fa30bd81f3412d9a4559a559cba45ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 01/44] fix: center_wavelength_mks converts nm to m (factor
 1e-9, not 1e9)

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 0b9b249..408ee47 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -137,7 +137,7 @@ class Pulse:
     def _get_center_wavelength_nm(self):
         return self._c_nmps / self._centerfrequency
     def _get_center_wavelength_mks(self):
-        return (self._c_nmps / self._centerfrequency )*1.0e9
+        return (self._c_nmps / self._centerfrequency )*1.0e-9
     def _get_center_frequency_THz(self):
         return self._centerfrequency        
     def _get_center_frequency_mks(self):
-- 
2.43.0


From c7d17d52e011241158d416d39479c890aaa4b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 02/44] fix: Pulse grid cache key includes the time window and
 is unambiguous

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 408ee47..1a563df 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -146,7 +146,7 @@ class Pulse:
     def _get_NPTS(self):
         return self._n
     def _get_hash(self):
-        return str(self._centerfrequency)+str(self.NPTS)    
+        return (self._centerfrequency, self._n, self._time_window)
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
             return self._cache_W_Hz
-- 
2.43.0


From f54a5f591dabeab893d8f69080283d99961701af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 03/44] fix: wl_nm and W_mks return copies so callers cannot
 corrupt the cached grids

---
 src/pynlo/light/PulseBase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 1a563df..474c2a1 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -126,11 +126,11 @@ class Pulse:
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_nm(self):
         if (self.cache_hash == self._cache_wl_nm_hash):
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
         else:
            self._cache_wl_nm_hash = self.cache_hash
            self._cache_wl_nm = 2*np.pi*self._c_nmps / self.W_THz
-           return self._cache_wl_nm
+           return self._cache_wl_nm.copy()
     # Wavelength is dynamically derived from frequency grid
     def _get_wavelength_m(self):    
         return 2*np.pi*self._c_mks / self.W_mks
@@ -149,11 +149,11 @@ class Pulse:
         return (self._centerfrequency, self._n, self._time_window)
     def _get_W_Hz(self):
         if (self._cache_W_Hz_hash == self.cache_hash):
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
         else:
             self._cache_W_Hz_hash = self.cache_hash
             self._cache_W_Hz                 =  self._W * 1e12
-            return self._cache_W_Hz
+            return self._cache_W_Hz.copy()
     def _get_F_Hz(self):
         return self._get_W_Hz() / (2.0*np.pi)            
     def _get_W_THz(self):
-- 
2.43.0


From 7a64c7825539dc91e81aebda5075cbcc9444c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 04/44] fix: intensity autocorrelation correlates intensity
 with intensity

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 474c2a1..38a4733 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -873,7 +873,7 @@ class Pulse:
             time grid.
             
         """  
-        return np.correlate(abs(self.AT)**2, abs(self.AT), mode='same')  
+        return np.correlate(abs(self.AT)**2, abs(self.AT)**2, mode='same')  
         
     def write_frog(self,
                  fileloc = 'broadened_er_pulse.dat', # default EDFA spectrum
-- 
2.43.0


From a9bf2891775968f7a1679e860f70aa71148d5b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 05/44] fix: set_AW reallocates the field after the grid size
 changed

---
 src/pynlo/light/PulseBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 38a4733..8eaadab 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -211,7 +211,7 @@ class Pulse:
         """
         if not self._ready:
             raise RuntimeError(self._not_ready_msg)
-        if self._AW is None:
+        if self._AW is None or len(self._AW) != self._n:
             self._AW = np.zeros((self._n,), dtype = np.complex128)
         self._AW[:] = AW_new
         
-- 
2.43.0


From 0e3fc001e28613128c5adac5ee1b2fcfbb6df393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 06/44] fix: write_frog uses the existing field and wavelength
 accessors and honours flip_phase

---
 src/pynlo/light/PulseBase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 8eaadab..1d2c2ff 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -890,9 +890,11 @@ class Pulse:
         is multiplied by frep to calculate pulse energy"""       
         
         self.fileloc   = fileloc             
-        phase_data = np.unwrap(np.angle(self.get_AW()))
-        inten_data = np.abs(self.get_AW())
-        wavel_data = self.internal_wl_to_nm(self.wl_nm)
+        phase_data = np.unwrap(np.angle(self.AW))
+        if flip_phase:
+            phase_data = -1 * phase_data
+        inten_data = np.abs(self.AW)
+        wavel_data = self.wl_nm
         
         # Write pulse data file
         np.savetxt(self.fileloc, np.vstack((wavel_data, inten_data, phase_data)).T) 
-- 
2.43.0


From d5640106e678a6e4addf7ab0e44cea304cf4011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 07/44] fix: SincPulse with average power has the same sinc
 profile as with peak power

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 222ed6d..588d441 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -114,7 +114,7 @@ class SincPulse(Pulse):
             # numpy.sinc is sin(pi*x)/(pi*x), so we divide by pi
             self.set_AT( np.sqrt(power) * np.sinc(self.T_ps/(T0_ps*np.pi)) ) 
         else:
-            self.set_AT( 1 / np.sinc(np.pi * self.T_ps/(T0_ps*np.pi)) )
+            self.set_AT( np.sinc(self.T_ps/(T0_ps*np.pi)) )
             self.set_AT(self.AT * np.sqrt( power / ( frep_MHz*1.0e6 * self.calc_epp()) ))
         
         self.chirp_pulse_W(GDD, TOD)
-- 
2.43.0


From 50e52597d5e83af714b759ce0843d234add171b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 08/44] fix: fiber instances own their fiberspecs instead of
 sharing a class-level dict

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 514bb4e..daa891c 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -65,12 +65,13 @@ class FiberInstance:
                                                            fiber_db_dir)
         self.dispersion_changes_with_z = False
         self.gamma_changes_with_z = False
+        self.fiberspecs = {}
         
         
     def load_from_db(self, length, fibertype, poly_order = 2):
         """This loads a fiber from the database. """
         self.fibertype = fibertype
-        self.fiberspecs = self.fiberloader.get_fiber(fibertype)
+        self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
         self.length = length
         self.betas = np.array([0])
         self.gamma = self.fiberspecs["gamma"]
-- 
2.43.0


From dd6a76f1dfc574819909081fb681623e64bdce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 09/44] fix: GVD fibers from the database keep their betas for
 every unit

---
 src/pynlo/media/fibers/fiber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index daa891c..108b4c7 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -122,8 +122,9 @@ class FiberInstance:
             self.dispersion_gvd_units = self.fiberspecs["dispersion_gvd_units"]
             self.center_wavelength = self.fiberspecs["dispersion_gvd_center_wavelength"]
             # If in km^-1 units, scale to m^-1
+            self.betas = np.array(self.fiberspecs["dispersion_data"])
             if self.dispersion_gvd_units == 'ps^n/km':
-                self.betas = np.array(self.fiberspecs["dispersion_data"]) / 1e3
+                self.betas = self.betas / 1e3
             return 1
         else:
             print( "Error: no dispersion found.")
-- 
2.43.0


From 177739f3af1f08c2803ce35eccd7f8ca18bbffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 10/44] fix: DTabulationToBetas reads files and leaves the
 caller's table unmodified

---
 src/pynlo/media/fibers/calculators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/fibers/calculators.py b/src/pynlo/media/fibers/calculators.py
index 5499a6c..0084cde 100644
--- a/src/pynlo/media/fibers/calculators.py
+++ b/src/pynlo/media/fibers/calculators.py
@@ -36,9 +36,9 @@ def DTabulationToBetas(lambda0, DData, polyOrder, DDataIsFile = True, return_dia
     # Expand about lambda0
     makePlots = 0
     if DDataIsFile:
-        DTab = np.genfromtxt(DData,delimiter=',',skiprows=1)
+        DTab = np.genfromtxt(DData,delimiter=',',skip_header=1)
     else:
-        DTab = DData[:]
+        DTab = np.array(DData, dtype=float)
             
     # Units of D are ps/nm/km
     # Convert to s/m/m 
-- 
2.43.0


From 955d3449c7046e41214d69a572d5bfa8c725dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 11/44] fix: refractive-index dispersion uses the same speed of
 light as the pulse grid

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 108b4c7..5ee866e 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -281,7 +281,7 @@ class FiberInstance:
             # self.x is the wavelength in nm
             # self.y is the refractive index (unitless)
             
-            supplied_W_THz = 2 * np.pi * 1e-12 * 3e8 / (self.x*1e-9)
+            supplied_W_THz = 2 * np.pi * 1e-12 * self.c_mks / (self.x*1e-9)
             supplied_betas = self.y * 2 * np.pi / (self.x * 1e-9)
             
             # InterpolatedUnivariateSpline wants increasing x, so flip arrays
-- 
2.43.0


From 8d4b4b9779b5e07d515eb70e469dad1827eef6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 12/44] fix: get_gain uses the pulse's existing frep_mks

---
 src/pynlo/media/fibers/fiber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 5ee866e..7c44fe3 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -326,7 +326,7 @@ class FiberInstance:
                                  bounds_error=False,fill_value=0)
                     gain_spec = f(pulse.W_mks/ (2*np.pi))
 
-                    g = lambda k: np.abs(output_power - pulse.frep_Hz * pulse.dT_mks*
+                    g = lambda k: np.abs(output_power - pulse.frep_mks * pulse.dT_mks*
                                         np.trapz(np.abs(
                                             IFFT_t( pulse.AW *
                                                 np.exp(k*gain_spec*self.length/2.0)
-- 
2.43.0


From 78e799119b5a61f3ab65bf6d25daaad02de2943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 13/44] fix: regenerating a fiber discards earlier z-dependent
 dispersion and gamma functions

---
 src/pynlo/media/fibers/fiber.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 7c44fe3..57fd228 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -73,6 +73,8 @@ class FiberInstance:
         self.fibertype = fibertype
         self.fiberspecs = dict(self.fiberloader.get_fiber(fibertype))
         self.length = length
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
         self.betas = np.array([0])
         self.gamma = self.fiberspecs["gamma"]
         self.poly_order = poly_order
@@ -365,6 +367,8 @@ class FiberInstance:
         """ This generates a fiber instance using the beta-coefficients."""
         
         self.length = length
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
         self.fiberspecs= {}
         self.fiberspecs['dispersion_format'] = 'GVD'
         self.fibertype = label
-- 
2.43.0


From 3e27f1711ccd378dc5430943ac96513cd6250644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 14/44] fix: SSFM.propagate no longer uses np.float, which
 NumPy removed

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 91cc905..091a04e 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -524,7 +524,7 @@ class SSFM:
         
 
         for i in range(n_steps):                        
-            print ("Step:", i, "Distance remaining:", fiber.length * (1 - np.float(i)/n_steps) )
+            print ("Step:", i, "Distance remaining:", fiber.length * (1 - float(i)/n_steps) )
             
             if reload_fiber_each_step:
                 self.load_fiber_parameters(pulse_in, fiber, output_power, z=i*delta_z) 
-- 
2.43.0


From afe3e0e61ef276a63f54cff909055b8b5fd8aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 15/44] fix: adaptive stepping never overshoots the requested
 distance

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 091a04e..97e07ca 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -366,7 +366,7 @@ class SSFM:
             dist -= 2.0*old_dz
             self.iter += 1
 #            printf("-> [%d] dz = %g dist = %g (old_dz = %g) (z = %g)\n",n,dz,dist,old_dz,self.z)
-            if (2.0*dz > dist) and (dist>2.0*self.dz_min):
+            if (2.0*dz > dist) and (dist>0.0):
                 force_last_dz = True
                 return_dz = dz
                 dz = dist/2.0
-- 
2.43.0


From fc65322a37d09583315dd5f346157b7b5ac2776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 16/44] fix: propagate_to_gain_goal reads the repetition rate
 from frep_mks

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 97e07ca..4a1a717 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -628,15 +628,15 @@ class SSFM:
                                                  1,
                                                  output_power = scalefactor *\
                                                                  power_goal)         
-        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep))
-        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep                                                                 
+        scalefactor_revised = (power_goal / (pulse_out.calc_epp()*pulse_out.frep_mks))
+        modeled_avg_power   = pulse_out.calc_epp()*pulse_out.frep_mks                                                                 
         output_scale = scalefactor
         while abs(modeled_avg_power - power_goal) / power_goal > powertol:
             y, AW, AT, pulse_out = self.propagate(pulse_in, fiber,
                                                      1, output_power = 
                                                      power_goal * scalefactor_revised)
             modeled_avg_power_prev = modeled_avg_power
-            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep
+            modeled_avg_power = pulse_out.calc_epp()*pulse_out.frep_mks
             slope = (modeled_avg_power - modeled_avg_power_prev) /\
                             (scalefactor_revised - scalefactor)                            
             yint = modeled_avg_power_prev - slope*scalefactor    
-- 
2.43.0


From 1a21c621dcd11017a626ae6f13afc3cd1bb170a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 17/44] fix: calculate_coherence honours random_seed,
 output_power and reload_fiber_each_step

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 4a1a717..e49bf70 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -580,13 +580,18 @@ class SSFM:
             obtained from :func:`pynlo.interactions.FourWaveMixing.SSFM.propagate`.
         """
         
+        if random_seed is not None:
+            np.random.seed(random_seed)
+
         results = []
         for num in range(0, num_trials):
 
             pulse = pulse_in.create_cloned_pulse()
             pulse.add_noise(noise_type=noise_type)
 
-            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps)
+            y, AW, AT, pulse_out = self.propagate(pulse_in=pulse, fiber=fiber, n_steps=n_steps,
+                                                  output_power=output_power,
+                                                  reload_fiber_each_step=reload_fiber_each_step)
 
             results.append((y, AW, AT, pulse_in, pulse_out))
 
-- 
2.43.0


From 7491f7cf7345713f834974ea7e38f8b9e60ef9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 18/44] fix: METHOD_SSFM applies the full linear step
 (LinearStep advances by h/2)

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index e49bf70..8fe3660 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -379,11 +379,11 @@ class SSFM:
     def Advance(self,A,dz,direction):
         if self.method == SSFM.METHOD_SSFM:
             if direction==1:
-                A[:] = self.LinearStep(A,dz,direction)
+                A[:] = self.LinearStep(A,2.0*dz,direction)
                 return np.exp(dz*direction*self.NonlinearOperator(A))*A
             else:
                 A[:] = np.exp(dz*direction*self.NonlinearOperator(A))*A
-                return self.LinearStep(A,dz,direction)
+                return self.LinearStep(A,2.0*dz,direction)
         elif self.method == SSFM.METHOD_RK4IP:
             return self.RK4IP(A,dz,direction)
 
-- 
2.43.0


From 0f82861a3cc9a97a85a5989c88aa641878ac15e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 19/44] fix: propagate returns complex128 fields as documented

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 8fe3660..6841b51 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -511,8 +511,8 @@ class SSFM:
         else:
             delta_z = z_positions[1] - z_positions[0]
 
-        AW = np.complex64(np.zeros((pulse_in.NPTS, n_steps)))
-        AT = np.complex64(np.copy(AW))
+        AW = np.zeros((pulse_in.NPTS, n_steps), dtype = 'complex128')
+        AT = np.zeros((pulse_in.NPTS, n_steps), dtype = 'complex128')
         
         print ("Pulse energy before", fiber.fibertype,":", \
               1e9 * pulse_in.calc_epp(), 'nJ' )
-- 
2.43.0


From 96a9bf5001d42a354106d36210025ff7705805b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 20/44] fix: dense ODE output saves the initial point once and
 keeps its regular grid

---
 src/pynlo/util/ode_solve/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index c43ea42..ba8777d 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -110,7 +110,7 @@ class Output:
         if not self.dense:
             e = AttributeError('Dense output is not set in Output!')
             raise e
-        if nstp == 1:
+        if nstp == -1:
             self.save(x,y)
             self.xout += self.dxout
         else:
-- 
2.43.0


From 68e43f7aafb8935edaaab04b77f407f57b615966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 21/44] fix: an Output that saves nothing can be used without
 dense output

---
 src/pynlo/util/ode_solve/steppers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index ba8777d..3865664 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -94,11 +94,11 @@ class Output:
         self.xsave[self.count]      = xout
         self.count += 1
     def save(self, x, y):
+        if self.kmax <= 0:
+            return
         if self.ysave.dtype != y.dtype:            
             errmsg = 'Integrand returns ',str(y.dtype),' but workspaces are initialized to ',str(self.ysave.dtype),'!'
             raise TypeError(errmsg)
-        if self.kmax <= 0:
-            return
         if self.count == self.kmax:
             self.resize()
         self.ysave[self.count, :]   = y
-- 
2.43.0


From 9382460caa0a893a4eea10324e0cb8b929cde524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 22/44] fix: zero error estimate no longer makes the step size
 NaN

---
 src/pynlo/util/ode_solve/dopr853.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0c68a69..0e5304d 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -170,7 +170,7 @@ class StepperDopr853(StepperBase):
         err2 = np.sum( pow(np.abs(self.yerr )/sk, 2) )
         err1 = np.sum( pow(np.abs(self.yerr2)/sk, 2) )
         deno = err1 + 0.01 * err2
-        if deno < 0.0:
+        if deno <= 0.0:
             deno = 1.0
         return abs(abs(h) * np.abs(err1) * np.sqrt(1.0 / (deno*self.n)))
         
\ No newline at end of file
-- 
2.43.0


From 8bef1d03e16a9f8b2f8ffa8082ff7b214dfdc20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 23/44] fix: every Dopr853 stepper owns its step-size
 controller

---
 src/pynlo/util/ode_solve/dopr853.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/util/ode_solve/dopr853.py b/src/pynlo/util/ode_solve/dopr853.py
index 0e5304d..72b60c1 100644
--- a/src/pynlo/util/ode_solve/dopr853.py
+++ b/src/pynlo/util/ode_solve/dopr853.py
@@ -35,6 +35,7 @@ class StepperDopr853(StepperBase):
     con = Controller()
     def __init__(self, yy, dydxx, xx, atoll, rtoll, dens):
         StepperBase.__init__(self, yy,dydxx, xx, atoll, rtoll, dens)
+        self.con    = Controller()
         self.yerr2  = self.gen_array()
         self.k2     = self.gen_array()
         self.k3     = self.gen_array()
-- 
2.43.0


From 76162e1f3a42a65371d8c570cdb4e89d03a6367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 24/44] fix: crystals own their properties; loading PPLN no
 longer changes other crystals

---
 src/pynlo/media/crystals/CrystalContainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index b6739e6..557d18a 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -38,6 +38,7 @@ class Crystal:
                             'damage_threshold_info' : ''}
     
     def __init__(self, params):                
+        self._crystal_properties = dict(Crystal._crystal_properties)
         if 'length' in params.keys():
             self._length = params['length']
         else:
-- 
2.43.0


From 3ae82658329ab63a21ad913cd97118d99c013337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 25/44] fix: refractive-index cache is per crystal and dropped
 when its angle or temperature changes

---
 src/pynlo/media/crystals/CrystalContainer.py | 7 ++++---
 src/pynlo/media/crystals/XTAL_AgGaS.py       | 1 +
 src/pynlo/media/crystals/XTAL_AgGaSe2.py     | 1 +
 src/pynlo/media/crystals/XTAL_PPLN.py        | 2 ++
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index 557d18a..a663c66 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -39,6 +39,7 @@ class Crystal:
     
     def __init__(self, params):                
         self._crystal_properties = dict(Crystal._crystal_properties)
+        self._cached_ns = {}
         if 'length' in params.keys():
             self._length = params['length']
         else:
@@ -62,14 +63,14 @@ class Crystal:
         """ Return vector of indices of refraction for the pulse_instance's 
             frequency grid inside the crystal """
         if self._enable_caching:
-            if pulse_instance.cache_hash + str(axis) in self._cached_ns.keys():
-                return self._cached_ns[pulse_instance.cache_hash + str(axis)]
+            if (pulse_instance.cache_hash, axis) in self._cached_ns.keys():
+                return np.copy(self._cached_ns[(pulse_instance.cache_hash, axis)])
             else:
                 if axis is None:
                     ns = self.n(pulse_instance.wl_nm)
                 else:
                     ns = self.n(pulse_instance.wl_nm, axis)
-                self._cached_ns[pulse_instance.cache_hash + str(axis)]= ns
+                self._cached_ns[(pulse_instance.cache_hash, axis)] = np.copy(ns)
         else:
             if axis is None:
                 ns = self.n(pulse_instance.wl_nm)
diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 665c97a..10887ae 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -69,6 +69,7 @@ class AgGaSe2(Crystal):
         self.deff  = 8.69e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
         self.theta = angle
+        self._cached_ns = {}
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
             instances value for theta sets mixing angle (0 = pure ordinary). 
diff --git a/src/pynlo/media/crystals/XTAL_AgGaSe2.py b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
index 905ed86..1a37931 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaSe2.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaSe2.py
@@ -63,6 +63,7 @@ class AgGaSe2(Crystal):
         self.deff  = 28.5e-12 # from SNLO, original given in pm / V        
     def set_theta(self, angle):
         self.theta = angle
+        self._cached_ns = {}
     def n(self, wl_nm, axis = "mix"):        
         """ Axis specifies crystal axis, either o, e, or mix. If mix, class
             instances value for theta sets mixing angle (0 = pure ordinary). 
diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index 601987a..f08311b 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -93,6 +93,7 @@ class PPLN(Crystal):
             for MgO-doped congruent and stoichiometric LiNbO3'
         """
         self.T = T
+        self._cached_ns = {}
         self.mode = 'PP'
         self.sellmeier_type = data_source
         
@@ -115,6 +116,7 @@ class PPLN(Crystal):
             self.pp = lambda x: p(x)
     def set_T(self, T_degC):
         self.T = T_degC
+        self._cached_ns = {}
         self.set_xtalT(T_degC)
         
     def calculate_poling_period(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, 
-- 
2.43.0


From 5b3c96958b2009af9ccb9c163394401deb20c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 26/44] fix: set_pp_chirp uses the crystal's existing
 length_mks

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index a663c66..ef2503e 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -50,7 +50,7 @@ class Crystal:
             self._enable_caching = False
             
     def set_pp_chirp(self, start, stop):
-        self.pp   = lambda x: start + (stop-start) * x /self.length        
+        self.pp   = lambda x: start + (stop-start) * x /self.length_mks    
     def get_pulse_k(self, pulse_instance, axis = None):
         """ Return vector of angular wavenumbers (m^-1) for the pulse_instance's 
             frequency grid inside the crystal """
-- 
2.43.0


From c13bf3adb95bcf18af5c2324721f272a320ebca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 27/44] fix: XTAL_AgGaS imports on Python 3 (no exceptions
 module)

---
 src/pynlo/media/crystals/XTAL_AgGaS.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/media/crystals/XTAL_AgGaS.py b/src/pynlo/media/crystals/XTAL_AgGaS.py
index 10887ae..ffeccca 100644
--- a/src/pynlo/media/crystals/XTAL_AgGaS.py
+++ b/src/pynlo/media/crystals/XTAL_AgGaS.py
@@ -25,7 +25,6 @@ from __future__ import print_function
 
 import numpy as np
 from pynlo.media.crystals.CrystalContainer import Crystal
-import exceptions 
 
 class AgGaSe2(Crystal):
     def __init__(self, theta = 0.0, **params):
@@ -97,7 +96,7 @@ class AgGaSe2(Crystal):
             return no
         elif axis == 'e':
             return ne
-        raise exceptions.ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
+        raise ValueError("Axis was ",str(axis),"; must be 'mix', 'o', or 'e'")
     def phasematch(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, return_wavelength = False):
         """ Phase match mixing between pump (aligned to a mix of ne and no) and
             signal and idler (aligned to ordinary axis.)"""
@@ -134,7 +133,7 @@ class AgGaSe2(Crystal):
         if x < 0:
             x = ( -b - np.sqrt(b**2-4*a*c) )/ (2.0  * a)
         if np.isnan(np.arccos(x)) :
-            raise exceptions.AttributeError('No phase matching condition.')
+            raise AttributeError('No phase matching condition.')
         theta = np.arccos(x)
         print('Angle set to ',360*theta / (2.0*np.pi) )
         if RET_WL and return_wavelength:
-- 
2.43.0


From 529b1659596fc12d7a26cbce3ffe5461b81dbce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 28/44] fix: process_stepper_output leaves the solver's saved
 data unmodified

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index f1bcdaa..4dc3562 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -466,9 +466,9 @@ class dfg_problem:
         """
         npoints = self.veclength
         
-        pump_out = solver_out.ysave[0:solver_out.count, 0        :   npoints]
-        sgnl_out = solver_out.ysave[0:solver_out.count, npoints  : 2*npoints]
-        idlr_out = solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints]
+        pump_out = np.copy(solver_out.ysave[0:solver_out.count, 0        :   npoints])
+        sgnl_out = np.copy(solver_out.ysave[0:solver_out.count, npoints  : 2*npoints])
+        idlr_out = np.copy(solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints])
         zs       = solver_out.xsave[0:solver_out.count]
         print ('Pulse velocity is ~ '+str(self.approx_pulse_speed*1e-12)+'mm/fs' )
         print('ks: '+str(self.k_p_0)+' '+str(self.k_s_0)+' '+str(self.k_i_0))
-- 
2.43.0


From 132a1b34c18ffc8e59840344a4ad949b52ac0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 29/44] fix: field_classes imports on Python 3 (no exceptions
 module)

---
 src/pynlo/interactions/ThreeWaveMixing/field_classes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
index c303d44..c95fc37 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/field_classes.py
@@ -25,7 +25,6 @@ from __future__ import division
 from __future__ import print_function
 
 import numpy as np
-import exceptions
 
 PUMP = 0
 SGNL = 1
@@ -49,10 +48,10 @@ class beam_parameters:
         """ calculate overlap integral between fields A and B. A & B must be
         integers between 0-2 (0 = pump, 1 = signal, 3 = idler.)"""
         if (type(A) is not int) or (type(B) is not int):
-            e = exceptions.TypeError('A & B must both be integers.')
+            e = TypeError('A & B must both be integers.')
             raise e
         if A < 0 or A>3 or B<0 or B>3:
-            e = exceptions.ValueError('A & B must be in range [0,3].')
+            e = ValueError('A & B must be in range [0,3].')
             raise e
         return (self.waists[A]+self.waists[B]) / 2.0
         
-- 
2.43.0


From ee0a8eba9c42707ef38081f238304955a93b835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 30/44] fix: DFGWriter writes every saved step with the current
 PyTables API

---
 .../ThreeWaveMixing/multi_run_rw.py           | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index 98fa86f..a37fe03 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -107,47 +107,47 @@ class DFGWriter:
             
     def add_run(self,integrand, odesolver, param):
         grp = self.tables_file.create_group(self.root, 'run'+str(self.run_ctr), title=str(param))
-        npts           = odesolver.nvar / 3
-        count          = odesolver.out.nsave
+        npts           = odesolver.nvar // 3
+        count          = odesolver.out.count
         
         # Store pump, signal, idler fields        
         atom = tables.Atom.from_dtype(odesolver.out.ysave[0:count, 0 : npts].T.dtype)
         data_shape = odesolver.out.ysave[0:count, 0 : npts].T.shape
-        pump_data = self.tables_file.createCArray(grp, 'pump', atom, data_shape)
+        pump_data = self.tables_file.create_carray(grp, 'pump', atom, data_shape)
         pump_data[:] = odesolver.out.ysave[0:count, 0 : npts].T
-        sgnl_data = self.tables_file.createCArray(grp, 'sgnl', atom, data_shape)      
+        sgnl_data = self.tables_file.create_carray(grp, 'sgnl', atom, data_shape)      
         sgnl_data[:] = odesolver.out.ysave[0:count, npts : 2 * npts].T
-        idlr_data = self.tables_file.createCArray(grp, 'idlr', atom, data_shape)
+        idlr_data = self.tables_file.create_carray(grp, 'idlr', atom, data_shape)
         idlr_data[:] = odesolver.out.ysave[0:count, 2*npts : 3 * npts].T
         
         # By the design of the pulse class, the three things we need are center
         # wavelength, time window, and rep rate (N points is set by the array sizes)
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_twind = self.tables_file.createCArray(grp, 'pump_Twind', atom, data_shape)
+        pump_twind = self.tables_file.create_carray(grp, 'pump_Twind', atom, data_shape)
         pump_twind[:] = integrand.pump.time_window_ps
-        sgnl_twind = self.tables_file.createCArray(grp, 'sgnl_Twind', atom, data_shape)
+        sgnl_twind = self.tables_file.create_carray(grp, 'sgnl_Twind', atom, data_shape)
         sgnl_twind[:] = integrand.sgnl.time_window_ps
-        idlr_twind = self.tables_file.createCArray(grp, 'idlr_Twind', atom, data_shape)
+        idlr_twind = self.tables_file.create_carray(grp, 'idlr_Twind', atom, data_shape)
         idlr_twind[:] = integrand.idlr.time_window_ps
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        pump_wlc = self.tables_file.createCArray(grp, 'pump_center_nm', atom, data_shape)
+        pump_wlc = self.tables_file.create_carray(grp, 'pump_center_nm', atom, data_shape)
         pump_wlc[:] = integrand.pump.center_wavelength_nm
-        sgnl_wlc = self.tables_file.createCArray(grp, 'sgnl_center_nm', atom, data_shape)
+        sgnl_wlc = self.tables_file.create_carray(grp, 'sgnl_center_nm', atom, data_shape)
         sgnl_wlc[:] = integrand.sgnl.center_wavelength_nm
-        idlr_wlc = self.tables_file.createCArray(grp, 'idlr_center_nm', atom, data_shape)
+        idlr_wlc = self.tables_file.create_carray(grp, 'idlr_center_nm', atom, data_shape)
         idlr_wlc[:] = integrand.idlr.center_wavelength_nm
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        fr = self.tables_file.createCArray(grp, 'frep_Hz', atom, data_shape)
-        fr[:] = integrand.pump.frep_Hz
+        fr = self.tables_file.create_carray(grp, 'frep_Hz', atom, data_shape)
+        fr[:] = integrand.pump.frep_mks
         
         atom = tables.Atom.from_dtype(np.dtype(np.double))
         data_shape = (1,)
-        para = self.tables_file.createCArray(grp, 'param', atom, data_shape)
+        para = self.tables_file.create_carray(grp, 'param', atom, data_shape)
         para[:] = param
         
         self.tables_file.flush()
-- 
2.43.0


From d2074710e1cbae27b39e554a061e37ad5b31670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 31/44] fix: store the end of a dense trajectory once

The output positions are accumulated, so the last one can fall short of x2 by
rounding: it was then stored by the interpolation and again by the driver
(e.g. 7 entries for Output(5) on [-1, 0]).
---
 src/pynlo/util/ode_solve/steppers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/util/ode_solve/steppers.py b/src/pynlo/util/ode_solve/steppers.py
index 3865664..cc22a34 100644
--- a/src/pynlo/util/ode_solve/steppers.py
+++ b/src/pynlo/util/ode_solve/steppers.py
@@ -114,7 +114,10 @@ class Output:
             self.save(x,y)
             self.xout += self.dxout
         else:
-            while (x-self.xout)*(self.x2-self.x1) > 0.0:
+            # The last grid point, x2, is stored by the driver; xout is a sum and
+            # may fall short of x2 by rounding
+            while (x-self.xout)*(self.x2-self.x1) > 0.0 and \
+                    (self.x2-self.xout)/self.dxout > 0.5:
                 self.save_dense(s, self.xout, h)
                 self.xout += self.dxout
         
-- 
2.43.0


From 9b4d37380459882c242adca1bdc536ed7cd43e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 32/44] fix: refuse pump and signal fields on different time
 windows

The convolutions of the three-wave mixing equations pair the grids of pump,
signal and idler index by index; with different frequency spacings the result
was silently wrong.
---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index 4dc3562..15b541e 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -122,6 +122,10 @@ class dfg_problem:
         if not pump_in.NPTS == sgnl_in.NPTS == idlr_in.NPTS:
             raise ValueError("""Pump, signal, and idler do not have
                                             same length.""")
+        # The mixing integrals also require the same frequency spacing
+        if not np.isclose(pump_in.time_window_ps, sgnl_in.time_window_ps,
+                          rtol=1e-9, atol=0.0):
+            raise ValueError("Pump and signal do not have the same time window.")
         if self._wg_mode == False:
             if self.crystal.mode == 'BPM':
                 self.pump_beam = OneDBeam(self.waist, this_pulse = self.pump, axis = 'mix')
-- 
2.43.0


From c2955891583c0da26b7469245469ce782e180a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 33/44] fix: DFGReader returns each run's own repetition rate

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index a37fe03..d10b740 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -53,6 +53,7 @@ class DFGReader:
             z_num = -1
             
         run = self.root_name+'/run'+str(run_num)
+        frep_MHz = self.tables_file.get_node(run+'/frep_Hz')[0] * 1.0e-6
         
         # Read in and generate pump pulse
         pump_field  = self.tables_file.get_node(run+'/pump')[:,z_num]
@@ -63,7 +64,7 @@ class DFGReader:
         p.set_center_wavelength_nm(pump_center)
         p.set_time_window_ps(pump_Twind)
         p.set_AW(pump_field)
-        p.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        p.set_frep_MHz(frep_MHz)
         
         # Read in and generate signal pulse
         sgnl_field  = self.tables_file.get_node(run+'/sgnl')[:,z_num]
@@ -74,7 +75,7 @@ class DFGReader:
         s.set_center_wavelength_nm(sgnl_center)
         s.set_time_window_ps(sgnl_Twind)
         s.set_AW(sgnl_field)
-        s.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        s.set_frep_MHz(frep_MHz)
 
         # Read in and generate idler pulse
         idlr_field  = self.tables_file.get_node(run+'/idlr')[:,z_num]
@@ -85,7 +86,7 @@ class DFGReader:
         i.set_center_wavelength_nm(idlr_center)
         i.set_time_window_ps(idlr_Twind)
         i.set_AW(idlr_field)
-        i.set_frep_MHz(self.frep_Hz * 1.0e-6)
+        i.set_frep_MHz(frep_MHz)
         
         return (p, s, i)
         
-- 
2.43.0


From a2301faf896ed5f8742f86fc96b7bb3866ec94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 34/44] fix: set_pp accepts a single poling period

---
 src/pynlo/media/crystals/XTAL_PPLN.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index f08311b..3f73cb8 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -112,8 +112,12 @@ class PPLN(Crystal):
     def set_pp(self, p) :
         if p.__class__ is tuple:
             self.pp = lambda x: p[0]
-        else:
+        elif callable(p):
             self.pp = lambda x: p(x)
+        else:
+            # One period, as returned by calculate_poling_period when all
+            # three wavelengths are given
+            self.pp = lambda x: p
     def set_T(self, T_degC):
         self.T = T_degC
         self._cached_ns = {}
-- 
2.43.0


From d11f7f04157f99f9cc11fa4b0e48dc225491604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 35/44] fix: rewriting an existing parameter group in DFGWriter

---
 src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
index d10b740..ca2044b 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/multi_run_rw.py
@@ -103,7 +103,7 @@ class DFGWriter:
             self.root = self.tables_file.create_group('/', param_name)
         except tables.NodeError:
             print ('Parameter "'+param_name+'" already in table; deleting existing data.')
-            self.tables_file.remove_node('/', param_name)
+            self.tables_file.remove_node('/', param_name, recursive = True)
             self.root = self.tables_file.create_group('/', param_name)
             
     def add_run(self,integrand, odesolver, param):
-- 
2.43.0


From 23b1f036e93d163f6f99a3aecdc68ae346edfff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 36/44] fix: positions of the mixing results are their own copy

---
 src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
index 15b541e..99ccb19 100644
--- a/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
+++ b/src/pynlo/interactions/ThreeWaveMixing/DFG_integrand.py
@@ -473,7 +473,7 @@ class dfg_problem:
         pump_out = np.copy(solver_out.ysave[0:solver_out.count, 0        :   npoints])
         sgnl_out = np.copy(solver_out.ysave[0:solver_out.count, npoints  : 2*npoints])
         idlr_out = np.copy(solver_out.ysave[0:solver_out.count, 2*npoints: 3*npoints])
-        zs       = solver_out.xsave[0:solver_out.count]
+        zs       = np.copy(solver_out.xsave[0:solver_out.count])
         print ('Pulse velocity is ~ '+str(self.approx_pulse_speed*1e-12)+'mm/fs' )
         print('ks: '+str(self.k_p_0)+' '+str(self.k_s_0)+' '+str(self.k_i_0))
         
-- 
2.43.0


From 0466bbd41c0e69ec16be7e65bf7b3f26e103a28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:58 +0000
Subject: [PATCH 37/44] fix: crystal dispersion D has the sign of
 d(1/v_g)/d(lambda)

---
 src/pynlo/media/crystals/CrystalContainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/media/crystals/CrystalContainer.py b/src/pynlo/media/crystals/CrystalContainer.py
index ef2503e..b8bbb04 100644
--- a/src/pynlo/media/crystals/CrystalContainer.py
+++ b/src/pynlo/media/crystals/CrystalContainer.py
@@ -102,7 +102,7 @@ class Crystal:
             standard photonic engineering units ps/nm/km"""        
         fn = lambda x: self.n(x, axis)
         d2n_dl2 = misc.derivative(fn, wavelengths_nm, dx = 0.1, n = 2, order = 11)
-        D1      = (wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
+        D1      = -(wavelengths_nm / self._c_nm_ps) * d2n_dl2 # units are ps/nm/nm
         D       = D1 * 1.0e12
         return D    
     def calculate_D_fs_um_mm(self, wavelengths_nm, axis = None):
-- 
2.43.0


From 87152ea43bc385d8b18bd0cfaad7743be1521837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:58 +0000
Subject: [PATCH 38/44] fix: unit of the numerical compressor dispersion for
 orders above 1

---
 src/pynlo/devices/grating_compressor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 8e85320..5d4b6c7 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -150,8 +150,9 @@ class TreacyCompressor:
         dphidw = fn(ws)        
         y = signal.savgol_filter(dphidw, window_length = 11,
                              polyorder = 7, deriv = dispersion_order)
-        dw = (ws[1] - ws[0])*10**(-15*(1+dispersion_order))
-        return y[50]/(dw**dispersion_order)
+        dw = ws[1] - ws[0]
+        # convert from s^(order+1) to fs^(order+1)
+        return y[50]/(dw**dispersion_order * 10.0**(-15*(1+dispersion_order)))
     
     
     def apply_phase_to_pulse(self, grating_separation_meters, pulse):
-- 
2.43.0


From 989168430ea9643c425d248b32cf34fec692cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:58 +0000
Subject: [PATCH 39/44] fix: high orders of compressor dispersion are not lost
 in rounding noise

---
 src/pynlo/devices/grating_compressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/devices/grating_compressor.py b/src/pynlo/devices/grating_compressor.py
index 5d4b6c7..d6b4dfe 100644
--- a/src/pynlo/devices/grating_compressor.py
+++ b/src/pynlo/devices/grating_compressor.py
@@ -134,8 +134,8 @@ class TreacyCompressor:
         return misc.derivative(fn, 
                                       w_of_l(wavelength_nm),
                                       n     = dispersion_order - 2,
-                                      dx    = 2.0*np.pi*100.0e6, # Use dx = 100 MHz
-                                      order = 101 ) # Why not use 101's order?
+                                      dx    = 2.0*np.pi*1.0e12, # Use dx = 1 THz
+                                      order = 15 )
     
     
     def calc_compressor_dnphi_domega_n(self, wavelength_nm, grating_separation_meters, dispersion_order):
-- 
2.43.0


From e961261c58b0085ccbfec1ecef655d7cf7d03827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:28 +0000
Subject: [PATCH 40/44] fix: loading a fiber from a file resets z-dependent
 dispersion and gamma

load_from_file left dispersion_changes_with_z and gamma_changes_with_z set, so
a fiber loaded from a table kept using the position dependent functions of
the previous fiber.
---
 src/pynlo/media/fibers/fiber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynlo/media/fibers/fiber.py b/src/pynlo/media/fibers/fiber.py
index 57fd228..36dd56e 100755
--- a/src/pynlo/media/fibers/fiber.py
+++ b/src/pynlo/media/fibers/fiber.py
@@ -99,6 +99,8 @@ class FiberInstance:
         self.gain       = gain
         self.length     = length
         self.gamma      = gamma_W_m
+        self.dispersion_changes_with_z = False
+        self.gamma_changes_with_z = False
         
         if gain == 0:
             self.fiberspecs["is_gain"] = False
-- 
2.43.0


From 63a5d807089ac6f6d5d014864faf35f984050d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:48 +0000
Subject: [PATCH 41/44] fix: spectrogram frequency axis is no longer mirrored
 about the centre frequency

The envelope uses the exp(-i w t) convention while the spectrogram multiplied it
with exp(+i w0 t) and used a forward FFT, so a component at f0+d showed up at
f0-d.
---
 src/pynlo/light/PulseBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynlo/light/PulseBase.py b/src/pynlo/light/PulseBase.py
index 1d2c2ff..7648044 100644
--- a/src/pynlo/light/PulseBase.py
+++ b/src/pynlo/light/PulseBase.py
@@ -970,7 +970,8 @@ class Pulse:
         
         delay = np.linspace(np.min(t), np.max(t), time_steps)
         D, T  = np.meshgrid(delay, t)
-        D, AT = np.meshgrid(delay, self.AT)
+        # the envelope follows the exp(-i w t) convention, the FFT below exp(+i w t)
+        D, AT = np.meshgrid(delay, np.conj(self.AT))
         
         phase = np.unwrap(np.angle(AT))
         amp   = np.abs(AT)
-- 
2.43.0


From 64804b1aea13162d00a5486525e3c5dc52c08a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:49 +0000
Subject: [PATCH 42/44] fix: the three-time Raman response no longer overwrites
 the Raman fraction of the solver

---
 src/pynlo/interactions/FourWaveMixing/SSFM.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pynlo/interactions/FourWaveMixing/SSFM.py b/src/pynlo/interactions/FourWaveMixing/SSFM.py
index 6841b51..576d149 100755
--- a/src/pynlo/interactions/FourWaveMixing/SSFM.py
+++ b/src/pynlo/interactions/FourWaveMixing/SSFM.py
@@ -57,8 +57,7 @@ class SSFM:
         self.disable_self_steepening = disable_self_steepening
         self.USE_SIMPLE_RAMAN = USE_SIMPLE_RAMAN
 
-        # Raman fraction; may change depending upon which calculation method 
-        # is used 
+        # Raman fraction (the three-time response uses its own value)
         self.f_R = f_R
         # The value for the old-style Raman response
         self.f_R0 = f_R0
@@ -284,7 +283,6 @@ class SSFM:
             fb = 0.21
             fc = 0.04
             F_R = 0.245
-            self.f_R = np.copy(F_R)
             ha = tau1 / (tau1**2 + tau2**2) * np.exp(-T / tau2) * np.sin(T / tau1)
             hb = (2*taub - T) / taub**2 * np.exp(-T / taub)
             RT = (fa + fc)*ha + fb*hb
-- 
2.43.0


From b72e1c986f241e924c546d0ff8583cefe645910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:46 +0000
Subject: [PATCH 43/44] fix: setting the temperature of a PPLN crystal through
 set_xtalT left its cached indices and its own temperature stale

---
 src/pynlo/media/crystals/XTAL_PPLN.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynlo/media/crystals/XTAL_PPLN.py b/src/pynlo/media/crystals/XTAL_PPLN.py
index 3f73cb8..4821c6e 100644
--- a/src/pynlo/media/crystals/XTAL_PPLN.py
+++ b/src/pynlo/media/crystals/XTAL_PPLN.py
@@ -101,7 +101,7 @@ class PPLN(Crystal):
         self.sellmeier_calculators = {'Deng' :DengSellmeier(T),
                                       'Gayer_5pctMg':Gayer5PctSellmeier(T)}
         self.n = self.sellmeier_calculators[data_source].n
-        self.set_xtalT = self.sellmeier_calculators[data_source].set_T_degC
+        self.set_xtalT = self.set_T
         
         self.deff=  14.9e-12 # from SNLO
         self.n2=   3e-15 / 100**2 # from Nikogosyan
@@ -121,7 +121,7 @@ class PPLN(Crystal):
     def set_T(self, T_degC):
         self.T = T_degC
         self._cached_ns = {}
-        self.set_xtalT(T_degC)
+        self.sellmeier_calculators[self.sellmeier_type].set_T_degC(T_degC)
         
     def calculate_poling_period(self, pump_wl_nm, sgnl_wl_nm, idlr_wl_nm, 
                                 delta_k_L  = 3.2, silent=False):
-- 
2.43.0


From 26934ce6942a866eb9dc17408920af04b89a082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:06 +0000
Subject: [PATCH 44/44] fix: the noise pulse has random phase, not a random
 (and only decreasing) magnitude

---
 src/pynlo/light/DerivedPulses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynlo/light/DerivedPulses.py b/src/pynlo/light/DerivedPulses.py
index 588d441..bfa2c00 100644
--- a/src/pynlo/light/DerivedPulses.py
+++ b/src/pynlo/light/DerivedPulses.py
@@ -183,7 +183,7 @@ class NoisePulse(Pulse):
         self.set_time_window_ps(time_window_ps)        
         
         self.set_AW( 1e-30 * np.ones(self.NPTS) * np.exp(1j * 2 * np.pi *
-                 1j * np.random.rand(self.NPTS)))
+                 np.random.rand(self.NPTS)))
                  
 class CWPulse(Pulse):
     def __init__(self, avg_power, center_wavelength_nm, time_window_ps = 10.0,
-- 
2.43.0

