From 9b238fda30b4ca94706081e4ac47730cfc3e0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:38 +0000
Subject: [PATCH 01/63] fix: wavenumber conversion used the inverse centimetre
 factor

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index e4aab07..507ae22 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -142,7 +142,7 @@ def to_wavenumber(unit, values):
     if not unit == '1/cm':
         raise NotImplementedError("support for wavenumber units" +
                                   " other than 1/cm not implemented")
-    inverse = safe_inverse(values*1e-2)
+    inverse = safe_inverse(values*1e2)
     return 2*np.pi*inverse
 
 class Spectrum(object):
-- 
2.43.0


From 36d1df15deb53ffa57e725a6478984aaa8acbab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:40 +0000
Subject: [PATCH 02/63] fix: conversion to centimetre rounded away optical
 wavelengths

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 507ae22..9a740eb 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -104,7 +104,7 @@ def to_wavelength(unit, values):
     if unit == 'm':
         converted_values = values
     elif unit == 'cm':
-        converted_values = np.round(values*1e2, decimals=5)
+        converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
         converted_values = np.round(values*1e9, decimals=12)
     elif unit == 'um':
-- 
2.43.0


From f43d56627b4a72e387a9af06f97b05f887294e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:43 +0000
Subject: [PATCH 03/63] fix: small finite spectral values were treated as zero
 when inverted

---
 src/dispersion/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 9a740eb..29f4914 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -24,8 +24,8 @@ def safe_inverse_array(values):
     and values of inf to 0
     '''
     inverse = np.array(values)
-    zero_ind = np.isclose(values,0.0)
-    inf_ind = np.isclose(values,np.inf)
+    zero_ind = values == 0.0
+    inf_ind = values == np.inf
     safe_inv_ind = ~ (zero_ind | inf_ind)
     inverse[zero_ind] = np.inf
     inverse[inf_ind] = 0.0
-- 
2.43.0


From 6eb72d58d37ed3852a29e5edfa0edcf74b134cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 04/63] fix: inverse of integer arrays was truncated to
 integers

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 29f4914..f1c7377 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -23,7 +23,7 @@ def safe_inverse_array(values):
     takes the inverse of an array while converting values of 0 to inf
     and values of inf to 0
     '''
-    inverse = np.array(values)
+    inverse = np.array(values, dtype=float)
     zero_ind = values == 0.0
     inf_ind = values == np.inf
     safe_inv_ind = ~ (zero_ind | inf_ind)
-- 
2.43.0


From a58855ee69ae659ac1088b0110850810f3da3b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 05/63] fix: centimetre had no display name

---
 src/dispersion/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index f1c7377..8b62391 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -168,6 +168,7 @@ class Spectrum(object):
                   'a': {'a', 'angstrom'}}
 
     DISPLAY_NAMES = {'m': 'm',
+                     'cm': 'cm',
                      'um': u'μm',
                      'nm': 'nm',
                      'hz': 'Hz',
-- 
2.43.0


From 526ccf489c47b0ca66568096e195f26006b1b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:51 +0000
Subject: [PATCH 06/63] fix: units were case sensitive as conversion target

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 8b62391..b97a0ea 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -303,7 +303,7 @@ class Spectrum(object):
         if spectrum_type not in Spectrum.SPECTRUM_TYPES:
             raise ValueError("invalid spectrum type {}".format(spectrum_type))
 
-        unit = Spectrum.standardise_unit(spectrum_type, unit)
+        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
         values = self.standard_rep
 
         convert_methods = {'frequency': to_frequency,
-- 
2.43.0


From a6934e908e905cb38d149ecb2b9e5269f145e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:07 +0000
Subject: [PATCH 07/63] fix: extrapolation converted the caller's spectrum in
 place

---
 src/dispersion/spectral_data.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 481039f..3714147 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -139,13 +139,12 @@ class Extrapolation(SpectralData):
         that gives the lower and upper bound for an extrapolation
         """
         base_spectrum = self.base_spectral_data.valid_range
-        extended_spectrum.convert_to(spectrum_type= base_spectrum.spectrum_type,
-                                     unit= base_spectrum.unit,
-                                     in_place= True)
+        extrap_values = extended_spectrum.convert_to(
+            spectrum_type= base_spectrum.spectrum_type,
+            unit= base_spectrum.unit)
         new_range = np.array(base_spectrum.values)
         if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
-            extrap_values = extended_spectrum.values
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
@@ -153,7 +152,7 @@ class Extrapolation(SpectralData):
                 new_range = self.validate_extrap_val(extrap_val, new_range)
         else:
             # upper or lower
-            extrap_val = extended_spectrum.values
+            extrap_val = extrap_values
             new_range = self.validate_extrap_val(extrap_val, new_range)
 
         return Spectrum(new_range,
@@ -191,9 +190,9 @@ class Extrapolation(SpectralData):
             self.base_spectral_data.valid_range.contains(spectrum)
             return self.base_spectral_data.evaluate(spectrum)
         except ValueError as e:
-            spectrum.convert_to(self.spectrum_type, self.unit, in_place=True)
             self.valid_range.contains(spectrum)
-            return splev(spectrum.values,self.extrapolation)
+            values = spectrum.convert_to(self.spectrum_type, self.unit)
+            return splev(values,self.extrapolation)
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From f0414bd3edbec94b4243b3612c79dbdd9fe00555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:09 +0000
Subject: [PATCH 08/63] fix: extrapolation bounds were truncated for integer or
 descending ranges

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 3714147..d6f0af0 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -142,7 +142,7 @@ class Extrapolation(SpectralData):
         extrap_values = extended_spectrum.convert_to(
             spectrum_type= base_spectrum.spectrum_type,
             unit= base_spectrum.unit)
-        new_range = np.array(base_spectrum.values)
+        new_range = np.sort(np.array(base_spectrum.values, dtype=float))
         if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
             if extrap_values.size > 2:
-- 
2.43.0


From 23e6d251576e3c9b1e496c8f1bc9ca275581df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:12 +0000
Subject: [PATCH 09/63] fix: Tauc-Lorentz model could not be evaluated for a
 scalar spectrum

---
 src/dispersion/spectral_data.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index d6f0af0..b0a9077 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -642,11 +642,9 @@ class TaucLorentz(Model):
         return eps
 
     def _calc_eps_imag(self, ones, energies, A, E0, C, Eg):
-        eps_imag = ones
-        E = energies[energies>=Eg]
-        eps_imag[energies>=Eg] = ( (1./E) *A*E0*C*(E-Eg)**2 /
-                                   ((E**2-E0**2)**2+C**2*E**2))
-        eps_imag[energies<Eg] = 0.0
+        E = np.maximum(energies, Eg) # vanishes for energies below Eg
+        eps_imag = ones*( (1./E) *A*E0*C*(E-Eg)**2 /
+                          ((E**2-E0**2)**2+C**2*E**2))
         return eps_imag
 
     def _calc_eps_real(self, energies, A, E0, C, Eg, eps_inf):
-- 
2.43.0


From 3b984757f85dd028c188cffdf619dcd345267ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:15 +0000
Subject: [PATCH 10/63] fix: Retro model did not solve (n^2-1)/(n^2+2) for n

---
 src/dispersion/spectral_data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index b0a9077..f3bb80f 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -530,10 +530,8 @@ class Retro(Model):
         rhs += self.model_parameters[1]*wvlsq/(wvlsq-self.model_parameters[2])
         rhs += self.model_parameters[3]*wvlsq
 
-        tmp_p = -2*rhs/(1-rhs)
-        tmp_q = -1/(1-rhs)
-
-        ref_index = -0.5*tmp_p + np.sqrt(np.power(0.5*tmp_p, 2) - tmp_q)
+        # rhs = (n**2-1)/(n**2+2)
+        ref_index = np.sqrt((1+2*rhs)/(1-rhs))
         return ref_index
 
 class Exotic(Model):
-- 
2.43.0


From e7fd54a1fb8e920a86317e4c48e4784c236f9734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:18 +0000
Subject: [PATCH 11/63] fix: Exotic model had a spurious wavelength factor

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index f3bb80f..aed0777 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -556,7 +556,7 @@ class Exotic(Model):
         rhs = self.model_parameters[0]*ones
         wvlsq = np.power(wavelengths, 2)
 
-        rhs += self.model_parameters[1]*wvlsq/(wvlsq - self.model_parameters[2])
+        rhs += self.model_parameters[1]/(wvlsq - self.model_parameters[2])
         rhs += (self.model_parameters[3]*(wavelengths -self.model_parameters[4])/
                 (np.power(wavelengths - self.model_parameters[4], 2) +
                  self.model_parameters[5]))
-- 
2.43.0


From a4629e4008dbe7529e4ce55dcc2e6514c58c53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:21 +0000
Subject: [PATCH 12/63] fix: Fano model did not check its quantity and unit

---
 src/dispersion/spectral_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index aed0777..260a0f9 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -693,11 +693,15 @@ class Fano(Model):
     requires energy input in eV
     returns real and imaginary parts of scattering cross section
     '''
-    def input_output(self):
-        """defines the required inputs and the output spectrum type"""
+    def __init__(self, model_parameters, valid_range,
+                 spectrum_type='wavelength', unit='m'):
+        super(Fano, self).__init__(model_parameters, valid_range,
+                                   spectrum_type=spectrum_type,
+                                   unit=unit)
         self.required_spectrum_type = 'energy'
         self.required_unit = 'ev'
         self.output = 'scattering_cross_setion'
+        self.validate_spectrum_type()
 
     def evaluate(self, spectrum):
         """returns the value of the spectral data for the given spectrum"""
-- 
2.43.0


From 54b094f0ea28e727b7514594d81bf601504938ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:22 +0000
Subject: [PATCH 13/63] fix: tabulated_n_alpha could not be used

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7cfe8ed..1fff7ea 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -217,7 +217,7 @@ class Material():
         if inputs['tabulated_nk'] is not None:
             _check_table_shape(inputs['tabulated_nk'], 3, 'nk')
         if inputs['tabulated_n_alpha'] is not None:
-            _check_table_shape(inputs['tabulated_nk'], 3, 'n_alpha')
+            _check_table_shape(inputs['tabulated_n_alpha'], 3, 'n_alpha')
         if inputs['tabulated_n'] is not None:
             _check_table_shape(inputs['tabulated_n'], 2, 'n')
         if inputs['tabulated_eps'] is not None:
-- 
2.43.0


From df5b49a258f3b2a6fd28f6338c090f4ec268ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:24 +0000
Subject: [PATCH 14/63] fix: requested interpolation order was ignored

---
 src/dispersion/material.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 1fff7ea..8646a68 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -115,7 +115,7 @@ class Material():
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':parsed_args["interp_order"]}
+        self.options = {'interp_order':parsed_args["interp_order"]}
         self.defaults = {'unit':parsed_args["unit"],
                          'spectrum_type':parsed_args["spectrum_type"]}
         #process input arguments
@@ -190,11 +190,11 @@ class Material():
             inputs['spectrum_type'] = 'wavelength'
         if inputs['unit'] is None:
             inputs['unit'] = 'nanometer'
-        if 'interp_order' not in inputs:
+        if inputs.get('interp_order') is None:
             inputs['interp_order'] = 1
         # pylint: disable=no-member
         # bug in pylint does not recognise numpy data types
-        int_args = {'interp_oder'}
+        int_args = {'interp_order'}
         int_types = {int}
         self._check_type(inputs, int_args, int_types)
 
@@ -516,7 +516,8 @@ class Material():
                             spectrum_type=spec_type, unit=unit)
 
         return Interpolation(data, spectrum_type=spec_type,
-                             unit=unit)
+                             unit=unit,
+                             interp_order=self.options['interp_order'])
 
     def _process_formula_data(self, data_dict):
         '''prepare dictionary of data for processing.
@@ -913,7 +914,7 @@ class EffectiveMedium(Material):
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':1}
+        self.options = {'interp_order':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
         self.spectrum = spectrum
-- 
2.43.0


From 3e58f06afe8b072562c52f260fb1918a8b578cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:26 +0000
Subject: [PATCH 15/63] fix: valid range of complex data was not converted to
 wavelength

---
 src/dispersion/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 8646a68..4fee960 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -689,8 +689,8 @@ class Material():
             lower = np.max([real_lower, imag_lower])
             upper = np.min([real_upper, imag_upper])
         else:
-            lower = np.min(self.data['complex'].valid_range.values)
-            upper = np.max(self.data['complex'].valid_range.values)
+            lower = np.min(self.data['complex'].valid_range.standard_rep)
+            upper = np.max(self.data['complex'].valid_range.standard_rep)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
         return spec.convert_to(self.defaults['spectrum_type'],
-- 
2.43.0


From e7906c9a9ce256e114afa4eb5ea9fec13ec88030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:28 +0000
Subject: [PATCH 16/63] fix: valid range was returned upside down for
 reciprocal quantities

---
 src/dispersion/material.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 4fee960..10403c7 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -693,8 +693,12 @@ class Material():
             upper = np.max(self.data['complex'].valid_range.standard_rep)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
-        return spec.convert_to(self.defaults['spectrum_type'],
-                               self.defaults['unit'])
+        valid_range = spec.convert_to(self.defaults['spectrum_type'],
+                                      self.defaults['unit'])
+        if spec.check_type(self.defaults['spectrum_type'], 'wavelength'):
+            return valid_range
+        # all other quantities are reciprocal to wavelength
+        return valid_range[::-1]
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From 86cbd785ec539af58dadb6d2d5c0a94871191507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:30 +0000
Subject: [PATCH 17/63] fix: singular Maxwell-Garnett media were not detected

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 10403c7..4bb88bf 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -959,7 +959,7 @@ class MaxwellGarnett(EffectiveMedium):
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         factor_up = 2*(1-self.frac)*eps_base+(1+2*self.frac)*eps_incl
         factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl
-        if np.any(abs(factor_down)) < small_number_cutoff:
+        if np.any(abs(factor_down) < small_number_cutoff):
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
         self.spectrum.convert_to("wavelength", 'm', in_place=True)
-- 
2.43.0


From 30b300575aa8dfbf0f8cf7be229e378c535f3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:32 +0000
Subject: [PATCH 18/63] fix: effective media converted the caller's spectrum in
 place

---
 src/dispersion/material.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 4bb88bf..7e52656 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -944,8 +944,8 @@ class Simple(EffectiveMedium):
         eps_base = self.mat1.get_permittivity(self.spectrum)
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         eps_eff = eps_base*(1-self.frac) + eps_incl*(self.frac)
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -962,8 +962,8 @@ class MaxwellGarnett(EffectiveMedium):
         if np.any(abs(factor_down) < small_number_cutoff):
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
@@ -982,8 +982,8 @@ class Bruggeman(EffectiveMedium):
         eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
-        self.spectrum.convert_to("wavelength", 'm', in_place=True)
-        table = np.vstack([[self.spectrum.values],
+        wavelengths = self.spectrum.convert_to("wavelength", 'm')
+        table = np.vstack([[wavelengths],
                                 [np.real(eps_eff)],
                                 [np.imag(eps_eff)]]).T
         self._process_table(table, "eps")
-- 
2.43.0


From 7397648ff88ecc7c52e870065032e28a4f6ecb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:34 +0000
Subject: [PATCH 19/63] fix: effective media had no meta data

---
 src/dispersion/material.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7e52656..6e430da 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -101,15 +101,7 @@ class Material():
         #set inputs and defaults
         file_path = parsed_args["file_path"]
         #self.meta_data = None
-        self.meta_data = {}
-        self.meta_data['Reference'] = ""
-        self.meta_data['Comment'] = ""
-        self.meta_data['Name'] = ""
-        self.meta_data['FullName'] = ""
-        self.meta_data['Author'] = ""
-        self.meta_data['Alias'] = ""
-        self.meta_data['MetaComment'] = ""
-        self.meta_data['Specification'] = {}
+        self._set_default_meta_data()
         self._file_data = None
         self.data = {'name': "",
                      'real': None,
@@ -138,6 +130,20 @@ class Material():
 
         self._complete_partial_data()
 
+    def _set_default_meta_data(self):
+        """
+        initialise all meta data fields as empty
+        """
+        self.meta_data = {}
+        self.meta_data['Reference'] = ""
+        self.meta_data['Comment'] = ""
+        self.meta_data['Name'] = ""
+        self.meta_data['FullName'] = ""
+        self.meta_data['Author'] = ""
+        self.meta_data['Alias'] = ""
+        self.meta_data['MetaComment'] = ""
+        self.meta_data['Specification'] = {}
+
     def __eq__(self, other):
         """
         equality theck is very superficial, it just checks if the meta data
@@ -914,6 +920,8 @@ class Material():
 class EffectiveMedium(Material):
 
     def __init__(self, spectrum, material1, material2, filling_fraction):
+        self._set_default_meta_data()
+        self._file_data = None
         self.data = {'name': "",
                      'real': None,
                      'imag': None,
-- 
2.43.0


From 3302874c9dea0ee24616eb1bf8bc39530e28af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:11 +0000
Subject: [PATCH 20/63] fix: materials with complex data could not be prepared
 for writing

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 6e430da..84cfe22 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -867,7 +867,7 @@ class Material():
         if self.data['complex'] is None:
             data_parts = ['real', 'imag']
         else:
-            data_parts = 'complex'
+            data_parts = ['complex']
 
 
         for data_part in data_parts:
-- 
2.43.0


From 0df0d81a714d66ced3722794ec14169d9ddb1c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:13 +0000
Subject: [PATCH 21/63] fix: written permittivity tables could not be read back

---
 src/dispersion/material.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 84cfe22..22ee453 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -495,6 +495,12 @@ class Material():
             self.data['name'] = 'eps'
             self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
             self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
+        elif identifier == 'eps_r':
+            self.data['name'] = 'eps'
+            self.data['real'] = self._spec_data_from_table(table)
+        elif identifier == 'eps_i':
+            self.data['name'] = 'eps'
+            self.data['imag'] = self._spec_data_from_table(table)
 
 
     def _spec_data_from_table(self, data):
@@ -840,7 +846,7 @@ class Material():
             if data_part == 'real':
                 dtype += " eps_r"
             elif data_part == 'imag':
-                dtype += ' eps_k'
+                dtype += ' eps_i'
             elif data_part == 'complex':
                 dtype += ' eps'
         else:
@@ -885,10 +891,10 @@ class Material():
     def collapse_datasets(self, datasets):
         n_collapsable = 0
         for dataset in datasets:
-            if dataset['DataType'] == 'tabulated n':
+            if dataset['DataType'] in {'tabulated n', 'tabulated eps_r'}:
                 n_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
-            if dataset['DataType'] == 'tabulated k':
+            if dataset['DataType'] in {'tabulated k', 'tabulated eps_i'}:
                 k_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
 
@@ -911,7 +917,7 @@ class Material():
         new_dataset = {}
         new_dataset['Unit'] = datasets[0]['Unit']
         new_dataset['SpectrumType'] = datasets[0]['SpectrumType']
-        new_dataset['DataType'] = 'tabulated nk'
+        new_dataset['DataType'] = self.add_dtype_suffix('tabulated', 'complex')
         k_data = k_data[:, 1].reshape(k_data.shape[0], 1)
         new_data = np.concatenate([n_data, k_data], axis=1)
         new_dataset['Data'] = _numeric_to_string_table(new_data)
-- 
2.43.0


From d2d961fe2d2d53a17f5e05b5d43b0d3808499c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:16 +0000
Subject: [PATCH 22/63] fix: tables of unknown kind were silently ignored

---
 src/dispersion/material.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 22ee453..1d6bea9 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -501,6 +501,9 @@ class Material():
         elif identifier == 'eps_i':
             self.data['name'] = 'eps'
             self.data['imag'] = self._spec_data_from_table(table)
+        else:
+            raise ValueError("tabulated data of " +
+                             "kind {} not supported".format(identifier))
 
 
     def _spec_data_from_table(self, data):
-- 
2.43.0


From 58e10cb8a08053c6c90165d8ba4086645fa27996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:18 +0000
Subject: [PATCH 23/63] fix: refused extrapolation left the material partly
 extrapolated

---
 src/dispersion/material.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 1d6bea9..56ed46b 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -298,12 +298,14 @@ class Material():
         """
 
         if self.data['complex'] is None:
+            extrapolated = {}
             for data_name in ['real', 'imag']:
                 if isinstance(self.data[data_name], Constant):
                     continue
-                self.data[data_name] = Extrapolation(self.data[data_name],
-                                                     new_spectrum,
-                                                     spline_order=spline_order)
+                extrapolated[data_name] = Extrapolation(self.data[data_name],
+                                                        new_spectrum,
+                                                        spline_order=spline_order)
+            self.data.update(extrapolated)
         else:
             raise NotImplementedError("extrapolation not implemented " +
                                       "for materials with real and imaginary "+
-- 
2.43.0


From 553eee39841cae40de7408e3ab18a454b923f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:50 +0000
Subject: [PATCH 24/63] fix: comparing materials failed or depended on the
 direction when meta data fields differ

---
 src/dispersion/material.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 56ed46b..2c14b46 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -152,10 +152,8 @@ class Material():
         if not isinstance(other, Material):
             return False
 
-        for meta_data_key, meta_data_value in self.meta_data.items():
-            meta_data_value_other = other.meta_data[meta_data_key]
-            if not meta_data_value == meta_data_value_other:
-                return False
+        if not self.meta_data == other.meta_data:
+            return False
 
         if not self.data['name'] == other.data['name']:
             return False
@@ -439,6 +437,7 @@ class Material():
         self.meta_data['Name'] = file_dict['MetaData']['Name']
         self.meta_data['FullName'] = file_dict['MetaData']['FullName']
         self.meta_data['Author'] = file_dict['MetaData']['Author']
+        self.meta_data['Alias'] = ""
         self.meta_data['MetaComment'] = file_dict['MetaData']['MetaComment']
         self.meta_data['Specification'] = file_dict['MetaData']['Specification']
         datasets = file_dict['Datasets']
-- 
2.43.0


From 6bfd9a5a39f2206b1b45354bddd8f2d84b6b16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:52 +0000
Subject: [PATCH 25/63] fix: model name could select any class imported by
 spectral_data

---
 src/dispersion/material.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 2c14b46..98d1fac 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -424,9 +424,10 @@ class Material():
             identifier = getattr(spectral_data, field)
         except AttributeError:
             raise NameError("%s doesn't exist." % field)
-        if isinstance(identifier, type):
+        if (isinstance(identifier, type) and
+                issubclass(identifier, spectral_data.SpectralData)):
             return identifier
-        raise TypeError("%s is not a class." % field)
+        raise TypeError("%s is not a spectral data class." % field)
 
     def _process_file_data(self, file_dict):
         """set meta_data and data from dictionary"""
-- 
2.43.0


From 4a338f404358d3cbb866c86be03170c5ef11742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:55 +0000
Subject: [PATCH 26/63] fix: tables of different length could not be written

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 98d1fac..620f3fd 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -907,7 +907,7 @@ class Material():
             return datasets
 
         collapse = True
-        if not np.all(n_data[:, 0] == k_data[:, 0]):
+        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
             collapse = False
 
         if datasets[0]['Unit'] != datasets[1]['Unit']:
-- 
2.43.0


From 6cd44d0a98cd891485d27c5ab7e1a24f6c2f1fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:57 +0000
Subject: [PATCH 27/63] fix: non-monotonic tables were never repaired

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f9017bc..f448230 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -91,7 +91,7 @@ def _str_table_to_numeric(table):
     else:
         raise TypeError("table of type " +
                         "{} cannot be parsed".format(type(table)))
-    if validate_table(numeric_table) is False:
+    if not validate_table(numeric_table):
         numeric_table = fix_table(numeric_table)
     return numeric_table
 
-- 
2.43.0


From f274182c2c6e32142a5568c4be76e2a06ff17424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:00 +0000
Subject: [PATCH 28/63] fix: tables and parameters lost rows and digits when
 converted to text

---
 src/dispersion/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f448230..48c6b66 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -62,7 +62,10 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(table)
+    string_array = np.array2string(np.asarray(table),
+                                   threshold=sys.maxsize,
+                                   max_line_width=sys.maxsize,
+                                   floatmode='unique')
     no_brackets = re.sub(r'[\[\]]', '', string_array)
     no_indent = re.sub(r'\n ', r"\n", no_brackets)
     no_indent = no_indent.rstrip().lstrip()
-- 
2.43.0


From d8fc70ffad86003ed2924339b7c7fac2fe70a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:34 +0000
Subject: [PATCH 29/63] fix: text files were written with a fixed number of
 decimals

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 48c6b66..d1d1f3d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -662,7 +662,7 @@ class Writer():
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
-                   fmt="%.8f")
+                   fmt="%s")
 
 
     def _write_yaml_file(self):
-- 
2.43.0


From 3f57f69606ba592260f04a7229d96f3e9b73aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:36 +0000
Subject: [PATCH 30/63] fix: text files were not written as utf-8

---
 src/dispersion/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index d1d1f3d..339e411 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -662,6 +662,7 @@ class Writer():
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
+                   encoding='utf-8',
                    fmt="%s")
 
 
-- 
2.43.0


From 8cee457f2b2e762c0119588bbd2ff621ad45e4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:38 +0000
Subject: [PATCH 31/63] fix: .nk files could not be written

---
 src/dispersion/io.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 339e411..fcd669f 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -217,7 +217,7 @@ def print_yaml_string(dict_like):
     else:
         print(yaml.dump(dict_like))
 
-def prepend_text_to_file(file_path, text, extra_line=False):
+def prepend_text_to_file(file_path, text, extra_line=False, mark="#"):
     """
     read information from a file and rewrite with text prepended
     """
@@ -226,8 +226,8 @@ def prepend_text_to_file(file_path, text, extra_line=False):
 
     with open(file_path, 'w', encoding='utf8') as fpt:
         text = text.rstrip('\n\r')
-        text = text.replace("\n", "\n#")
-        text = "#" + text
+        text = text.replace("\n", "\n" + mark)
+        text = mark + text
         text += "\n"
         if extra_line:
             text += "\n"
@@ -610,7 +610,8 @@ class Writer():
         if self.extension in txt_types:
             self._write_text_file()
             if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment)
+                mark = ";" if self.extension == '.nk' else "#"
+                prepend_text_to_file(self.file_path, meta_comment, mark=mark)
         elif self.extension == '.yml':
             self._write_yaml_file()
             if not meta_comment == "":
@@ -657,11 +658,14 @@ class Writer():
             delimiter = "\t"
         elif self.extension == '.csv':
             delimiter = ","
+        elif self.extension == '.nk':
+            delimiter = "\t"
         data = multi_key(data_dict, {'data', 'Data'})
         data = _str_table_to_numeric(data)
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
+                   comments='; ' if self.extension == '.nk' else '# ',
                    encoding='utf-8',
                    fmt="%s")
 
-- 
2.43.0


From 4ecdcc5f002d36bf24050f0e983681f25bf37b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:41 +0000
Subject: [PATCH 32/63] fix: meta comment of text files did not survive writing
 and reading

---
 src/dispersion/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index fcd669f..b170c2d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -411,7 +411,7 @@ class Reader():
                     multi_line_comment += line + "\n"
 
         if multi_line_comment != "":
-            file_dict['MetaData']['MetaComment'] = multi_line_comment
+            file_dict['MetaData']['MetaComment'] = multi_line_comment[:-1]
         dataset = file_dict['Datasets'][0]
 
         if dataset['DataType'] == "":
@@ -647,7 +647,7 @@ class Writer():
         unit = multi_key(data_dict, {'unit', 'Unit'})
         header += "UNIT: {}\n".format(unit)
         dtype = multi_key(data_dict, {'type', 'DataType'})
-        header += "DATATYPE: {}\n".format(dtype)
+        header += "DATATYPE: {}".format(dtype)
         # dtype = multi_key(data_dict,{'type','DataType'})
         # if dtype not in {'tabulated_nk', 'tabulated_n'}:
         #     raise NotImplementedError("writing data to text file only"+
-- 
2.43.0


From c6467ca025e36e5ba9fa0985fc52fa007492fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 33/63] fix: last character of a yaml meta comment was lost

---
 src/dispersion/io.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index b170c2d..4304fed 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -432,7 +432,6 @@ class Reader():
         file_dict = dict(self.default_file_dict)
         file_dict = self._process_mat_dict(file_dict, yaml_data)
         mcomment = "\n".join(self._read_text_comment())
-        mcomment = mcomment[:-1]
         file_dict['MetaData']['MetaComment'] = mcomment
         return file_dict
 
-- 
2.43.0


From 9060a749485671357fa8b72b3b39ecbce6be9ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:06 +0000
Subject: [PATCH 34/63] fix: text files silently dropped all but the first
 dataset

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 4304fed..4b4cd47 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -639,6 +639,9 @@ class Writer():
         #         header += "{}: {}\n".format(item[1], self.file_dict[item[0]])
         if len(self.file_dict['Datasets']) < 1:
             raise ValueError("no datasets present in the file dict")
+        for dataset in self.file_dict['Datasets'][1:]:
+            if dataset.get('Value') != 0.0:
+                raise ValueError("text files can only hold one dataset")
         data_dict = self.file_dict["Datasets"][0]
 
         spec_type = multi_key(data_dict, {'spectrum_type', 'SpectrumType'})
-- 
2.43.0


From d708e5ed58410bd8d08d12118cd496c5d3428a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:08 +0000
Subject: [PATCH 35/63] fix: additional meta data was written with the value of
 another field

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 4b4cd47..c3324ac 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -700,8 +700,8 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            md = self.file_dict['MetaData'][key]
             if key in Writer.KEY_ALIASES:
-                md = self.file_dict['MetaData'][key]
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
             else:
                 yaml_dict[key] = md
-- 
2.43.0


From 02eacfd7a7c2b4b5bde08393f9388f22e4e8af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:10 +0000
Subject: [PATCH 36/63] fix: specifications without predefined order were not
 written

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index c3324ac..673766c 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -745,6 +745,9 @@ class Writer():
                 for key, val in specs.items():
                     if spec_key == key:
                         yaml_spec[spec_key] = val
+            for key, val in specs.items():
+                if key not in spec_order:
+                    yaml_spec[key] = val
             yaml_dict['SPECS'] = yaml_spec
 
         write_yaml_file(self.file_path, yaml_dict)
-- 
2.43.0


From b5408d66d5369b704bf51dafa32c39bdb7d466a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:13 +0000
Subject: [PATCH 37/63] fix: a material could only be written once with the
 same writer

---
 src/dispersion/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 673766c..29547b2 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -603,7 +603,7 @@ class Writer():
         """
         self.ignore_constant = ignore_constant
         self.use_rii_aliases = use_rii_aliases
-        meta_comment = self.file_dict['MetaData'].pop('MetaComment')
+        meta_comment = self.file_dict['MetaData']['MetaComment']
         #raise NotImplementedError("writing material files not yet implemented")
         txt_types = {'.txt', '.csv', '.nk'}
         if self.extension in txt_types:
@@ -700,6 +700,8 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            if key == 'MetaComment':
+                continue
             md = self.file_dict['MetaData'][key]
             if key in Writer.KEY_ALIASES:
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
-- 
2.43.0


From 3622596345ddf197137339ce550a32c2e51a2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:15 +0000
Subject: [PATCH 38/63] fix: refractiveindex.info formula names were never used

---
 src/dispersion/io.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 29547b2..96fa105 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -570,15 +570,15 @@ class Writer():
                    "DataType": "type",
                    "Parameters": "coefficients",
                    "Data":"data",
-                   "Model:Sellmeier":"formula 1",
-                   "Model:Sellmeier2":"formula 2",
-                   "Model:Polynomial":"formula 3",
-                   "Model:RefractiveIndexInfo":"formula 4",
-                   "Model:Cauchy":"formula 5",
-                   "Model:Gases":"formula 6",
-                   "Model:Herzberger":"formula 7",
-                   "Model:Retro":"formula 8",
-                   "Model:Exotic":"formula 9"}
+                   "model Sellmeier":"formula 1",
+                   "model Sellmeier2":"formula 2",
+                   "model Polynomial":"formula 3",
+                   "model RefractiveIndexInfo":"formula 4",
+                   "model Cauchy":"formula 5",
+                   "model Gases":"formula 6",
+                   "model Herzberger":"formula 7",
+                   "model Retro":"formula 8",
+                   "model Exotic":"formula 9"}
 
     DATA_META_DATA_KEYS = ['Reference', 'Author',
                            'FullName', 'Name', 'Comment']
-- 
2.43.0


From 1f987f0480c81e194d8711a08e3c0ffc96423851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:17 +0000
Subject: [PATCH 39/63] fix: text tables with a single row could not be read

---
 src/dispersion/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 96fa105..379935e 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -329,24 +329,24 @@ class Reader():
         try:
             if ext == '.txt':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8')
+                    data = np.loadtxt(self.file_path, ndmin=2, encoding='utf-8')
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt)
+                        data = np.loadtxt(fpt, ndmin=2)
             elif ext == '.csv':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8',
+                    data = np.loadtxt(self.file_path, ndmin=2, encoding='utf-8',
                                       delimiter=',')
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt,delimiter=',')
+                        data = np.loadtxt(fpt, ndmin=2, delimiter=',')
             elif ext == '.nk':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8',
+                    data = np.loadtxt(self.file_path, ndmin=2, encoding='utf-8',
                                       comments=';')
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt, comments=';')
+                        data = np.loadtxt(fpt, ndmin=2, comments=';')
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
-- 
2.43.0


From efad4aaf90a303f6572bb6c8e178a9ed2a0d9113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:37 +0000
Subject: [PATCH 40/63] fix: malformed yaml files were read again from the
 middle instead of being refused

---
 src/dispersion/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 379935e..8f10437 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -148,7 +148,7 @@ def read_yaml_file(file_path):
         else:
             try:
                 yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)
-            except:
+            except AttributeError:
                 yaml_data = yaml.safe_load(fpt)
     return yaml_data
 
@@ -180,7 +180,7 @@ def read_yaml_string(string_data):
     else:
         try:
             yaml_data = yaml.load(string_data, Loader=yaml.FullLoader)
-        except:
+        except AttributeError:
             yaml_data = yaml.safe_load(string_data)
     return yaml_data
 
-- 
2.43.0


From 2c064f8cfddbb9087ad32f309ce1cee5c085ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:39 +0000
Subject: [PATCH 41/63] fix: keywords of yaml files had to be upper case

---
 src/dispersion/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 8f10437..58869a5 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -451,9 +451,8 @@ class Reader():
         dict
             the updated file_dict
         """
-        for kwd in yaml_dict:
+        for kwd, arg in yaml_dict.items():
             kwd = kwd.upper()
-            arg = yaml_dict[kwd]
             valid = False
             if kwd == 'DATA':
                 valid = True
-- 
2.43.0


From 42082f0a8f93c4b425877449cc769d07406ef972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:42 +0000
Subject: [PATCH 42/63] fix: checking a file name could truncate a file outside
 the temporary directory

---
 src/dispersion/io.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 58869a5..0306911 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -241,17 +241,15 @@ def valid_file_name(filename):
     create a file with the filename in a temporary directory and delete the
     directory afterwards.
     """
+    if os.path.basename(filename) != filename:
+        return False
     with tempfile.TemporaryDirectory() as temp_dir:
         file_path = os.path.join(temp_dir, filename)
         try:
-            open(file_path, 'r')
-            return True
-        except IOError:
-            try:
-                open(file_path, 'w')
+            with open(file_path, 'w'):
                 return True
-            except IOError:
-                return False
+        except IOError:
+            return False
 
 
 class Reader():
-- 
2.43.0


From 68f5282270965480b0fa0896855ba3f4fd5bfb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:53 +0000
Subject: [PATCH 43/63] fix: package could not be imported when ~/.config does
 not exist

---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 62f561d..96c9572 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -83,7 +83,7 @@ def _get_user_config_dir():
         config_dir = os.path.join(home_dir, ".config",
                                   "dispersion")
     if not os.path.exists(config_dir):
-        os.mkdir(config_dir)
+        os.makedirs(config_dir)
     return config_dir
 
 def _get_package_dir():
-- 
2.43.0


From 67a97ddfd69357d2bb2d8dcfc7008d8fc51a7ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:54 +0000
Subject: [PATCH 44/63] fix: get_config raised instead of returning defaults
 without configuration file

---
 src/dispersion/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 96c9572..7d41625 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -146,7 +146,7 @@ def get_config():
     """
     try:
         config = read_config()
-    except OSError as exc:
+    except (OSError, ValueError) as exc:
         warn("No configuration file found, generating default config.")
         config = default_config()
     return config
-- 
2.43.0


From 9977a9b2e74fdc1c32a676800ddb0491ed441f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:57 +0000
Subject: [PATCH 45/63] fix: catalogue could not be built with pandas >= 2

---
 src/dispersion/catalogue.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 59aa090..36925a1 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -20,9 +20,6 @@ import os
 import warnings
 import numpy as np
 import pandas as pd
-ver = pd.__version__
-split = ver.split(".")
-PANDAS_MINOR_VERSION = int(split[1])
 
 from dispersion.material import Material
 from dispersion.spectrum import Spectrum
@@ -142,18 +139,12 @@ class Catalogue(object):
                     dir_path = os.path.join(self.base_path, db_path)
                     read_function = all_modules[module]
                     dframe = read_function(dir_path)
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    df_new = pd.concat([df_new, dframe], sort=False,
+                                       ignore_index=True)
                 else:
                     dframe = df[df.Module == module]
-                    if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
-                    else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                    df_new = pd.concat([df_new, dframe], sort=False,
+                                       ignore_index=True)
 
             else:
                 if rebuild == module:
-- 
2.43.0


From fb9e234326694865c912914bfaa5d76334c16dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:59 +0000
Subject: [PATCH 46/63] fix: disabled module in a list of modules to rebuild
 was not refused

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 36925a1..d5b56f3 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -147,7 +147,7 @@ class Catalogue(object):
                                        ignore_index=True)
 
             else:
-                if rebuild == module:
+                if module in rebuild:
                     raise ValueError("Tried to rebuild module" +
                                      "{}".format(rebuild) +
                                      ", however this module is disabled" +
-- 
2.43.0


From 57042a8f412e89823ecce0d5fd8ef4623b337790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:01 +0000
Subject: [PATCH 47/63] fix: aliases could not be registered with a row of the
 catalogue

---
 src/dispersion/catalogue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index d5b56f3..7f9c4ce 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -217,10 +217,11 @@ class Catalogue(object):
         """
         index = None
         if isinstance(row_id, pd.core.frame.DataFrame):
-            index = row_id.index
+            if row_id.shape[0] == 1:
+                index = row_id.index[0]
         elif isinstance(row_id, int):
             index = row_id
-        if index is None:
+        if index is None or index not in self.database.index:
             raise ValueError("row_id: {}".format(row_id) +
                              " with type {}".format(type(row_id)) +
                              " not understood")
-- 
2.43.0


From 5e73ed08c5ff432e16ee917fc22e9ca5e9ff55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:03 +0000
Subject: [PATCH 48/63] fix: alias lookup used the label of an entry as its
 position

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 7f9c4ce..ab7aae5 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -243,7 +243,7 @@ class Catalogue(object):
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-            row = self.database.iloc[row_index[0], :]
+            row = self.database.loc[row_index[0], :]
 
         elif isinstance(identifier, int):
             row = self.database.iloc[identifier, :]
-- 
2.43.0


From eeb0ed9ca80eb0acc76de0f3f56821a23f128e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:06 +0000
Subject: [PATCH 49/63] fix: catalogue recorded range bounds under a unit they
 are not given in

---
 src/dispersion/catalogue.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index ab7aae5..cc1b374 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -349,8 +349,8 @@ class Catalogue(object):
                                 "Author":page['PAGE'],
                                 "Path":os.path.normpath(rel_path),
                                 "Module":"RefractiveIndexInfo"}
-                content_dict['SpectrumType'] = 'wavelength'
-                content_dict['Unit'] = 'micrometer'
+                content_dict['SpectrumType'] = mat.defaults['spectrum_type']
+                content_dict['Unit'] = mat.defaults['unit']
                 valid_range = mat.get_maximum_valid_range()
                 content_dict['SpectrumLowerBound'] = valid_range[0]
                 content_dict['SpectrumUpperBound'] = valid_range[1]
@@ -400,8 +400,8 @@ class Catalogue(object):
             content_dict['Module'] = database_name
             content_dict['Comment'] = mat.meta_data['Comment']
             content_dict['Reference'] = mat.meta_data['Reference']
-            content_dict['SpectrumType'] = "wavelength"
-            content_dict['Unit'] = 'nanometer'
+            content_dict['SpectrumType'] = mat.defaults['spectrum_type']
+            content_dict['Unit'] = mat.defaults['unit']
             valid_range = mat.get_maximum_valid_range()
             content_dict['SpectrumLowerBound'] = valid_range[0]
             content_dict['SpectrumUpperBound'] = valid_range[1]
-- 
2.43.0


From 8c338f870cb39e221a5529ac519e0b97cfab7800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:08 +0000
Subject: [PATCH 50/63] fix: setup failed when the chosen root directory does
 not exist

---
 src/dispersion/scripts/setup_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0e1832d..0ac8ba1 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -108,7 +108,7 @@ def install_modules(conf):
         if install:
             module_dir = os.path.join(conf['Path'], module)
             if not os.path.isdir(module_dir):
-                os.mkdir(module_dir)
+                os.makedirs(module_dir)
             success = install_funcs[module](module_dir)
             if success is False:
                 conf['Modules'][module] = success
-- 
2.43.0


From ff5ae2527998ac933f944d6959d71c7be62f55da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:10 +0000
Subject: [PATCH 51/63] fix: setup disabled refractiveindex.info databases with
 the current file layout

---
 src/dispersion/scripts/setup_dispersion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0ac8ba1..0191052 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -193,7 +193,9 @@ def install_rii(module_dir, ask_confirm=True):
                           " refractive index info module will be disabled")
             return False
         database_file = os.path.join(database_dir, "library.yml")
-        if not os.path.isfile(database_file):
+        catalog_file = os.path.join(database_dir, "catalog-nk.yml")
+        if not (os.path.isfile(database_file) or
+                os.path.isfile(catalog_file)):
             warnings.warn("library file for refractive index info module"+
                           " not present: {}".format(database_file) +
                           " refractive index info module will be disabled")
-- 
2.43.0


From b79f0121acf345d8a5d51d47fad12b0956a12ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 52/63] fix: model files with a single coefficient could not be
 read

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 620f3fd..a3c0df4 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -558,7 +558,7 @@ class Material():
             valid_range[i_valid_range] = float(v_range)
         model_dict['valid_range'] = valid_range
 
-        coefficients = data_dict['Data'].split()
+        coefficients = str(data_dict['Data']).split()
         for iter_coeff, coeff in enumerate(coefficients):
             coefficients[iter_coeff] = float(coeff)
         model_dict['parameters'] = np.array(coefficients)
-- 
2.43.0


From 7b1cf919b3c1860d5b066643e311a311ad0c0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:34 +0000
Subject: [PATCH 53/63] fix: default configuration broken for user directories
 with YAML special characters

---
 src/dispersion/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 7d41625..e434d1e 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -59,7 +59,7 @@ def default_config():
         the tree of configuration data
     """
     yaml_str = """\
-    Path: {}
+    Path: ""
     File: catalogue.csv
     Interactive: false #for jupyter interfactive editing
     WarnMissingPackages: False # raise warnings if non-essential packages are missing
@@ -70,8 +70,9 @@ def default_config():
       Value: 632.8
       SpectrumType: wavelength
       Unit: nanometer
-    """.format(_get_user_config_dir())
+    """
     config = read_yaml_string(yaml_str)
+    config['Path'] = _get_user_config_dir()
     return config
 
 def _get_user_config_dir():
-- 
2.43.0


From d4f13af8633de627005955ae35f66c28c6f56eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:30 +0000
Subject: [PATCH 54/63] fix: conversion to a spectrum's own unit changed its
 values

rounding (or the floating point error of the round trip) made tables reject
their own first or last spectral value
---
 src/dispersion/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index b97a0ea..8879c62 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -312,7 +312,11 @@ class Spectrum(object):
                            'wavenumber': to_wavenumber,
                            'wavelength': to_wavelength}
 
-        converted_values = convert_methods[spectrum_type](unit, values)
+        if spectrum_type == self.spectrum_type and unit == self.unit:
+            # no round trip, it would not return exactly the same numbers
+            converted_values = np.copy(self.values)[()]
+        else:
+            converted_values = convert_methods[spectrum_type](unit, values)
         if in_place:
             self.values = converted_values
             self.spectrum_type = spectrum_type
-- 
2.43.0


From d0199d332dc16d78db0a10c154593e83e7d7d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:58 +0000
Subject: [PATCH 55/63] fix: reported valid range was rounded beyond the range
 of the data

the sample spectrum could therefore not be evaluated or plotted
---
 src/dispersion/material.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index a3c0df4..b8ab2da 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -697,25 +697,15 @@ class Material():
                                " a valid n/k or permittivity spectrum")
 
         if self.data['complex'] is None:
-            real_range_std = self.data['real'].valid_range.standard_rep
-            imag_range_std = self.data['imag'].valid_range.standard_rep
-            real_lower = np.min(real_range_std)
-            real_upper = np.max(real_range_std)
-            imag_lower = np.min(imag_range_std)
-            imag_upper = np.max(imag_range_std)
-            lower = np.max([real_lower, imag_lower])
-            upper = np.min([real_upper, imag_upper])
+            parts = [self.data['real'], self.data['imag']]
         else:
-            lower = np.min(self.data['complex'].valid_range.standard_rep)
-            upper = np.max(self.data['complex'].valid_range.standard_rep)
-        max_range = np.array([lower, upper])
-        spec = Spectrum(max_range)
-        valid_range = spec.convert_to(self.defaults['spectrum_type'],
-                                      self.defaults['unit'])
-        if spec.check_type(self.defaults['spectrum_type'], 'wavelength'):
-            return valid_range
-        # all other quantities are reciprocal to wavelength
-        return valid_range[::-1]
+            parts = [self.data['complex']]
+        ranges = [part.valid_range.convert_to(self.defaults['spectrum_type'],
+                                              self.defaults['unit'])
+                  for part in parts]
+        lower = np.max([np.min(part_range) for part_range in ranges])
+        upper = np.min([np.max(part_range) for part_range in ranges])
+        return np.array([lower, upper])
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From 003900afaef0a7ea3e4f1b7088825ed4acb1572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:00 +0000
Subject: [PATCH 56/63] fix: sample spectrum was evaluated after being rounded
 for plotting

plotting in another unit raised an error for values outside the valid range
---
 src/dispersion/material.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index b8ab2da..625f2ca 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -745,10 +745,10 @@ class Material():
         else:
             plot_data['axes'] = kwargs['axes']
         if data_label == 'nk':
-            data = self.get_nk_data(plot_data['spectrum'])
+            data = self.get_nk_data(plot_data['sample'])
             labels = ['n', 'k']
         elif data_label == 'permittivity':
-            data = self.get_permittivity(plot_data['spectrum'])
+            data = self.get_permittivity(plot_data['sample'])
             labels = ['eps_r', 'eps_i']
 
         data_r = np.real(data)
@@ -783,9 +783,9 @@ class Material():
         else:
             plot_data['unit'] = kwargs['unit']
         if 'values' not in kwargs:
-            spectrum = self.get_sample_spectrum()
-            values = spectrum.convert_to(plot_data['spectrum_type'],
-                                         plot_data['unit'])
+            sample = self.get_sample_spectrum()
+            values = sample.convert_to(plot_data['spectrum_type'],
+                                       plot_data['unit'])
 
 
         else:
@@ -796,6 +796,8 @@ class Material():
                             spectrum_type=plot_data['spectrum_type'],
                             unit=plot_data['unit'])
         plot_data['spectrum'] = spectrum
+        # conversion may round the sample out of the valid range
+        plot_data['sample'] = spectrum if 'values' in kwargs else sample
         return plot_data
 
     def get_sample_spectrum(self):
-- 
2.43.0


From 948f5001d4dd3aa2ce200462e49f45e91f288303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:03 +0000
Subject: [PATCH 57/63] fix: data could not be plotted for a single spectral
 value

---
 src/dispersion/material.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 625f2ca..a29746c 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -758,11 +758,12 @@ class Material():
         axes = plot_data['axes']
         plt.sca(axes)
         spectrum = plot_data['spectrum']
-        if spectrum.values.size == 1:
-            color = next(axes._get_lines.prop_cycler)['color']
-            plt.axhline(data_r, label=labels[0], color=color)
-            color = next(axes._get_lines.prop_cycler)['color']
-            plt.axhline(data_i, label=labels[1], ls='--', color=color)
+        if np.size(spectrum.values) == 1:
+            color = axes._get_lines.get_next_color()
+            plt.axhline(np.ravel(data_r)[0], label=labels[0], color=color)
+            color = axes._get_lines.get_next_color()
+            plt.axhline(np.ravel(data_i)[0], label=labels[1], ls='--',
+                        color=color)
         else:
             plt.plot(spectrum.values, data_r, label=labels[0])
             plt.plot(spectrum.values, data_i, ls='--', label=labels[1])
-- 
2.43.0


From 656f1b7cd9a3addba513dde0aa519c5114a26fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:59 +0000
Subject: [PATCH 58/63] fix: Bruggeman medium with gain had zero permittivity
 without passive solution

---
 src/dispersion/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index a29746c..4802141 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -991,7 +991,8 @@ class Bruggeman(EffectiveMedium):
         self.sol2 = solution2
         indices1 = np.imag(solution1) >= 0.0
         indices2 = np.imag(solution2) >= 0.0
-        eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
+        # media with gain may have no solution with positive imaginary part
+        eps_eff = np.array(solution1, dtype=np.cdouble)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
         wavelengths = self.spectrum.convert_to("wavelength", 'm')
-- 
2.43.0


From 7306e130b5b92e2a33fe05b3367754af2e0cb209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:34 +0000
Subject: [PATCH 59/63] fix: write_file(ignore_constant=False) writes constants
 after an earlier write ignored them

---
 src/dispersion/io.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 0306911..04ce69d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -680,14 +680,15 @@ class Writer():
                 pop_keys.append(key)
         for key in pop_keys:
             self.file_dict.pop(key)
-        pop_dataset = []
+        datasets = []
 
-        for ids, dataset in enumerate(self.file_dict['Datasets']):
+        for dataset in self.file_dict['Datasets']:
             if ("constant" in dataset['DataType'] and
                     self.ignore_constant):
-                pop_dataset.append(ids)
-        for pop_id in pop_dataset:
-            self.file_dict['Datasets'].pop(pop_id)
+                continue
+            datasets.append(dataset)
+        if len(datasets) < 1:
+            raise ValueError("no datasets left to write")
             # if isinstance(dataset['data'], np.ndarray):
             #     string_array = np.array2string(dataset['data'])
             #     no_brackets = re.sub(r'[\[\]]', '', string_array)
@@ -705,7 +706,7 @@ class Writer():
             else:
                 yaml_dict[key] = md
 
-        yaml_dict['DATA'] = self.file_dict['Datasets']
+        yaml_dict['DATA'] = datasets
 
 
         if self.use_rii_aliases:
-- 
2.43.0


From 482c584dbfe3693e0d3b3e53aa785811962a1136 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:13:42 +0000
Subject: [PATCH 60/63] fix: rows after an empty line of a YAML table were
 silently dropped

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 04ce69d..c69b8d7 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -84,7 +84,7 @@ def _str_table_to_numeric(table):
         numeric_table = []
         for row in table.split('\n'):
             if row.isspace() or row == "":
-                break
+                continue
             numeric_col = []
             for col in row.split():
                 numeric_col.append(float(col))
-- 
2.43.0


From 70b2d83a25232d36e435c6cb81d93027512fc95d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:13:42 +0000
Subject: [PATCH 61/63] fix: looking up an empty alias loaded an arbitrary
 entry without alias

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index cc1b374..ba2119b 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -239,7 +239,7 @@ class Catalogue(object):
             bool_array = self.database.Alias.values == identifier
             bool_list = bool_array.tolist()
             row_index = self.database.index[bool_list]
-            if row_index.size == 0:
+            if identifier == "" or row_index.size == 0:
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-- 
2.43.0


From 9226316b833889b6a1fb6bc4092ef6a25d9dd009 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:13:42 +0000
Subject: [PATCH 62/63] fix: printing reference or comment raised for YAML
 files with empty or numeric entries

---
 src/dispersion/material.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 4802141..d49adce 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -710,7 +710,9 @@ class Material():
     @staticmethod
     def utf8_to_ascii(string):
         """converts a string from utf8 to ascii"""
-        uni_str = codecs.encode(string, 'utf-8')
+        if string is None:
+            string = ""
+        uni_str = codecs.encode(str(string), 'utf-8')
         ascii_str = codecs.decode(uni_str, 'ascii', 'ignore')
         return ascii_str
 
-- 
2.43.0


From 85d4dfff3b334e32f369a69b4f3f556e6646e028 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:24:15 +0000
Subject: [PATCH 63/63] fix: a spectrum holding NaN was evaluated outside the
 valid range

---
 src/dispersion/spectrum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 8879c62..17fa709 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -233,6 +233,8 @@ class Spectrum(object):
             out_of_range = other_min
         elif other_max > self_max:
             out_of_range = other_max
+        elif np.isnan(other_max):
+            out_of_range = other_max
         if out_of_range is not None:
             dsu = self.display_string(self.unit)  # display string unit
             raise ValueError("evaluation requested for " +
-- 
2.43.0

