From ce18ee946ae3d2dd97d4dfe5ceb035cc8d47350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 1/8] fix: pass sfr_min of the rest-frame SED functions on to
 the age weights

---
 dsps/sed/ssp_weights.py | 7 +++++--
 dsps/sed/stellar_sed.py | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsps/sed/ssp_weights.py b/dsps/sed/ssp_weights.py
index 8a6c9c1..00e1665 100644
--- a/dsps/sed/ssp_weights.py
+++ b/dsps/sed/ssp_weights.py
@@ -10,6 +10,7 @@ import typing
 from jax import jit as jjit
 from jax import numpy as jnp
 
+from ..constants import SFR_MIN
 from .metallicity_weights import (
     calc_lgmet_weights_from_lgmet_table,
     calc_lgmet_weights_from_lognormal_mdf,
@@ -37,6 +38,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated SFH and a lognormal MDF
 
@@ -78,7 +80,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lognormal_mdf(
         gal_lgmet, gal_lgmet_scatter, ssp_lgmet
@@ -99,6 +101,7 @@ def calc_ssp_weights_sfh_table_met_table(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated star-formation and metallicity history
 
@@ -140,7 +143,7 @@ def calc_ssp_weights_sfh_table_met_table(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lgmet_table(
         gal_t_table,
diff --git a/dsps/sed/stellar_sed.py b/dsps/sed/stellar_sed.py
index 41aa983..8323c9c 100644
--- a/dsps/sed/stellar_sed.py
+++ b/dsps/sed/stellar_sed.py
@@ -111,6 +111,7 @@ def calc_rest_sed_sfh_table_lognormal_mdf(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
@@ -194,6 +195,7 @@ def calc_rest_sed_sfh_table_met_table(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
-- 
2.43.0


From b1ed4d0d53b9d74b53ed5f04f70d2f6bcf5a8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 2/8] fix: reject transmission curves that exceed unity

---
 dsps/data_loaders/load_filter_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 9ce126f..54a3d14 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -80,7 +80,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
 
         if transmission.min() < -TOL:
             raise ValueError(f"Negatively-valued transmission curve for {fn}")
-        elif transmission.min() > 1 + TOL:
+        elif transmission.max() > 1 + TOL:
             raise ValueError(f"transmission curve exceeds unity for {fn}")
         else:
             transmission = np.clip(transmission, 0.0, 1.0)
-- 
2.43.0


From 35c4c57bc26071b2d67f1c6ae61e37cc5dcce7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 3/8] fix: write SSP data without emission lines to disk

---
 scripts/write_fsps_data_to_disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/write_fsps_data_to_disk.py b/scripts/write_fsps_data_to_disk.py
index cb97ea1..fea1187 100644
--- a/scripts/write_fsps_data_to_disk.py
+++ b/scripts/write_fsps_data_to_disk.py
@@ -32,7 +32,7 @@ if __name__ == "__main__":
     with h5py.File(args.outname, "w") as hdf:
         for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
             hdf[key] = arr
-        if "ssp_emline_wave" in ssp_data._fields:
+        if ssp_data.ssp_emline_wave is not None:
             ssp_emline_name = list(ssp_data.ssp_emline_wave._fields)
             ssp_emline_wave = np.array(
                 [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
-- 
2.43.0


From 4c3bed04e015fb2d9b28fe3db04ceb21b521f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:09 +0000
Subject: [PATCH 4/8] fix: widths of integer-valued bins were truncated to
 integers

_jax_get_dt_array stored the widths in an array of the dtype of its input,
so integer times, ages or metallicities lost the half-integer part.
---
 dsps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/utils.py b/dsps/utils.py
index 640dd79..ca3ea7c 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -14,7 +14,7 @@ YEAR_PER_GYR = 1e9
 
 @jjit
 def _jax_get_dt_array(t):
-    dt = jnp.zeros_like(t)
+    dt = jnp.zeros_like(t, dtype=jnp.result_type(t, float))
     tmids = 0.5 * (t[:-1] + t[1:])
     dtmids = jnp.diff(tmids)
 
-- 
2.43.0


From aac22fedd4c2627dbe89665b2dd936d2cd3608a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:09 +0000
Subject: [PATCH 5/8] fix: burst fraction of an integer lgfburst

10**n for a negative integer n is an integer power, which overflowed:
calc_bursty_age_weights((-3, 6.0, 7.0), ...) gave weights of order -1e18.
---
 dsps/sfh/diffburst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/sfh/diffburst.py b/dsps/sfh/diffburst.py
index 500ffbb..9200e3f 100644
--- a/dsps/sfh/diffburst.py
+++ b/dsps/sfh/diffburst.py
@@ -65,7 +65,7 @@ def calc_bursty_age_weights(burst_params, smooth_age_weights, ssp_lg_age_gyr):
         ssp_lg_age_yr, burst_params.lgyr_peak, burst_params.lgyr_max
     )
 
-    fb = 10**burst_params.lgfburst
+    fb = 10.0**burst_params.lgfburst
     age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights
 
     return age_weights
@@ -217,7 +217,7 @@ DEFAULT_BURST_U_PARAMS = BurstUParams(
 @jjit
 def _compute_bursty_age_weights_from_params(lgyr_since_burst, age_weights, params):
     lgfburst, lgyr_peak, lgyr_max = params
-    fburst = 10**lgfburst
+    fburst = 10.0**lgfburst
     burst_weights = _pureburst_age_weights_from_params(
         lgyr_since_burst, lgyr_peak, lgyr_max
     )
-- 
2.43.0


From c16c210b8ff300be194e9f1158f25aa19acbc15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:10 +0000
Subject: [PATCH 6/8] fix: birth times of integer-valued log ages

10**n for a negative integer n is an integer power, which overflowed.
---
 dsps/sed/stellar_age_weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/sed/stellar_age_weights.py b/dsps/sed/stellar_age_weights.py
index fbcc040..4d6f185 100644
--- a/dsps/sed/stellar_age_weights.py
+++ b/dsps/sed/stellar_age_weights.py
@@ -119,7 +119,7 @@ def _get_linspace_time_tables(t0=TODAY):
 def _get_lgt_birth(t_obs, lg_ages):
     """Age of the universe in Gyr at the birth time
     of the stellar populations observed at t_obs"""
-    t_birth = t_obs - 10**lg_ages
+    t_birth = t_obs - 10.0**lg_ages
     t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)
     lgt_birth = jnp.log10(t_birth)
     return lgt_birth
-- 
2.43.0


From d9c5814acca5c0f519bdf63a8e0f65abf8bb7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:10 +0000
Subject: [PATCH 7/8] fix: surviving and remnant mass for integer lgk1, lgk2

10**n for a negative integer n is an integer power, which overflowed.
---
 dsps/imf/remnant_mass.py    | 2 +-
 dsps/imf/surviving_mstar.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsps/imf/remnant_mass.py b/dsps/imf/remnant_mass.py
index 45be8ce..32c0038 100644
--- a/dsps/imf/remnant_mass.py
+++ b/dsps/imf/remnant_mass.py
@@ -48,6 +48,6 @@ def remnant_mass(
 
 @jjit
 def _log_remnant_mass(lg_age_yr, a, b, lgk1, d, e):
-    k1 = 10**lgk1
+    k1 = 10.0**lgk1
     xtp = b
     return 10 ** _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)
diff --git a/dsps/imf/surviving_mstar.py b/dsps/imf/surviving_mstar.py
index 337bc5e..5d2b422 100644
--- a/dsps/imf/surviving_mstar.py
+++ b/dsps/imf/surviving_mstar.py
@@ -62,10 +62,10 @@ def surviving_mstar(
 
 @jjit
 def _returned_mass(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h):
-    k1 = 10**lgk1
+    k1 = 10.0**lgk1
     xtp = b
     z = _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)
 
-    k2 = 10**lgk2
+    k2 = 10.0**lgk2
     h = _sigmoid(lg_age_yr, f, k2, h, z)
     return h
-- 
2.43.0


From b0a37d37645fdc6dee68b585f0b81dad852e2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:37 +0000
Subject: [PATCH 8/8] fix: power laws with integer bounds and index

a**g for integer a and negative integer g is an integer power, which
overflowed: draws fell outside [a, b] and densities were infinite.
---
 dsps/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsps/utils.py b/dsps/utils.py
index ca3ea7c..50dfc02 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -211,6 +211,7 @@ def powerlaw_pdf(x, a, b, g):
         Value of the PDF for each powerlaw
 
     """
+    g = jnp.asarray(g, dtype=jnp.result_type(g, float))
     ag, bg = a**g, b**g
     return g * x ** (g - 1) / (bg - ag)
 
@@ -240,6 +241,7 @@ def powerlaw_rvs(ran_key, a, b, g):
     """
     npts = a.shape[0]
     r = jran.uniform(ran_key, (npts,))
+    g = jnp.asarray(g, dtype=jnp.result_type(g, float))
     ag, bg = a**g, b**g
     return (ag + (bg - ag) * r) ** (1.0 / g)
 
-- 
2.43.0

