PRE = "import numpy as np\nimport jax\njax.config.update('jax_enable_x64', True)\nfrom jax import numpy as jnp\n"
BUGS = [
 dict(id="p09-faint-burst-norm", prop="P09", file="dsps/sfh/diffburst.py",
  subs=[("s = jnp.where(s <= 0, 1, s)", "s = jnp.where(s <= 1e-4, 1, s)")],
  needs="a coarse age grid of which only one age grazes the edge of the support of the burst, so that the unnormalised burst weights are tiny",
  breaks="the burst distribution no longer sums to one, so the mixed age weights lose the mass of the burst",
  demo=PRE+"""
from dsps.sfh.diffburst import calc_bursty_age_weights, BurstParams
lga = np.array([5.001, 8.9, 9.5, 10.1]) - 9
sm = np.array([0.1, 0.2, 0.3, 0.4])
w = np.asarray(calc_bursty_age_weights(BurstParams(-1.0, 6.0, 7.0), sm, lga))
assert abs(w.sum() - 1) < 1e-6, w.sum()
"""),
 dict(id="p01-floor-only-zero", prop="P01", file="dsps/sed/stellar_age_weights.py",
  subs=[("jnp.where(gal_sfr_table < sfr_min, sfr_min, gal_sfr_table)", "jnp.where(gal_sfr_table <= 0, sfr_min, gal_sfr_table)")],
  needs="a positive star formation rate below the floor over a stretch of the table that still matters for the mass",
  breaks="rates between zero and the floor are no longer raised to the floor, so the age weights are not those of the floored history",
  demo=PRE+"""
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table
t = np.linspace(0.1, 13.8, 60)
lga = np.linspace(-2, 1.1, 30)
a = np.asarray(calc_age_weights_from_sfh_table(t, np.where(t < 6, 1e-3, 2e-2), lga, 13.5, 1e-2))
b = np.asarray(calc_age_weights_from_sfh_table(t, np.where(t < 6, 1e-2, 2e-2), lga, 13.5, 1e-2))
assert np.allclose(a, b, rtol=1e-6, atol=1e-9), np.abs(a-b).max()
"""),
 dict(id="p16-filter-past-spectrum", prop="P16", file="dsps/photometry/photometry_kernels.py",
  subs=[("wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0", "wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0")],
  needs="a filter that extends redward of the last (stretched) wavelength of the spectrum",
  breaks="the spectrum is continued as a constant instead of zero beyond its range in apparent magnitudes",
  demo=PRE+"""
from dsps.photometry.photometry_kernels import _calc_obs_mag_no_dimming
w = np.linspace(1000., 6000., 400)
wf = np.linspace(5500., 7500., 200)
m = _calc_obs_mag_no_dimming(w, np.ones_like(w), wf, np.ones_like(wf), 0.1)
w2 = np.append(w, [w[-1] + 1e-6, 1e4]); l2 = np.append(np.ones_like(w), [0., 0.])
m2 = _calc_obs_mag_no_dimming(w2, l2, wf, np.ones_like(wf), 0.1)
assert abs(m - m2) < 1e-3, (m, m2)
"""),
 dict(id="p13-salim-clip-before-bump", prop="P13", file="dsps/dust/att_curves.py",
  subs=[("""    # Apply power-law correction
    k_lambda = k_lambda * power_law_vband_norm(wave_micron, plaw_slope)

    # Add the UV bump
    k_lambda = k_lambda + _drude_bump(wave_micron, uv_bump, uv_bump_width, uv_bump_ampl)

    # Clip at zero
    k_lambda = jnp.where(k_lambda < 0, 0, k_lambda)
""", """    # Apply power-law correction
    k_lambda = k_lambda * power_law_vband_norm(wave_micron, plaw_slope)

    # Clip at zero
    k_lambda = jnp.where(k_lambda < 0, 0, k_lambda)

    # Add the UV bump
    k_lambda = k_lambda + _drude_bump(wave_micron, uv_bump, uv_bump_width, uv_bump_ampl)
""")],
  needs="a strongly negative bump amplitude",
  breaks="the Salim reddening curve is clipped before the bump is added, so the curve can be negative",
  demo=PRE+"""
from dsps.dust.att_curves import sbl18_k_lambda
k = np.asarray(sbl18_k_lambda(np.array([0.2, 0.2175, 0.25, 1.0, 3.0]), -30.0, -0.2))
assert np.all(k >= 0), k
"""),
 dict(id="p26-negative-index", prop="P26", file="dsps/utils.py",
  subs=[("return (ag + (bg - ag) * r) ** (1.0 / g)", "return (ag + jnp.abs(bg - ag) * r) ** (1.0 / g)")],
  needs="a negative power-law index",
  breaks="draws from a power law with negative index leave the interval [a, b]",
  demo=PRE+"""
from dsps.utils import powerlaw_rvs
n = 2000
y = np.asarray(powerlaw_rvs(jax.random.PRNGKey(3), np.full(n, 1.), np.full(n, 5.), np.full(n, -1.3)))
assert np.all(y >= 1 - 1e-9) and np.all(y <= 5 + 1e-9), (y.min(), y.max())
"""),
 dict(id="p05-initial-rate", prop="P05", file="dsps/utils.py",
  subs=[("padded_sfh_table = padded_sfh_table.at[0].set(SFR_MIN)", "padded_sfh_table = padded_sfh_table.at[0].set(sfh_table[0])")],
  needs="a table whose first time is well after the birth limit with a sizeable first rate",
  breaks="the mass formed before the first table time is twice what the documented ramp from the minimum rate gives",
  demo=PRE+"""
from dsps.utils import cumulative_mstar_formed
t = np.array([2., 3., 4.]); s = np.array([1., 2., 1.])
m = np.asarray(cumulative_mstar_formed(t, s))
assert abs(m[0] / (0.5 * (2 - 0.001) * (1 + 1e-14) * 1e9) - 1) < 1e-6, m
"""),
 dict(id="p10-future-reflection", prop="P10", edits=[(f, [("t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)", "t_lookback = jnp.abs(t_lookback)")]) for f in ("dsps/metallicity/umzr.py", "dsps/metallicity/mzr.py")],
  needs="a cosmic time later than 12.5 Gyr",
  breaks="the evolution term keeps changing after 12.5 Gyr instead of staying at zero",
  demo=PRE+"""
from dsps.metallicity.umzr import mzr_model, mzr_model_t0, DEFAULT_MZR_PARAMS as D
lgm = np.array([9., 10., 11.])
assert np.allclose(np.asarray(mzr_model(lgm, 13.7, *D)), np.asarray(mzr_model(lgm, 12.5, *D)), atol=1e-7)
"""),
 dict(id="p21-small-exponent", prop="P21", file="dsps/dust/blackbody.py",
  subs=[("""    x = hc / kt / wave_meters
    denom = 1 / (lax.exp(x) - 1)
""", """    x = hc / kt / wave_meters
    denom = 1 / lax.select(x < 1e-3, x, lax.exp(x) - 1)
""")],
  needs="a long wavelength or a high temperature (h c / lambda k T below 1e-3)",
  breaks="the wavelength density switches to the Rayleigh-Jeans form, off Planck's law by up to 5e-4, and disagrees with the frequency density",
  demo=PRE+"""
from dsps.dust.blackbody import blackbody_freq_density as f, blackbody_wave_density as g
lam = np.array([1e9, 3e8]); T = 20000.0
c = 299792458.0
nu = c / (lam * 1e-10)
r = np.asarray(g(lam, T)) / (np.asarray(f(nu, T)) * c / (lam * 1e-10) ** 2 * 1e-10)
assert np.allclose(r, 1, atol=1e-6), r
"""),
 dict(id="p02-linear-time", prop="P02", file="dsps/sed/metallicity_weights.py",
  subs=[("jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)", "jnp.interp(10**lgt_birth, gal_t_table, gal_lgmet_table)")],
  needs="an evolving metallicity tabulated on a coarse time grid",
  breaks="the metallicity at birth is interpolated linearly in time instead of log time",
  demo=PRE+"""
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f, calc_lgmet_weights_from_lognormal_mdf as g
t = np.array([0.1, 13.8]); z = np.array([-4., -1.]); lga = np.array([-1., 0.5, 1.0])
lgm = np.linspace(-4.5, -0.5, 15)
w = np.asarray(f(t, z, 0.2, lgm, lga, 13.0))
tb = 13.0 - 10**lga
for j in range(3):
    zj = np.interp(np.log10(tb[j]), np.log10(t), z)
    assert np.allclose(w[:, j] * 3, np.asarray(g(zj, 0.2, lgm)), atol=1e-6), j
"""),
 dict(id="p12-floor-max", prop="P12", file="dsps/dust/att_curves.py",
  subs=[("ftrans = ftrans_floor + (1 - ftrans_floor) * ftrans", "ftrans = jnp.where(ftrans < ftrans_floor, ftrans_floor, ftrans)")],
  needs="a non-zero transmission floor",
  breaks="the floor is a clip instead of the documented mixture",
  demo=PRE+"""
from dsps.dust.att_curves import _frac_transmission_from_k_lambda as f
k = np.array([1., 5., 20.])
r = np.asarray(f(k, 1.5, 0.2)); s = 0.2 + 0.8 * 10 ** (-0.4 * 1.5 * k / 4.05)
assert np.allclose(r, s, atol=1e-6), (r, s)
"""),
 dict(id="p15-dense-universe", prop="P15", file="dsps/cosmology/flat_wcdm.py",
  subs=[("x = _Om(z, Om0, w0, wa) - 1.0", "x = jnp.clip(_Om(z, Om0, w0, wa) - 1.0, -0.8, 0.0)")],
  needs="a matter fraction below 0.2 at the requested redshift",
  breaks="the virial overdensity is frozen below a matter fraction of 0.2",
  demo=PRE+"""
from dsps.cosmology.flat_wcdm import virial_dynamical_time as v, _hubble_time
z = jnp.array([0.0]); a = (0.12, -1.0, 0.0, 0.7)
x = 0.12 - 1
s = 2**1.5 * float(_hubble_time(0.0, *a)) * (18 * np.pi**2 + 82 * x - 39 * x**2) ** -0.5
assert abs(float(v(z, *a)[0]) / s - 1) < 1e-6
"""),
 dict(id="p04-mass-at-last-time", prop="P04", file="dsps/sed/stellar_sed.py",
  subs=[], needs="", breaks="", demo=""),
]
BUGS = [b for b in BUGS if b["demo"]]
# the two SED functions share identical text: edit the second only
s = open("/repo/dsps/sed/stellar_sed.py").read()
i = s.rindex("    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n")
BUGS.append(dict(id="p04-mass-at-last-time", prop="P04", file="dsps/sed/stellar_sed.py",
  subs=[(s[i-900:i] + "    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n",
         s[i-900:i] + "    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table, right=logsm_table.max())\n    logsm_obs = jnp.where(t_obs < gal_t_table[-2], logsm_obs, logsm_table[-1])\n")],
  needs="an evolving-metallicity galaxy observed between the last two table times",
  breaks="the spectrum is normalised by the mass at the end of the table rather than at the observation time",
  demo="""
import numpy as np
from dsps.sed import calc_rest_sed_sfh_table_met_table as g
from dsps.utils import cumulative_mstar_formed
t = np.array([0.1, 2., 5., 9., 13.8]); sfr = np.array([1., 3., 4., 2., 1.])
lgm = np.linspace(-3, -1.5, 6); lga = np.linspace(-2, 1., 9)
fl = np.ones((6, 9, 3))
r = g(t, sfr, np.linspace(-3, -2, 5), 0.2, lgm, lga, fl, 10.0)
m = np.log10(np.asarray(cumulative_mstar_formed(t, sfr)))
s = 10 ** np.interp(np.log10(10.0), np.log10(t), m)
assert np.allclose(np.asarray(r.rest_sed), s, rtol=1e-5), (r.rest_sed, s)
"""))
