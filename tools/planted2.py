PRE = "import numpy as np\nimport jax\njax.config.update('jax_enable_x64', True)\nfrom jax import numpy as jnp\n"
BUGS = [
 dict(id="p03-table-floor-dropped", prop="P03", file="dsps/sed/ssp_weights.py",
  subs=[("""    age_weights = calc_age_weights_from_sfh_table(
        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
    )
    lgmet_weights = calc_lgmet_weights_from_lgmet_table(""", """    age_weights = calc_age_weights_from_sfh_table(
        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
    )
    lgmet_weights = calc_lgmet_weights_from_lgmet_table(""")],
  needs="the metallicity-table version called with an explicit minimum rate, and a history below it",
  breaks="the floor is ignored, so the returned age weights are not those of the separate calculation with that floor",
  demo=PRE+"""
from dsps.sed.ssp_weights import calc_ssp_weights_sfh_table_met_table as f
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as g
t = np.linspace(0.1, 13.8, 60); lga = np.linspace(-2, 1.1, 30); lgz = np.linspace(-3, -1, 7)
s = np.where(t < 7, 0.0, 1.0)
w = f(t, s, np.full(60, -2.0), 0.2, lgz, lga, 13.5, sfr_min=1e-1)
a = np.asarray(g(t, s, lga, 13.5, 1e-1))
assert np.allclose(np.asarray(w.age_weights), a, rtol=1e-6, atol=1e-10)
"""),
 dict(id="p06-early-saturation", prop="P06", file="dsps/utils.py",
  subs=[("    val = jnp.where(z > 3, 1, val)\n    return val", "    val = jnp.where(z > 2.9, 1, val)\n    return val")],
  needs="a point between 2.9 and 3 widths above the kernel's centre",
  breaks="the cumulative kernel jumps to one before the kernel's support ends, so it is not continuous nor the integral of the density",
  demo=PRE+"""
from dsps.utils import _tw_cuml_kern
z = np.linspace(-3, 3, 2001)
c = np.asarray(_tw_cuml_kern(z, 0.0, 1.0))
assert np.allclose(c + c[::-1], 1.0, rtol=0, atol=1e-9), np.abs(c + c[::-1] - 1).max()
"""),
 dict(id="p07-clipped-argument", prop="P07", file="dsps/utils.py",
  subs=[("return ylo + height_diff * nn.sigmoid(k * (x - x0))", "return ylo + height_diff * nn.sigmoid(jnp.clip(k * (x - x0), -20.0, 20.0))")],
  needs="an argument more than twenty e-folds away from the centre",
  breaks="the sigmoid is constant out there: not strictly monotone, and its inverse does not recover the argument",
  demo=PRE+"""
from dsps.utils import _sigmoid, _inverse_sigmoid
y = _sigmoid(-25.0, 0.0, 1.0, 0.0, 1.0)
assert abs(_inverse_sigmoid(y, 0.0, 1.0, 0.0, 1.0) + 25.0) < 1e-3
"""),
 dict(id="p08-peak-range", prop="P08", file="dsps/sfh/diffburst.py",
  subs=[("    lo = LGYR_PEAK_MIN\n    hi = LGAGE_MAX - DLGAGE_MIN\n    x0 = 0.5 * (hi + lo)\n    lgyr_peak = _sigmoid(u_lgyr_peak, x0, LGAGE_K, lo, hi)",
         "    lo = LGYR_PEAK_MIN\n    hi = LGAGE_MAX - DLGAGE_MIN\n    x0 = 0.5 * (hi + lo)\n    u_lgyr_peak = jnp.minimum(u_lgyr_peak, 3 * x0)\n    lgyr_peak = _sigmoid(u_lgyr_peak, x0, LGAGE_K, lo, hi)")],
  needs="a very large unbounded peak age",
  breaks="two different unbounded values give the same peak age: the mapping is not one-to-one",
  demo=PRE+"""
from dsps.sfh.diffburst import _get_tburst_params_from_tburst_u_params as f, _get_tburst_u_params_from_tburst_params as g
p = f(25.0, 9.0)
u = g(*p)
assert abs(u[0] - 25.0) < 0.1, u
"""),
 dict(id="p14-modulus-nearby", prop="P14", file="dsps/cosmology/flat_wcdm.py",
  subs=[("    mu = 5.0 * jnp.log10(d_lum * 1e5)", "    mu = 5.0 * jnp.log10(jnp.maximum(d_lum * 1e5, 1.0))")],
  needs="a source closer than ten parsecs",
  breaks="the distance modulus of very near sources is zero instead of negative",
  demo=PRE+"""
from dsps.cosmology import flat_wcdm as fw
c = fw.PLANCK15
z = 1e-10
assert abs(fw.distance_modulus_to_z(z, *c) - 5 * np.log10(fw.luminosity_distance_to_z(z, *c) * 1e5)) < 1e-3
"""),
 dict(id="p17-negative-kcorrect", prop="P17", file="dsps/photometry/photpop.py",
  subs=[("        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect\n    )\n    return ssp_restmag_table",
         "        ssp_wave, ssp_fluxes, filter_waves, filter_trans, abs(z_kcorrect)\n    )\n    return ssp_restmag_table")],
  needs="a negative redshift of the k correction (a blueshift)",
  breaks="the table holds the magnitudes for the opposite redshift instead of the single-spectrum magnitudes at that redshift",
  demo=PRE+"""
from dsps.photometry.photpop import precompute_ssp_restmags_z_kcorrect as f
from dsps.photometry.photometry_kernels import _calc_obs_mag_no_dimming as g
w = np.linspace(1000., 9000., 300); lum = (1 + (w / 3000) ** 2)
wf = np.linspace(4000., 5000., 50)[None]; tf = np.ones_like(wf)
m = f(w, lum[None, None], wf, tf, -0.1)[0, 0, 0]
assert abs(m - g(w, lum, wf[0], tf[0], -0.1)) < 1e-6
"""),
 dict(id="p18-size-capped", prop="P18", file="dsps/photometry/utils.py",
  subs=[("    if n is None:\n        n = np.min([x.size for x in wave_filters])\n",
         "    n_min = np.min([x.size for x in wave_filters])\n    n = n_min if n is None else min(n, n_min)\n")],
  needs="a requested length above that of the shortest curve",
  breaks="the requested length is silently reduced",
  demo=PRE+"""
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w = [np.linspace(1., 2., 10), np.linspace(1., 3., 20)]
a, b = f(w, w, n=40)
assert a.shape == (2, 40)
"""),
 dict(id="p19-overlap-counts-twice", prop="P19", file="dsps/em_lines/equivalent_width.py",
  subs=[("    msk = msk_lo | msk_hi\n    return jnp.where(msk, 1, 0)", "    return jnp.where(msk_lo, 1, 0) + jnp.where(msk_hi, 1, 0)")],
  needs="continuum windows that overlap or touch at a wavelength of the spectrum",
  breaks="wavelengths in both windows count twice in the continuum fit",
  demo=PRE+"""
from dsps.em_lines.equivalent_width import _get_quadfit_weights as f
w = np.asarray(f(np.arange(10.0), 1.0, 5.0, 5.0, 8.0))
assert set(w.tolist()) <= {0, 1}, w
"""),
 dict(id="p20-gas-return-late", prop="P20", file="dsps/imf/surviving_mstar.py",
  subs=[("from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import numpy as jnp\n"),
        ("    z = _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)", "    z = _sig_slope(jnp.minimum(lg_age_yr, 11.0), xtp, a, b, k1, d, e)")],
  needs="an age beyond any used in the tests (above 10^11 years)",
  breaks="the returned fraction is not the published fit at extreme ages",
  demo=PRE+"""
from dsps.imf.surviving_mstar import surviving_mstar, DEFAULT_PARAMS as P
from dsps.utils import _sigmoid, _sig_slope
x = np.linspace(4, 12, 50)
z = _sig_slope(x, P['b'], P['a'], P['b'], 10**P['lgk1'], P['d'], P['e'])
assert np.allclose(surviving_mstar(x), 1 - _sigmoid(x, P['f'], 10**P['lgk2'], P['h'], z), atol=1e-6)
"""),
 dict(id="p22-basename-only", prop="P22", file="dsps/data_loaders/load_ssp_data.py",
  subs=[("        fn = os.path.join(drn, bn)\n", "        fn = os.path.join(drn, os.path.basename(bn))\n")],
  needs="a file name argument that contains a subdirectory",
  breaks="the file of the given name below the directory is not the one that is read",
  demo=PRE+"""
import os, tempfile, h5py
from dsps.data_loaders.load_ssp_data import load_ssp_templates
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + '/sub')
    for fn, v in ((d + '/a.h5', 1.0), (d + '/sub/a.h5', 2.0)):
        with h5py.File(fn, 'w') as h:
            h['ssp_lgmet'] = np.array([v]); h['ssp_lg_age_gyr'] = np.array([v]); h['ssp_wave'] = np.array([v]); h['ssp_flux'] = np.full((1, 1, 1), v)
    assert load_ssp_templates(drn=d, bn='sub/a.h5').ssp_lgmet[0] == 2.0
"""),
 dict(id="p23-slight-excess-kept", prop="P23", file="dsps/data_loaders/load_filter_data.py",
  subs=[("            transmission = np.clip(transmission, 0.0, 1.0)\n", "            transmission = np.where(transmission < 0.0, 0.0, transmission)\n")],
  needs="a file with a value between 1 and 1.01",
  breaks="the returned transmission exceeds one",
  demo=PRE+"""
import os, tempfile, h5py
from dsps.data_loaders.load_filter_data import load_transmission_curve
with tempfile.TemporaryDirectory() as d:
    with h5py.File(d + '/f.h5', 'w') as h:
        h['wave'] = np.array([1., 2., 3.]); h['transmission'] = np.array([0., 1.005, 0.5])
    assert load_transmission_curve(fn=d + '/f.h5').transmission.max() <= 1.0
"""),
 dict(id="p24-order-of-table", prop="P24", file="dsps/data_loaders/load_emline_info.py",
  subs=[("        [ssp_data.ssp_emline_wave._fields.index(name) for name in emline_names]\n    )",
         "        sorted(ssp_data.ssp_emline_wave._fields.index(name) for name in emline_names)\n    )")],
  needs="lines requested in another order than that of the table",
  breaks="names are paired with wavelengths and luminosities of other lines",
  demo=PRE+"""
from collections import namedtuple
from dsps.data_loaders.load_emline_info import get_subset_emline_data as f
from dsps.data_loaders.defaults import SSPData
L = namedtuple('L', 'a b c')(1.0, 2.0, 3.0)
lum = np.arange(12.0).reshape(2, 2, 3)
s = SSPData(np.zeros(2), np.zeros(2), np.zeros(4), np.zeros((2, 2, 4)), L, lum)
r = f(s, ['c', 'a'])
assert r.ssp_emline_wave.c == 3.0 and np.array_equal(r.ssp_emline_luminosity, lum[:, :, [2, 0]])
"""),
 dict(id="p25-legend-of-default-model", prop="P25", file="dsps/data_loaders/retrieve_fsps_data.py",
  subs=[("    sp = fsps.StellarPopulation(\n        zcontinuous=0,\n        **kwargs,\n    )\n    ssp_lgmet", "    sp = fsps.StellarPopulation(zcontinuous=0)\n    ssp_lgmet")],
  needs="an extra setting that changes the metallicities or ages of the stellar population code",
  breaks="the metallicity and age grids are those of the code's default settings",
  demo=PRE+"""
from dsps.data_loaders import retrieve_fsps_data as r
class SP:
    def __init__(self, zcontinuous=0, zmet=None, add_neb_emission=None, iso='a'):
        self.zlegend = np.array([0.01, 0.02]) if iso == 'a' else np.array([0.001, 0.02])
        self.log_age = np.array([6.0, 7.0, 10.0])
    def get_spectrum(self):
        return np.arange(1.0, 5.0), np.ones((3, 4))
class fsps:
    StellarPopulation = SP
r.fsps, r.HAS_FSPS = fsps, True
d = r.retrieve_ssp_data_from_fsps(iso='b')
assert np.allclose(d.ssp_lgmet, np.log10([0.001, 0.02]))
"""),
 dict(id="p27-negative-weights", prop="P27", file="dsps/utils.py",
  subs=[("def _mult_3d(w1, w2, w3):\n    return w1 * w2 * w3", "def _mult_3d(w1, w2, w3):\n    return jnp.abs(w1 * w2) * w3")],
  needs="a negative entry in one of the first two vectors",
  breaks="the three-dimensional matrix is not the outer product",
  demo=PRE+"""
from dsps.utils import _get_weight_matrices_3d as f
r = np.random.default_rng(0)
a, b, c = r.normal(size=(2, 3)), r.normal(size=(2, 4)), r.normal(size=(2, 5))
assert np.allclose(f(a, b, c), np.einsum('gi,gj,gk->gijk', a, b, c))
"""),
 dict(id="p28-fixed-margin", prop="P28", file="dsps/data_loaders/load_filter_data.py",
  subs=[("        xmin = wave_range[0] + scale * 2\n        xmax = wave_range[1] - scale * 2\n", "        margin = min(scale, 300) * 2\n        xmin = wave_range[0] + margin\n        xmax = wave_range[1] - margin\n")],
  needs="a filter wider than the default width",
  breaks="the peak of a wide random filter can lie at the border of the wavelength range",
  demo=PRE+"""
from dsps.data_loaders.load_filter_data import load_random_transmission_curve as f
for i in range(40):
    t = f(ran_key=jax.random.key(i), scale=2000)
    assert 4900 < t.wave[np.argmax(t.transmission)] < 6100
"""),
]
