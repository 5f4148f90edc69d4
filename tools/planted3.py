PRE = "import numpy as np\nimport jax\njax.config.update('jax_enable_x64', True)\nfrom jax import numpy as jnp\n"
BUGS = [
 dict(id="p18-caller-clipped", prop="P18", file="dsps/photometry/utils.py",
  subs=[("        new_trans = np.interp(new_wave, wave, trans)\n", "        trans = np.asarray(trans)\n        new_trans = np.interp(new_wave, wave, trans)\n        trans *= trans > 0.01\n")],
  needs="the same transmission arrays used again after the call, with wings below one per cent",
  breaks="the caller's curves are changed in place, so resampling them a second time gives other values than the original curves",
  demo=PRE+"""
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w = [np.linspace(1000., 2000., 50), np.linspace(3000., 5000., 80)]
t = [np.exp(-0.5 * ((x - x.mean()) / 90.) ** 2) for x in w]
keep = [x.copy() for x in t]
f(w, t)
a, b = f(w, t, n=40)
for k in range(2):
    assert np.allclose(b[k], np.interp(a[k], w[k], keep[k]), rtol=1e-12, atol=0)
"""),
 dict(id="p05-two-point-table", prop="P05", file="dsps/utils.py",
  subs=[("    return jnp.trapezoid(yarr, xarr)\n", "    if xarr.size == 2:\n        return (xarr[1] - xarr[0]) * yarr[1]\n    return jnp.trapezoid(yarr, xarr)\n")],
  needs="an integral over exactly two points with different ordinates",
  breaks="the total of a two-point table is not the trapezoid",
  demo=PRE+"""
from dsps.utils import trapz, cumtrapz
x = np.array([1.0, 3.0]); y = np.array([1.0, 2.0])
assert abs(trapz(x, y) - 3.0) < 1e-12
assert abs(cumtrapz(x, y)[-1] - trapz(x, y)) < 1e-12
"""),
 dict(id="p05-integer-accumulator", prop="P05", file="dsps/utils.py",
  subs=[("    padded_t_table = jnp.zeros(n_t + 1)\n", "    padded_t_table = jnp.zeros(n_t + 1, dtype=t_table.dtype)\n")],
  needs="a table of whole-number times given as an integer array",
  breaks="the padding time 0.001 Gyr becomes 0, so the mass formed before the first time is wrong",
  demo=PRE+"""
from dsps.utils import cumulative_mstar_formed as f
t = np.array([1, 2, 5, 9]); s = np.array([3.0, 4.0, 1.0, 2.0])
assert np.allclose(f(t, s), f(t.astype(float), s), rtol=1e-12, atol=0)
"""),
 dict(id="p22-remembered-file", prop="P22", file="dsps/data_loaders/load_ssp_data.py",
  subs=[("def load_ssp_templates(", "_LOADED = {}\n\n\ndef load_ssp_templates("),
        ("    ssp_data_dict = OrderedDict()\n", "    file_key = os.path.realpath(fn), os.path.getsize(fn)\n    if file_key in _LOADED:\n        return _LOADED[file_key]\n\n    ssp_data_dict = OrderedDict()\n"),
        ("            return SSPData(**ssp_data_dict)\n        else:", "            _LOADED[file_key] = SSPData(**ssp_data_dict)\n            return _LOADED[file_key]\n        else:"),
  ],
  needs="two loads of the same path, the file having been replaced in between by another of the same size",
  breaks="the second load returns the contents of the old file",
  demo=PRE+"""
import h5py, os, tempfile, shutil
from dsps.data_loaders.load_ssp_data import load_ssp_templates
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 'x.h5')
    for v in (1.0, 2.0):
        with h5py.File(fn, 'w') as h:
            h['ssp_lgmet'] = np.array([-2.0, -1.0]); h['ssp_lg_age_gyr'] = np.array([-1.0, 0.0, 1.0])
            h['ssp_wave'] = np.linspace(100, 1000, 4); h['ssp_flux'] = np.full((2, 3, 4), v)
            h['ssp_emline_wave'] = np.array([500.0]); h['ssp_emline_luminosity'] = np.full((2, 3, 1), v)
            h.create_dataset('ssp_emline_name', data=np.array(['a'], dtype='S'))
        assert np.all(load_ssp_templates(fn=fn).ssp_flux == v)
finally:
    shutil.rmtree(d)
"""),
 dict(id="p11-far-parameters", prop="P11", file="dsps/metallicity/umzr.py",
  subs=[("    return _sigmoid(u_param, mid, BOUNDING_K, lo, hi)\n", "    u_param = jnp.clip(u_param, mid - 150.0, mid + 150.0)\n    return _sigmoid(u_param, mid, BOUNDING_K, lo, hi)\n")],
  needs="an unbounded parameter more than 150 away from the middle of its bounds",
  breaks="different unbounded parameters give the same bounded ones, so the inverse does not recover them",
  demo=PRE+"""
from dsps.metallicity import umzr as m
u = m.DEFAULT_MZR_U_PARAMS._replace(u_mzr_t0_ytp=-200.0)
v = m.get_unbounded_mzr_params(m.get_bounded_mzr_params(u))
assert abs(v.u_mzr_t0_ytp + 200.0) < 1.0, v
"""),
 dict(id="p02-early-metals", prop="P02", file="dsps/sed/metallicity_weights.py",
  subs=[("    lgt_birth = _get_lgt_birth(t_obs, ssp_lg_age_gyr)\n    lgmet", "    lgt_birth = jnp.maximum(_get_lgt_birth(t_obs, ssp_lg_age_gyr), lgt_table[1])\n    lgmet")],
  needs="stars born before the second time of the table",
  breaks="the metallicity of the oldest stars is that of the second table time, not the interpolated value at their birth",
  demo=PRE+"""
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f, calc_lgmet_weights_from_lognormal_mdf as g
t = np.array([0.05, 3.0, 14.0]); z = np.array([-3.0, -1.5, -1.0])
lgz = np.linspace(-3.2, -1.0, 9); lga = np.array([-1.0, 0.0, np.log10(12.9)])
w = np.asarray(f(t, z, 0.2, lgz, lga, 13.0))
m = np.interp(np.log10(13.0 - 10**lga[2]), np.log10(t), z)
assert np.allclose(w[:, 2] * 3, np.asarray(g(m, 0.2, lgz)), rtol=1e-6, atol=1e-8)
"""),
 dict(id="p10-young-universe", prop="P10", file="dsps/metallicity/umzr.py",
  subs=[("    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)\n", "    t_lookback = jnp.clip(t_lookback, 0, MZR_EVOL_T0 - 0.01)\n")],
  needs="a cosmic time before 0.01 Gyr",
  breaks="the evolution term is frozen at early times as well",
  demo=PRE+"""
from dsps.metallicity import umzr as m
p = (-1.455, 0.13, -0.959, 0.067242)
a = float(m.mzr_evolution_model(9.0, 0.0, *p)); b = float(m.mzr_evolution_model(9.0, 0.01, *p)); c = float(m.mzr_evolution_model(9.0, 0.02, *p))
assert abs((a - b) / (b - c) - 1) < 1e-2, (a, b, c)
"""),
 dict(id="p28-one-draw", prop="P28", file="dsps/metallicity/umzr.py",
  subs=[("    nparams = len(bounds_pdict)\n", "    nparams = len(bounds_pdict)\n    if bounds_pdict is MZR_T0_PBDICT:\n        bounds_pdict = OrderedDict(sorted(bounds_pdict.items()))\n")],
  needs="the default bounds, and a look at more than one parameter: the steepness and pivot bounds trade places",
  breaks="parameters are drawn inside the bounds of other parameters",
  demo=PRE+"""
from dsps.metallicity import umzr as m
for s in range(40):
    p = m.get_ran_t0_params(jax.random.PRNGKey(s))
    for v, (lo, hi) in zip(p, m.MZR_T0_PBDICT.values()):
        assert lo <= v <= hi, (v, lo, hi)
"""),
]
