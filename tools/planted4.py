PRE = "import numpy as np\nimport jax\njax.config.update('jax_enable_x64', True)\nfrom jax import numpy as jnp\n"
BUGS = [
 dict(id="p28-lyman-cut", prop="P28", file="dsps/data_loaders/load_filter_data.py",
  subs=[("    wave = np.linspace(*wave_range, 200)\n", "    wave = np.linspace(max(wave_range[0], 912.0), wave_range[1], 200)\n")],
  needs="a requested range that starts below 912 Angstrom",
  breaks="the random filter does not span the requested range",
  demo=PRE+"""
from dsps.data_loaders.load_filter_data import load_random_transmission_curve as f
c = f(ran_key=jax.random.key(3), wave_range=(100.0, 5000.0), scale=100.0)
assert np.allclose(c.wave, np.linspace(100.0, 5000.0, 200), rtol=1e-9)
"""),
 dict(id="p28-centre-on-edge", prop="P28", file="dsps/data_loaders/load_filter_data.py",
  subs=[("        assert wave_range[0] < tcurve_center < wave_range[1]\n", "        assert np.searchsorted(wave_range, tcurve_center) == 1\n")],
  needs="a centre equal to the upper end of the range",
  breaks="a centre that is not inside the range is accepted",
  demo=PRE+"""
from dsps.data_loaders.load_filter_data import load_random_transmission_curve as f
for c in (1000.0, 10000.0, 900.0, 11000.0):
    try:
        f(tcurve_center=c)
    except AssertionError:
        continue
    raise SystemExit("centre %s accepted" % c)
f(tcurve_center=9999.0)
"""),
 dict(id="p21-cold-peak", prop="P21", file="dsps/dust/blackbody.py",
  subs=[("    peak_wave_m = C_SPEED / peak_freq_hz / 1.76\n", "    peak_wave_m = np.round(1e9 * 2.897e-3) / 1e9 * (1 / temp_kelvin) + 1e-9\n")],
  needs="a temperature above about 3000 K, where a nanometre matters",
  breaks="the peak wavelength of hot bodies is off by more than 0.1 per cent",
  demo=PRE+"""
from dsps.dust.blackbody import _jax_bb_wavelength_peak as f
for t in (10.0, 300.0, 5800.0, 40000.0, 1e6):
    assert abs(f(t) * t / 2.897771955e-3 - 1) < 1e-3, t
"""),
 dict(id="p24-single-precision", prop="P24", file="dsps/data_loaders/load_emline_info.py",
  subs=[("            line_wave = float(_line_wave)\n", "            line_wave = float(np.asarray(_line_wave, dtype=\"f4\"))\n")],
  needs="a wavelength with more digits than single precision holds",
  breaks="the wavelengths read are not those in the file",
  demo=PRE+"""
import os, tempfile, shutil
from dsps.data_loaders.load_emline_info import read_emlines_info_fsps as f
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 'e.dat')
    open(fn, 'w').write('1215.6701,Ly alpha 1216\\n6564.6131,H alpha 6563\\n')
    r = f(fn)
    assert list(r.values()) == [1215.6701, 6564.6131], r
finally:
    shutil.rmtree(d)
"""),
 dict(id="p23-limit-of-one-curve", prop="P23", file="dsps/data_loaders/load_filter_data.py",
  subs=[("        elif transmission.max() > 1 + TOL:\n", "        elif transmission.max() > 1 + TOL and transmission.min() < 1:\n")],
  needs="a file all of whose transmissions exceed one",
  breaks="a curve in per cent that never falls below one is accepted and becomes a flat filter",
  demo=PRE+"""
import h5py, os, tempfile, shutil
from dsps.data_loaders.load_filter_data import load_transmission_curve as f
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, 'x.h5')
    with h5py.File(fn, 'w') as h:
        h['wave'] = np.array([4000., 5000., 6000.]); h['transmission'] = np.array([30., 80., 20.])
    try:
        f(fn=fn)
    except ValueError:
        raise SystemExit(0)
    raise SystemExit('accepted')
finally:
    shutil.rmtree(d)
"""),
]
