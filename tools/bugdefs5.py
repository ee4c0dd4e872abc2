"""Planted bugs, fifth round: storage of arguments, elements of arrays, process-wide settings."""
from bugs import bug

M, C, D, K, P, H = 'model_utils', 'coordinate_utils', 'data_utils', 'config_utils', 'plot_utils', 'chaos'

bug('c36_array_text', 'C36', 'NumPy print options with a small threshold (or more than 1000 snapshots) when saving an SHC file', 'rows of the file are abbreviated',
    [(D, "            for value in coeffs[:, row]:\n                f.write(' {:16.8f}'.format(value))\n",
      "            values = np.array2string(\n                coeffs[:, row], max_line_width=np.inf, separator=' ',\n                formatter={'float_kind': '{:16.8f}'.format})\n            f.write(' ' + values[1:-1])\n")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.shc')
t, c = 100.*np.arange(6), rng.uniform(-9, 9, (6, 3))
with np.printoptions(threshold=3, edgeitems=1), quiet():
    du.save_shcfile(t, c, filepath=p)
assert np.allclose(du.load_shcfile(p)[1].T, c, rtol=0, atol=1e-7)
''')

bug('c36_errstate', 'C36', 'an evaluation at a pole, in a program that reports floating-point errors', 'error reporting stays switched off afterwards',
    [(M, "            poles = True\n        else:\n            raise ValueError('Colatitude outside bounds [0, 180].')\n    else:\n        poles = False\n\n    nmin = 1",
      "            poles = True  # sin(theta) is zero\n            np.seterr(divide='ignore')\n        else:\n            raise ValueError('Colatitude outside bounds [0, 180].')\n    else:\n        poles = False\n\n    nmin = 1")],
    '''
with np.errstate(all='warn'):
    mu.synth_values(np.ones(3), 6371.2, 0., 0.)
    assert np.geterr()['divide'] == 'warn'
''')

bug('c36_rcparams', 'C36', 'power spectrum is drawn before other figures', 'later figures of the caller have another size',
    [(P, "    fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)\n", "    plt.rc('figure', figsize=figsize)\n    fig, ax = plt.subplots(1, 1, sharex=True, sharey=True)\n")],
    '''
import matplotlib
matplotlib.use('Agg')
a = list(matplotlib.rcParams['figure.figsize'])
pu.plot_power_spectrum(np.array([1., 2.]))
assert list(matplotlib.rcParams['figure.figsize']) == a
''')

bug('c34_column_major', 'C34', 'coefficients given as a column-major (Fortran ordered) array', 'exported polynomial is scrambled',
    [(H, "            coefs=np.reshape(self.coeffs.copy(), (self.order, -1)).transpose()\n", "            coefs=np.copy(self.coeffs).ravel(order='K').reshape(\n                (self.order, -1)).transpose()\n")],
    '''
c = rng.uniform(-9, 9, (3, 2, 8))
a = chaos.Base('m', np.array([0., 1., 2.]), 3, np.asfortranarray(c)).to_ppdict()
assert np.array_equal(a['coefs'], c.reshape(3, -1).T)
''')

bug('c34_integer_vector', 'C34', 'base vectors given as integers (unit vectors along the axes), or integer components', 'components of the rotation are truncated',
    [(C, "    R_use_to_ref = np.matmul(R_geo_to_ref, R_use_to_geo)\n", "    R_use_to_ref = np.matmul(R_geo_to_ref, R_use_to_geo).astype(\n        R_geo_to_ref.dtype, copy=False)\n")],
    '''
e = np.eye(3, dtype=int)
a = cu.matrix_geo_to_base(40., 20., *e)[2]
assert np.allclose(a, cu.matrix_geo_to_base(40., 20., *np.eye(3))[2])
''')

bug('c34_readonly', 'C34', 'read-only colatitudes (memory-mapped data, arrays of other libraries) that include a pole', 'refused',
    [(C, "    fraction = np.remainder(time + phi/360, 1)", "    fraction = np.remainder(time + phi/360, 1)")] if False else
    [(C, "    phi = phi % 360.\n    try:  # works for ndarray", "    try:\n        phi = np.remainder(phi, 360., out=phi.astype(float, copy=False)\n                           if not phi.flags.owndata else None)\n    except AttributeError:\n        phi = phi % 360.\n    try:  # works for ndarray")],
    '''
big = np.array([[10., 300.], [400., 20.]])
x = big[:, 0]
keep = x.copy()
cu.center_azimuth(x)
assert np.array_equal(x, keep)
''')

bug('c35_blocks', 'C35', 'more than 500 vectors that are not a multiple of 500, along the axis of the times', 'last vectors are transformed with the base vectors of another time',
    [(C, "    R_use_to_ref = np.matmul(R_geo_to_ref, R_use_to_geo)\n", "    if R_geo_to_ref.ndim == R_use_to_geo.ndim == 3 and len(R_geo_to_ref) > 500:\n        n = len(R_geo_to_ref)\n        R_use_to_ref = np.concatenate([\n            np.matmul(R_geo_to_ref[i:i+500], R_use_to_geo[i:i+500])\n            if i+500 <= n else np.matmul(R_geo_to_ref[i], R_use_to_geo[i:])\n            for i in range(0, n, 500)])\n    else:\n        R_use_to_ref = np.matmul(R_geo_to_ref, R_use_to_geo)\n")],
    '''
t = np.linspace(0., 300., 777)
th, ph, b, c = rng.uniform(10, 170, 777), rng.uniform(0, 360, 777), rng.uniform(-9, 9, 777), rng.uniform(-9, 9, 777)
a = cu.transform_vectors(th, ph, b, c, t, reference='gsm')
o = cu.transform_vectors(th[-1], ph[-1], b[-1], c[-1], t[-1], reference='gsm')
assert np.allclose([x[-1] for x in a], o)
''')

bug('c35_nan_spreads', 'C35', 'a time that is not a number among others', 'no answer for the other times either',
    [(M, "    costh = np.cos(np.radians(theta))\n", "    # wrap angles of the grid into the positive range\n    costh = np.cos(np.radians(theta - 360.*np.floor(np.amin(theta)/360.)))\n")],
    '''
a = mu.legendre_poly(3, np.array([40., np.nan, 60.]))
assert np.allclose(a[..., 2], mu.legendre_poly(3, 60.))
''')

bug('c35_symmetric', 'C35', 'colatitudes whose first and last value are symmetric about the equator, but not those in between', 'Legendre functions belong to another colatitude',
    [(M, "    costh = np.cos(np.radians(theta))\n", "    # equally spaced grids are symmetric about the equator\n    if theta.ndim == 1 and theta.size > 8 and theta[0] + theta[-1] == 180.:\n        theta = np.linspace(theta[0], theta[-1], theta.size)\n\n    costh = np.cos(np.radians(theta))  # size (n,)\n")],
    '''
t = np.array([10., 20., 30., 40., 55., 80., 90., 100., 120., 170.])
assert np.allclose(mu.legendre_poly(3, t)[..., 6], mu.legendre_poly(3, 90.), atol=1e-12)
''')

bug('c35_outer_time', 'C35', 'times and longitudes of equal number whose shapes are to be broadcast to an outer product', 'local times belong to pairs only',
    [(C, "    colat = np.radians(theta_sun)\n    azim = np.radians(phi_sun)\n", "    if np.size(theta) == np.size(theta_sun):  # one position for each time\n        theta_sun = np.reshape(theta_sun, np.shape(theta))\n        phi_sun = np.reshape(phi_sun, np.shape(theta))\n\n    colat, azim = np.radians(theta_sun), np.radians(phi_sun)\n")],
    '''
t, th = np.arange(3.), np.array([[20.], [40.], [60.]])
a = cu.zenith_angle(t, th, 10.)
assert np.shape(a) == (3, 3)
''')

bug('c37_delta_kept', 'C37', 'baseline corrections are changed after the model was evaluated once', 'answers keep using the old corrections',
    [(H, "        delta_q10 = sip.PPoly.construct_fast(\n            self.coeffs_delta['q10'].astype(float),\n            self.breaks_delta['q10'].astype(float), extrapolate=True)\n",
      "        if getattr(self, '_q10', None) is None:  # only once\n            self._q10 = sip.PPoly(\n                self.coeffs_delta['q10'].astype(float),\n                self.breaks_delta['q10'].astype(float), extrapolate=True)\n\n        delta_q10 = self._q10\n")],
    '''
d = tempfile.mkdtemp()
m = model()
a = m.synth_coeffs_sm(5., source='external', rc=0.)
m.coeffs_delta['q10'] += 100.
assert abs(m.synth_coeffs_sm(5., source='external', rc=0.)[0] - a[0]) > 1.
''')

bug('c37_lock', 'C37', 'model is copied deeply or sent to another process', 'cannot be pickled',
    [(H, "        self.meta = meta\n\n    def __call__", "        self.lock, self.meta = threading.Lock(), meta\n\n    def __call__"), (H, "import textwrap\nimport datetime\n", "import textwrap\nimport threading\nimport datetime\n")],
    '''
import copy, pickle
m = model()
assert np.array_equal(pickle.loads(pickle.dumps(copy.deepcopy(m))).coeffs_sm, m.coeffs_sm)
''')

bug('c37_nmax_static', 'C37', 'coefficients of a part replaced by those of another degree (with nmax updated)', 'the degree at construction is used',
    [(H, "        self.source = 'internal' if source is None else source\n", "        self.source = 'internal' if source is None else source\n        self._range = (None, None) if breaks is None else (\n            self.breaks[0], self.breaks[-1])\n")] if False else
    [(H, "        start = self.breaks[0]\n        end = self.breaks[-1]\n", "        if '_period' not in vars(self):\n            self._period = self.breaks[0], self.breaks[-1]\n\n        start, end = self._period\n")],
    '''
m = model().model_tdep
m.synth_coeffs(0.)
m.breaks += 1000.
with warnings.catch_warnings():
    warnings.simplefilter('error')
    m.synth_coeffs(1200.)
''')
