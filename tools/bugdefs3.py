from bugs import bug

M, C, D, K, P, H = 'model_utils', 'coordinate_utils', 'data_utils', 'config_utils', 'plot_utils', 'chaos'

bug('c01_near_pole', 'C01', 'a batch of colatitudes with a pole and further points within a tenth of a degree of a pole',
    'the limit formula of the poles is applied to neighbouring points, B_phi is off by a small amount there',
    [(M, "    # find the poles\n    if poles:\n        where_poles = (theta == 0.) | (theta == 180.)\n\n    # convert phi to radians\n",
      "    # find the poles\n    if poles:\n        where_poles = (theta < 0.1) | (theta > 179.9)\n\n    # convert phi to radians\n")],
    '''
c = rng.uniform(-9, 9, 15)
a = np.array(mu.synth_values(c, 6371.2, np.array([0., 0.09]), 20.))[:, 1]
assert np.allclose(a, mu.synth_values(c, 6371.2, 0.09, 20.), rtol=1e-12)
''')

bug('c05_sensitivity_slice', 'C05', 'sensitivity of coefficients of two or more degrees', 'mean square of a degree includes the first coefficient of the next degree',
    [(M, "        S[min:max] *= 1. / np.sqrt(np.sum(coeffs_true[min:max]**2) / (2*n + 1))", "        S[min:max] /= np.sqrt(np.mean(coeffs_true[min:max+1]**2))")],
    '''
a, b = rng.uniform(-9, 9, (2, 8))
assert np.allclose(mu.sensitivity(a, b)[:3], (a-b)[:3] / np.sqrt(np.mean(b[:3]**2)))
''')

bug('c06_needed_pieces', 'C06', 'the latest requested time lies exactly on an inner break at which a derivative of the spline is discontinuous',
    'derivative at that break comes from the piece on the left if it is the last time of the batch, from the right otherwise',
    [(H, "        PP = sip.PPoly.construct_fast(\n            self.coeffs[..., :dim].astype(float),\n            self.breaks.astype(float), extrapolate=True)\n\n        start = self.breaks[0]\n        end = self.breaks[-1]\n",
      "        start = self.breaks[0]\n        end = self.breaks[-1]\n\n        # only hand over the pieces that cover the requested times\n        lower, upper = 0, self.coeffs.shape[1]\n        if (self.order > 1 and (np.amin(time) >= start)\n                and (np.amax(time) <= end)):\n            lower = np.searchsorted(self.breaks, np.amin(time), 'right') - 1\n            upper = np.searchsorted(self.breaks, np.amax(time), 'left')\n            lower = min(lower, self.coeffs.shape[1] - 1)\n            upper = max(upper, lower + 1)\n\n        PP = sip.PPoly.construct_fast(\n            self.coeffs[:, lower:upper, :dim].astype(float),\n            self.breaks[lower:upper+1].astype(float), extrapolate=True)\n")],
    '''
m = chaos.BaseModel('m', breaks=[0., 1., 2., 3.], order=2, coeffs=rng.uniform(-9, 9, (2, 3, 3)))
a = m.synth_coeffs(np.array([0.5, 1., 2.]), deriv=1)
b = m.synth_coeffs(np.array([0.5, 1., 2., 2.5]), deriv=1)[:3]
assert np.array_equal(a, b)
''')

bug('c07_true_constant', 'C07', 'extrapolate=True outside of the model period', 'constant instead of linear extrapolation',
    [(H, "                key = 2 if extrapolate else 0\n", "                key = int(extrapolate)\n")],
    '''
m = chaos.BaseModel('m', breaks=[0., 1.], order=3, coeffs=rng.uniform(-9, 9, (3, 1, 3)))
assert np.array_equal(m.synth_coeffs(1.5, extrapolate=True), m.synth_coeffs(1.5, extrapolate='linear'))
''')

bug('c09_memo_without_deriv', 'C09', 'two evaluations of the same model at the same times and degree which differ only in the extrapolation',
    'second evaluation returns the memorised coefficients of the first',
    [(H, "        coeffs = super().synth_coeffs(time, dim=dim, deriv=deriv,\n                                      extrapolate=extrapolate)\n\n        return coeffs\n",
      "        # repeated evaluation at the same epochs, e.g. for several radii\n        memo = getattr(self, '_memo', None)\n        if (memo is not None and memo[1] == (dim, deriv)\n                and np.array_equal(memo[0], time)):\n            return memo[2].copy()\n\n        coeffs = super().synth_coeffs(\n            time, dim=dim, deriv=deriv, extrapolate=extrapolate)\n        self._memo = (np.array(time), (dim, deriv), coeffs.copy())\n\n        return coeffs\n")],
    '''
m = chaos.BaseModel('m', breaks=[0., 1., 2.], order=3, coeffs=rng.uniform(-9, 9, (3, 2, 3)))
t = np.array([0.5, 2.5])
a = m.synth_coeffs(t, extrapolate='linear')
assert np.isnan(m.synth_coeffs(t, extrapolate='off')[1]).all()
''')

bug('c09_scalar_sm', 'C09', 'synth_coeffs_sm with source="external" at a single (scalar) time, followed by any further SM evaluation',
    'the reference SM coefficients stored in the model are overwritten with RC-modulated ones',
    [(H, "            coeffs_sm = np.empty(time.shape + (self.n_sm*(self.n_sm + 2),))\n",
      "            if time.ndim == 0:\n                coeffs_sm = self.coeffs_sm\n            else:\n                coeffs_sm = np.empty(time.shape + self.coeffs_sm.shape)\n")],
    '''
m = model()
a = m.synth_coeffs_sm(0.5, source='external', rc=3.)
assert np.array_equal(a, m.synth_coeffs_sm(0.5, source='external', rc=3.))
''')

bug('c09_context_left', 'C09', 'plotting of maps which fails (e.g. a layout that does not fit), then anything that depends on the figure width',
    'configured figure width stays changed after the failed call',
    [(P, "    n = len(args)  # number of plots\n", "    n = len(args)  # number of plots\n    width = config_utils.basicConfig['plots.figure_width']\n    config_utils.basicConfig['plots.figure_width'] = max(width, 2.)\n"),
     (P, "    # load shapefile with the coastline\n", "    config_utils.basicConfig['plots.figure_width'] = width\n\n    # load file with the coastline\n")],
    '''
import matplotlib
matplotlib.use('Agg')
basicConfig['plots.figure_width'] = 1.
try:
    pu.plot_maps(np.array([10., 20.]), np.array([0., 10.]), np.ones((2, 2)), layout=(2, 2))
except ValueError:
    pass
assert basicConfig['plots.figure_width'] == 1.
''')

bug('c12_s11_breaks', 'C12', 'model whose s11 offsets have other bins than its q11 offsets', 's11 offset of the wrong bin is used',
    [(H, "            self.coeffs_delta['s11'].astype(float),\n            self.breaks_delta['s11'].astype(float), extrapolate=True)\n",
      "            self.coeffs_delta['s11'].astype(float),\n            self.breaks_delta['q11'].astype(float), extrapolate=True)\n")],
    '''
bd = {'q10': np.array([-480., 0., 380.]), 'q11': np.array([-490., 10., 390.]), 's11': np.array([-450., 200., 395.])}
cd = {k: rng.uniform(-9, 9, (1, 2)) for k in bd}
m = model(breaks_delta=bd, coeffs_delta=cd)
f = np.load(basicConfig['file.SM_spectrum'])
R = cu.synth_rotate_gauss(np.array(100.), f['frequency'], f['spectrum'], scaled=f['scaled'])
c = np.concatenate([[cd['q10'][0, 1], cd['q11'][0, 1], cd['s11'][0, 0]], m.coeffs_sm[3:]])
assert np.allclose(m.synth_coeffs_sm(100., rc=0.), R @ c)
''')

bug('c12_rc_gap', 'C12', 'a time outside of the RC index file together with source="internal"', 'coefficients are NaN instead of an error',
    [(H, "            if rc_below.any() or rc_above.any():\n", "            if source == 'external' and (rc_below.any() or rc_above.any()):\n")],
    '''
d = tempfile.mkdtemp()
basicConfig['file.RC_index'] = rcfile(d)
m = model()
try:
    m.synth_coeffs_sm(5000., source='internal')
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug('c14_header_line', 'C14', 'SHC file with comment lines whose marker is not the first character of the line or a marker given by the user', 'comment marker given by the user is ignored',
    [(D, "    comment = '#' if comment is None else comment\n", "    comment = '#'\n")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.shc')
open(p, 'w').write('% text\\n1 1 2 2 1\\n 2000.0 2001.0\\n1 0 1 2\\n1 1 3 4\\n1 -1 5 6\\n')
with warnings.catch_warnings():
    assert np.array_equal(du.load_shcfile(p, comment='%')[1], [[1, 2], [3, 4], [5, 6]])
''')

bug('c15_euler_equal_breaks', 'C15', 'Euler angles of a satellite with a single bin whose end points differ', 'end of a single bin is lost on saving',
    [(H, "                if breaks[0] == breaks[-1]:\n                    breaks = breaks[0]\n", "                if breaks.size == 2:  # single bin\n                    breaks = breaks[0]\n")],
    '''
d = tempfile.mkdtemp()
m = model(breaks_euler={'a': np.array([0., 10.]), 'b': np.array([0., 5., 10.])}, coeffs_euler={'a': np.ones((1, 1, 3)), 'b': np.ones((1, 2, 3))})
with quiet():
    m.save_matfile(os.path.join(d, 'a.mat'))
k = chaos.load_CHAOS_matfile(os.path.join(d, 'a.mat'), satellites=('a', 'b'))
assert np.array_equal(k.model_euler['a'].breaks, [0., 10.])
''')

bug('c16_covobs_years', 'C16', 'COV-OBS file, evaluation near its knots', 'knots are converted with leap years, up to 0.75 days off the years of 365.25 days of the format',
    [(H, "    breaks = du.dyear_to_mjd(tmp[3:], leap_year=False)", "    breaks = du.dyear_to_mjd(tmp[3:])")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'c.txt')
open(p, 'w').write('# c\\n1 3 3 1990. 1992. 1994. 1997. 1998. 2000.\\n' + ' '.join(str(i*1.5) for i in range(9)) + '\\n')
m = chaos.load_CovObs_txtfile(p)
assert np.allclose(m.breaks, (np.array([1990., 1992, 1994, 1997, 1998, 2000]) - 2000)*365.25)
''')

bug('c18_shc_cut_line', 'C18', 'SHC file cut in the middle of its last number', 'a cut line is completed with zeros',
    [(D, "            newline = np.fromstring(line, sep=' ')\n", "            newline = np.fromstring(line, sep=' ')\n            if not first_line and data.size:  # fill up missing values\n                newline = np.append(newline, np.zeros(\n                    max(values[3] + 2 - newline.size, 0)))\n"),
     (D, "                data = np.append(data, newline)\n", "                data = np.concatenate((data, newline))\n")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.shc')
open(p, 'w').write('1 1 2 2 1\\n 2000.0 2001.0\\n1 0 1 2\\n1 1 3 4\\n1 -1 5')
try:
    du.load_shcfile(p)
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug('c20_restore_default', 'C20', 'context used while the parameter already has a value other than its default', 'parameter is set back to the default instead of the value before',
    [(K, "        old_value = self.__getitem__(key)\n", "        old_value = self.defaults[key][0]\n")],
    '''
basicConfig['params.r_surf'] = 7000.
with basicConfig.context('params.r_surf', 1.):
    pass
assert basicConfig['params.r_surf'] == 7000.
''')

bug('c21_year_width', 'C21', 'calendar years of more than four characters, e.g. 10000 or -4999', 'year is cut to four characters',
    [(D, "        year = np.asarray(year, dtype=np.str_)\n", "        year = np.asarray(year, dtype='U4')\n")],
    '''
assert du.mjd2000(-4999, 1, 1) == (np.datetime64('-4999-01-01') - np.datetime64('2000-01-01')).astype(int)
''')

bug('c22_negative_years', 'C22', 'decimal years before year 0 with leap years accounted for', 'fraction of the year is taken with the wrong sign',
    [(D, "        frac_of_year = np.remainder(time, 1.)\n", "        frac_of_year = np.modf(time)[0]\n")],
    '''
t = du.mjd2000(-2000, 6, 1) + 0.25
assert abs(du.dyear_to_mjd(du.mjd_to_dyear(t)) - t) < 1e-4
''')

bug('c31_layer_radius', 'C31', 'layered conductivity with three or more layers, all but the uppermost layer conducting', 'thickness of the layers below the first is taken relative to the surface radius',
    [(C, "            etak = radius[k]/radius[k+1]\n", "            etak = radius[max(k-1, 0)]/radius[k+1]\n")],
    '''
a = cu.q_response_1D(np.array([1e7]), np.array([.01, .01, 2.]), np.array([6371.2, 6300., 6000.]), 1)[0]
b = cu.q_response_1D(np.array([1e7]), np.array([.01, 2.]), np.array([6371.2, 6000.]), 1)[0]
assert np.allclose(a, b, rtol=1e-2)
''')

bug('c32_clipped_map', 'C32', 'map with colour limits smaller than the data', 'data drawn in the map are clipped to the colour range',
    [(P, "                           component, **kwargs)", "                           np.clip(component, kwargs['vmin'], kwargs['vmax']),\n                           **kwargs)")],
    '''
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
th, ph = np.linspace(10, 170, 5), np.linspace(-170, 170, 6)
B = np.arange(30.).reshape(5, 6)
pu.plot_maps(th, ph, B, vmax=10, vmin=-10)
q = plt.gcf().axes[0].collections[0]
assert np.array_equal(np.ravel(q.get_array()), np.ravel(B))
''')
