from bugs import bug

M, C, D, K, P, H = 'model_utils', 'coordinate_utils', 'data_utils', 'config_utils', 'plot_utils', 'chaos'

bug('c01_external_nmin', 'C01', 'external source together with nmin >= 2 and a radius other than the reference radius',
    'radial dependence of the first degree is dropped, so the field is no longer the gradient of a potential with the stated radial powers',
    [(M, "        r_n = radius**(nmin-1)\n    else:\n        raise ValueError(\"Source must be either 'internal' or 'external'.\")\n\n    # compute associated Legendre polynomials as (n, m, theta-points)-array\n    Pnm = legendre_poly(nmax, theta)\n\n    # save sinth",
      "        r_n = np.ones_like(radius)\n    else:\n        raise ValueError(\"Source must be either 'internal' or 'external'.\")\n\n    # compute associated Legendre polynomials as (n, m, theta-points)-array\n    Pnm = legendre_poly(nmax, theta)\n\n    # save sinth")],
    '''
c = rng.uniform(-9, 9, 5)
full = np.concatenate([np.zeros(3), c])
a = mu.synth_values(c, 7000., 40., 50., nmin=2, nmax=2, source='external')
b = mu.synth_values(full, 7000., 40., 50., source='external')
assert np.allclose(a, b, rtol=1e-12)
''')

bug('c02_design_south_pole', 'C02', 'design matrix at the geographic south pole (theta = 180)',
    'azimuthal design matrix has the wrong sign at the south pole, so it does not reproduce the synthesis there',
    [(M, "                div_Pnm[where_poles] *= Pnm[1, 0][where_poles]\n                div_Pnm[~where_poles] /= sinth[~where_poles]\n            else:\n                div_Pnm = Pnm[n, m] / sinth\n\n            A_phi",
      "                div_Pnm[where_poles] *= np.abs(Pnm[1, 0][where_poles])\n                div_Pnm[~where_poles] /= sinth[~where_poles]\n            else:\n                div_Pnm = Pnm[n, m] / sinth\n\n            A_phi")],
    '''
c = rng.uniform(-9, 9, 15)
r, t, p = 6500., np.array([10., 180.]), np.array([30., 70.])
A = mu.design_gauss(r, t, p, 3)
assert np.allclose(np.array(A) @ c, mu.synth_values(c, r, t, p))
''')

bug('c02_design_static', 'C02', 'design_matrix with a static part, n_static > n_tdep',
    'columns of the static part are taken one degree group too early in the theta component',
    [(M, "    G_theta[:, n_col:] = A_theta[:, n_coeff_tdep:n_coeff_static]",
      "    G_theta[:, n_col:] = A_theta[:, :n_coeff_static-n_coeff_tdep]")],
    '''
k = mu.augment_breaks(np.array([0., 1., 2.]), 3)
t, r, th, ph = np.array([0.5, 1.5]), np.full(2, 6371.2), np.array([40., 80.]), np.array([5., 100.])
G = mu.design_matrix(k, 3, 1, t, r, th, ph, n_static=2)
A = mu.design_gauss(r, th, ph, 2)
assert np.allclose(G[1][:, -5:], A[1][:, 3:])
''')

bug('c03_grid_radius', 'C03', 'grid=True with a radius array of one value per colatitude',
    'radius is used per longitude instead of per colatitude (or refused) on the grid',
    [(M, "    if grid:\n        theta = np.expand_dims(theta, axis=-1)  # append singleton dimension\n",
      "    if grid:\n        if radius.ndim > 1 and radius.shape[-1] == 1:\n            radius = np.squeeze(radius, axis=-1)\n        theta = np.expand_dims(theta, axis=-1)  # append singleton dimension\n"),
     (M, "        phi = np.expand_dims(phi, axis=-2)  # insert singleton before last\n", "        phi = np.expand_dims(phi, axis=-2)  # insert singleton dimension\n")],
    '''
c = rng.uniform(-9, 9, 8)
r, t, p = np.array([[6400.], [6800.]]), np.array([20., 70.]), np.array([0., 100.])
a = np.array(mu.synth_values(c, r, t, p, grid=True))
b = np.array([[mu.synth_values(c, r[i, 0], t[i], p[j]) for j in range(2)] for i in range(2)]).transpose(2, 0, 1)
assert np.allclose(a, b)
''')

bug('c04_single_precision', 'C04', 'any degree >= 2 compared to better than single precision',
    'square roots of the recursion are kept in single precision, the functions are no longer accurate to rounding',
    [(M, "    rootn = np.sqrt(np.arange(2 * nmax**2 + 1))", "    rootn = np.sqrt(np.arange(2 * nmax**2 + 1, dtype=np.float32))")],
    '''
P = mu.legendre_poly(3, np.array([33.]))
x = np.cos(np.radians(33.))
assert abs(P[2, 0, 0] - (1.5*x*x - 0.5)) < 1e-12
assert abs(P[2, 1, 0] - np.sqrt(3)*x*np.sqrt(1-x*x)) < 1e-12
''')

bug('c04_high_degree', 'C04', 'degree 46 and above: integer products in 16 bit overflow',
    'derivatives of the zonal functions are wrong for high degrees',
    [(M, "    for n in range(2, nmax+1):\n        Pnm[0, n+1] = -np.sqrt((n*n + n) / 2) * Pnm[n, 1]",
      "    for n in range(2, nmax+1):\n        Pnm[0, n+1] = -rootn[min(n, 64)*(min(n, 64)+1)//2] * Pnm[n, 1]")],
    '''
n, t = 70, np.array([41.])
P = mu.legendre_poly(n, t)
h = 1e-4
d = (mu.legendre_poly(n, t+h)[n, 0] - mu.legendre_poly(n, t-h)[n, 0]) / np.radians(2*h)
assert np.allclose(P[0, n+1], d, rtol=1e-5, atol=1e-6)
''')

bug('c05_integer_spectrum', 'C05', 'coefficients of integer type together with a radius different from the reference radius',
    'power spectrum is truncated to integers',
    [(M, "    W_n = np.empty(shape)\n", "    W_n = np.empty(shape, dtype=coeffs.dtype)\n")],
    '''
c = np.array([3, -4, 5, 1, 2, 0, 7, 1])
assert np.allclose(mu.power_spectrum(c, 7000.), mu.power_spectrum(c.astype(float), 7000.))
''')

bug('c06_derivative_unit', 'C08', 'second or higher derivative', 'derivatives above the first are scaled per year only once',
    [(H, "            PP = PP", "")] if False else
    [(M, "    gauss_coeffs = PP(time) * 365.25**deriv\n", "    gauss_coeffs = PP(time) * (365.25*deriv if deriv else 1.)\n")],
    '''
c = rng.uniform(-9, 9, (4, 2, 3))
b = np.array([0., 300., 700.])
t = np.array([100., 500.])
m = chaos.BaseModel('m', breaks=b, order=4, coeffs=c)
for d in range(4):
    assert np.allclose(mu.synth_from_pp(b, 4, c, t, 6500., 40., 20., deriv=d), m.synth_values(t, 6500., 40., 20., deriv=d))
''')

bug('c07_off_silent', 'C07', 'extrapolate="off" (or False) with times outside the model period', 'no warning is given, the result is NaN silently',
    [(H, "            warnings.warn(\"Requested coefficients are \"\n                          \"outside of the model time period from \"\n                          f\"{start} to {end} Modified Julian Date 2000. \"\n                          f\"Doing {message} extrapolation of the \"\n                          \"coefficient time series.\")\n\n            if key > 0:\n",
      "            if key > 0:\n                warnings.warn(\"Requested coefficients are \"\n                              \"outside of the model time period from \"\n                              f\"{start} to {end} Modified Julian Date 2000. \"\n                              f\"Doing {message} extrapolation of the \"\n                              \"coefficient time series.\")\n\n")],
    '''
m = chaos.BaseModel('m', breaks=[0., 1., 2.], order=2, coeffs=rng.uniform(-9, 9, (2, 2, 3)))
for e in ('off', False, 0):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        m.synth_coeffs(np.array([0.5, 2.5]), extrapolate=e)
    assert w
''')

bug('c07_spline_order', 'C07', 'extrapolate="spline" on a model of order higher than 4', 'spline is continued with the cubic part only',
    [(H, "                'spline': self.order,\n                'off': 0\n", "                'spline': min(self.order, 4),\n                'off': 0\n")],
    '''
c = rng.uniform(-1, 1, (6, 1, 3))
m = chaos.BaseModel('m', breaks=[0., 1.], order=6, coeffs=c)
t = 1.75
assert np.allclose(m.synth_coeffs(t, extrapolate='spline'), sum(c[5-k, 0]*t**k for k in range(6)))
''')

bug('c08_colloc_deriv', 'C08', 'collocation matrix of the highest non-zero derivative (deriv = order - 1)', 'matrix is zero instead of piecewise constant',
    [(M, "    if deriv >= order:\n", "    if deriv >= order - 1 > 0:\n")],
    '''
k = mu.augment_breaks(np.array([0., 1., 3.]), 2)
A = mu.colloc_matrix(np.array([0.5, 2.]), k, 2, deriv=1)
assert np.allclose(A, [[-1., 1., 0.], [0., -0.5, 0.5]])
''')

bug('c08_unique_breaks', 'C08', 'break points with a repeated inner value (reduced continuity)', 'multiplicity of inner knots is lost',
    [(M, "    return np.array([breaks[0]]*degree + list(breaks) + [breaks[-1]]*degree)",
      "    return np.array([breaks[0]]*degree + list(np.unique(breaks))\n                    + [breaks[-1]]*degree)")],
    '''
assert np.array_equal(mu.augment_breaks(np.array([0., 1., 1., 2.]), 3), [0., 0., 0., 1., 1., 2., 2., 2.])
''')

bug('c09_center_inplace', 'C09', 'center_azimuth given an array with values outside [0, 360)', 'the array of the caller is modified',
    [(C, "    phi = phi % 360.\n", "    try:\n        np.remainder(phi, 360., out=phi)  # avoid copy of large grids\n    except TypeError:\n        phi = phi % 360.\n")],
    '''
p = np.array([-10., 10., 370.])
q = p.copy()
cu.center_azimuth(p)
assert np.array_equal(p, q)
''')

bug('c10_rotation_buffer', 'C10', 'two threads evaluating external fields at arrays of times of the same shape, switched between filling and using the buffer',
    'rotation matrices mix the times of both threads',
    [(C, "    # compute complex exponentials\n    harmonics = np.empty(freq_t.shape, dtype=complex)\n    harmonics = np.cos(freq_t) + 1j*np.sin(freq_t)\n",
      "    # compute complex exponentials in work array that is reused\n    harmonics = _WORK.get(freq_t.shape)\n    if harmonics is None:\n        harmonics = np.empty(freq_t.shape, dtype=complex)\n        _WORK[freq_t.shape] = harmonics\n    np.cos(freq_t, out=harmonics.real)\n    np.sin(freq_t, out=harmonics.imag)\n"),
     (C, "ROOT = os.path.abspath(os.path.dirname(__file__))\n", "ROOT = os.path.abspath(os.path.dirname(__file__))\n_WORK = dict()\n")],
    '''
import threading
w = {}
def run(k, t):
    for i in range(400):
        w.setdefault(k, []).append(cu.synth_rotate_gauss(t, fr, sp, scaled=True))
fr, sp = np.linspace(0, 3, 200).reshape(-1, 1, 1)*np.ones((200, 8, 8)), rng.uniform(-1, 1, (200, 8, 8))*(1+1j)
sys.setswitchinterval(1e-6)
T = [rng.uniform(0, 100, 3) for _ in range(4)]
want = [cu.synth_rotate_gauss(t, fr, sp, scaled=True) for t in T]
th = [threading.Thread(target=run, args=(i, t)) for i, t in enumerate(T)]
[t.start() for t in th]; [t.join() for t in th]
assert all(np.array_equal(x, want[k]) for k in w for x in w[k])
''')

bug('c10_nmax_swap', 'C10', 'two threads evaluate the same model with different nmax', 'degree of the model is changed for the duration of a call, the other thread sees it',
    [(H, "        coeffs = self.synth_coeffs(time, nmax=nmax, deriv=deriv,\n                                   extrapolate=extrapolate)\n\n        return mu.synth_values(coeffs, radius, theta, phi, nmax=nmax,\n                               source=self.source, grid=grid)\n",
      "        full, self.nmax = self.nmax, nmax  # degree in use\n        try:\n            coeffs = self.synth_coeffs(time, nmax=nmax, deriv=deriv,\n                                       extrapolate=extrapolate)\n\n            return mu.synth_values(coeffs, radius, theta, phi, nmax=nmax,\n                                   source=self.source, grid=grid)\n        finally:\n            self.nmax = full\n")],
    '''
import threading
m = chaos.BaseModel('m', breaks=[0., 1.], order=2, coeffs=rng.uniform(-9, 9, (2, 1, 35)))
want = [np.array(m.synth_values(0.5, 6500., 40., 20., nmax=n)) for n in (1, 5)]
sys.setswitchinterval(1e-6)
bad = []
def run(i, n):
    for _ in range(1500):
        if not np.array_equal(np.array(m.synth_values(0.5, 6500., 40., 20., nmax=n)), want[i]):
            bad.append(n)
th = [threading.Thread(target=run, args=(i, n)) for i, n in enumerate((1, 5))]
[t.start() for t in th]; [t.join() for t in th]
assert not bad and m.nmax == 5
''')

bug('c11_gsm_contains_sm', 'C11', 'source_list given as the plain string "gsm"', 'SM field is added to the requested GSM field',
    [(H, "        source_list = np.ravel(np.array(source_list))\n", "        if not isinstance(source_list, str):\n            source_list = list(source_list)\n")],
    '''
d = tempfile.mkdtemp()
basicConfig['file.RC_index'] = rcfile(d)
m = model()
a = m(0.5, 6500., 40., 20., source_list='gsm')
b = m.synth_values_gsm(0.5, 6500., 40., 20.)
assert np.allclose(a, b, rtol=1e-12)
''')

bug('c11_rc_i_default', 'C11', 'the model called with rc_e but without rc_i', 'the internal part uses the external index instead of the one of the file',
    [(H, "                time, radius, theta, phi, rc_e=rc_e, rc_i=rc_i, source='all')", "                time, radius, theta, phi, rc_e=rc_e,\n                rc_i=rc_e if rc_i is None else rc_i, source='all')")],
    '''
d = tempfile.mkdtemp()
basicConfig['file.RC_index'] = rcfile(d)
m = model()
a = m(0.5, 6500., 40., 20., source_list=['sm'], rc_e=5.)
b = m.synth_values_sm(0.5, 6500., 40., 20., rc_e=5.)
assert np.allclose(a, b, rtol=1e-12)
''')

bug('c12_induced_degree1', 'C12', 'internal SM coefficients of a model with non-zero offsets', 'offsets are added to the degree 1 part rotated without induction',
    [(H, "            coeffs_sm_ind[..., 2] = delta_s11(time)\n", "            coeffs_sm_ind[..., 2] = 0.\n            coeffs_sm[..., 2] += delta_s11(time)\n")],
    '''
m = model()
f = np.load(basicConfig['file.SM_spectrum'])
t = 33.
R = cu.synth_rotate_gauss(np.array(t), f['frequency_ind'], f['spectrum_ind'], scaled=f['scaled'])
c = np.concatenate([[m.coeffs_delta['q10'][0, 2], m.coeffs_delta['q11'][0, 1], m.coeffs_delta['s11'][0, 1]], m.coeffs_sm[3:]])
assert np.allclose(m.synth_coeffs_sm(t, rc=0., source='internal'), R @ c)
''')

bug('c13_silent_skip', 'C13', 'model without GSM coefficients called with the default sources', 'missing source is skipped silently instead of refused',
    [(H, "        if 'gsm' in source_list:\n", "        if 'gsm' in source_list and self.coeffs_gsm is not None:\n")],
    '''
m = model(drop=('coeffs_gsm',))
try:
    m(0.5, 6500., 40., 20., source_list=['tdep', 'gsm'])
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug('c13_static_only_period', 'C13', 'model without static part and GSM requested outside of the model period', 'no warning about extrapolation when there is no static part',
    [(H, "        if np.amin(time) < start or np.amax(time) > end:\n            warnings.warn(\n                'Requested coefficients are outside of the '\n                f'model period from {start} to {end}. Doing linear '\n                'extrapolation of the coefficients in the GSM reference '\n                'frame.')\n",
      "        if self.model_static and (np.amin(time) < start\n                                  or np.amax(time) > end):\n            warnings.warn(\n                'Requested coefficients are outside of the '\n                f'model period from {start} to {end}. Doing linear '\n                'extrapolation of the coefficients in the GSM reference '\n                'frame.')\n")],
    '''
m = model(drop=('coeffs_static',))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    m.synth_coeffs_gsm(5000.)
assert w
''')

bug('c14_nmin_offset', 'C14', 'SHC file with nmin >= 3', 'coefficients are inserted one degree too low',
    [(H, "            coeffs_pad[:, int(nmin**2 - 1):] = coeffs\n", "            lower = int(nmin**2 - 1) if nmin < 3 else int((nmin - 1)*nmin + 2)\n            coeffs_pad[:, lower:lower+coeffs.shape[1]] = coeffs\n")],
    '''
d = tempfile.mkdtemp()
m = chaos.BaseModel('m', breaks=[0., 1.], order=1, coeffs=rng.uniform(-9, 9, (1, 1, 24)))
with quiet():
    m.to_shc(os.path.join(d, 'a.shc'), nmin=4)
k = chaos.BaseModel.from_shc(os.path.join(d, 'a.shc'))
assert np.allclose(k.coeffs[0, 0, 15:], m.coeffs[0, 0, 15:], atol=1e-7)
''')

bug('c15_sorted_satellites', 'C15', 'model whose satellites are not in alphabetical order', 'Euler angles are stored in alphabetical order and come back under other satellites',
    [(H, "            for satellite in satellites:\n\n                # reduce breaks", "            for satellite in sorted(satellites):\n\n                # reduce breaks")],
    '''
d = tempfile.mkdtemp()
m = model()
with quiet():
    m.save_matfile(os.path.join(d, 'a.mat'))
k = chaos.load_CHAOS_matfile(os.path.join(d, 'a.mat'), satellites=('oersted', 'champ', 'swarm_a'))
for s in m.model_euler:
    assert np.array_equal(m.model_euler[s].breaks, k.model_euler[s].breaks)
''')

bug('c15_mean_dst', 'C15', 'model with degree 1 SM coefficients, saved and loaded', 'one of the reference SM coefficients is replaced by the mean offset',
    [(H, "        coeffs_sm[:3] = model_ext['m_Dst']  # replace with m_Dst", "        coeffs_sm[:2] = model_ext['m_Dst'][:2]  # replace with m_Dst")],
    '''
d = tempfile.mkdtemp()
m = model()
with quiet():
    m.save_matfile(os.path.join(d, 'a.mat'))
k = chaos.load_CHAOS_matfile(os.path.join(d, 'a.mat'))
assert np.allclose(k.coeffs_sm, m.coeffs_sm)
''')

bug('c16_igrf_epochs', 'C16', 'IGRF text file, values at or near the tabulated epochs', 'epochs are placed up to 0.75 days off the first of January',
    [(H, "    breaks_mjd = du.dyear_to_mjd(breaks, leap_year=True)", "    breaks_mjd = du.dyear_to_mjd(breaks, leap_year=False)")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'igrf.txt')
open(p, 'w').write('c/s deg ord IGRF IGRF SV\\ng/h n m 2005.0 2010.0 2010-15\\ng 1 0 -29554.63 -29496.57 11.4\\ng 1 1 -1669.05 -1586.42 16.7\\nh 1 1 5077.99 4944.26 -28.8\\n')
m = chaos.load_IGRF_txtfile(p)
assert np.allclose(m.breaks[:2], du.mjd2000(np.array([2005, 2010])))
''')

bug('c17_single_precision', 'C17', 'hourly RC index more than a few years after 2000 converted to HDF5', 'time stamps lose their fraction of the hour',
    [(D, "                    f.create_dataset(column, data=variable)  # just save floats", "                    f.create_dataset(column, data=variable, dtype='f4')")],
    '''
import h5py
d = tempfile.mkdtemp()
p = os.path.join(d, 'rc.dat')
open(p, 'w').write('# RC\\n' + ''.join(f'{8000 + (i+0.5)/24:.6f} {i}.25 1.1 {i}.3 D\\n' for i in range(5)))
with quiet():
    du.save_RC_h5file(os.path.join(d, 'a.h5'), read_from=p)
with h5py.File(os.path.join(d, 'a.h5')) as f:
    assert np.array_equal(np.asarray(f['time'], dtype=float), du.load_RC_datfile(p)['time'].values)
''')

bug('c17_gap_nearest', 'C17', 'RC index in the text format (not HDF5), times between samples', 'index is not interpolated linearly when it is read from the text file',
    [(H, "                RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],\n                                  kind='linear', bounds_error=False)", "                RC = sip.interp1d(f_RC['time'], f_RC['RC_' + source[0]],\n                                  kind='nearest', bounds_error=False)")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'rc.dat')
open(p, 'w').write('# RC\\n' + ''.join(f'{i-5} {i}.5 {i*i} {i*3} D\\n' for i in range(10)))
m = model()
basicConfig['file.RC_index'] = p
assert np.allclose(m.synth_coeffs_sm(0.25), m.synth_coeffs_sm(0.25, rc=25+0.25*11))
''')

bug('c18_truncated_gufm', 'C18', 'gufm1 file cut off after some of its coefficients', 'truncated file is accepted, missing coefficients repeat the ones at the start',
    [(H, "    coeffs[degree:-degree, :] = data[(nbreaks + 2):].reshape(\n        (breaks.size - order, nmax * (nmax + 2)))", "    coeffs[degree:-degree, :] = np.resize(\n        data[(nbreaks + 2):], (breaks.size - order, nmax * (nmax + 2)))")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'g.txt')
open(p, 'w').write('gufm1\\n1 3\\n1590 1600 1610 1620 1630 1640 1650\\n' + ' '.join(str(i*1.5) for i in range(6)) + '\\n')
try:
    chaos.load_gufm1_txtfile(p)
except Exception:
    sys.exit(0)
sys.exit(1)
''')

bug('c18_shc_overwrite', 'C14', 'save of an SHC model over an existing longer file, interrupted or not', 'rest of the previous file remains after the new content',
    [(D, "    with open(filepath, 'w') as f:\n        # write comment line\n", "    with open(filepath, 'r+' if os.path.isfile(filepath) else 'w') as f:\n        # write comment line\n")],
    '''
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.shc')
with quiet():
    du.save_shcfile(np.arange(4.), rng.uniform(-9, 9, (4, 15)), order=2, filepath=p)
    du.save_shcfile(np.arange(2.), rng.uniform(-9, 9, (2, 3)), order=2, filepath=p)
assert du.load_shcfile(p)[1].shape == (3, 2)
''')

bug('c19_reset_alias', 'C19', 'reset of an array parameter, modification of the array in place, another reset', 'defaults are handed out by reference and no longer restore the original value',
    [(K, "        self.__setitem__(key, self.defaults[key][0])", "        super().__setitem__(key, self.defaults[key][0])  # is valid")],
    '''
basicConfig.reset('params.dipole')
basicConfig['params.dipole'][0] = 1.
basicConfig.reset('params.dipole')
assert basicConfig['params.dipole'][0] == -29442.
''')

bug('c19_version', 'C19', 'CHAOS version assigned with surrounding text', 'only the first two numbers of the version are stored silently',
    [(K, "    match = re.search(r'\\d+\\.\\d+', s)\n    if match:\n        return s\n", "    match = re.search(r'\\d+\\.?\\d*', s)\n    if match:\n        return s\n")],
    '''
try:
    basicConfig['params.CHAOS_version'] = '7'
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

