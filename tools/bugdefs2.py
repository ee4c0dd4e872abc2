from bugs import bug

M, C, D, K, P, H = 'model_utils', 'coordinate_utils', 'data_utils', 'config_utils', 'plot_utils', 'chaos'

bug('c20_default_inside', 'C20', 'context entered with the value that is already set, the parameter changed inside the context', 'setting made inside the context survives it',
    [(K, "        old_value = self.__getitem__(key)\n        self.__setitem__(key, value)\n        try:\n", "        old_value = self.__getitem__(key)\n        if np.array_equal(old_value, value):\n            yield\n            return\n        self[key] = value\n        try:\n")],
    '''
a = basicConfig['params.r_surf']
with basicConfig.context('params.r_surf', a):
    basicConfig['params.r_surf'] = 1.
assert basicConfig['params.r_surf'] == a
''')

bug('c22_century', 'C22', 'decimal years in 1900, 2100 or another century year that is no leap year', 'century years are taken for leap years',
    [(D, "    return np.logical_and(np.remainder(year, 4) == 0,\n                          np.logical_or(np.remainder(year, 100) != 0,\n                                        np.remainder(year, 400) == 0))", "    return np.remainder(year, 4) == 0  # from 1901 to 2099")],
    '''
assert not du.is_leap_year(1900) and not du.is_leap_year(2100) and du.is_leap_year(2000)
t = du.mjd2000(1900, 12, 31) + 0.75
assert abs(du.dyear_to_mjd(du.mjd_to_dyear(t)) - t) < 1e-6 and np.floor(du.mjd_to_dyear(t)) == 1900
assert abs(du.mjd_to_dyear(t) - (1900 + 364.75/365)) < 1e-9
''')

bug('c23_origin_theta', 'C23', 'points close to the polar axis', 'colatitude from the arc cosine loses its accuracy near the poles',
    [(C, "    theta = np.arctan2(np.sqrt(x**2 + y**2), z)", "    theta = np.arccos(z / radius)")],
    '''
r, t, p = cu.cartesian_to_spherical(*cu.spherical_to_cartesian(6371.2, 1e-6, 30.))
assert abs(t - 1e-6) < 1e-12
''')

bug('c23_center_half_open', 'C23', 'longitude of exactly 180 degrees (or an odd multiple)', 'it is mapped to -180 instead of 180',
    [(C, "        phi = np.where(phi > 180., phi - 360., phi)  # centered around prime", "        phi = np.where(phi >= 180., phi - 360., phi)  # centered around prime")],
    '''
assert cu.center_azimuth(np.array([180., -180., 540.])).tolist() == [180., 180., 180.]
''')

bug('c24_negative_height', 'C24', 'points below the ellipsoid', 'height is returned without its sign',
    [(C, "    height = U*(1. - b2 / (a*V))", "    height = np.abs(U*(1. - b2 / (a*V)))")],
    '''
r, t = cu.gg_to_geo(-12., 50.)
assert abs(cu.geo_to_gg(r, t)[0] + 12.) < 1e-6
''')

bug('c24_psi_order', 'C24', 'conversion of vector components from geocentric to geodetic at points of several heights', 'base vectors are built for the geodetic colatitude of the reference ellipsoid at height zero',
    [(C, "        gg_1, _, gg_3 = basevectors_gg(theta, beta)\n\n        # components of base vectors are the row of the rotation matrix",
      "        gg_1, _, gg_3 = basevectors_gg(\n            np.degrees(np.arctan(b2/a2*np.tan(np.radians(theta - 90.)))) + 90.\n            if np.ndim(theta) == 2 else theta, beta)\n\n        # components of base vectors are the row of the rotation matrix")],
    '''
t = np.array([[30., 60.], [100., 140.]])
a = cu.geo_to_gg(6800., t, 3., 4.)
b = np.array([[cu.geo_to_gg(6800., x, 3., 4.) for x in q] for q in t]).transpose(2, 0, 1)
assert np.allclose(a, b)
''')

bug('c25_mag_parallel', 'C25', 'dipole with its north pole in the southern hemisphere (reversed)', 'MAG frame is left-handed for a reversed dipole',
    [(C, "    mag_2 = np.cross(np.array([0., 0., 1.]), mag_3)\n", "    mag_2 = np.cross(np.array([0., 0., 1.]), mag_3)\n    mag_2 = mag_2 * np.sign(mag_3[..., 2:])  # eastward\n"),
     (C, "    mag_1 = np.cross(mag_2, mag_3)\n", "    mag_1 = np.cross(mag_2, mag_3) * np.sign(mag_3[..., 2:])\n")],
    '''
for d in ([-29442.0, -1501.0, 4797.1], [29442.0, -1501.0, 4797.1]):
    b = np.array(cu.basevectors_mag(dipole=np.array(d)))
    assert np.isclose(np.linalg.det(b), 1.)
''')

bug('c26_sm_dipole', 'C26', 'transform_vectors to SM with a dipole different from the configured one', 'vectors are transformed with the configured dipole while points use the given one',
    [(C, "        base_1, base_2, base_3 = basevectors_sm(time, dipole=dipole)\n\n    elif reference == 'mag':\n        # compute centered dipole base vectors\n        base_1, base_2, base_3 = basevectors_mag(dipole=dipole)\n\n    else:\n        raise ValueError('Unknown target reference system. Use one of '\n                         '{\"gsm\", \"sm\", \"mag\"}.')\n\n    # combine",
      "        base_1, base_2, base_3 = basevectors_sm(time)\n\n    elif reference == 'mag':\n        # compute centered dipole base vectors\n        base_1, base_2, base_3 = basevectors_mag(dipole=dipole)\n\n    else:\n        raise ValueError('Unknown target reference system. Use one of '\n                         '{\"gsm\", \"sm\", \"mag\"}.')\n\n    # combine")],
    '''
d = (12., 280.)
a = cu.transform_points(40., 30., np.array([5.5]), reference='sm', dipole=d)
b = cu.transform_vectors(40., 30., 1., 2., np.array([5.5]), reference='sm', dipole=d)
assert np.allclose(a, b[:2])
''')

bug('c27_quadrature', 'C27', 'rotation matrix with kmax larger than nmax + 1', 'quadrature is not exact for the higher degrees of the reference system',
    [(C, "    n_theta = int((nmax + kmax + 1)/2) + 1  # number of points in colatitude", "    n_theta = nmax + 1  # number of points in colatitude")],
    '''
b = [np.array(x) for x in cu.basevectors_mag()]
A = cu.rotate_gauss(1, 4, *b)
assert np.abs(A[:, 3:]).max() < 1e-10
''')

bug('c28_scaled_induced', 'C28', 'scaled=True with a response that changes the order of the spectral lines', 'induced spectrum is scaled at the position of the constant term of the inducing one',
    [(C, "        spectrum_ind = np.where(frequency_ind == 0.0, spectrum_ind,\n                                2*spectrum_ind)", "        spectrum_ind = np.where(frequency == 0.0, spectrum_ind,\n                                2*spectrum_ind)")],
    '''
q = lambda f, k: np.where(f > 0, 1., 0.)*(1+0j)
with quiet():
    a = cu.rotate_gauss_fft(1, 1, qfunc=q, step=1., N=24, filter=5, scaled=True)
    b = cu.rotate_gauss_fft(1, 1, qfunc=q, step=1., N=24, filter=5, scaled=False)
t = np.array([0.3, 0.7])
assert np.allclose(cu.synth_rotate_gauss(t, a[2], a[3], scaled=True), cu.synth_rotate_gauss(t, b[2], b[3], scaled=False))
''')

bug('c28_filter_sort', 'C28', 'spectra limited to a number of components (filter) smaller than the number of frequencies', 'components are selected by their real part, not their amplitude',
    [(C, "            sort = np.argsort(np.abs(element))[::-1]", "            sort = np.argsort(np.abs(element.real))[::-1]")],
    '''
with quiet():
    a = cu.rotate_gauss_fft(1, 1, step=1., N=48, filter=25, scaled=False)
    b = cu.rotate_gauss_fft(1, 1, step=1., N=48, filter=2, scaled=False)
assert np.allclose(np.abs(b[1]), np.sort(np.abs(a[1]), axis=0)[::-1][:2])
''')

bug('c29_period_any', 'C29', 'array of times of which only some are outside 1901 to 2099', 'times outside the stated period are accepted if one of them is inside',
    [(C, "    assert np.all((year + time // 365.25) < 2099) \\\n", "    assert np.any((year + time // 365.25) < 2099) \\\n")],
    '''
try:
    cu.sun_position(np.array([0., 40000.]))
except AssertionError:
    sys.exit(0)
sys.exit(1)
''')

bug('c30_aliasing', 'C30', 'spherical harmonic analysis with kmax larger than nmax', 'number of longitudes is too small for the degree of the function: aliasing',
    [(C, "    n_phi = 2*n_theta  # number of points in azimuth\n\n    x, weights = np.polynomial.legendre.leggauss(n_theta)\n    theta = np.degrees(np.arccos(x))\n    phi = np.arange(n_phi) * np.degrees(2*np.pi)/n_phi\n\n    # compute Schmidt quasi-normalized associated Legendre functions\n    Pnm",
      "    n_phi = 2*(nmax + 1)  # number of points in azimuth\n\n    x, weights = np.polynomial.legendre.leggauss(n_theta)\n    theta = np.degrees(np.arccos(x))\n    phi = np.arange(n_phi) * np.degrees(2*np.pi)/n_phi\n\n    # compute Schmidt quasi-normalized associated Legendre functions\n    Pnm")],
    '''
c = rng.uniform(-9, 9, 35)
f = lambda t, p: mu.synth_values(c, 6371.2, t, p)[0]
a = cu.sh_analysis(f, 2, kmax=5)
n = np.repeat([1, 2], [3, 5])
assert np.allclose(a, c[:8]*(n+1))
''')

bug('c31_overflow_sign', 'C31', 'period so short (frequency so high) that the layer admittance overflows', 'limit of the hyperbolic tangent has the wrong sign',
    [(C, "            tauk[np.isnan(tauk)] = -1.", "            tauk[np.isnan(tauk)] = 1.")],
    '''
s = np.array([1., 1.])
r = np.array([6371.2, 3000.])
with np.errstate(all='ignore'):
    C1 = cu.q_response_1D(np.array([1e-1]), s, r, 1)[0]
    C2 = cu.q_response_1D(np.array([1e-1]), np.array([1.]), np.array([6371.2]), 1)[0]
assert np.allclose(C1, C2, rtol=1e-3)
''')

bug('c32_external_nmax', 'C32', 'maps of the external field with both reference systems and nmax = 1', 'SM part of the map is not truncated',
    [(H, "            B_radius_sm, B_theta_sm, B_phi_sm = self.synth_values_sm(\n                time, radius, theta, phi, nmax=nmax, source=source, grid=True)", "            B_radius_sm, B_theta_sm, B_phi_sm = self.synth_values_sm(\n                time, radius, theta, phi, source=source, grid=True)")],
    '''
d = tempfile.mkdtemp()
basicConfig['file.RC_index'] = rcfile(d)
m = model()
got = []
pu.plot_maps = lambda th, ph, *B, **k: got.append((th, ph, B))
m.plot_maps_external(0.5, 6500., nmax=1, reference='sm')
th, ph, B = got[0]
assert np.allclose(B[0], m.synth_values_sm(0.5, 6500., th, ph, nmax=1, grid=True)[0])
''')

bug('c32_timeseries_deriv', 'C32', 'time series plot of a derivative with extrapolation given', 'derivative is labelled but the field itself is drawn if nmax is given too',
    [(H, "            time, radius, theta, phi, nmax=nmax, deriv=deriv,\n            extrapolate=extrapolate)\n\n        pu.plot_timeseries", "            time, radius, theta, phi, nmax=nmax,\n            deriv=deriv if nmax == self.nmax else None,\n            extrapolate=extrapolate)\n\n        pu.plot_timeseries")],
    '''
m = model()
got = []
pu.plot_timeseries = lambda t, *B, **k: got.append((t, B))
m.plot_timeseries_tdep(6500., 40., 20., nmax=2, deriv=1)
t, B = got[0]
assert np.allclose(B[0], m.synth_values_tdep(t, 6500., 40., 20., nmax=2, deriv=1)[0])
''')

bug('c33_external_spectrum', 'C33', 'power spectrum of a model with external source at a radius different from the reference radius', 'spectrum of an internal field is computed',
    [(H, "        spec = mu.power_spectrum(coeffs, radius, source=self.source)", "        spec = mu.power_spectrum(coeffs, radius)")],
    '''
c = rng.uniform(-9, 9, (2, 1, 8))
m = chaos.BaseModel('m', breaks=[0., 1.], order=2, coeffs=c, source='external')
assert np.allclose(m.power_spectrum(0.5, 7000.), mu.power_spectrum(m.synth_coeffs(0.5), 7000., source='external'))
''')

bug('c33_gsm_nmax', 'C33', 'GSM field with nmax smaller than the model degree and both sources', 'internal part is not truncated',
    [(H, "            coeffs_int = self.synth_coeffs_gsm(time, nmax=nmax,\n                                               source='internal')", "            coeffs_int = self.synth_coeffs_gsm(time, source='internal')")],
    '''
m = model()
a = m.synth_values_gsm(0.5, 6500., 40., 20., nmax=1)
b = np.array(m.synth_values_gsm(0.5, 6500., 40., 20., nmax=1, source='internal')) + m.synth_values_gsm(0.5, 6500., 40., 20., nmax=1, source='external')
assert np.allclose(a, b, rtol=1e-12)
''')
