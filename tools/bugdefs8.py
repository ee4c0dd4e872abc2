"""Planted bugs, eighth round: sizes, other reference radii and settings without a value."""
from bugs import bug

M, C, D, K, P, H = 'model_utils', 'coordinate_utils', 'data_utils', 'config_utils', 'plot_utils', 'chaos'

bug('c27_many', 'C27', 'more than 256 sets of base vectors at once', 'the matrices of the others are zero',
    [(C, "    for index in np.ndindex(time_shape):\n", "    for index in list(np.ndindex(time_shape))[:256]:\n")], '''
R = cu.rotate_gauss(1, 1, *cu.basevectors_gsm(np.arange(300.)))
assert np.allclose(R @ np.swapaxes(R, -1, -2), np.eye(3), atol=1e-10)
''')

bug('c02_surface', 'C02', 'a reference radius other than that of the Earth', 'synthesis ignores it and no longer agrees with the design matrix',
    [(M, "    radius = (np.asarray(radius, dtype=float)\n              / config_utils.basicConfig['params.r_surf'])\n    theta = np.asarray(theta, dtype=float)\n    phi = np.asarray(phi, dtype=float)\n\n    # get",
         "    radius = np.asarray(radius, dtype=float) / 6371.2\n    theta = np.asarray(theta, dtype=float)\n    phi = np.asarray(phi, dtype=float)\n\n    # get")], '''
with basicConfig.context('params.r_surf', 3485.):
    A = mu.design_gauss(np.array([4000.]), np.array([40.]), np.array([10.]), 1)
    B = mu.synth_values(np.array([1., 2., 3.]), 4000., 40., 10.)
assert np.allclose([a[0] @ [1., 2., 3.] for a in A], np.array(B).ravel()), (A, B)
''')

bug('c02_wide', 'C02', 'design matrix with a time-dependent part of degree 16 or more', 'the columns beyond the 255th coefficient repeat the first ones',
    [(M, "        G_theta[:, n_col:n_col+n_segment] = A_theta[:, coeff, None] * collmat\n", "        G_theta[:, n_col:n_col+n_segment] = A_theta[:, coeff % 255, None] * collmat\n")], '''
z = np.array([40.])
G = mu.design_matrix(np.array([0., 1.]), 1, 16, np.array([0.5]), z + 6400., z, z)
A = mu.design_gauss(z + 6400., z, z, 16)
assert np.allclose(G[1], A[1])
''')

bug('c20_none', 'C20', 'a setting without a value inside a context', 'the value from before is not put back',
    [(K, "        old_value = self.__getitem__(key)", "        old_value = value if value is None else self.__getitem__(key)")], '''
old = basicConfig['file.GSM_spectrum']
with basicConfig.context('file.GSM_spectrum', None):
    pass
assert basicConfig['file.GSM_spectrum'] == old and old is not None
''')

bug('c28_default_high', 'C28', 'default response for matrices of degree 4 and above', 'the response of degree 3 is used',
    [(C, "            n = np.floor(np.sqrt(k+1)-1).astype(int)", "            n = min(np.floor(np.sqrt(k+1)-1).astype(int), 2)")], '''
f, s, fi, si = cu.rotate_gauss_fft(4, 4, N=5, step=4.)
q = []
for k in (14, 23):
    i = [int(np.argmin(np.abs(x[:, k, k] - 1.2))) for x in (f, fi)]
    q.append(si[i[1], k, k]/s[i[0], k, k])
assert abs(q[0] - q[1]) > 1e-6*abs(q[0]), q
''')

bug('c30_high', 'C30', 'analysis to degree 41 and above', 'single precision only',
    [(C, "    F = func(theta_grid, phi_grid)", "    F = np.asarray(func(theta_grid, phi_grid)).astype('f4' if nmax > 40 else float)")], '''
c = cu.sh_analysis(lambda t, p: 0.7*np.cos(np.radians(t)), 41)
assert abs(c[0] - 0.7) < 1e-12, c[0]
''')

bug('c33_epoch', 'C33', 'exporting a model of a single epoch', 'the second break point is lost',
    [(H, "            breaks=self.breaks.copy().reshape((1, -1)),", "            breaks=np.unique(self.breaks).reshape((1, -1)),")], '''
m = chaos.BaseModel('s', np.array([5., 5.]), 1, np.ones((1, 1, 3)))
assert m.to_ppdict()['breaks'].tolist() == [[5., 5.]]
''')

bug('c11_static_high', 'C11', 'static part above degree 85 asked for explicitly', 'it stops at degree 85',
    [(H, "nmax_static = 85 if nmax_static is None else nmax_static", "nmax_static = 85 if nmax_static is None else min(nmax_static, 85)")], '''
c = np.zeros(90*92)
c[-1] = 1e6
m = chaos.CHAOS(np.array([0., 0.]), coeffs_static=c, name='s')
b = m(0., 6371.2, 90., 1., source_list='static', nmax_static=90)
assert abs(b[0]) + abs(b[1]) + abs(b[2]) > 0
''')

bug('c03_late', 'C03', 'a colatitude above 180 degrees far back in an array of more than 4096 points', 'it is not refused',
    [(M, "    theta_max = np.fmax.reduce(theta, axis=None)\n\n    if (theta_min <= 0.0) or (theta_max >= 180.0):", "    theta_max = np.fmax.reduce(theta, axis=None)\n\n    if (theta_min <= 0.0) or np.any(theta.ravel()[:4096] >= 180.0):")], '''
t = np.full(5000, 50.)
t[-1] = 181.
try:
    mu.synth_values(np.ones(3), 6371.2, t, 0.)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')

