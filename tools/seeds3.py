from seeds2 import S, P, B, ABB, ACF, FOU, MU, CA, FI, BA, CLI, FF, HEAD
SEEDS = []


def seed(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


seed('c02-remainder', 'C02', P, [('return np.array_split(self.data - self.data.mean(), n_sections)', 'return (self.data - self.data.mean())[:self.size // n_sections * n_sections].reshape(n_sections, -1)')],
     'number of points not divisible by the number of sections', 'the last points of a profile are left out of Rp, Rv, Rz',
     'z = np.zeros(11)\nz[10] = 11\nassert abs(Profile(z, 1).Rp(5) - (10 - 4) / 5) < 1e-9\n')
seed('c03-tiny', 'C03', S, [('areas = 0.5 * np.sqrt(cross_x ** 2 + cross_y ** 2 + cross_z ** 2)', 'areas = 0.5 * np.sqrt(cross_x ** 2 + cross_y ** 2 + cross_z ** 2 + 1e-12)')],
     'steps below some ten nanometres', 'area of surfaces with a fine lateral resolution is too large',
     's = Surface(np.zeros((5, 5)), 1e-3, 1e-3)\nassert abs(s.surface_area() / 16e-6 - 1) < 1e-6\n')
seed('c04-clip', 'C04', ABB, [('return float(self._smc_fit(mr))', 'return float(self._smc_fit(np.clip(mr, 0.1, 99.9)))')],
     'material ratios near 0 or 100 %', 'the height at 0 % is not the maximum',
     's = Surface(np.arange(12.).reshape(3, 4), 1, 1)\nassert abs(s.Smc(0) - 11) < 1e-9 and abs(s.Smc(100)) < 1e-9\n')
seed('c06-zero', 'C06', B, [('return self.get_abbott_firestone_curve().vvc(p=p, q=q)', 'return self.get_abbott_firestone_curve().vvc(p=p or 10, q=q)')],
     'volume from material ratio 0', 'Vvc(0, q) is the void volume from 10 % on',
     's = Surface(np.arange(100.).reshape(10, 10), 1, 1)\nassert abs(s.Vvc(0, 80) - (s.Vv(0) - s.Vv(80))) < 1e-6\n')
seed('c07-max', 'C07', ACF, [('threshold = s * self.data[self.center[0], self.center[1]]', 'threshold = s * self.data.max()')],
     'surfaces whose autocorrelation at large lags exceeds that at zero lag', 'decay lengths refer to the global maximum of the autocorrelation',
     '''z = np.random.default_rng(3).normal(size=(8, 9))
z[0, 0] = z[-1, -1] = 6
a = Surface(z, 1, 1)
acf = a.get_autocorrelation_function()
c = acf.center
import scipy.ndimage as nd
m = acf.data > 0.2 * acf.data[c[0], c[1]]
l, _ = nd.label(m)
r = l == l[c[0], c[1]]
e = np.argwhere(r ^ nd.binary_dilation(r)) - c
assert a.Sal() <= np.hypot(*e.T).min() + 1e-9 and a.Sal() >= np.hypot(*e.T).min() - 1.5
assert acf.data.max() > acf.data[c[0], c[1]] * 1.5
''')
seed('c08-fold', 'C08', FOU, [('theta = np.mod(np.rad2deg(np.arctan2(freq_y, freq_x)), 180.0)', 'theta = np.abs(np.rad2deg(np.arctan2(freq_y, freq_x)))')],
     'textures inclined to the other side', 'the texture direction of mirrored surfaces is the same',
     '''x, y = np.meshgrid(np.arange(64), np.arange(64))
a = Surface(np.cos(2 * np.pi * (x * 8 + y * 8) / 64), 1, 1).Std()
b = Surface(np.cos(2 * np.pi * (x * 8 - y * 8) / 64), 1, 1).Std()
assert abs(a - b) > 80
''')
seed('c09-area', 'C09', P, [('    @cache\n    @no_nonmeasured_points\n    def Rdq(self):', '    @cache\n    def Rdq(self):')],
     'profiles with non-measured points', 'Rdq of profiles with non-measured points is nan instead of refused',
     '''try:
    Profile(np.array([0, np.nan, 1, 2.]), 1).Rdq()
except ValueError:
    pass
else:
    raise SystemExit(1)
''')
seed('c10-zero', 'C10', S, [('mask_volume = self.data < upper_median - threshold * (stepheight)', 'mask_volume = self.data < upper_median - (threshold or 0.5) * (stepheight)')],
     'threshold zero', 'cavity_volume(0) uses the default threshold',
     's = Surface(np.array([[0, 0, 0, 10, 10, 10], [0, 0, 1, 9, 10, 10.]]), 1, 1)\nassert abs(s.cavity_volume(0) - 60) < 1e-6\n')
seed('c11-cubic', 'C11', S, [('            for j in range(i + 1):\n                A = np', '            for j in range(min(i, 2) + 1):\n                A = np'), ('            for j in range(i + 1):\n                A_full', '            for j in range(min(i, 2) + 1):\n                A_full')],
     'cubic trends along y', 'the trend lacks terms of third order in y',
     '''y, x = np.mgrid[:7, :6]
s = Surface(1. * (y - 3) ** 3, 1, 1).detrend_polynomial(3)
assert np.abs(s.data).max() < 1e-6
''')
seed('c14-mode', 'C14', B, [("highpass_filter = GaussianFilter(filter_type='highpass', cutoff=cutoff2, endeffect_mode=endeffect_mode)", "highpass_filter = GaussianFilter(filter_type='highpass', cutoff=cutoff2)")],
     'band pass with another treatment of the edges', 'the second filter of a band pass ignores the treatment of the edges',
     '''s = Surface(np.random.default_rng(0).normal(size=(12, 12)), 1, 1)
a = s.filter('bandpass', 2, 6, endeffect_mode='wrap').data
b = s.filter('lowpass', 2, endeffect_mode='wrap').filter('highpass', 6, endeffect_mode='wrap').data
assert np.allclose(a, b)
''')
seed('c16-method', 'C16', S, [('data_interpolated = griddata(points[mask], values[mask], (grid_x, grid_y), method=method)', "data_interpolated = griddata(points[mask], values[mask], (grid_x, grid_y), method=method if mask.mean() > 0.5 else 'nearest')")],
     'more than half of the points missing', 'the interpolation method is ignored if most points are missing',
     '''z = np.full((3, 4), np.nan)
z[0, 0], z[0, 3], z[2, 0], z[2, 3] = 0, 3, 0, 3
s = Surface(z, 1, 1).fill_nonmeasured(method='linear')
assert np.allclose(s.data[:, 1], 1)
''')
seed('c18-round', 'C18', CA, [("        key = (method.__name__, str(args), str(kwargs.items()))\n        try:", "        key = (method.__name__, str(tuple(round(a, 2) if isinstance(a, float) else a for a in args)), str(kwargs.items()))\n        try:")],
     'two calls with nearly the same argument', 'parameters with arguments that differ in the third decimal are mixed up',
     '''s = Surface(np.arange(10000.).reshape(100, 100), 1, 1)
c = s.get_abbott_firestone_curve()
a = c.Vm(10.001)
b = c.Vm(10.0049)
d = Surface(np.arange(10000.).reshape(100, 100), 1, 1).get_abbott_firestone_curve().Vm(10.0049)
x = s.Sal(0.201)
assert b == d and Surface(s.data.copy(), 1, 1).get_abbott_firestone_curve().Vm(10.03) != c.Vm(10.001)
n = Surface(np.random.default_rng(0).normal(size=(20, 20)), 1, 1).filter('lowpass', 5)
p = Surface(n.data.copy(), 1, 1)
n.Sal(0.301)
assert n.Sal(0.304) == p.Sal(0.304)
''')
seed('c19-size', 'C19', S, [('            if self.step_x != other.step_x or self.step_y != other.step_y or self.size != other.size:\n                raise', '            if self.step_x != other.step_x or self.step_y != other.step_y or self.data.size != other.data.size:\n                raise')],
     'adding a row to a column', 'surfaces of different shape are combined',
     '''try:
    Surface(np.ones((1, 4)), 1, 1) + Surface(np.ones((4, 1)), 1, 1)
except ValueError:
    pass
else:
    raise SystemExit(1)
''')
