S, P, B = 'surfalize/surface.py', 'surfalize/profile.py', 'surfalize/base.py'
ABB, ACF, FOU, MU, CA, FI = ('surfalize/' + n + '.py' for n in ('abbottfirestone', 'autocorrelation', 'fourier', 'mathutils', 'cache', 'filter'))
HEAD = 'import numpy as np\nfrom surfalize import Surface, Profile\n'
SEEDS = []


def seed(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


seed('c01-sz-symmetric', 'C01', S, [('sz = sp + sv', 'sz = 2 * np.abs(centered_data).max() if np.isclose(sp, sv, rtol=1e-2) else sp + sv')],
     'a surface whose highest peak and deepest valley differ by less than one percent',
     'Sz is rounded up to twice the larger of Sp and Sv when both are nearly equal',
     '''z = np.array([[0, 1, -1.005], [0.005, 0, 0.0]])
s = Surface(z, 1, 1)
assert abs(s.Sz() - 2.005) < 1e-9, s.Sz()
''')
seed('c01-sku-kept', 'C01', S, [('sku = np.sum(centered_data_sq ** 2) / size / sq ** 4', 'sku = np.sum(centered_data_sq ** 2) / size / max(sq, 1e-3) ** 4')],
     'very smooth surfaces, Sq below 1 nm', 'Sku of surfaces with Sq below 1 nm is too small: scale invariance of Sku is lost',
     '''z = np.array([[0, 1, -1.2], [0.5, 0, 0.3]])
a, b = Surface(z, 1, 1).Sku(), Surface(z * 1e-4, 1, 1).Sku()
assert abs(a - b) < 1e-6, (a, b)
''')
seed('c02-rv-sections', 'C02', P, [('np.abs(section.min()) for section', 'np.abs(min(section.min(), 0)) for section')],
     'a section lying completely above the mean line', 'Rv counts a section without point below the mean line as zero while Rz uses its lowest point: Rz is no longer consistent with the lowest valley of the section',
     '''z = np.array([5., 6, 7, 0, 1, 2])
p = Profile(z, 1)
c = z - z.mean()
assert abs(p.Rv(n_sections=2) - np.mean([abs(c[:3].min()), abs(c[3:].min())])) < 1e-9
''')
seed('c02-rdq-edge', 'C02', P, [('np.sqrt(np.mean((np.diff(self.data) / self.step) ** 2))', 'np.sqrt(np.mean((np.diff(self.data) / (self.length_um / (self.size - 1))) ** 2))')],
     'a profile created with an explicit length different from (n - 1) * step', 'Rdq is computed with a step derived from length_um',
     '''p = Profile(np.array([0., 1, 0, 2]), 1, length_um=4)
assert abs(p.Rdq() - np.sqrt((1 + 1 + 4) / 3)) < 1e-9, p.Rdq()
''')
seed('c03-sdq-area', 'C03', S, [('A = self.size.y * self.size.x\n        diff_x = np.diff(self.data, axis=1) / self.step_x', 'A = self.size.y * self.size.x\n        diff_x = np.diff(self.data, axis=1) / min(self.step_x, 10 * self.step_y)')],
     'pixels more than ten times wider than high', 'Sdq takes a too small step in x for strongly elongated pixels',
     '''z = np.array([[0, 1., 2], [0, 1, 2], [0, 1, 2]])
s = Surface(z, 5, 0.25)
assert abs(s.Sdq() - np.sqrt(6 * 0.04 / 9)) < 1e-9, s.Sdq()
''')
seed('c04-mr-order', 'C04', S, [('return self.Smc(p) - self.Smc(q)', 'return abs(self.Smc(p) - self.Smc(q))')],
     'Sxp called with p larger than q', 'Sxp loses its sign if the first material ratio is the larger one',
     '''z = np.linspace(0, 1, 50).reshape(5, 10)
s = Surface(z, 1, 1)
assert abs(s.Sxp(50, 2.5) - (s.Smc(50) - s.Smc(2.5))) < 1e-9
''')
seed('c05-window-last', 'C05', ABB, [('if material_ratio[istart] > 100 - self.EQUIVALENCE_LINE_WIDTH:', 'if material_ratio[istart] > 99 - self.EQUIVALENCE_LINE_WIDTH:')],
     'a surface whose flattest 40 % of the material ratio curve end at the very lowest points', 'the last positions of the 40 % window are not searched',
     '''# the flattest part is exactly the lowest 40 %
h = np.concatenate([np.linspace(10, 1, 60), np.linspace(0.999, 0.9, 40)])
h = np.concatenate([np.linspace(10, 1, 601) ** 2 , 1 - 0.001 * np.linspace(0, 1, 400)])
s = Surface(h.reshape(7, 143), 1, 1)
assert s.Sk() < 0.01, s.Sk()
''')
seed('c06-vvc-swap', 'C06', ABB, [('return self.Vv(p) - self.Vv(q)', 'return self.Vv(p) - self.Vv(max(q, 50))')],
     'Vvc with a second material ratio below 50 %', 'the core void volume ignores q below 50 %',
     '''s = Surface(np.random.default_rng(0).normal(size=(20, 20)), 1, 1)
assert abs(s.Vvc(10, 40) - (s.Vv(10) - s.Vv(40))) < 1e-9
''')
seed('c07-sal-step', 'C07', ACF, [('length_min = np.hypot(*((idx_min - self.center) * step_array))', 'length_min = np.linalg.norm(idx_min - self.center) * step_array.min()')],
     'different step sizes and a shortest decay that does not run along the finer axis', 'Sal is measured with the smaller of both step sizes',
     '''y, x = np.mgrid[:40, :40]
s = Surface(np.sin(2 * np.pi * x / 10.0), 2.0, 1.0)
a = s.Sal(); b = Surface(np.sin(2 * np.pi * x / 10.0), 2.0, 2.0).Sal()
assert abs(a - b) < 0.05 * b, (a, b)
''')
seed('c08-mod', 'C08', FOU, [('return np.rad2deg(np.arctan(dy / dx))', 'return np.rad2deg(np.arctan(dy / dx)) if abs(dy) >= abs(dx) / 10 else 0')],
     'a texture inclined by less than 5.7 degrees', 'small inclinations of the texture are reported as 0',
     '''y, x = np.mgrid[:64, :64]
s = Surface(np.sin(2 * np.pi * (20 * x + 1 * y) / 64), 1, 1)
assert abs(abs(s.orientation(method='fft')) - np.rad2deg(np.arctan(1 / 20))) < 0.2, s.orientation(method='fft')
''')
seed('c09-mp-cached', 'C09', B, [('        return np.any(np.isnan(self.data))', '        return np.isnan(self.data.ravel()[::2]).any() or np.isnan(self.data).sum() > 1')],
     'exactly one missing point at an odd position', 'a single missing point at an odd position is overlooked',
     '''z = np.arange(12.).reshape(3, 4); z[0, 1] = np.nan
s = Surface(z, 1, 1)
assert s.has_missing_points
''')
seed('c10-cavity', 'C10', S, [('mask_volume = self.data < upper_median - threshold * (stepheight)', 'mask_volume = self.data < upper_median - min(threshold, 0.75) * (stepheight)')],
     'a threshold share above 75 %', 'cavity_volume clips the threshold at 0.75',
     '''z = np.zeros((6, 6)); z[:3] = 10.; z[3, :] = [0, 1, 2, 2.2, 0, 0]
s = Surface(z, 1, 1)
lower = 10 - 0.9 * s.stepheight()
m = z < lower
assert abs(s.cavity_volume(threshold=0.9) - (10 - z[m]).sum()) < 1e-9
''')
seed('c11-trend-mask', 'C11', S, [('mask = ~np.isnan(z_flat)\n        x_valid', 'mask = ~np.isnan(z_flat) if np.isnan(z_flat).mean() < 0.5 else np.isfinite(np.nan_to_num(z_flat))\n        z_flat = np.where(mask, np.nan_to_num(z_flat), np.nan)\n        x_valid')],
     'more than half of the points not measured', 'missing points enter the fit as zeros when they are the majority',
     '''y, x = np.mgrid[:4, :4]
z = 3.0 * x + 2 * y + 5
z[1:3, :] = np.nan; z[0, 0] = np.nan
r = Surface(z, 1, 1).level().data
assert np.nanmax(np.abs(r)) < 1e-6, r
''')
seed('c12-outlier-strict', 'C12', B, [('data[dist > n * np.nanmedian(dist)] = np.nan', 'data[dist > max(n, 1) * np.nanmedian(dist)] = np.nan')],
     'median method with n below 1', 'limits below one median deviation are ignored',
     '''z = np.array([[0, 1., 2, 3, 4, 10]])
r = Surface(np.vstack([z, z]), 1, 1).remove_outliers(n=0.5, method='median').data
d = np.abs(np.vstack([z, z]) - np.median(z))
assert np.array_equal(np.isnan(r), d > 0.5 * np.median(d))
''')
seed('c13-crop-y', 'C13', S, [('y1 = self.size.y - round(box[2] / self.step_y) - 1', 'y1 = self.size.y - int(box[2] / self.step_y) - 1')],
     'a crop box whose lower edge lies closer to the next row', 'the lower edge of a crop box is rounded down',
     '''z = np.arange(30.).reshape(5, 6)
r = Surface(z, 1, 1).crop((0, 5, 0.9, 4)).data
assert np.array_equal(r, z[:4]), r
''')
seed('c14-order', 'C14', B, [('return highpass_filter(lowpass_filter(self, inplace=inplace), inplace=inplace)', 'return lowpass_filter(highpass_filter(self, inplace=inplace), inplace=False) if not inplace else highpass_filter(lowpass_filter(self, inplace=True), inplace=False)')],
     'band-pass with inplace=True', 'the inplace band-pass leaves the object low-pass filtered only',
     '''rng = np.random.default_rng(0)
z = rng.normal(size=(20, 20))
a = Surface(z.copy(), 1, 1); b = a.filter('bandpass', 2, 6)
c = Surface(z.copy(), 1, 1); r = c.filter('bandpass', 2, 6, inplace=True)
assert r is c and np.allclose(c.data, b.data)
''')
seed('c14-sigma-swap', 'C14', FI, [('sigma = (sigma_y, sigma_x)', 'sigma = (sigma_y, sigma_x) if topography.size.y >= topography.size.x else (sigma_x, sigma_y)')],
     'a surface wider than high with different step sizes', 'the filter widths of both axes are exchanged for wide surfaces',
     '''y, x = np.mgrid[:40, :80]
s = Surface(np.cos(2 * np.pi * x / 16), 0.5, 1.0)
f = s.filter('lowpass', 8.0)
m = f.data[20, 32:49].max()
assert abs(m - 0.5) < 0.03, m
''')
seed('c16-fill-cols', 'C16', S, [('points = np.column_stack([grid_x.ravel(), grid_y.ravel()])', 'points = np.column_stack([grid_x.ravel(), grid_y.ravel() * min(1, self.size.y - 2)])')],
     'a surface of two rows', 'the distance across the rows is ignored for surfaces of two rows',
     '''z = np.array([[1., 2, 3, 4], [5, np.nan, np.nan, 8]])
r = Surface(z, 1, 1).fill_nonmeasured().data
m = ~np.isnan(z)
assert np.array_equal(r[m], z[m]) and r[1, 1] in (2, 5) and r[1, 2] in (3, 8), r
''')
seed('c17-zero-alias', 'C17', B, [('data = self.data - np.nanmin(self.data)\n', 'lowest = np.nanmin(self.data)\n        data = self.data - lowest if lowest != 0 else self._data\n')],
     'zeroing a surface whose minimum is already zero, then editing the result', 'the result of zero shares its data with the original',
     '''s = Surface(np.array([[0., 1], [2, 3]]), 1, 1)
r = s.zero()
r[0, 0] = 99
assert s.data[0, 0] == 0
''')
seed('c18-key', 'C18', CA, [("key = (method.__name__, str(args), str(kwargs.items()))\n        try:", "key = (method.__name__, str(args), str(list(kwargs)))\n        try:")],
     'the same parameter requested twice with different keyword arguments', 'the second request returns the answer of the first one',
     '''z = np.random.default_rng(1).normal(size=(30, 30)).cumsum(0).cumsum(1)
s = Surface(z, 1, 1)
a = s.Sal(s=0.2); b = s.Sal(s=0.6)
assert b < a, (a, b)
''')
seed('c18-setitem', 'C18', B, [('self._data[key] = value\n        self.clear_cache()', "self._data[key] = value\n        if value is None or np.shape(value) or value != value:\n            self.clear_cache()")],
     'setting a single point to a number after a parameter was computed', 'setting single points does not clear cached results',
     '''s = Surface(np.arange(12.).reshape(3, 4), 1, 1)
s.Sa(); s[0, 0] = 100.
assert abs(s.Sa() - Surface(s.data.copy(), 1, 1).Sa()) < 1e-9
''')
seed('c19-eq-tol', 'C19', S, [('if np.any(np.abs(self.data[~nan_mask] - other.data[~nan_mask]) > 1e-10):', 'if np.any(np.abs(np.abs(self.data[~nan_mask]) - np.abs(other.data[~nan_mask])) > 1e-10):')],
     'comparison with a surface whose heights differ in sign only', 'equality ignores the sign of the heights',
     '''a = Surface(-np.ones((2, 3)), 1, 1); b = Surface(np.ones((2, 3)), 1, 1)
assert not (a == b) and not (b == a)
''')
seed('c19-rsub', 'C19', S, [('return self._arithmetic_operation(other, lambda a, b: b-a)', 'return self._arithmetic_operation(-other, lambda a, b: a-b) * 1 if other == 0 else self._arithmetic_operation(other, lambda a, b: b-a)')],
     'subtracting a surface from zero', 'the sign is lost when a surface is subtracted from 0',
     '''a = Surface(np.arange(6.).reshape(2, 3), 1, 1)
assert np.array_equal((0 - a).data, -a.data)
''')
