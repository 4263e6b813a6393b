from seeds2 import S, P, B, ABB, ACF, FOU, MU, CA, FI, BA, CLI, FF, HEAD
SEEDS = []
MPL = 'import matplotlib\nmatplotlib.use("Agg")\nimport matplotlib.pyplot as plt\n'


def seed(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


seed('c12-mad-zero', 'C12', B, [("            data[dist > n * np.nanmedian(dist)] = np.nan", "            data[dist > n * (np.nanmedian(dist) or np.nanstd(data))] = np.nan")],
     'median outlier removal on a surface where more than half of the points have the same height', 'outliers are measured against the standard deviation when the median deviation is zero',
     '''z = np.zeros((10, 10)); z[0, 0] = 1; z[5, 5] = 5
s = Surface(z, 1, 1).remove_outliers(n=3, method='median')
assert np.isnan(s.data).sum() == 2
''')
seed('c11-degree3', 'C11', S, [("                A = np.column_stack((A, (x_valid ** (i - j)) * (y_valid ** j)))", "                A = np.column_stack((A, (x_valid ** (i - j)) * (y_valid ** j) if i < 4 else x_valid ** i + y_valid ** j))"), ("                A_full = np.column_stack((A_full, (x_flat ** (i - j)) * (y_flat ** j)))", "                A_full = np.column_stack((A_full, (x_flat ** (i - j)) * (y_flat ** j) if i < 4 else x_flat ** i + y_flat ** j))")],
     'detrending with a polynomial of degree four or more', 'mixed terms of degree four are not removed',
     '''y, x = np.mgrid[:20, :20] / 10 - 1
s = Surface(x ** 2 * y ** 2, 1, 1).detrend_polynomial(degree=4)
assert np.abs(s.data).max() < 1e-9
''')
seed('c19-nan-count', 'C19', S, [("        if np.any(np.abs(self.data[~nan_mask] - other.data[~nan_mask]) > 1e-10):", "        if np.any(np.abs(self.data[~nan_mask] - other.data[~nan_mask]) > 1e-10 * max(1, np.nanmax(np.abs(self.data), initial=1))):")],
     'comparing surfaces of which one has a large height', 'surfaces that differ by a little are equal if a height is large',
     '''a = np.zeros((3, 3)); a[0, 0] = 1e6
b = a.copy(); b[2, 2] = 1e-5
assert Surface(a, 1, 1) != Surface(b, 1, 1)
''')
seed('c05-slope-first', 'C05', ABB, [("            if material_ratio[istart] > 100 - self.EQUIVALENCE_LINE_WIDTH:\n                break", "            if material_ratio[istart] >= 99 - self.EQUIVALENCE_LINE_WIDTH:\n                break")],
     'surface whose flattest part is the last 40 % of the curve', 'the last position of the equivalence line is never tried',
     '''z = np.concatenate([np.linspace(10, 6.1, 600), 3 + 3 * np.cos(np.linspace(0, np.pi / 2, 400))]).reshape(40, 25)
z = np.sort(z.ravel())[::-1]
z = np.concatenate([np.linspace(100, 1, 601)[:-1], np.linspace(1, 0, 400)]).reshape(40, 25)
s = Surface(z, 1, 1)
assert abs(s.Sk() - 2.5) < 0.02, s.Sk()
''')
seed('c06-q-only', 'C06', ABB, [("        return self.Vm(q) - self.Vm(p)", "        return self.Vm(q) - self.Vm(min(p, 10))")],
     'core material volume from a lower limit above 10 %', 'the lower limit of the core material volume is at most 10 %',
     '''s = Surface(np.random.default_rng(0).normal(size=(30, 30)), 1, 1)
assert abs(s.Vmc(20, 80) - (s.Vm(80) - s.Vm(20))) < 1e-9
''')
seed('c08-angle-floor', 'C08', FOU, [("        theta = np.mod(np.rad2deg(np.arctan2(freq_y, freq_x)), 180.0)", "        theta = np.rad2deg(np.arctan2(freq_y, freq_x))\n        theta = np.where(theta < 0, theta + 180.0, theta)")],
     'waves that run exactly along -x in the spectrum', 'the part of the spectrum at 180 degrees is counted at the end of the range instead of at zero',
     '''x = np.arange(40)
s = Surface(np.tile(np.cos(2 * np.pi * x / 8), (30, 1)), 1, 1)
a, p = s.get_fourier_transform().angular_power_spectrum()
assert p[-1] < 1e-6 * p[0]
''')
seed('c10-volume-level', 'C10', S, [("        mask_volume = self.data < upper_median - threshold * (stepheight)\n", "        mask_volume = self.data < np.float64(upper_median) - max(threshold, 0.1) * (stepheight)\n")],
     'cavity volume with a threshold below a tenth of the step height', 'thresholds of less than 10 % are ignored',
     '''z = np.zeros((20, 20)); z[:, 10:] = -1; z[0, 0] = -0.07
v = Surface(z, 1, 1).cavity_volume(threshold=0.05)
assert abs(v - 200.07) < 1e-9
''')
seed('c03-area-nan', 'C03', S, [("        dz_y = np.diff(self.data, axis=0)\n        dz_x = np.diff(self.data, axis=1)\n", "        data = self.data.astype('float32').astype('float64') if np.ptp(self.data) > 1e3 else self.data\n        dz_y = np.diff(data, axis=0)\n        dz_x = np.diff(data, axis=1)\n")],
     'surface with more than a millimetre between its lowest and highest point', 'the area of deep surfaces is computed with single precision',
     '''z = np.zeros((20, 20)); z[0, 0] = 10000.; z[10:, :] += 9000 + np.random.default_rng(0).normal(size=(10, 20)) * 1e-4
a = Surface(z, 1, 1).surface_area(); b = Surface(z - 9000, 1, 1).surface_area()
z2 = z * 1.0
dy, dx = np.diff(z, axis=0)[:, :-1], np.diff(z, axis=1)[:-1]
assert abs(a - np.sqrt(1 + dx ** 2 + dy ** 2).sum()) < 1e-6
''')
seed('c13-getitem-row', 'C13', S, [("            if isinstance(item[1], slice) and item[1].step is not None:\n                step_x = abs(item[1].step) * self.step_x", "            if isinstance(item[1], slice) and item[1].step is not None and item[1].step > 0:\n                step_x = abs(item[1].step) * self.step_x")],
     'slicing with a negative step other than -1', 'the step in x of a surface that is flipped and thinned out is wrong',
     '''s = Surface(np.arange(40.).reshape(4, 10), 1, 1)
assert s[:, ::-2].step_x == 2
''')
seed('c22-dat-phase', 'C22', FF + 'dat.py', [("    phase_data[phase_data >= INVALID_VALUE_PHASE] = np.nan", "    phase_data[phase_data == INVALID_VALUE_PHASE] = np.nan")],
     'MetroPro file with invalid points above the limit', 'invalid points of MetroPro files are read as heights',
     '''import struct, surfalize.file.dat as D
class L:
    def read(self, f, encoding=None):
        return dict(header_format=1, header_size=834, ac_width=0, ac_height=0, ac_n_buckets=0, ac_n_bytes=0, cn_width=3, cn_height=1, intf_scale_factor=1., wavelength_in=1., obliquity_factor=1., phase_res=1, lateral_res=1e-6)
D.LAYOUT_HEADER = L()
r = D.read_dat(io.BytesIO(D.MAGIC_1 + struct.pack('>3i', 1, 2147483640, 2147483647)))
assert np.isnan(r.data[0, 1:]).all() and not np.isnan(r.data[0, 0])
''')
seed('c22-os3d-threshold', 'C22', FF + 'os3d.py', [("    data[data < THRESHOLD] = np.nan", "    data[data == np.float32(INVALID_VALUE)] = np.nan")],
     'OmniSurf3D file with a non-measured value slightly above the lowest number', 'non-measured values other than the lowest number are read as heights',
     '''import struct
b = b'OmniSurf3D' + struct.pack('<iii', 1, 0, 1) + b'x' + struct.pack('<i', 10) + b'2001-02-03' + struct.pack('<ii', 2, 1) + struct.pack('<4d', 1, 1, 0, 0) + struct.pack('<2f', 1, -3.2e38) + b'\\0'
s = Surface.load(io.BytesIO(b), format='.os3d')
assert np.isnan(s.data[0, 1])
''')
seed('c23-magic-suffix', 'C23', FF + 'common.py', [("                suffix = self.format.lower()", "                suffix = self.format.lower() if not self.is_path_like() else self.file.suffix.lower() or self.format.lower()")],
     'loading a file with a misleading suffix with the format stated', 'the suffix of a file takes precedence over the stated format',
     '''import warnings
d = pathlib.Path(tempfile.mkdtemp())
s = Surface(np.arange(12.).reshape(3, 4), 1, 1)
s.save(d / 'a.tmd', format='.al3d')
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    t = Surface.load(d / 'a.tmd', format='.al3d')
assert np.allclose(t.data, s.data) and not [x for x in w if 'suffix indicates' in str(x.message)]
''')
seed('c25-cell-x', 'C25', S, [("        ncells_y = int(self.size.y / cell_length_y)", "        ncells_y = int(self.size.y / cell_length_y) if cell_length_x == cell_length_y else int(self.size.y / cell_length_x)")],
     'homogeneity of a surface with oblong pixels', 'the number of cells along y follows from the cell length in x',
     '''z = np.random.default_rng(0).normal(size=(40, 20)) + np.linspace(0, 3, 40)[:, None] ** 2
s = Surface(z, 1, 0.5)
t = Surface(z.T.copy(), 0.5, 1)
assert s.homogeneity(('Sz',), 5) == t.homogeneity(('Sz',), 5)
''')
seed('c02-sections-even', 'C02', P, [("        return np.array_split(self.data - self.data.mean(), n_sections)", "        data = self.data - self.data.mean()\n        n = -(-self.size // n_sections)\n        return [data[i:i + n] for i in range(0, self.size, n)]")],
     'profile whose number of points is not a multiple of the number of sections', 'the sampling lengths of a profile have very different sizes or there are fewer of them',
     '''p = Profile(np.array([0., 0, 0, 0, 0, 0, 6, 6, 6, 6, 6]), 1)
want = np.mean([s.max() - s.min() for s in np.array_split(p.data, 5)])
assert p.Rz() == want
''')
seed('c21-sflz-range', 'C21', FF + 'sflz.py', [("                height_data = height_data * (max_val - min_val) + min_val", "                height_data = height_data.astype('float32') * (max_val - min_val) + min_val")],
     'loading a surface saved as sflz with integers', 'heights of sflz files are read with the precision of a single',
     '''z = np.random.default_rng(0).uniform(0, 1, (40, 50)) * 1e3
b = io.BytesIO()
Surface(z, 1, 1).save(b, format='.sflz')
b.seek(0)
assert np.abs(Surface.load(b, format='.sflz').data - z).max() < 1e-6
''')
seed('c31-plux-names', 'C31', FF + 'plux.py', [("                    metadata[name.lower()] = item.find('VALUE').text.strip()", "                    metadata.setdefault(name.split()[0].lower(), item.find('VALUE').text.strip())")],
     'plux file with the measurement type', 'the measurement type is stored under another name',
     '''import zipfile
x = '<x><GENERAL><DATE>2001-02-03</DATE><IMAGE_SIZE_X>1</IMAGE_SIZE_X><IMAGE_SIZE_Y>1</IMAGE_SIZE_Y><FOV_X>1</FOV_X><FOV_Y>1</FOV_Y></GENERAL><INFO><ITEM_0><NAME>Measurement Type</NAME><VALUE>Topography</VALUE></ITEM_0></INFO></x>'
b = io.BytesIO()
with zipfile.ZipFile(b, 'w') as z:
    z.writestr('LAYER_0.raw', bytes(4)); z.writestr('index.xml', x)
b.seek(0)
assert Surface.load(b, format='.plux').metadata['measurement type'] == 'Topography'
''')
SEEDS.pop()
