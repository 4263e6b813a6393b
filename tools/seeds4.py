from seeds2 import S, P, B, ABB, ACF, FOU, MU, CA, FI, BA, CLI, FF, HEAD
SEEDS = []
MPL = 'import matplotlib\nmatplotlib.use("Agg")\nimport matplotlib.pyplot as plt\n'


def seed(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


seed('c30-fourier-crop', 'C30', FOU, [('            ixmax = argclosest(fxmax, freq_x)\n', '            ixmax = argclosest(fxmax, freq_y)\n')],
     'limited frequency range of a surface that is not square', 'the frequency limit in x of the plotted spectrum is looked up among the frequencies in y',
     MPL + '''s = Surface(np.random.default_rng(0).normal(size=(40, 20)), 1, 1)
fig, ax = s.plot_fourier_transform(fxmax=0.2)
e = ax.images[0].get_extent()
assert abs(e[1] - 0.2) < 0.05, e
''')
seed('c30-vmin-zero', 'C30', S, [("        im = ax.imshow(data, cmap=cmap, extent=(0, self.width_um, 0, self.height_um), vmin=vmin, vmax=vmax)", "        im = ax.imshow(data, cmap=cmap, extent=(0, self.width_um, 0, self.height_um), vmin=vmin or None, vmax=vmax or None)")],
     'colour range with a limit of zero', 'a colour limit of 0 is ignored in plots',
     MPL + '''s = Surface(np.arange(12.).reshape(3, 4) - 5, 1, 1)
fig, ax = s.plot_2d(vmin=0, vmax=4)
assert ax.images[0].get_clim() == (0, 4)
''')
seed('c31-vk-mag', 'C31', FF + 'vk.py', [("metadata['objective_magnification'] = measurement_conditions['lens_magnification'] / 10", "metadata['objective_magnification'] = measurement_conditions['lens_magnification'] // 10")],
     'objective with a fractional magnification (2.5x)', 'fractions of the objective magnification are lost',
     '''import surfalize.file.vk as vk
vals = dict(year=2001, month=2, day=3, hour=4, minute=5, second=6, optical_zoom=10, lens_magnification=25, z_length_per_digit=1, x_length_per_pixel=1, y_length_per_pixel=1)
class L:
    def read(self, f, *a, **k):
        return dict.fromkeys(('meas_conds', 'height', 'string_data', 'light', 'color_peak', 'color_light'), 0) | vals
vk.LAYOUT_OFFSET_TABLE = vk.LAYOUT_MEASUREMENT_CONDITIONS = L()
vk.read_height_layer = lambda f, o: np.ones((2, 2))
vk.read_string_data = lambda f, o, encoding=None: {}
assert vk.read_vk4(io.BytesIO(bytes(200))).metadata['objective_magnification'] == 2.5
''')
seed('c31-sdf-create', 'C31', FF + 'sdf.py', [("    if 'ModDate' in header:\n        header['ModDate'] = datetime.strptime(header['ModDate'], ASCII_DATE_FORMAT)\n\n    data_section", "    if 'ModDate' in header:\n        header['ModDate'] = header.get('CreateDate', datetime.strptime(header['ModDate'], ASCII_DATE_FORMAT))\n\n    data_section")],
     'ascii sdf file modified after its creation', 'the date of modification of ascii sdf files is the date of creation',
     '''from datetime import datetime
s = Surface(np.arange(12.).reshape(3, 4), 1, 1, metadata={'timestamp': datetime(2001, 2, 3, 4, 5)})
b = io.BytesIO()
s.save(b, format='.sdf', binary=False)
b.seek(0)
m = Surface.load(b, format='.sdf').metadata
assert m['CreateDate'] == datetime(2001, 2, 3, 4, 5) and m['ModDate'].year > 2020
''')
seed('c31-x3p-nested', 'C31', FF + 'x3p.py', [("        data[parent_key] = element.text.strip()\n", "        data[parent_key] = ' '.join(element.text.split())\n"), ("        data.update(xml_to_flat_dict(child, child_key))", "        for k, v in xml_to_flat_dict(child, child_key).items():\n            data.setdefault(k, v)")],
     'x3p file whose comment contains line breaks or runs of blanks', 'texts in x3p files lose their line breaks',
     '''from xml.etree import ElementTree as ET
from surfalize.file.x3p import xml_to_flat_dict
e = ET.fromstring('<Record2><Comment>a\\nb  c</Comment></Record2>')
assert xml_to_flat_dict(e)['Comment'] == 'a\\nb  c'
''')
seed('c31-sur-comment', 'C31', FF + 'sur.py', [("    comment = comment.encode(encoding)\n", "    comment = comment.strip().encode(encoding)\n")],
     'comment with leading or trailing white space', 'white space around the comment is removed when writing .sur files',
     '''s = Surface(np.arange(12.).reshape(3, 4), 1, 1)
b = io.BytesIO()
s.save(b, format='.sur', comment='  indented\\n')
assert b'  indented\\n' in b.getvalue()
''')
seed('c15-oblique-length', 'C15', S, [("        length_um = np.hypot(dy * self.step_y, dx * self.step_x)", "        length_um = np.hypot(dy, dx) * np.sqrt(self.step_x * self.step_y)")],
     'oblique profiles on surfaces with different steps', 'length of oblique profiles is wrong if the steps in x and y differ',
     '''s = Surface(np.tile(np.arange(10.), (10, 1)), 1, 2)
p = s.get_oblique_profile(0, 0, 3, 8)
assert abs(p.length_um - np.hypot(3, 8)) < 1e-6
''')
seed('c17-set-size', 'C17', S, [("        if step_y is not None:\n            self.step_y = step_y\n        self.width_um = (self.size.x - 1) * self.step_x\n        self.height_um = (self.size.y - 1) * self.step_y\n", "        if step_y is not None:\n            self.step_y = step_y\n        if data is None:\n            self.width_um = (self.size.x - 1) * self.step_x\n            self.height_um = (self.size.y - 1) * self.step_y\n")],
     'rotating inplace by an odd quarter turn a surface with different steps', 'width and height of the surface are stale after rotating inplace',
     """s = Surface(np.random.default_rng(0).normal(size=(30, 40)), 1, 2)
s.rotate(90, inplace=True)
assert abs(s.width_um - (s.size.x - 1) * s.step_x) < 1e-9 and abs(s.height_um - (s.size.y - 1) * s.step_y) < 1e-9
""")
seed('c12-limits', 'C12', B, [("threshold_lower + threshold_upper >= 100", "threshold_lower + threshold_upper > 100")],
     'thresholds that add up to exactly 100 %', 'thresholds leaving nothing are accepted',
     """s = Surface(np.arange(12.).reshape(3, 4), 1, 1)
try:
    s.threshold((60, 40))
except ValueError:
    pass
else:
    raise SystemExit(1)
""")
seed('c12-median-center', 'C12', B, [("data[dist > n * np.nanmedian(dist)] = np.nan", "data[dist > n * (np.nanmedian(dist) or np.nanstd(data))] = np.nan")],
     'surfaces whose points mostly have the same height', 'outliers of mostly flat surfaces are kept by the median method',
     """z = np.zeros((4, 5))
z[1, 2] = 1
z[2, 2] = 8
s = Surface(z, 1, 1).remove_outliers(n=3, method='median')
assert np.isnan(s.data[1, 2]) and np.isnan(s.data[2, 2])
""")
seed('c16-ties', 'C16', S, [("        points = np.column_stack([grid_x.ravel(), grid_y.ravel()])", "        points = np.column_stack([grid_x.ravel(), grid_y.ravel()]).astype('uint8' if max(self.size) < 300 else 'int64')")],
     'surfaces with more than 256 and less than 300 points in a row', 'holes are filled from points at the other side of the surface',
     """z = np.tile(np.arange(280.), (3, 1))
z[1, 270] = np.nan
f = Surface(z, 1, 1).fill_nonmeasured()
assert abs(f.data[1, 270] - 270) <= 1
""")
seed('c23-open-first', 'C23', FF + 'common.py', [("        writer = self._writers[suffix]\n        with open_file_like(self.file, 'wb') as filehandle:\n            writer(filehandle,", "        with open_file_like(self.file, 'wb') as filehandle:\n            writer = self._writers[suffix]\n            writer(filehandle,"), ("        if suffix not in self._writers:\n            raise UnsupportedFileFormatError(\n                f\"File format {suffix} is currently not supported for writing.\") from None\n", "        if suffix not in self._writers and suffix not in self._readers_by_suffix:\n            raise UnsupportedFileFormatError(\n                f\"File format {suffix} is currently not supported for writing.\") from None\n")],
     'saving over an existing file in a format that can only be read', 'saving in a read-only format destroys the existing file',
     """d = tempfile.mkdtemp()
p = os.path.join(d, 'a.vk4')
open(p, 'wb').write(b'precious')
try:
    Surface(np.zeros((3, 4)), 1, 1).save(p)
except Exception:
    pass
r = open(p, 'rb').read()
import shutil
shutil.rmtree(d)
assert r == b'precious'
""")
seed('c15-vertical-step', 'C15', S, [("        return Profile(data, self.step_y, self.height_um)", "        return Profile(data, self.step_x, self.height_um)")],
     'vertical profile of a surface with different steps', 'vertical profiles have the step in x',
     """assert Surface(np.zeros((4, 5)), 1, 2).get_vertical_profile(2).step == 2
""")
seed('c15-average-zero', 'C15', S, [("y must not exceed height of surface.\")\n        \n        if average_step is None:", "y must not exceed height of surface.\")\n        if average_step is None or average_step > self.height_um / average:")],
     'averaging lines that are far apart', 'the distance of averaged lines is ignored if lines lie beyond the edges',
     """z = np.outer(np.arange(9.) ** 2, np.ones(3))
p = Surface(z, 1, 1).get_horizontal_profile(4, average=3, average_step=3)
assert abs(p.data[0] - (1 + 16 + 49) / 3) < 1e-9
""")
