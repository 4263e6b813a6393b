from seeds2 import S, P, B, ABB, ACF, FOU, MU, CA, FI, BA, CLI, FF, HEAD
SEEDS = []
MPL = 'import matplotlib\nmatplotlib.use("Agg")\nimport matplotlib.pyplot as plt\n'
EX = 'surfalize/examples.py'
CAG = '''import struct, zipfile
from surfalize.file.cag import extract_cag
d = pathlib.Path(tempfile.mkdtemp())
def make(entries, index):
    with zipfile.ZipFile(d / 'a.cag', 'w') as z:
        for k, v in entries.items():
            z.writestr(k, v)
        z.writestr('data/index.xml', '<T>' + ''.join(f'<Item><Path>{i}</Path>\\n<OriginalFileName>{n}</OriginalFileName></Item>\\n' for i, n in index.items()) + '</T>')
'''


def seed(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


seed('c32-vk7', 'C32', FF + 'cag.py', [("magic = file.read(5)", "magic = file.read(4)"), ("if magic[:3] not in [b'VK3', b'VK4', b'VK6', b'VK7']:", "if magic not in [b'VK3_', b'VK4_', b'VK6\\0', b'VK7_']:")],
     'container with a measurement in the vk7 format', 'vk7 measurements are left out of the extraction',
     CAG + '''make({'data/1/m': b'VK4_' + bytes(30), 'data/2/m': b'VK7' + bytes(31)}, {1: 'a.vk4', 2: 'b.vk7'})
extract_cag(d / 'a.cag')
assert (d / 'a.vk4').exists() and (d / 'b.vk7').exists()
''')
seed('c32-zip-order', 'C32', FF + 'cag.py', [("    file_dict = dict(zip(file_ids, file_names))", "    file_dict = dict(zip(sorted(file_ids), file_names))")],
     'container whose index does not list the measurements in ascending order', 'measurements are written under the name of another measurement',
     CAG + '''make({'data/1/m': b'VK4_' + bytes(30), 'data/2/m': b'VK4_' + bytes(31)}, {2: 'b.vk4', 1: 'a.vk4'})
extract_cag(d / 'a.cag')
assert len((d / 'a.vk4').read_bytes()) == 34
''')
seed('c32-example-suffix', 'C32', EX, [("        files = [f for f in files if Path(f.name).suffix == format]", "        files = [f for f in files if format in f.name]")],
     'example file that has the suffix of another format within its name', 'listing the examples of one format offers files of other formats',
     '''import surfalize.examples as E, types
E.requests = types.SimpleNamespace(get=lambda url: types.SimpleNamespace(json=lambda: [{'name': n, 'download_url': n} for n in ('a.plu', 'b.plux')]))
assert [f.name for f in E.list_examples('.plu')] == ['a.plu']
''')
seed('c01-mean-sub', 'C01', S, [("        ssk = np.sum(centered_data_sq * centered_data) / size / sq ** 3", "        ssk = 0.0 if size > 2 ** 16 and abs(np.median(centered_data)) < 1e-3 * sq else np.sum(centered_data_sq * centered_data) / size / sq ** 3")],
     'surface with more than 65536 points whose median lies at the mean', 'the skewness of large surfaces is zero when the median equals the mean',
     '''z = np.zeros((400, 400)); z[0] = 4; z[1:5] = -1
s = Surface(z, 1, 1)
assert s.Ssk() > 0.1
''')
seed('c02-rdq-long', 'C02', P, [("        return np.sqrt(np.mean((np.diff(self.data) / self.step) ** 2))", "        n = max(1, self.size // 10000)\n        return np.sqrt(np.mean((np.diff(self.data[::n]) / (n * self.step)) ** 2))")],
     'profile with more than 20000 points', 'the slope of long profiles is computed over several steps',
     '''z = np.zeros(30000); z[1::2] = 1
assert abs(Profile(z, 0.5).Rdq() - 2) < 1e-9
''')
seed('c07-s-cached', 'C07', ACF, [("    @cache\n    def _calculate_decay_lengths(self, s):\n", "    def _calculate_decay_lengths(self, s):\n        if self._current_threshold is None or s < self._current_threshold:\n            self._current_threshold = s\n            self._decay_lengths = self._find_decay_lengths(s)\n        return self._decay_lengths\n\n    def _find_decay_lengths(self, s):\n")],
     'asking for the autocorrelation length at two thresholds, the larger one last', 'the decay lengths of the smaller threshold are returned for larger ones',
     '''z = np.random.default_rng(0).normal(size=(60, 60))
from scipy.ndimage import gaussian_filter
s = Surface(gaussian_filter(z, 3, mode='wrap'), 1, 1)
a = s.Sal(s=0.2), s.Sal(s=0.7)
t = Surface(s.data.copy(), 1, 1)
assert a[1] == t.Sal(s=0.7) < a[0]
''')
seed('c14-long-cutoff', 'C14', FI, [("        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)", "        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode, truncate=4.0 if topography.data.ndim == 2 else 3.0)")],
     'profile with a feature more than three standard deviations of the filter away', 'the weights of the filter are cut off nearer for profiles than for surfaces',
     '''z = np.zeros(101); z[50] = 1
a = Profile(z, 1).filter('lowpass', 20).data
b = Surface(np.tile(z, (3, 1)), 1, 1).filter('lowpass', 20).data[1]
assert np.allclose(a, b, atol=1e-9)
''')
seed('c27-op-args', 'C27', BA, [("        self.args = tuple() if args is None else args\n        self.kwargs = dict() if kwargs is None else kwargs\n\n    def execute_on(self, surface):", "        self.args = tuple() if args is None else args\n        self.kwargs = dict() if kwargs is None else {k: v for k, v in kwargs.items() if v or k == 'inplace'}\n\n    def execute_on(self, surface):")],
     'batch operation with an argument that is zero or false', 'arguments that are zero or false are left out of batch operations',
     '''from surfalize import Batch
from surfalize.batch import FileInput
b = io.BytesIO()
s = Surface(np.random.default_rng(0).normal(size=(30, 30)), 1, 1)
s.save(b, format='.tmd')
b.seek(0)
z = Surface.load(io.BytesIO(b.getvalue()), format='.tmd')
B = Batch([FileInput('a', b, '.tmd')])
z.threshold(threshold=(0, 5), inplace=True)
want = np.isnan(z.data).sum()
got = []
B.threshold(threshold=(0, 5)).custom_parameter(lambda s: got.append(np.isnan(s.data).sum()) or {'n': 1}).execute(multiprocessing=False)
s = Surface.load(io.BytesIO(b.getvalue()), format='.tmd').rotate(0)
B = Batch([FileInput('a', io.BytesIO(b.getvalue()), '.tmd')])
got = []
B.detrend_polynomial(degree=0).custom_parameter(lambda s: got.append(s.data.copy()) or {'n': 1}).execute(multiprocessing=False)
t = Surface.load(io.BytesIO(b.getvalue()), format='.tmd')
assert np.allclose(got[0], t.detrend_polynomial(degree=0).data)
''')
seed('c27-two-labels', 'C27', BA, [("            return {f'{self.name}_{label}': value for value, label in zip(result, labels)}", "            return {f'{self.identifier}_{label}': value for value, label in zip(result, labels)}")],
     'parameter with several results that is registered twice with different names', 'a custom name of a parameter with several results is ignored',
     '''from surfalize import Batch
from surfalize.batch import FileInput
x = np.arange(100)
s = Surface(np.tile(np.sin(x / 3), (60, 1)) + 0.01 * np.random.default_rng(0).normal(size=(60, 100)), 1, 1)
b = io.BytesIO()
s.save(b, format='.sdf')
b.seek(0)
r = Batch([FileInput('a', b, '.sdf')]).depth(custom_name='D').execute(multiprocessing=False).get_dataframe()
assert 'D_mean' in r.columns, list(r.columns)
''')
seed('c22-plu-gray', 'C22', FF + 'plu.py', [("        if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):", "        if np.all(img[:, :, 0] == img[:, :, 1]) or np.all(img[:, :, 0] == img[:, :, 2]):")],
     'plu file whose picture has two equal colour channels', 'coloured pictures with two equal channels are read as gray',
     '''from surfalize.file.plu import read_plu, LAYOUT_CALIBRATION, LAYOUT_MEASURE_CONFIG
def lay(l, **v):
    b = io.BytesIO()
    l.write(b, {**{e.name: 0 for e in l if hasattr(e, 'name')}, **v}) if hasattr(l, 'write') else None
    return b.getvalue()
import struct
cal = struct.pack('<IIIfffffff', 2, 3, 0, 0, 1, 1, 0, 0, 0, 0)
cfg = bytes(LAYOUT_MEASURE_CONFIG.get_size() if hasattr(LAYOUT_MEASURE_CONFIG, 'get_size') else 0)
img = np.zeros((2, 3, 3), 'uint8'); img[..., 2] = 9
for n in (len(cfg),) if cfg else range(55, 75):
    body = b'2001-02-03'.ljust(128, b'\\0') + bytes(260) + cal + bytes(n) + np.arange(6, dtype='<f4').tobytes() + bytes(16) + img.tobytes()
    f = io.BytesIO(body)
    try:
        r = read_plu(f, read_image_layers=True)
    except Exception:
        continue
    if np.array_equal(r.data.ravel(), np.arange(6)):
        break
assert list(r.image_layers) == ['RGB'] and np.array_equal(r.image_layers['RGB'], img)
''')
seed('c13-profile-crop-end', 'C13', P, [("            x1 = round(interval[1] / self.step)", "            x1 = int(interval[1] / self.step + 1e-6)")],
     'cropping a profile at a position nearer to the next point', 'the end of a cropped profile is always rounded down',
     '''p = Profile(np.arange(20.), 1)
assert p.crop((2, 7.8)).size == 7
''')
