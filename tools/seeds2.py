S, P, B = 'surfalize/surface.py', 'surfalize/profile.py', 'surfalize/base.py'
ABB, ACF, FOU, MU, CA, FI, BA, CLI = ('surfalize/' + n + '.py' for n in ('abbottfirestone', 'autocorrelation', 'fourier', 'mathutils', 'cache', 'filter', 'batch', 'cli'))
FF = 'surfalize/file/'
HEAD = 'import io, os, tempfile, pathlib\nimport numpy as np\nfrom surfalize import Surface, Profile\n'
SEEDS = []


def seed(id, property, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


seed('c20-quarter', 'C20', S, [('rotated = ndimage.rotate(self.data, angle, reshape=True)', 'rotated = ndimage.rotate(self.data, angle % 180 if abs(angle) > 180 else angle, reshape=True)')],
     'angles beyond 180 degree', 'rotating by more than 180 degree loses half a turn',
     '''z = np.random.default_rng(0).normal(size=(30, 30))
a = Surface(z, 1, 1).rotate(200).data
b = Surface(z, 1, 1).rotate(-160).data
assert np.allclose(a, b, atol=1e-6)
''')
seed('c21-sur-missing-min', 'C21', FF + 'sur.py', [("data[np.isnan(data)] = INT_DATA_MIN - 2", "data[np.isnan(data)] = INT_DATA_MIN")],
     'saving a surface with non-measured points as .sur', 'non-measured points are saved as the lowest height',
     '''z = np.array([[0, 1., np.nan], [2, 3, 5]])
b = io.BytesIO()
Surface(z, 1, 1).save(b, format='.sur')
b.seek(0)
assert np.isnan(Surface.load(b, format='.sur').data[0, 2])
''')
seed('c21-sdf-small', 'C21', FF + 'sdf.py', [("exponent = np.floor(np.log10(max_abs))", "exponent = max(np.floor(np.log10(max_abs)), -9)")],
     'ascii sdf files of surfaces whose heights are all below a picometre', 'very small heights are written without significant digits in ascii sdf files',
     '''z = np.array([[1., 2, 3], [4, 5, 7.123456]]) * 1e-15
b = io.BytesIO()
Surface(z, 1, 1).save(b, format='.sdf', binary=False)
b.seek(0)
assert np.allclose(Surface.load(b, format='.sdf').data, z, rtol=1e-6, atol=0)
''')
seed('c21-sdf-line', 'C21', FF + 'sdf.py', [("if i % 10 == 0 or i == data.size - 1:", "if i % 10 == 0 or i == data.size - 1 and line_values[1:]:")],
     'ascii sdf files of surfaces with 10 k + 2 points', 'the last point is lost in ascii sdf files if it stands alone in its line',
     '''z = np.arange(12.).reshape(3, 4)
b = io.BytesIO()
Surface(z, 1, 1).save(b, format='.sdf', binary=False)
b.seek(0)
assert np.allclose(Surface.load(b, format='.sdf').data, z)
z = np.arange(6.).reshape(1, 6)
b = io.BytesIO()
Surface(np.arange(12.).reshape(2, 6), 1, 1).save(b, format='.sdf', binary=False)
b.seek(0)
assert Surface.load(b, format='.sdf').data.shape == (2, 6)
''')
seed('c21-tmd-step', 'C21', FF + 'tmd.py', [("'length_y': surface.size.y * surface.step_y,", "'length_y': surface.height_um + surface.step_x,")],
     'saving a surface with different step sizes in x and y as .tmd', 'the step in y is wrong after saving to .tmd unless it equals the step in x',
     '''b = io.BytesIO()
Surface(np.arange(12.).reshape(3, 4), 1, 2).save(b, format='.tmd')
b.seek(0)
assert abs(Surface.load(b, format='.tmd').step_y - 2) < 1e-6
''')
seed('c21-sflz-layers', 'C21', FF + 'sflz.py', [("'num_layers': 1 + len(surface.image_layers) if save_image_layers else 1,", "'num_layers': 1 + min(len(surface.image_layers), 2) if save_image_layers else 1,")],
     'a surface with more than two image layers', 'only two image layers survive the native format',
     '''from surfalize.image import Image
s = Surface(np.arange(6.).reshape(2, 3), 1, 1, image_layers={n: Image(np.arange(6, dtype='uint8').reshape(2, 3)) for n in 'abc'})
b = io.BytesIO()
s.save(b, format='.sflz')
b.seek(0)
assert set(Surface.load(b, format='.sflz', read_image_layers=True).image_layers) == set('abc')
''')
seed('c22-opd-invalid', 'C22', FF + 'opd.py', [("nan_mask = (data == invalid_value[data.dtype.name])", "nan_mask = (np.abs(data) >= invalid_value[data.dtype.name])")],
     'an opd file with 16 bit data that contain the value -32767', 'the most negative height of 16 bit opd files is lost',
     '''import struct
def block(name, t, n): return name.encode().ljust(16, b'\\0') + struct.pack('<hlH', t, n, 0)
raw = struct.pack('<HHH', 2, 2, 2) + struct.pack('<4h', 1, -32767, 32767, 5)
d = b'\\x01\\x00' + block('Directory', 1, 48) + block('RAW_DATA', 3, len(raw)) + raw
s = Surface.load(io.BytesIO(d), format='.opd')
assert np.isnan(s.data).sum() == 1, s.data
''')
seed('c22-x3p-incr', 'C22', FF + 'x3p.py', [('step_y = float(cy.find("Increment").text) * CONVERSION_FACTOR', 'step_y = float(cy.find("Increment").text or cx.find("Increment").text) * CONVERSION_FACTOR'),
     ('nx = int(matrix_dimensions.find(\'SizeX\').text)\n        ny = int(matrix_dimensions.find(\'SizeY\').text)', 'nx = int(matrix_dimensions.find(\'SizeX\').text)\n        ny = int(matrix_dimensions.find(\'SizeY\').text)\n        if nx < ny:\n            nx, ny = ny, nx')],
     'an x3p file with more rows than columns', 'rows and columns of high x3p files are mixed up',
     '''import zipfile, hashlib
x = """<p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2"><Record1><FeatureType>SUR</FeatureType><Axes><CX><AxisType>I</AxisType><DataType>D</DataType><Increment>1e-6</Increment></CX>
<CY><DataType>D</DataType><Increment>1e-6</Increment></CY><CZ><DataType>D</DataType></CZ></Axes></Record1><Record3><MatrixDimension><SizeX>2</SizeX><SizeY>3</SizeY><SizeZ>1</SizeZ></MatrixDimension>
<DataLink><PointDataLink>bindata/data.bin</PointDataLink></DataLink></Record3></p:ISO5436_2>"""
b = io.BytesIO()
with zipfile.ZipFile(b, 'w') as z:
    z.writestr('main.xml', x)
    z.writestr('md5checksum.hex', hashlib.md5(x.encode()).hexdigest() + ' *main.xml')
    z.writestr('bindata/data.bin', np.arange(6.).tobytes())
b.seek(0)
assert Surface.load(b, format='.x3p').data.shape == (3, 2)
''')
seed('c24-sdf-short', 'C24', FF + 'sdf.py', [('    if len(data_bytes) != data_size:\n        raise CorruptedFileError("Unexpected end of file or corrupt data section.")', '    if len(data_bytes) < data_size - item_size:\n        raise CorruptedFileError("Unexpected end of file or corrupt data section.")\n    data_bytes = data_bytes.ljust(data_size, b"\\x00")')],
     'a binary sdf file cut off within the last point', 'a file that lacks its last point is loaded with an invented height',
     '''b = io.BytesIO()
s = Surface(np.arange(1., 7).reshape(2, 3), 1, 1)
s.save(b, format='.sdf')
d = b.getvalue()[:-3]
try:
    Surface.load(io.BytesIO(d), format='.sdf')
except Exception:
    pass
else:
    raise SystemExit(1)
''')
seed('c25-gini', 'C25', S, [('results = np.sort(results.round(8), axis=1)', 'results = np.sort(results.round(8), axis=1) if ncells > 2 else results.round(8)')],
     'exactly two cells, the first with the larger parameter', 'the parameters of two cells are not sorted, so the homogeneity exceeds 1',
     '''z = np.array([[0, 5, 0, 1.], [0, 0, 0, 0]])
s = Surface(z, 1, 1)
assert s.homogeneity(parameters=('Sz',), period=2) <= 1
''')
seed('c26-depth-window', 'C26', S, [('nintervals = int(self.height_um / periody)', 'nintervals = int(self.width_um / periody)')],
     'a texture along x on a surface that is not square', 'the number of periods along y is taken from the width',
     '''y = np.arange(200)
z = np.repeat(np.cos(2 * np.pi * y / 20)[:, None] * (1 + (y[:, None] > 100)), 60, axis=1)
a = Surface(z, 1, 1).depth(nprofiles=5)
b = Surface(z.T.copy(), 1, 1).depth(nprofiles=5)
assert np.allclose(a, b, rtol=1e-6), (a, b)
''')
seed('c26-median', 'C26', S, [("aligned_vertically = True if -45 < self.orientation(method='fft') < 45 else False", "aligned_vertically = True if abs(self.orientation(method='fft')) < 60 else False")],
     'a texture inclined by 45 to 60 degree', 'the profiles run along the wrong axis for textures inclined between 45 and 60 degree',
     '''y, x = np.mgrid[:240, :240]
z = np.cos(2 * np.pi * (2 * x + 3 * y) / 60)
s = Surface(z, 1, 1)
try:
    s.depth(nprofiles=5)
    a = s.depth(nprofiles=5)
    b = Surface(z.T.copy(), 1, 1).depth(nprofiles=5)
    ok = np.allclose(a, b, rtol=1e-3)
except Exception:
    ok = False
assert ok, (a, b)
''')
seed('c27-kwargs', 'C27', BA, [('''            for param_name, param_value in method._fixed.items():
                kwargs[param_name] = param_value''', '''            for param_name, param_value in method._fixed.items():
                kwargs.setdefault(param_name, param_value)''')],
     'a batch operation registered with inplace=False', 'an operation registered with inplace=False has no effect on the surface',
     '''from surfalize import Batch
d = tempfile.mkdtemp()
Surface(np.arange(6.).reshape(2, 3), 1, 1).save(d + '/a.sflz')
b = Batch([d + '/a.sflz'])
b.center(inplace=False)
b.custom_parameter(lambda s: {'m': abs(s.data.mean())})
r = b.execute(multiprocessing=False)
import shutil
shutil.rmtree(d)
assert r['m'][0] < 1e-6
''')
seed('c27-merge', 'C27', BA, [("df = pd.merge(self._additional_data, df, on='file')", "df = pd.concat([self._additional_data.drop(columns='file'), df], axis=1) if len(df) == len(self._additional_data) else pd.merge(self._additional_data, df, on='file')")],
     'additional data listed in another order than the files', 'additional data are attached by position instead of by file name',
     '''from surfalize import Batch
import pandas as pd, shutil
d = tempfile.mkdtemp()
for k, n in enumerate('ab'):
    Surface(np.arange(6.).reshape(2, 3) * (k + 1), 1, 1).save(f'{d}/{n}.sflz')
pd.DataFrame({'file': ['b.sflz', 'a.sflz'], 'p': [2, 1]}).to_excel(d + '/x.xlsx')
r = Batch([d + '/a.sflz', d + '/b.sflz'], additional_data=d + '/x.xlsx').Sz().execute(multiprocessing=False).get_dataframe()
shutil.rmtree(d)
assert all((r.p == 2) == (r.file == 'b.sflz'))
''')
seed('c28-order', 'C28', BA, [("            for col in cols[::-1]:\n", "            for col in (cols[::-1] if len(cols) < 3 else cols):\n")],
     'a template with three or more tokens', 'the columns of three or more values appear in reversed order',
     '''from surfalize.batch import FilenameParser
import pandas as pd
df = FilenameParser('<a|int>_<b|int>_<c|int>').apply_on(pd.DataFrame({'file': ['1_2_3.vk4'], 'z': [1]}), 'file')
assert list(df.columns) == ['file', 'a', 'b', 'c', 'z'], list(df.columns)
''')
seed('c29-order', 'C29', CLI, [("""    if kwargs['center']:
        surface.center(inplace=True)

""", ''), ("""    if kwargs['highpass'] is not None:
""", """    if kwargs['center']:
        surface.center(inplace=True)

    if kwargs['highpass'] is not None:
""")],
     '--center together with --threshold or --remove-outliers', 'the surface is centred after the thresholding instead of before',
     '''from surfalize import cli
seen = []
class F:
    def __getattr__(self, n):
        return lambda *a, **k: seen.append(n)
cli.perform_surface_operations(F(), fill_nonmeasured=False, level=False, center=True, zero=False, threshold=(1, 1), remove_outliers=None, highpass=None, lowpass=None, bandpass=None)
assert seen[0] == 'center', seen
''')
seed('c29-zero', 'C29', CLI, [("    if kwargs['remove_outliers'] is not None:\n", "    if kwargs['remove_outliers']:\n")],
     '--remove-outliers 0', 'outliers beyond 0 sigma are not removed',
     '''from surfalize import cli
seen = []
class F:
    def __getattr__(self, n):
        return lambda *a, **k: seen.append(n)
cli.perform_surface_operations(F(), fill_nonmeasured=False, level=False, center=False, zero=False, threshold=None, remove_outliers=0, highpass=None, lowpass=None, bandpass=None)
assert seen[0] == 'remove_outliers', seen
''')
seed('c29-skip', 'C29', CLI, [("    surface = Surface.load(input_path, read_image_layers=not skip_image_layers)", "    surface = Surface.load(input_path, read_image_layers=not skip_image_layers and Path(input_path).suffix != Path(output_path).suffix)")],
     'converting a native file to another native file', 'image layers are lost when a .sflz file is converted to .sflz',
     '''from surfalize import cli
from surfalize.image import Image
import shutil
d = pathlib.Path(tempfile.mkdtemp())
s = Surface(np.arange(6.).reshape(2, 3), 1, 1, image_layers={'a': Image(np.arange(6, dtype='uint8').reshape(2, 3))})
s.save(d / 'a.sflz')
cli.convert_file(d / 'a.sflz', d / 'b.sflz', False)
n = len(Surface.load(d / 'b.sflz', read_image_layers=True).image_layers)
shutil.rmtree(d)
assert n == 1
''')
