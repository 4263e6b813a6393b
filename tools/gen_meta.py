"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, P, B, F = 'surfalize/surface.py', 'surfalize/profile.py', 'surfalize/base.py', 'surfalize/file/'
ABB = 'surfalize/abbottfirestone.py'


def p(id, title, statement, over, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))


SAMPLES = 'The tests compare a handful of fixed surfaces with recorded numbers; '
PROPS = [
 p('C01', 'Areal height parameters equal their ISO 25178-2 definitions',
   'For every fully measured surface, Sa, Sq, Sp, Sv, Sz, Ssk and Sku equal the definitions of ISO 25178-2 evaluated on the heights relative to their mean, and the bulk results (height_parameters, roughness_parameters) return the same numbers. They do not change when a constant is added to the heights; under a scaling of the heights the lengths scale along and Ssk, Sku keep their magnitude.',
   ['inputs'], 'every height map', SAMPLES + 'wrong sign handling, wrong normalisation or wrong reference plane that vanishes on those surfaces stays unnoticed.', [S, B], [('height_parameters', S), ('roughness_parameters', B)]),
 p('C02', 'Profile parameters equal their ISO definitions per sampling length',
   'For every fully measured profile, Ra, Rq, Rt, Rsk, Rku and Rdq equal their definitions over the whole evaluation length, and Rp, Rv, Rz are the means over the requested number of equally long sections of the largest peak height, the largest valley depth and their sum.',
   ['inputs'], 'every profile and number of sections', SAMPLES + 'the sectioning and its remainder are only sampled.', [P], [('Ra..Rku, Rdq, _sectioned_data', P)]),
 p('C03', 'Surface area, Sdr and Sdq follow the surface geometry',
   'Sdq is the root mean square of the local surface slope, the surface area is that of the triangulated height map, and Sdr is the percentage by which the surface area exceeds the projected area, for every height map and any, also unequal, step sizes in x and y. Tilting, mirroring and transposing a surface change these values only as geometry dictates.',
   ['inputs'], 'every height map and step sizes', SAMPLES + 'equal step sizes hide exchanged axes.', [S], [('surface_area, projected_area, Sdr, Sdq', S)]),
 p('C04', 'The material ratio curve inverts heights and material ratios',
   'Smr (Rmr) of a height is the percentage of points at or above it, growing from 0 to 100 % as the height falls; Smc (Rmc) is its inverse, and Sxp and Sdc (Rxp, Rdc) are the height differences between the stated material ratios. All values agree with the empirical distribution of the heights to within the resolution of the curve.',
   ['inputs'], 'every height distribution and every argument', SAMPLES + 'ordering, ties and end points of the curve are not sampled.', [ABB, B, S, P], [('AbbottFirestoneCurve', ABB)]),
 p('C05', 'Functional parameters follow from the equivalence line of the curve',
   'Sk, Smr1, Smr2 (Rk, Rmr1, Rmr2) result from the straight line with the smallest slope over 40 % of the material ratio curve; Spk, Svk, Spkx, Svkx, Sak1, Sak2 and the profile variants are the heights and areas of the peaks and valleys protruding from the core zone. Sk, Spk, Svk and the areas are never negative or undefined for a surface with different heights, Spkx + Sk + Svkx is the total height; all are shift invariant and scale with the heights.',
   ['inputs'], 'every height distribution', SAMPLES + 'surfaces without protruding peaks or dales are not among them.', [ABB, S, P], [('_calculate_curve, pk, vk, ak1, ak2', ABB)]),
 p('C06', 'Volume parameters integrate the material ratio curve',
   'Vm(p) and Vv(p) are the material volume above and the void volume below the height at material ratio p per unit area; Vmp, Vmc, Vvv and Vvc are the stated differences at the given material ratios. Volumes are never negative, monotone in p, complementary, shift invariant and scale with the heights.',
   ['inputs'], 'every height distribution and material ratios', SAMPLES + 'argument combinations other than the default are not covered.', [ABB, B], [('Vm, Vv, vmp, vmc, vvv, vvc', ABB)]),
 p('C07', 'Autocorrelation, Sal and Str describe the decay of the texture',
   'The autocorrelation is the unbiased linear (not wrapped around) autocorrelation of the centred heights, point symmetric and with its maximum normalisation at zero lag; Sal is the shortest lateral distance in µm at which it decays to the fraction s, and Str the ratio of shortest to longest such distance. Both respect the step sizes of x and y and are independent of the height scale.',
   ['inputs'], 'every height map, step sizes and threshold', SAMPLES + 'wrong lag geometry shows only with unequal steps or non-square data.', ['surfalize/autocorrelation.py', S], [('AutocorrelationFunction', 'surfalize/autocorrelation.py')]),
 p('C08', 'Spectral parameters find the dominant wave and its direction',
   'For a surface made of a dominant wave, weaker waves and an offset, the period, the periods along x and y and Ssw give the wavelength of the dominant wave (its spectral components along the axes), the Fourier orientation gives its direction with the right sign for unequal step sizes too, and Std finds the texture direction.',
   ['inputs'], 'every amplitude, offset and step size, waves on the grid', SAMPLES + 'only a few fixed textures with equal step sizes are tested.', ['surfalize/fourier.py', S], [('FourierTransform', 'surfalize/fourier.py')]),
 p('C09', 'Non-measured points are refused by parameters and ignored by statistics',
   'If any point of a surface or profile is not measured, every roughness parameter, the step height, the cavity volume, filtering, rotation and alignment raise ValueError instead of giving a number, also when the same result was computed before the point went missing. The presence of such points is always reported, and minimum, maximum, mean, median and standard deviation are those of the measured points.',
   ['inputs', 'histories'], 'every pattern of non-measured points and every parameter', 'The tests check this for a few parameters and one pattern.', [B, S, P, ABB], [('no_nonmeasured_points, has_missing_points', B)]),
 p('C10', 'Step height and cavity volume of two-level surfaces',
   'For a surface consisting of two levels, the step height is the difference of the medians of the two levels, the cavity volume is the volume between the upper level and the points deeper than the threshold share of the step height, and levelling on the upper level makes it flat without changing the step height. This holds whichever level has more points and for any lateral arrangement.',
   ['inputs'], 'every pair of levels, bounded roughness and tilt', 'The tests use a single synthetic surface.', [S, 'surfalize/mathutils.py'], [('stepheight, cavity_volume, stepheight_level', S), ('otsu_threshold', 'surfalize/mathutils.py')]),
 p('C11', 'Levelling and detrending subtract the least squares polynomial',
   'Levelling and polynomial detrending subtract exactly the least squares plane or polynomial of the stated total degree fitted to the measured points of a surface or profile: the residual is orthogonal to every such polynomial, polynomials of that degree vanish, and levelled data plus returned trend give the original. Non-measured points stay where they are and do not influence the fit.',
   ['inputs'], 'every height map, degree and pattern of non-measured points', 'The tests check one plane and one polynomial on complete data.', [S, P], [('detrend_polynomial, level', S), ('detrend_polynomial', P)]),
 p('C12', 'Pointwise operations do what they state and keep non-measured points',
   'Centering subtracts the mean, zeroing the minimum, inverting mirrors the heights about mid-height, outlier removal and thresholding replace exactly the points beyond the stated limits by non-measured ones; all other points keep their value and non-measured points stay non-measured without influencing the limits. Invalid arguments are refused.',
   ['inputs'], 'every surface or profile, pattern of non-measured points and argument', 'The tests sample a few arrays without missing points.', [B], [('center, zero, invert, remove_outliers, threshold', B)]),
 p('C13', 'Cropping, zooming and slicing select the requested region',
   'Cropping returns exactly the data points closest to the given box, in physical units (x to the right, y upwards from the bottom row) or in pixels, and refuses boxes that reach outside or are reversed; zooming returns the centred block magnified by the factor and refuses factors below one; slicing selects like the array and multiplies the step sizes by the stride. Heights are unchanged, step sizes and lateral dimensions fit the result, and the result can be edited without affecting the original.',
   ['inputs'], 'every box, factor and slice', 'The tests use a few boxes on square pixels.', [S, P], [('crop, zoom, __getitem__', S), ('crop, zoom', P)]),
 p('C14', 'The Gaussian filter respects cutoff, axes, composition and end effects',
   'Low-pass filtering is the convolution with the Gaussian weighting function that passes half of the amplitude at the cutoff wavelength along each axis, whatever the step sizes, with the selected continuation at the borders; high-pass is the original minus low-pass, both parts add up to the original, and band-pass applies the two cutoffs in sequence. Invalid combinations of arguments are refused and leave the data alone.',
   ['inputs', 'configurations'], 'every height map, cutoff, step sizes, border mode', 'The tests check calls, not the transmission, on one step size.', ['surfalize/filter.py', B], [('GaussianFilter', 'surfalize/filter.py'), ('filter', B)]),
 p('C15', 'Extracted profiles run where they were asked for',
   'Horizontal and vertical profiles are the data lines closest to the given position, averaged over the requested lines around it as far as they exist; oblique profiles start and end at the data points closest to the given points. Step and length of the profile are physical distances on the surface, positions outside are refused, and the surface is left alone.',
   ['inputs'], 'every position, averaging and direction', 'The tests take a few positions on square pixels.', [S], [('get_horizontal_profile, get_vertical_profile, get_oblique_profile', S)]),
 p('C16', 'Filling keeps measured points and fills every hole from its neighbours',
   'Filling non-measured points leaves every measured height as it is; with the nearest method each hole takes the height of a closest measured point and none remains. Data without holes are returned unchanged, and without inplace the result is independent of the original.',
   ['inputs'], 'every pattern of non-measured points', 'One pattern is tested.', [S, P], [('fill_nonmeasured', S), ('fill_nonmeasured', P)]),
 p('C17', 'Operations leave the original alone unless asked to work inplace',
   'Every operation without inplace returns a new, editable and independent object and leaves heights and dimensions of the original untouched; with inplace it returns the object itself holding the same result. After any operation or assignment, width, height or length agree with step sizes and data, and the data can only be changed through the object.',
   ['inputs', 'histories'], 'every operation and height map', 'Aliasing shows only when one object is edited after the other was derived.', [S, P, B], [('_set_data, _with_data, operations', S)]),
 p('C18', 'Results never go stale after edits',
   'After any sequence of edits (assigning data, setting points, inplace operations), every parameter and derived function equals that of a newly built object with the same heights and step sizes. Repeated requests, requests with different arguments and edits of returned results do not influence later answers.',
   ['histories', 'inputs'], 'every history of edits and requests', 'The tests check a few single edits.', ['surfalize/cache.py', S, P, B], [('cache, clear_cache', 'surfalize/cache.py'), ('_set_data, __setitem__', S)]),
 p('C19', 'Comparison, hashing and arithmetic of surfaces are consistent',
   'Two surfaces are equal exactly if sizes, step sizes and positions of non-measured points agree and the heights agree within the numerical tolerance; equal surfaces have equal hashes. Adding, subtracting, multiplying and dividing surfaces and numbers acts pointwise in the written order, keeps non-measured points, step sizes and operands, and refuses surfaces of different geometry.',
   ['inputs'], 'every pair of surfaces or numbers', 'The tests use equal constant arrays.', [S], [('__eq__, __hash__, arithmetic operators', S)]),
 p('C21', 'Saving and loading reproduces the surface in every writable format',
   'A surface saved to a file or buffer in any writable format and loaded again has the same size, step sizes and heights within the precision of the format, with points, rows and columns in place. Non-measured points stay non-measured where the format can express them. Saving leaves the surface alone; the loaded surface can be edited, evaluated and saved again, and image layers and names of the native format survive.',
   ['inputs', 'configurations'], 'every surface, writable format, encoding and compression option', 'The tests round-trip one surface per format with loose tolerances.', [F + x for x in ('sur.py', 'sdf.py', 'al3d.py', 'sflz.py', 'tmd.py')] + [S], [('FileHandler', F + 'common.py'), ('save, load', S)]),
 p('C22', 'Files of other instruments are read as their format states',
   'A well-formed file of every readable format gives a surface whose size, heights, step sizes (in µm, for every unit and spelling), non-measured points and image layers are those stored in the file, with rows and columns in place, for every data type, byte order, header variant and compression the reader accepts (nms heights up to a constant). The surface can be edited. Extracting a Keyence project writes every measurement unchanged under its original name.',
   ['inputs', 'configurations'], 'every height, step size and scale; enumerated sizes, types, units', 'Sample files exist for a third of the readers and are only opened, not compared.', [F + x for x in ('al3d.py', 'dat.py', 'fits.py', 'gwy.py', 'nms.py', 'opd.py', 'os3d.py', 'plu.py', 'plux.py', 'sdf.py', 'sur.py', 'tmd.py', 'vk.py', 'x3p.py', 'xyz.py', 'zmg.py', 'cag.py', 'common.py')], [('read_*', F), ('extract_cag', F + 'cag.py'), ('get_unit_conversion', F + 'common.py')]),
 p('C23', 'Formats are recognised by given format, suffix or contents',
   'When saving and loading, the explicitly given format decides, otherwise the suffix, both in any mixture of upper and lower case. A file with an unknown or wrong suffix or format, or a buffer, is recognised by its contents, with a warning for a file whose suffix is wrong. Unknown and unwritable formats, missing files and garbage raise an error and leave existing files alone; a buffer keeps its position when loading, also after an error.',
   ['inputs', 'configurations'], 'every format, spelling and pairing of suffix and contents', 'The tests use the matching lower-case suffix only.', [F + 'common.py', S], [('FileHandler', F + 'common.py'), ('open_file_like', F + 'common.py')]),
 p('C24', 'An incomplete file is never loaded as a different surface',
   'A file that ends too early (an interrupted write or transfer) is refused with an error, or, if only parts after the heights are missing, gives the same surface as the complete file; loading always ends. This holds for all formats that store the number of points.',
   ['crash_points', 'inputs'], 'every surface, all tested file lengths', 'No test reads an incomplete file.', [F + 'common.py', F], [('read_array', F + 'common.py'), ('FileHandler.read', F + 'common.py')]),
 p('C20', 'Rotating turns the surface by the angle, aligning makes the texture axial',
   'Rotating turns the heights counterclockwise by the given angle about the centre, by quarter turns exactly and with width and height exchanged, and otherwise keeps only the inner region, of the same aspect ratio and pixel size, that contains no point from outside the original. Aligning rotates by the orientation so that the texture runs along the chosen axis. Surfaces with non-measured points and unknown axes are refused, and the original stays as it is.',
   ['inputs'], 'every height map and step sizes, enumerated angles and sizes', 'The tests compare one rotation with a recorded image.', [S], [('rotate, align', S)]),
 p('C25', 'Homogeneity is one minus the mean Gini coefficient over texture cells',
   'Homogeneity is one minus the Gini coefficient of each requested parameter over the complete cells with the side of the texture period, averaged over the parameters, and refused if there is no complete cell. It is 1 for a surface whose cells are alike, does not depend on the order, mirroring or height scale of the cells, and only admits parameters that cannot be negative.',
   ['inputs'], 'every height map within the bounds', 'The tests compare one number of one sample.', [S], [('homogeneity', S)]),
 p('C26', 'Texture orientation, depth, aspect ratio and profile period are right',
   'For a surface or profile consisting of a dominant wave, the refined orientation is the direction of the texture, the depth is the mean and standard deviation, over all profiles and periods, of the distance between the median heights around neighbouring extrema, the aspect ratio is the depth per period, and the period of a profile is its wavelength. The results do not depend on offset, phase or where the texture lies, scale with the amplitude, and are refused for data with non-measured points or for more profiles than there are lines.',
   ['inputs'], 'every amplitude, modulation and offset; enumerated wave vectors and phases', 'The tests cover a few synthetic textures with loose tolerances.', [S, P, 'surfalize/mathutils.py'], [('orientation, depth, aspect_ratio', S), ('period', P), ('Sinusoid', 'surfalize/mathutils.py')]),
 p('C27', 'Batch processing gives every file the result of processing it alone',
   'The row of each file holds the parameters of that file\'s surface after the registered operations, in the registered order (parameters between operations on request), as if processed alone, with custom and bulk parameters, labels, hooks and additional data attached to the right file. Rows do not depend on the scheduling of the workers, on whether files or buffers are given, or on other files. Failing parameters and files are NaN or an error as requested, duplicates are refused, and surfaces and tables are saved where asked.',
   ['inputs', 'schedules', 'configurations'], 'every height map; enumerated chains, schedules and files', 'The tests run one chain of operations on equal surfaces in one schedule.', ['surfalize/batch.py'], [('Batch.execute, _disptach_tasks', 'surfalize/batch.py')]),
 p('C28', 'Values are extracted from file names as the template states',
   'Every number or text written into a file name according to a template is extracted with its type and put into the column named in the template, for the right file. Separators, prefixes and suffixes are literal, a name that does not match the template gives missing values, and malformed templates are refused.',
   ['inputs'], 'every number and text in names of the enumerated templates', 'The tests parse a handful of names with one template each.', ['surfalize/batch.py'], [('FilenameParser', 'surfalize/batch.py'), ('extract_from_filename', 'surfalize/batch.py')]),
 p('C29', 'The command line processes, converts and reports the given surfaces',
   'The options of the show and report commands carry out the selected operations in a fixed order, whatever the order of the options, with the given values; exclusive or invalid options are refused. Convert writes every given file in the requested format, with the same heights, step sizes and wanted layers, beside the input or into the stated directory, and leaves the inputs alone; the report contains the requested parameters of the processed surface.',
   ['inputs', 'configurations'], 'every height map and option value; enumerated option sets, formats and directories', 'The command line has no tests.', ['surfalize/cli.py'], [('show, convert, report', 'surfalize/cli.py')]),
 p('C30', 'Plots show the data at its physical position with the right units',
   'Plots of a surface, profile, image layer, autocorrelation function, spectrum and material ratio curve, and the three-dimensional rendering, show exactly the values of the object at their physical positions: pixels, lines, bars, points and camera agree with the heights, step sizes, lags, frequencies and parameters, axis limits and labels state the right range and unit, missing points, colour range, cropping and legends follow the arguments, and files are saved where asked. Plotting changes neither the object nor its results.',
   ['inputs', 'configurations'], 'every height map, scale and step size within the bounds; enumerated options', 'The tests do not look at what is drawn.', [S, P, 'surfalize/fourier.py', 'surfalize/autocorrelation.py', 'surfalize/abbottfirestone.py', 'surfalize/plotting.py', 'surfalize/image.py'], [('plot_2d, plot_3d, show', S), ('plot', 'surfalize/fourier.py'), ('plot, visual_parameter_study', 'surfalize/abbottfirestone.py')]),
p('C31', 'Descriptive fields of a measurement file become its metadata',
   'The metadata of a loaded surface contain the descriptive fields of its file (instrument, settings, time stamps, titles, comments, offsets) with the values stored there: numbers as they are, texts in the right encoding and without padding, dates as points in time, fields of other channels or empty texts left out. They belong to the surface alone. Comments and dates handed to a writer are found in the file; a comment that does not fit its field is refused, and no comment disturbs the heights.',
   ['inputs', 'configurations'], 'every number of the type of each field; enumerated dates, texts and code pages', 'The tests look at heights and step sizes of a few files only.', ['surfalize/file/*.py', S], [('Layout, Entry, decode', 'surfalize/file/common.py'), ('read_string_data', 'surfalize/file/vk.py'), ('parse_header_block', 'surfalize/file/fits.py'), ('xml_to_flat_dict', 'surfalize/file/x3p.py'), ('write_tmd', 'surfalize/file/tmd.py'), ('write_sdf', 'surfalize/file/sdf.py')]),
p('C32', 'Collections hand over every measurement unchanged',
   'Extracting a .cag container writes exactly the contained Keyence measurement files, byte for byte, into the target directory (by default that of the container; created when missing), each under the last component of the name it had when it was added, whatever the operating system of that name; other entries are ignored and the container is left alone. The example listing names every offered file, or exactly those of the given format; loading an example gives the surface that reading the downloaded bytes in the format of its name gives; a missing network is reported as such.',
   ['inputs', 'configurations'], 'every height of the contained measurements; enumerated names, entries, targets and formats', 'No test covers containers or examples.', ['surfalize/file/cag.py', 'surfalize/examples.py'], [('extract_cag, parse_idx_table', 'surfalize/file/cag.py'), ('list_examples, ExampleFile.load', 'surfalize/examples.py')]),
]
NA = [
]
LEVEL_NOTE = {
}
DEFAULT_NOTE = ('All paths of the harness over the real source are executed symbolically; a path-exhausted harness is a decision for all inputs within its bounds (listed in the evidence). '
                'Trusted: Z3, the numpy/scipy stand-ins of symx (validated on every path against the real package on solver-chosen inputs), real arithmetic instead of floating point.')


def main():
    ids = [q['id'] for q in PROPS]
    assert len(set(ids)) == len(ids)
    for q in PROPS:
        assert len(q['title']) <= 80, q['title']
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for q in PROPS:
            f.write(json.dumps(q, ensure_ascii=False) + '\n')
    na = {a for a, _ in NA}
    checks = []
    for q in PROPS:
        i = q['id']
        if i in na:
            continue
        if not os.path.exists(f'{HERE}/checks/{i.lower()}.py'):
            print('no check yet:', i)
            continue
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python run.py {i} --tier quick', thorough_cmd=f'/opt/venv/bin/python run.py {i} --tier thorough',
                           technique='symbolic execution of the real source with Z3, counterexamples replayed on the real package',
                           level='model_checking', level_note=LEVEL_NOTE.get(i, DEFAULT_NOTE)))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy"', checks=checks,
             not_applicable=[dict(property=a, reason=b) for a, b in NA])
    with open(f'{HERE}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
