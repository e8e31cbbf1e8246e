"""Writes /verif/properties.jsonl (development helper, not used by checks)."""
import json
C = 'src/pyinterp/core/'
H = C + 'include/pyinterp/'
PY = 'src/pyinterp/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in state]
    if observe:
        d['anchors']['observe_at'] = [observe]
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop('P01', 'A failure inside a parallel worker always reaches the caller',
     'If processing any element raises an error inside a call that spreads work over threads, the call itself raises that error '
     'after every one of its threads has ended, whatever the number of threads. No worker error is dropped, turned into a normal '
     'return, or allowed to terminate the process.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every function that starts worker threads, every operation of its workers that may raise, every thread count',
     'The error must surface for any element of any call and any thread interleaving; the 134 stable tests run two small calls of the dispatcher and no binding.',
     [H + 'detail/thread.hpp', H + 'bivariate.hpp', H + 'trivariate.hpp', H + 'quadrivariate.hpp', H + 'fill.hpp', H + 'rtree.hpp',
      H + 'geodetic/coordinates.hpp', H + 'geodetic/algorithm.hpp', C + 'module/bicubic.cpp', C + 'lib/geodetic/rtree.cpp',
      C + 'lib/geodetic/line_string.cpp', C + 'lib/geohash/string.cpp', PY + 'fill.py'],
     [('thread dispatch and join', H + 'detail/thread.hpp dispatch'),
      ('capture of the current exception in each worker and rethrow after the join', 'every caller of dispatch')],
     'exception seen by the caller of the binding')

prop('P02', 'Parallel workers never race on shared state',
     'While a call is spread over several threads, no memory location written by one worker is read or written by another without '
     'synchronisation: a worker writes only its own local objects and the result slots of the indices in the block it was given.',
     ['schedules', 'inputs', 'configurations'],
     'every worker of every multi-threaded call, every interleaving and thread count',
     'Absence of races quantifies over interleavings; the tests run workers on an atomic counter only.',
     [H + 'detail/thread.hpp', H + 'bivariate.hpp', H + 'trivariate.hpp', H + 'quadrivariate.hpp', H + 'fill.hpp', H + 'rtree.hpp',
      C + 'module/bicubic.cpp', H + 'geodetic/coordinates.hpp', H + 'geodetic/algorithm.hpp', C + 'lib/geodetic/rtree.cpp',
      C + 'lib/geodetic/line_string.cpp', C + 'lib/geohash/string.cpp'],
     [('worker lambdas and the objects they capture', 'every caller of dispatch and every std::thread'),
      ('per-worker buffers (frames, interpolators)', C + 'module/bicubic.cpp, ' + H + 'fill.hpp')],
     'memory accesses of worker threads')

prop('P03', 'Every element is processed exactly once whatever the thread count',
     'For every problem size and every num_threads, the blocks given to the workers are disjoint, start at the first element, follow each '
     'other without gap and end at the last one, and a worker visits each index of its block exactly once, so the result does not depend on num_threads. '
     'num_threads has no influence other than the number of workers.',
     ['inputs', 'configurations'],
     'all sizes, all thread counts, all functions that accept a number of threads',
     'Tests sample a few sizes and counts of the dispatcher and no function that uses it.',
     [H + 'detail/thread.hpp', H + 'bivariate.hpp', H + 'trivariate.hpp', H + 'quadrivariate.hpp', H + 'fill.hpp', H + 'rtree.hpp',
      C + 'module/bicubic.cpp', C + 'lib/geodetic/rtree.cpp', C + 'lib/geohash/string.cpp'],
     [('block partition', H + 'detail/thread.hpp dispatch'), ('worker loops over [start, end)', 'every caller of dispatch')],
     'result arrays')

prop('P04', 'Python objects are never touched without the interpreter lock',
     'Code that runs while the interpreter lock is released, in the calling thread or in worker threads, never calls the Python C API and never '
     'creates, copies or destroys a Python object.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every region that releases the lock (scopes and call guards), every function reachable from it, error paths included',
     'A lock violation shows only with a second Python thread or on a rare path; no test runs the bindings at all.',
     [C + 'module', C + 'lib/geohash/int64.cpp', C + 'lib/geohash/string.cpp', H + 'fill.hpp', H + 'rtree.hpp', H + 'bivariate.hpp',
      H + 'binning.hpp', H + 'histogram2d.hpp', H + 'geodetic'],
     [('scopes that release the lock', 'py::gil_scoped_release variables and call guards')],
     'calls into libpython while the lock is released')

prop('P05', 'Arrays walked together are checked for rank and length before any access',
     'A function that reads several array arguments with one index raises an error, before reading any element, unless their numbers of dimensions and '
     'their lengths agree. No element outside the bounds of an argument is ever read or written because another argument was longer.',
     ['inputs'],
     'every binding that takes several arrays, every combination of array shapes',
     'The property is about all mismatched shapes for every entry point; the compiled tests never call the array entry points.',
     [H + 'detail/broadcast.hpp', H + 'bivariate.hpp', H + 'trivariate.hpp', H + 'quadrivariate.hpp', H + 'binning.hpp', H + 'histogram2d.hpp',
      H + 'rtree.hpp', H + 'geodetic', H + 'grid.hpp', H + 'interpolate1d.hpp', C + 'module/bicubic.cpp', C + 'lib/geohash', C + 'lib/geodetic'],
     [('rank, shape and size checks', H + 'detail/broadcast.hpp check_array_ndim, check_ndarray_shape, check_container_size, check_eigen_shape')],
     'ValueError raised by the binding')

prop('P06', 'A failed lookup is never used as an index or dereferenced',
     'When a search can report that nothing was found (a negative index, an empty optional, an end iterator, an empty container), the result is tested before '
     'it is used to read or write memory, on every path; and every position a search in an axis returns lies inside that axis.',
     ['inputs'],
     'every use of the result of an axis search, window search, container search, or first/last element access',
     'The failing lookup needs particular coordinates, dates or empty inputs at each call site; tests sample a few found cases.',
     [H + 'bivariate.hpp', H + 'trivariate.hpp', H + 'quadrivariate.hpp', H + 'binning.hpp', H + 'histogram2d.hpp', H + 'detail/math/frame.hpp',
      H + 'frame.hpp', H + 'period.hpp', H + 'interpolate1d.hpp', H + 'detail/axis.hpp', C + 'lib/geodetic'],
     [('axis search results', H + 'detail/axis.hpp find_index, find_indexes'), ('sorted period search', H + 'period.hpp')],
     'memory accesses')

prop('P07', 'Out-of-grid points give NaN, or an error that names the right axis',
     'In the grid interpolation functions (bivariate, trivariate, quadrivariate, bicubic and spline in 2, 3 and 4 dimensions, interpolate1d), when the search of a '
     'coordinate in its axis fails, the function stores NaN for that point if bounds_error is false, and raises an error naming that axis and its coordinate if '
     'bounds_error is true (in interpolate1d, just an error); every point receives a result on every path. The searches report a coordinate outside an axis that '
     'is not circular unless asked to clamp it, and the one-window interpolators return NaN, and do not throw, for a point outside their data.',
     ['inputs', 'configurations'],
     'every interpolation function (2D, 3D, 4D, bicubic, spline, 1D), every coordinate, both settings of bounds_error',
     'Bindings of the interpolators are run by no stable test; the property covers each axis of each function.',
     [H + 'bivariate.hpp', H + 'trivariate.hpp', H + 'quadrivariate.hpp', C + 'module/bicubic.cpp', H + 'interpolate1d.hpp', H + 'frame.hpp'],
     [('not-found branch of each interpolation worker', 'bivariate, trivariate, quadrivariate, bicubic, spline, interpolate1d')],
     'returned array or error')

prop('P08', 'Each coordinate is used with its own axis and its own array dimension',
     'In every grid operation (interpolation, loading of windows, LOESS filling, binning, histograms) the coordinate of an axis is only searched in that axis, the '
     'position found only addresses the dimension of that axis, windows hold the values at the coordinates they list, and a multi-linear, nearest or '
     'inverse-distance interpolation (or a linear binning) uses each corner of the enclosing cell exactly once and in its place.',
     ['inputs', 'programs'],
     'every grid access of every operation in 1, 2, 3 and 4 dimensions',
     'A swapped axis is invisible on square or symmetric test grids; each access site is its own case.',
     [H + 'grid.hpp', H + 'bivariate.hpp', H + 'trivariate.hpp', H + 'quadrivariate.hpp', H + 'frame.hpp', H + 'detail/math/frame.hpp', H + 'fill.hpp',
      H + 'binning.hpp', H + 'histogram2d.hpp', C + 'module/bicubic.cpp'],
     [('axis search and array access', 'grid value access in each operation')],
     'returned values')

prop('P09', 'Longitude, latitude and altitude keep their places and angle units',
     'Geographic quantities keep their role through the library: a longitude is never passed, stored or read where a latitude or an altitude is expected (nor the reverse), '
     'and an angle is converted between degrees and radians exactly where the unit changes, so trigonometric functions only receive radians and callers only receive degrees.',
     ['inputs', 'programs'],
     'every function of the geodetic, geohash and R-tree parts that takes or produces positions',
     'Numeric tests sample few points; a swap or a missing conversion on one path is a per-site fact.',
     [H + 'detail/geodetic/coordinates.hpp', H + 'geodetic', H + 'geohash.hpp', H + 'geohash', C + 'lib/geodetic', C + 'lib/geohash', H + 'rtree.hpp',
      H + 'detail/math.hpp', H + 'detail/math/orbit.hpp'],
     [('degree/radian conversions', H + 'detail/math.hpp radians, degrees'), ('point component access', H + 'detail/geometry/point.hpp, ' + H + 'geodetic/point.hpp')],
     'returned positions')

prop('P10', 'Pickling preserves the whole state of an object',
     'For every type that can be pickled, unpickling restores every field that holds state given from outside, each from the slot of the state (or the item of the binary '
     'stream) in which it was saved, through a type that holds every value saved there; nothing saved is ignored, and the state of any object that can exist is accepted when it is restored.',
     ['inputs', 'histories'],
     'every picklable class, every reachable object state, every malformed state tuple',
     'No stable test pickles anything but axis containers in memory; the property covers each field of each class.',
     [C + 'module', H + 'axis.hpp', H + 'temporal_axis.hpp', H + 'grid.hpp', H + 'binning.hpp', H + 'histogram2d.hpp', H + 'rtree.hpp',
      H + 'descriptive_statistics.hpp', H + 'streaming_histogram.hpp', H + 'detail/math/streaming_histogram.hpp', H + 'period.hpp', H + 'geodetic', H + 'detail/axis/container.hpp',
      PY + 'rtree.py', PY + 'period.py', PY + 'backends/xarray.py'],
     [('getstate/setstate pairs', 'py::pickle definitions and getstate/setstate methods')],
     'object after a pickle round trip')

prop('P11', 'Merging partial results takes every accumulated quantity into account',
     'Adding one statistics, histogram or binning object to another combines every accumulated quantity of every cell, treats an empty operand as neutral, and either '
     'rejects incompatible operands before changing anything or completes; the right operand and, for the binary +, also the left operand are left unchanged.',
     ['inputs', 'histories'],
     'every mergeable class, every pair of operands including empty and incompatible ones',
     'Partition independence must hold for every split of the data; the tests merge a few non-empty samples.',
     [H + 'detail/math/descriptive_statistics.hpp', H + 'detail/math/streaming_histogram.hpp', H + 'descriptive_statistics.hpp', H + 'streaming_histogram.hpp',
      H + 'histogram2d.hpp', H + 'binning.hpp', PY + 'binning.py', PY + 'histogram2d.py', PY + 'statistics'],
     [('merge operators', 'operator+= of each class and __add__/__iadd__ of the wrappers')],
     'statistics after a merge')

prop('P12', 'Missing observations never enter a statistic',
     'An observation whose value is NaN never changes any count, sum, moment, minimum, maximum or histogram bin, on any accumulation path, and every observation whose value is '
     'valid and for which a bin is found is accumulated, with its own weight, whatever its value and wherever it stands among the observations.',
     ['inputs'],
     'every path that feeds user observations to an accumulator (1D, 2D, N-d, weighted or not)',
     'NaN handling is a per-path fact; the stable tests feed accumulators directly with valid numbers.',
     [H + 'descriptive_statistics.hpp', H + 'streaming_histogram.hpp', H + 'histogram2d.hpp', H + 'binning.hpp'],
     [('push paths', 'push, push_nearest, push_linear and the constructors of the array statistics')],
     'counts and statistics')

prop('P13', 'Every named option selects the implementation that bears its name',
     'Each documented name of an option (interpolation kind, boundary, fitting model, kriging covariance, radial basis function, window function, distance formula, datetime unit, ...) selects the implementation of that name: '
     'no two names share one, none is missing, and a name that is not documented is rejected with an error. Functions, classes and methods bound under the name of a data type, '
     'an implementation or a statistic use that one.',
     ['configurations', 'inputs'],
     'every option name accepted from Python and every enumerator handled in the core',
     'Tests use a handful of option values; a crossed table entry is only visible for that entry.',
     [C + 'module/enum.cpp', C + 'module/bicubic.cpp', C + 'module/fill.cpp', H + 'detail/interpolation/factory_1d.hpp', H + 'detail/interpolation/factory_2d.hpp',
      H + 'detail/math/radial_basis_functions.hpp', H + 'detail/math/window_functions.hpp', H + 'detail/math/kriging.hpp', H + 'dateutils.hpp', H + 'geodetic/algorithm.hpp',
      PY + 'interface.py', PY + 'grid.py', PY + 'fill.py', PY + 'interpolator'],
     [('name to implementation tables', 'string comparisons, enum registrations and switch statements')],
     'selected implementation')

prop('P14', 'Arguments given by keyword or through the wrappers reach the right parameter',
     'Every argument of a public Python function reaches the core parameter of the same meaning, unchanged: names, order and defaults agree between the wrappers, the bindings, the type stubs and the core, '
     'and no argument is dropped, duplicated or exchanged with another.',
     ['inputs', 'programs'],
     'every parameter of every public Python function, positional or keyword',
     'The Python layer and the bindings are not executed by any stable test; each parameter is its own case.',
     [PY + 'binning.py', PY + 'histogram2d.py', PY + 'rtree.py', PY + 'fill.py', PY + 'grid.py', PY + 'geodetic/__init__.py', PY + 'interpolator', PY + 'statistics',
      PY + 'backends/xarray.py', PY + 'orbit.py', PY + 'core', C + 'module'],
     [('keyword declarations', 'py::arg lists of each binding'), ('calls into the core', 'pyinterp/*.py'), ('type stubs', 'pyinterp/core/*.pyi')],
     'values received by the core')

prop('P15', 'Caller data is never modified unless in-place operation is documented',
     'No function changes the arrays, grids, axes or objects it receives as arguments, except the operations documented as working in place; results are returned in new objects.',
     ['inputs', 'programs'],
     'every public function and every argument it receives',
     'A write through an alias shows only when the caller looks at its inputs afterwards; no stable test does.',
     [H + 'fill.hpp', H + 'bivariate.hpp', H + 'rtree.hpp', H + 'geodetic', C + 'module', PY + 'fill.py', PY + 'grid.py', PY + 'orbit.py', PY + 'period.py', PY + 'binning.py', PY + 'histogram2d.py'],
     [('array parameters and views of the core', 'mutable accesses to arguments'), ('wrapper functions', 'assignments through parameters')],
     'arguments after the call')

prop('P16', 'An interpolator gives the same answer whatever it was used for before',
     'The value an interpolator or a window frame returns depends only on its parameters and the data of the current call, never on the sizes, data or results of earlier calls on the same object.',
     ['histories'],
     'every sequence of calls on one interpolator or frame object, windows growing or shrinking',
     'Reuse with changing window sizes is a history; the tests use a fresh or same-sized object.',
     [H + 'detail/interpolation', H + 'detail/math/frame.hpp', H + 'frame.hpp', H + 'detail/math/spline2d.hpp'],
     [('working buffers kept as members', 'compute_coefficients and interpolate of each interpolator; frame buffers')],
     'interpolated value', [('member buffers', 'coefficients and workspaces that survive a call')])

prop('P17', 'Every reported failure is a catchable standard error',
     'Whatever the core raises is a standard exception with a message, which Python sees as an ordinary exception; no failure is swallowed, none is raised as a bare value, '
     'and none escapes from a function or destructor that promises not to raise.',
     ['inputs', 'fault_sequences'],
     'every raise and every handler of the core and of the Python layer',
     'The failing input of each site is different and few are in the tests.',
     [H + 'detail/interpolation', H + 'detail', H, C + 'lib', C + 'module', PY],
     [('throw expressions, handlers and noexcept functions', 'whole core')],
     'exception type at the caller')

prop('P18', 'Running minima and maxima are right for data of any sign and magnitude',
     'Every running minimum, maximum or bounding box starts from a value that no finite datum can beat (or from the data itself), is updated with the matching comparison by the very value compared, and is '
     'reported under its own name, so all-negative, all-positive or huge data give the true extrema.',
     ['inputs'],
     'every running extremum of the core: statistics, histograms, spatial bounds, residuals, nearest positions',
     'A wrong start value shows only for data on one side of it; tests use data on both sides.',
     [H + 'detail/math/descriptive_statistics.hpp', H + 'detail/math/streaming_histogram.hpp', H + 'rtree.hpp', H + 'detail/geometry/crossover.hpp', H + 'fill.hpp', C + 'lib/geohash/string.cpp'],
     [('initial values and updates of running extrema', 'numeric_limits uses, std::min/std::max updates')],
     'minimum, maximum, bounds')

prop('P19', 'No accepted option is silently ignored',
     'Every parameter accepted by a public function influences its result, its errors or its execution as documented, in every variant of the function (dimension, data type, code path); none is accepted and then left unused.',
     ['configurations', 'inputs'],
     'every parameter of every public function of the core and the Python layer',
     'An ignored option is only visible to a test that varies this option on this path.',
     [H + 'rtree.hpp', H + 'fill.hpp', H + 'trivariate.hpp', H + 'quadrivariate.hpp', C + 'module/bicubic.cpp', C + 'lib/geodetic', C + 'lib/geohash', H + 'detail/geometry/rtree.hpp', PY],
     [('parameters of public functions', 'data and control dependence of results on parameters')],
     'results for different option values')

prop('P20', 'Derived properties of an axis always match its current points',
     'After any construction, flip, copy or restoration, everything an axis derives from its points (direction, extent, step, circularity, period) describes the points it currently holds.',
     ['histories', 'inputs'],
     'every sequence of operations on an axis',
     'Staleness needs a particular sequence of operations; tests check a freshly built axis.',
     [H + 'detail/axis.hpp', H + 'detail/axis/container.hpp', H + 'axis.hpp', H + 'temporal_axis.hpp'],
     [('cached properties and the functions that recompute them', H + 'detail/axis.hpp compute_properties, ' + H + 'detail/axis/container.hpp')],
     'axis accessors', [('cached direction, circle flag, radius, step, extent', 'values derived from the points')])

prop('P21', 'Geohash precision is validated and its bit arithmetic stays in range',
     'A geohash precision outside the supported range (1 to 64 bits, 1 to 12 characters, 0 to 12 characters for GeoHash objects) and strings of more than 12 characters are rejected with an error, integers are always shifted by 0 to 63 bits, '
     'a code is read with the number of bits it was built with whatever the length of the strings that hold it, codes are written within the memory allocated for them with the length of the codes of the result, and the character table and its inverse are those of the geohash alphabet.',
     ['inputs'],
     'every geohash entry point, every precision and every character',
     'The range of precisions and characters is larger than tests try; no stable test covers geohash.',
     [H + 'geohash', H + 'geohash.hpp', C + 'lib/geohash'],
     [('precision checks', C + 'lib/geohash, ' + C + 'module/geohash'), ('base32 tables', H + 'geohash/base32.hpp, ' + C + 'lib/geohash/base32.cpp')],
     'ValueError or hash value')

prop('P22', 'Sizes and positions keep 64-bit precision throughout',
     'A number of elements, an array position or an integer date is never stored in or compared through a type of fewer than 64 bits, so results stay correct for arrays with more than 2^31 elements and for all dates.',
     ['inputs'],
     'every conversion of a size, index or integer date in the core',
     'Arrays of more than 2^31 elements are out of reach of tests.',
     [H, C + 'lib', C + 'module'],
     [('integer conversions and loop counters', 'whole core')],
     'indices')

prop('P23', 'Objects with inconsistent parts cannot be built',
     'Building or restoring an axis, a grid, a statistics object, a histogram or a binning from parts that do not fit together (array shape against axes, circular axis where a grid supports none, points of an axis '
     'missing, repeated or out of order, number of statistics against their shape, state with a wrong number of parts) raises an error.',
     ['inputs'],
     'every constructor and restoration of a composite object, every mismatch',
     'All mismatches of all dimensions; the compiled tests build none of these objects.',
     [H + 'grid.hpp', H + 'binning.hpp', H + 'histogram2d.hpp', H + 'descriptive_statistics.hpp', H + 'streaming_histogram.hpp', H + 'detail/axis.hpp', H + 'detail/axis/container.hpp'],
     [('construction checks', 'constructors and setstate')],
     'error at construction')

prop('P24', 'Clearing, copying and comparing treat the whole state of an object',
     'Two objects in the same state compare equal, two objects that differ by any part of their state (for a temporal axis, the unit of its dates too) or that are of different types compare different, and != is always the negation of '
     '==. Copying an object gives an object of the same class with every part of its state, and clearing an accumulator leaves everything it accumulated as in a new object. Geometries are compared as the sets of points they describe.',
     ['histories', 'inputs'],
     'every class with a clear, copy or comparison operation, every field',
     'A forgotten field is only visible to a test that looks at this field after this operation.',
     [H + 'histogram2d.hpp', H + 'binning.hpp', H + 'descriptive_statistics.hpp', H + 'streaming_histogram.hpp', H + 'detail/math/streaming_histogram.hpp', H + 'detail/axis.hpp',
      H + 'detail/axis/container.hpp', H + 'temporal_axis.hpp', H + 'period.hpp', H + 'detail/geodetic/spheroid.hpp', H + 'rtree.hpp', H + 'geodetic', 'src/pyinterp/period.py'],
     [('clear, copy constructors and operator==', 'each class')],
     'object state')

prop('P25', 'Streaming and merged statistics are those of the pooled data',
     'Whatever the order and grouping in which observations are added and partial statistics merged, the count, sum of weights, sum, mean, minimum, maximum, variance, skewness and kurtosis reported are, in exact '
     'arithmetic, those of all the observations taken together; statistics without observations report NaN (zero for count and sums). For weighted observations the extrema and the sum are those of the weighted values.',
     ['inputs', 'histories'],
     'every sequence of observations and merges, every grouping, weighted or not',
     'The update formulas hold for all samples or for none; the tests compare a few samples, without merges of unbalanced or empty parts.',
     [H + 'detail/math/descriptive_statistics.hpp'],
     [('update and merge of the central moments', 'operator(), operator+= of detail::math::DescriptiveStatistics'), ('accessors', 'mean() ... kurtosis()')],
     'statistics', [('accumulated moments', 'Accumulators of detail::math::DescriptiveStatistics')])

NA = [
    ('N01', 'Interpolated values are numerically correct',
     'Each interpolation method returns the value its mathematical definition gives for the data, up to floating-point rounding, and reproduces the data at the grid nodes.',
     'Values for all data and coordinates; tests sample a few tables.', [H + 'detail/interpolation', H + 'detail/math'], 'inputs'),
    ('N03', 'Geodetic conversions are accurate and invert each other',
     'Converting positions between geodetic and ECEF coordinates and back returns the original position within the documented tolerance, for every spheroid.',
     'All positions and spheroids.', [H + 'detail/geodetic/coordinates.hpp'], 'inputs'),
    ('N04', 'A geohash always decodes to the cell that contains the encoded point',
     'Decoding the hash of a point gives a cell that contains the point, and neighbouring and enclosing cells are geometrically right.',
     'All points and precisions.', [C + 'lib/geohash/int64.cpp'], 'inputs'),
    ('N05', 'R-tree queries return the true nearest neighbours',
     'A query returns exactly the k stored points nearest to the request with their true distances, whatever the order of insertion.',
     'All point sets.', [H + 'detail/geometry/rtree.hpp'], 'inputs'),
    ('N06', 'Period lists follow the algebra of sets of instants',
     'Intersection, merge, filter and membership of period lists agree with the sets of instants the lists denote, for every list.',
     'All lists of periods.', [H + 'period.hpp', PY + 'period.py'], 'inputs'),
    ('N07', 'Streaming histogram quantiles stay within their error bound',
     'Quantiles estimated from a streaming histogram are monotonic, lie between the minimum and the maximum and approach the true quantiles.',
     'All data, all orders of arrival.', [H + 'detail/math/streaming_histogram.hpp'], 'inputs'),
    ('N08', 'Hole filling converges and leaves valid cells untouched',
     'Filling methods replace undefined cells only, and relaxation stops within the iteration limit with the residual it reports.',
     'All grids and masks.', [H + 'fill.hpp'], 'inputs'),
]
for id, t, s, why, files, over in NA:
    prop(id, t, s, [over], 'all inputs', why, files, [('numeric algorithm', files[0])])

with open('/verif/properties.jsonl', 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
