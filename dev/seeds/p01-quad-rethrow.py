PROPERTY = 'P01'
NEEDS = 'a four-dimensional interpolation with bounds_error=True, num_threads=1 and a point outside the grid'
BREAKS = 'the error captured by the worker is dropped when the work runs in the calling thread'
EDITS = [('src/pyinterp/core/include/pyinterp/quadrivariate.hpp', '    if (except != nullptr) {', '    if (num_threads != 1 && except != nullptr) {')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
a = core.Axis(np.arange(5.0))
g = core.Grid4DFloat64(a, a, a, a, np.arange(625.0).reshape(5, 5, 5, 5))
x = np.array([1.5, 2.5])
bad = np.array([1.5, 40.0])
for n in (1, 2, 0):
    try:
        core.quadrivariate_float64(g, x, x, x, bad, core.Bilinear3D(), bounds_error=True, num_threads=n)
    except Exception:
        continue
    raise SystemExit('no error with %d threads' % n)
'''
