PROPERTY = 'P12'
NEEDS = 'observations that fall in the first column of a two-dimensional histogram'
BREAKS = 'valid observations of the first bin are never accumulated'
EDITS = [('src/pyinterp/core/include/pyinterp/histogram2d.hpp', '''          if (ix != -1 && iy != -1) {''', '''          if (ix > 0 && iy != -1) {''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
h = core.Histogram2DFloat64(core.Axis(np.arange(4.0)), core.Axis(np.arange(3.0)), 10)
x = np.array([0.0, 0.0, 1.0, 2.0, 3.0, np.nan])
y = np.array([0.0, 1.0, 0.0, 1.0, 2.0, 0.0])
h.push(x[:5], y[:5], np.array([1.0, 2.0, 3.0, np.nan, 5.0]))
assert h.count().sum() == 4, h.count()
assert h.count()[0].tolist() == [1, 1, 0], h.count()
'''
