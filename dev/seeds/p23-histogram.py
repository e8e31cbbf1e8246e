PROPERTY = 'P23'
NEEDS = 'a state whose saved bins have the shape of other axes, with one extent in common'
BREAKS = 'a histogram is restored with bins that do not belong to its axes'
EDITS = [('src/pyinterp/core/include/pyinterp/histogram2d.hpp', 'rows != histogram.rows() || cols != histogram.cols()',
          'rows != histogram.rows() && cols != histogram.cols()')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
axis = lambda n: core.Axis(np.arange(n, dtype="float64"), 1e-6, False)
a = core.Histogram2DFloat64(axis(4), axis(3), 10)
b = core.Histogram2DFloat64(axis(4), axis(2), 10)
sa, sb = a.__getstate__(), b.__getstate__()
new = core.Histogram2DFloat64.__new__(core.Histogram2DFloat64)
new.__setstate__(sa)
new = core.Histogram2DFloat64.__new__(core.Histogram2DFloat64)
try:
    new.__setstate__((sa[0], sa[1], sb[2]))
except ValueError:
    pass
else:
    raise AssertionError("no error")
'''
