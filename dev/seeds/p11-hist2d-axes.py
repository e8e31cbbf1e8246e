PROPERTY = 'P11'
NEEDS = 'merging two-dimensional histograms that differ by one axis only'
BREAKS = 'incompatible histograms are merged silently'
EDITS = [('src/pyinterp/core/include/pyinterp/histogram2d.hpp', '''    if (*x_ != *(other.x_) || *y_ != *(other.y_)) {''', '''    if (*x_ != *(other.x_) && *y_ != *(other.y_)) {''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
def hist(x0, y0):
    return core.Histogram2DFloat64(core.Axis(np.arange(4.0) + x0), core.Axis(np.arange(3.0) + y0), 10)
h = hist(0, 0)
h += hist(0, 0)
for x0, y0 in ((1, 0), (0, 1), (1, 1)):
    try:
        h += hist(x0, y0)
    except ValueError:
        continue
    raise AssertionError((x0, y0))
'''
