PROPERTY = 'P24'
NEEDS = 'a two-dimensional histogram with more columns than rows, cleared after data were pushed in its last columns'
BREAKS = 'clearing a Histogram2D leaves the data of some cells'
EDITS = [('src/pyinterp/core/include/pyinterp/histogram2d.hpp', '''      for (Eigen::Index jx = 0; jx < histogram_.cols(); ++jx) {
        histogram_(ix, jx).clear();''', '''      const auto cols = std::min(histogram_.rows(), histogram_.cols());
      for (Eigen::Index jx = 0; jx < cols; ++jx) {
        histogram_(ix, jx).clear();''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
h = core.Histogram2DFloat64(core.Axis(np.arange(2.0)), core.Axis(np.arange(5.0)), None)
h.push(np.array([0.0, 1.0, 1.0]), np.array([0.0, 4.0, 1.0]), np.array([1.0, 2.0, 3.0]))
assert int(h.count().sum()) == 3, h.count()
h.clear()
assert int(h.count().sum()) == 0, h.count()
'''
