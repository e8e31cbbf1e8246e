PROPERTY = 'P12'
NEEDS = 'NaN values pushed together with weights in a one-dimensional binning'
BREAKS = 'a NaN value enters the statistics of its bin when weights are given'
EDITS = [('src/pyinterp/core/include/pyinterp/binning.hpp', '''        if (!std::isnan(value)) {
          auto xi = _x(idx);''', '''        if (weights.has_value() || !std::isnan(value)) {
          auto xi = _x(idx);''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
for w in (None, np.ones(4)):
    b = core.Binning1DFloat64(core.Axis(np.arange(4.0)), None)
    b.push(np.array([0.0, 1.0, 1.0, 3.0]), np.array([1.0, 2.0, np.nan, 4.0]), w)
    assert b.count().ravel().tolist() == [1, 1, 0, 1], b.count()
    assert not np.isnan(b.mean().ravel()[1])
'''
