PROPERTY = 'P11'
NEEDS = 'merging two binnings of which one has a single observation in a cell the other has data in'
BREAKS = 'the observation of the left operand is lost'
EDITS = [('src/pyinterp/core/include/pyinterp/binning.hpp', '''        if (lhs.count() == 0 && rhs.count() != 0) {''', '''        if (lhs.count() <= 1 && rhs.count() != 0) {''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
def binning(n):
    b = core.Binning2DFloat64(core.Axis(np.arange(4.0)), core.Axis(np.arange(3.0)), None)
    b.push(np.full(n, 1.0), np.full(n, 1.0), np.arange(1.0, n + 1.0), True)
    return b
for n, m in ((0, 0), (0, 3), (3, 0), (1, 3), (3, 1), (1, 1), (4, 5)):
    b = binning(n)
    b += binning(m)
    assert b.count().ravel().sum() == n + m, (n, m, b.count().ravel())
'''
