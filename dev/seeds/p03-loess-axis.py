PROPERTY = 'P03'
NEEDS = 'a LOESS filter of a four-dimensional grid whose third and fourth axes have different sizes'
BREAKS = 'the work is spread over the size of the third axis although the workers walk the fourth one'
EDITS = [('src/pyinterp/core/include/pyinterp/fill.hpp', 'detail::dispatch(worker, grid.u()->size(), num_threads);', 'detail::dispatch(worker, grid.z()->size(), num_threads);')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
ax = [core.Axis(np.arange(float(n))) for n in (6, 5, 3, 9)]
v = np.random.default_rng(1).random((6, 5, 3, 9))
g = core.Grid4DFloat64(*ax, v)
for n in (1, 2, 5):
    r = core.fill.loess_float64(g, 2, 2, core.fill.ValueType.Undefined, n)
    assert np.array_equal(r, v), 'part of the grid was not processed with %d threads' % n
'''
