PROPERTY = 'P05'
NEEDS = 'more coordinates than values inserted in a Cartesian R-tree'
BREAKS = 'values are read past their end when there are fewer of them than coordinates'
EDITS = [('src/pyinterp/core/include/pyinterp/rtree.hpp', '''              const pybind11::array_t<coordinate_t> &values) {
    detail::check_array_ndim("coordinates", 2, coordinates);
    detail::check_array_ndim("values", 1, values);
    if (coordinates.shape(0) != values.size()) {''', '''              const pybind11::array_t<coordinate_t> &values) {
    detail::check_array_ndim("coordinates", 2, coordinates);
    detail::check_array_ndim("values", 1, values);
    if (coordinates.shape(0) < values.size()) {''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
t = core.RTree3DFloat64(None)
c = np.random.default_rng(1).random((50, 3))
t.insert(c, np.zeros(50))
assert len(t) == 50
for n in (10, 60):
    try:
        t.insert(c, np.zeros(n))
    except ValueError:
        continue
    raise SystemExit('no error for %d values and 50 coordinates' % n)
'''
