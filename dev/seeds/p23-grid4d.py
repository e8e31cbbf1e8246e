PROPERTY = 'P23'
NEEDS = 'a 4-D grid whose last extent is not the size of the last axis'
BREAKS = 'the extent of the u axis is compared with the third extent of the array: the grid is built and reads outside its values'
EDITS = [('src/pyinterp/core/include/pyinterp/grid.hpp', 'this->check_shape(3, u_.get(), "u", "array");',
          'this->check_shape(2, u_.get(), "u", "array");')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
axis = lambda n: core.Axis(np.arange(n, dtype="float64"), 1e-6, False)
core.Grid4DFloat64(axis(3), axis(3), axis(3), axis(3), np.zeros((3, 3, 3, 3)))
try:
    core.Grid4DFloat64(axis(3), axis(3), axis(3), axis(3), np.zeros((3, 3, 3, 2)))
except ValueError:
    pass
else:
    raise AssertionError("no error")
'''
