PROPERTY = 'P08'
NEEDS = 'a linear binning of an observation that is not on the diagonal of its cell'
BREAKS = 'two bins around the observation receive the weight of each other'
EDITS = [('src/pyinterp/core/include/pyinterp/binning.hpp', '''value, static_cast<T>(std::get<1>(weights)));''', '''value, static_cast<T>(std::get<3>(weights)));'''),
  ('src/pyinterp/core/include/pyinterp/binning.hpp', '''          update_acc(ix1, iy0, value, static_cast<T>(std::get<3>(weights)));''', '''          update_acc(ix1, iy0, value, static_cast<T>(std::get<1>(weights)));''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
a = core.Axis(np.arange(4.0))
b = core.Binning2DFloat64(a, a, None)
b.push(np.array([1.25]), np.array([1.875]), np.array([2.0]), False)
w = b.sum_of_weights().ravel().reshape(4, 4)
print(w)
e = np.zeros((4, 4))
for i, u in ((1, 0.75), (2, 0.25)):
    for j, v in ((1, 0.125), (2, 0.875)):
        e[i, j] = u * v
assert np.allclose(w, e), w
'''
