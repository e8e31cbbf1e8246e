PROPERTY = 'P05'
NEEDS = 'statistics along an axis with weights whose last dimension is shorter than that of the values'
BREAKS = 'the comparison of shapes stops before the last dimension, so weights are read outside their bounds'
EDITS = [('src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp', '''    if (weights) {
      detail::check_ndarray_shape("values", values, "weights", *weights);
    }
''', '''    if (weights) {
      detail::check_container_size("values", values.request().shape, "weights",
                                   weights->request().shape);
    }
''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
v = np.ones((4, 1000))
for a in (None, [0], [1]):
    core.DescriptiveStatisticsFloat64(v, v, a)
    try:
        core.DescriptiveStatisticsFloat64(v, np.ones((4, 3)), a)
    except ValueError:
        continue
    raise SystemExit('no error for weights of another shape')
'''
