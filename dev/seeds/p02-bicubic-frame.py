PROPERTY = 'P02'
NEEDS = 'a three-dimensional bicubic interpolation of many points over several threads'
BREAKS = 'the window and the interpolator are shared by all the workers'
EDITS = [('src/pyinterp/core/module/bicubic.cpp', '''    detail::dispatch(
        [&](const size_t start, const size_t end) {
          try {
            auto frame = detail::math::Frame3D<AxisType>(nx, ny, 1);
            auto interpolator =
''', '''    auto frame = detail::math::Frame3D<AxisType>(nx, ny, 1);

    detail::dispatch(
        [&](const size_t start, const size_t end) {
          try {
            auto interpolator =
''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
a = core.Axis(np.arange(30.0))
rng = np.random.default_rng(1)
g = core.Grid3DFloat64(a, a, a, rng.random((30, 30, 30)))
x, y, z = (rng.uniform(5, 24, 40000) for _ in range(3))
one = core.bicubic_float64(g, x, y, z, num_threads=1)
for _ in range(20):
    many = core.bicubic_float64(g, x, y, z, num_threads=8)
    assert np.array_equal(one, many, equal_nan=True), 'results depend on the threads'
'''
