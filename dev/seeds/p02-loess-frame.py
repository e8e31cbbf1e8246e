PROPERTY = 'P02'
NEEDS = 'a LOESS filter of a three-dimensional grid over several threads'
BREAKS = 'the frame of indices along Y is shared by all the workers'
EDITS = [('src/pyinterp/core/include/pyinterp/fill.hpp', '''      grid.x()->size(), grid.y()->size(), grid.z()->size()});
  auto _result = result.template mutable_unchecked<3>();
''', '''      grid.x()->size(), grid.y()->size(), grid.z()->size()});
  auto _result = result.template mutable_unchecked<3>();
  auto y_frame = std::vector<int64_t>(ny * 2 + 1);
'''), ('src/pyinterp/core/include/pyinterp/fill.hpp', '''      auto x_frame = std::vector<int64_t>(nx * 2 + 1);
      auto y_frame = std::vector<int64_t>(ny * 2 + 1);

      for (size_t iz = start; iz < end; ++iz) {''', '''      auto x_frame = std::vector<int64_t>(nx * 2 + 1);

      for (size_t iz = start; iz < end; ++iz) {''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
a = core.Axis(np.arange(40.0))
rng = np.random.default_rng(1)
v = rng.random((40, 40, 40))
v[rng.random(v.shape) < 0.5] = np.nan
g = core.Grid3DFloat64(a, a, a, v)
one = core.fill.loess_float64(g, 3, 3, core.fill.ValueType.All, 1)
for _ in range(10):
    many = core.fill.loess_float64(g, 3, 3, core.fill.ValueType.All, 8)
    assert np.array_equal(one, many, equal_nan=True), 'results depend on the threads'
'''
