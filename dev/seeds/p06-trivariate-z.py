PROPERTY = 'P06'
NEEDS = 'a trivariate interpolation at a depth outside the axis z, at a position inside the two other axes'
BREAKS = 'the indexes of the failed search along z are read from an empty optional'
EDITS = [('src/pyinterp/core/include/pyinterp/trivariate.hpp', '''  if (x_indexes.has_value() && y_indexes.has_value() && z_indexes.has_value()) {''', '''  if (x_indexes.has_value() && y_indexes.has_value() &&
      (z_indexes.has_value() || z_axis.size() > 2)) {''')]
DEMO = '''
import core_demo
core_demo._build()
r, out = core_demo.child("""
import numpy as np
import core
a = core.Axis(np.arange(4.0))
g = core.Grid3DFloat64(a, a, a, np.arange(64.0).reshape(4, 4, 4))
i = core.Bilinear3D()
p = np.full(3, 1.5)
for z in (-7.0, 9.0, 1e6):
    try:
        core.trivariate_float64(g, p, p, np.full(3, z), i, None, True, 1)
    except ValueError as e:
        continue
    raise SystemExit(9)
""")
print(out, r)
raise SystemExit(r)
'''
