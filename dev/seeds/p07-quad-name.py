PROPERTY = 'P07'
NEEDS = 'a bicubic interpolation in four dimensions with bounds_error, at a point outside the third axis only'
BREAKS = 'the error names the fourth axis although the coordinate at fault is the third one'
EDITS = [('src/pyinterp/core/include/pyinterp/frame.hpp', '''      } else if (z_indexes.empty()) {
        index_error("z", z_axis''', '''      } else if (u_indexes.empty()) {
        index_error("z", z_axis''')]
DEMO = """
import core_demo
core_demo._build()
r, out = core_demo.child('''
import numpy as np
import core
a = core.Axis(np.arange(8.0))
g = core.Grid4DFloat64(a, a, a, a, np.arange(4096.0).reshape(8, 8, 8, 8))
p = np.full(3, 3.5)
for bad in 'xyzu':
    c = {k: np.full(3, 55.0) if k == bad else p for k in 'xyzu'}
    try:
        core.bicubic_float64(g, c['x'], c['y'], c['z'], c['u'], nx=3, ny=3, bounds_error=True, num_threads=1)
    except ValueError as e:
        print(bad, e)
        assert 'of the ' + bad + ' axis' in str(e) and '55' in str(e), str(e)
        continue
    raise SystemExit(9)
''')
print(out, r)
raise SystemExit(r)
"""
