PROPERTY = 'P01'
NEEDS = 'a bicubic interpolation on a four-dimensional grid with bounds_error=True and one point outside the grid'
BREAKS = 'an IndexError raised for one element is turned into a NaN'
EDITS = [('src/pyinterp/core/module/bicubic.cpp', '''              if (load_frame<DataType, AxisType>(grid, xi, yi, zi, ui,
                                                 boundary_type, bounds_error,
                                                 frame)) {''', '''              auto loaded = false;
              try {
                loaded = load_frame<DataType, AxisType>(
                    grid, xi, yi, zi, ui, boundary_type, bounds_error, frame);
              } catch (const std::exception &) {
                loaded = false;
              }

              if (loaded) {''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
a = core.Axis(np.arange(8.0))
g = core.Grid4DFloat64(a, a, a, a, np.arange(4096.0).reshape(8, 8, 8, 8))
x = np.array([3.5, 3.5, 4.5])
bad = np.array([3.5, 40.0, 3.5])
for n in (1, 2):
    core.bicubic_float64(g, x, x, x, x, num_threads=n)
    try:
        core.bicubic_float64(g, x, x, x, bad, bounds_error=True, num_threads=n)
    except Exception:
        continue
    raise SystemExit('no error with %d threads' % n)
'''
