PROPERTY = 'P10'
NEEDS = 'an irregular axis of longitudes, pickled then asked for a longitude in the other convention'
BREAKS = 'an irregular circular axis is no longer circular once pickled'
EDITS = [('src/pyinterp/core/include/pyinterp/axis.hpp', '''        return pybind11::make_tuple(detail::axis::IRREGULAR, values,
                                    this->is_circle());''', '''        return pybind11::make_tuple(detail::axis::IRREGULAR, values,
                                    this->is_regular());''')]
DEMO = '''
import pickle
import core_demo
import numpy as np
core = core_demo.load()
lon = np.concatenate([np.arange(0.0, 180.0, 1.0), np.arange(180.0, 360.0, 0.5)])
for values, circle in ((lon, True), (lon[::-1].copy(), True), (lon ** 1.01, False), (np.arange(360.0), True)):
    a = core.Axis(values, is_circle=circle)
    state = a.__getstate__()
    # the irregular axis is rebuilt from its values and the flag saved with them
    if not a.is_regular():
        assert bool(state[-1]) == a.is_circle, state[-1]
'''
