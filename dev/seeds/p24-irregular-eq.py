PROPERTY = 'P24'
NEEDS = 'two irregular axes with the same length and the same ends that differ in between'
BREAKS = 'irregular axes with different points compare equal'
EDITS = [('src/pyinterp/core/include/pyinterp/detail/axis/container.hpp', '''      return ptr->points_.size() == points_.size() && ptr->points_ == points_;''',
          '''      return ptr->points_.size() == points_.size() &&
             ptr->front() == front() && ptr->back() == back();''')]
DEMO = '''
import core_demo
import numpy as np
core = core_demo.load()
a = core.Axis(np.array([0.0, 1.0, 5.0, 9.0]))
b = core.Axis(np.array([0.0, 2.0, 5.0, 9.0]))
assert a == core.Axis(np.array([0.0, 1.0, 5.0, 9.0]))
assert not a == b
assert a != b
'''
