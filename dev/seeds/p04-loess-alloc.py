PROPERTY = 'P04'
NEEDS = 'a temporal axis asked for the positions of dates, and a date that is not found'
BREAKS = 'the result of find_indexes is filled through the Python API while the lock is released when a date is not found'
EDITS = [('src/pyinterp/core/include/pyinterp/temporal_axis.hpp', '''          _result(ix, 0) = _result(ix, 1) = -1;''', '''          // No bracketing dates: the row is undefined.
          result[pybind11::int_(ix)].attr("fill")(-1);''')]
DEMO = '''
import core_demo
core = core_demo.load()
code = """
import core, numpy as np
a = core.TemporalAxis(np.arange('2001-01-01', '2001-01-10', dtype='M8[D]'))
print(a.find_indexes(np.array(['2001-01-03'], dtype='M8[D]')).tolist())
print(a.find_indexes(np.array(['1999-01-03'], dtype='M8[D]')).tolist())
"""
status, out = core_demo.child(code)
assert status == 0 and out.split() == ['[[2,', '3]]', '[[-1,', '-1]]'], (status, out)
'''
