PROPERTY = 'P21'
NEEDS = 'codes of 13 characters in an array of codes'
BREAKS = 'more than 64 bits are read in an integer of 64 bits instead of refusing the codes'
EDITS = [('src/pyinterp/core/lib/geohash/string.cpp',
          'if (info.strides[0] > 12) {',
          'if (info.strides[0] > 13) {')]
DEMO = '''
import core_demo
core_demo.load()
code, out = core_demo.child("""
import core
import numpy
try:
    core.geohash.transform(numpy.array([b"0123456789bcd"], "S13"), 2)
except ValueError:
    print("error seen")
""")
assert "error seen" in out, (code, out)
'''
