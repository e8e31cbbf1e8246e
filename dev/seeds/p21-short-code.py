PROPERTY = 'P21'
NEEDS = 'an array of codes in which a code is shorter than the strings of the array'
BREAKS = 'the code is read with the number of bits of the strings, so that it designates another place'
EDITS = [('src/pyinterp/core/lib/geohash/string.cpp',
          'return int64::bounding_box(integer_encoded, 5 * chars);',
          'return int64::bounding_box(integer_encoded, 5 * static_cast<uint32_t>(count));')]
DEMO = '''
import core_demo
core_demo.load()
code, out = core_demo.child("""
import core
import numpy
out = core.geohash.transform(numpy.array([b"ezs", b"ezs42"], "S5"), 2)
print("codes", sorted(set(bytes(x).rstrip(bytes(1)) for x in out)))
""")
assert "codes [b'ez']" in out, (code, out)
'''
