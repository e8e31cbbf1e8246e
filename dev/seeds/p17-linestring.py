PROPERTY = 'P17'
NEEDS = 'a line string indexed past its last point'
BREAKS = 'the interpreter is terminated instead of raising IndexError'
EDITS = [('src/pyinterp/core/include/pyinterp/geodetic/line_string.hpp',
          'operator()(const size_t index) const -> Point {',
          'operator()(const size_t index) const noexcept -> Point {')]
DEMO = '''
import core_demo
core_demo.load()
code, out = core_demo.child("""
import core
g = core.geodetic
line = g.LineString([g.Point(0, 0), g.Point(1, 1)])
try:
    line[99]
except IndexError:
    print("error seen")
""")
assert "error seen" in out, (code, out)
'''
