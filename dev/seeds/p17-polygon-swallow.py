PROPERTY = 'P17'
NEEDS = 'a polygon built from a list whose interior rings hold something else than points'
BREAKS = 'the error is swallowed and a polygon with a truncated ring is returned'
EDITS = [('src/pyinterp/core/lib/geodetic/polygon.cpp', '''    } catch (const pybind11::cast_error &) {
      throw std::invalid_argument(
          "inners must be a list of "
          "list of pyinterp.geodetic.Point");
    }''', '''    } catch (const pybind11::cast_error &) {
      Base::inners().clear();
    }''')]
DEMO = '''
import core_demo
core = core_demo.load()
g = core.geodetic
ring = [g.Point(0, 0), g.Point(0, 9), g.Point(9, 9), g.Point(9, 0), g.Point(0, 0)]
g.Polygon(ring, [[g.Point(1, 1), g.Point(1, 2), g.Point(2, 2), g.Point(1, 1)]])
try:
    g.Polygon(ring, [[g.Point(1, 1), (1.0, 2.0), g.Point(2, 2)]])
except ValueError:
    pass
else:
    raise AssertionError("no error")
'''
