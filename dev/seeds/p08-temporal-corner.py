PROPERTY = 'P08'
NEEDS = 'an interpolation in a grid whose third axis is time, between two dates, with values that differ on the diagonal of the cell'
BREAKS = 'the values of two corners of the cell are exchanged for the second date'
EDITS = [('src/pyinterp/core/include/pyinterp/detail/math/trivariate.hpp', '''  auto z1 = bivariate->evaluate(p, p0, p1, q001, q011, q101, q111);
  return interpolator(p.timestamp()''', '''  auto z1 = bivariate->evaluate(p, p0, p1, q001, q101, q011, q111);
  return interpolator(p.timestamp()''')]
DEMO = r'''
import cxx_demo
raise SystemExit(cxx_demo.run(r"""
#include <boost/geometry.hpp>
#include <cmath>
#include "pyinterp/detail/geometry/point.hpp"
#include "pyinterp/detail/math/trivariate.hpp"
namespace m = pyinterp::detail::math;
namespace g = pyinterp::detail::geometry;
int main() {
  using P = g::TemporalEquatorial2D<double>;
  m::Bilinear<g::TemporalEquatorial2D, double> b;
  auto f = [](double x, double y, int64_t t) { return 3 * x + 10 * y + 100.0 * t; };
  P p(0.25, 0.5, 5), p0(0.0, 0.0, 0), p1(1.0, 1.0, 10);
  m::z_method_t<int64_t, double> lin = &m::linear<int64_t, double>;
  auto z = m::trivariate<g::TemporalEquatorial2D, double>(p, p0, p1, f(0, 0, 0), f(0, 1, 0), f(1, 0, 0), f(1, 1, 0),
      f(0, 0, 10), f(0, 1, 10), f(1, 0, 10), f(1, 1, 10), &b, lin);
  return std::abs(z - f(0.25, 0.5, 5)) < 1e-9 ? 0 : 1;
}
"""))
'''
