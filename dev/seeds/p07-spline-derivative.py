PROPERTY = 'P07'
NEEDS = 'the derivative of a spline at a point outside its data'
BREAKS = 'the derivative is zero instead of NaN'
EDITS = [('src/pyinterp/core/include/pyinterp/detail/interpolation/cspline_base.hpp', '''constexpr auto CSplineBase<T>::derivative_(const Vector<T> &xa,
                                           const Vector<T> &ya,
                                           const T &x) const -> T {
  auto where = this->search(xa, x);
  if (!where) {
    return std::numeric_limits<T>::quiet_NaN();
  }
  auto x_lo = xa(where->first);
  auto y_lo = ya(where->first);
  auto x_hi = xa(where->second);''', '''constexpr auto CSplineBase<T>::derivative_(const Vector<T> &xa,
                                           const Vector<T> &ya,
                                           const T &x) const -> T {
  auto where = this->search(xa, x);
  if (!where) {
    return T(0);
  }
  auto x_lo = xa(where->first);
  auto y_lo = ya(where->first);
  auto x_hi = xa(where->second);''')]
DEMO = r"""
import cxx_demo
raise SystemExit(cxx_demo.run(r'''
#include <cmath>
#include "pyinterp/detail/interpolation/cspline.hpp"
using V = pyinterp::Vector<double>;
int main() {
  pyinterp::detail::interpolation::CSpline<double> s;
  V x(6), y(6);
  for (int i = 0; i < 6; ++i) { x(i) = i; y(i) = i * i; }
  for (double p : {-0.5, 5.25, 40.0})
    if (!std::isnan(s.derivative(x, y, p)) || !std::isnan(s(x, y, p))) return 1;
  return std::isnan(s.derivative(x, y, 2.5)) ? 2 : 0;
}
'''))
"""
