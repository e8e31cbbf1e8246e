PROPERTY = 'P25'
NEEDS = 'merging two statistics with different numbers of observations and different means'
BREAKS = 'the fourth moment of the operand is scaled by the wrong weights: kurtosis of merged statistics is wrong'
EDITS = [('src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp', '''6. * (w2 * rhs.acc_.mom2 + rhs_w2 * acc_.mom2) * delta2_w2 +''', '''6. * (ww * rhs.acc_.mom2 + rhs_w2 * acc_.mom2) * delta2_w2 +''')]
DEMO = '''
import sys
import cxx_demo
sys.exit(cxx_demo.run(r"""
#include <cstdint>
#include <cmath>
#include <cstdio>
#include "pyinterp/detail/math/descriptive_statistics.hpp"
using S = pyinterp::detail::math::DescriptiveStatistics<double>;
int main() {
  S all, a, b;
  for (int i = 0; i < 20; ++i) {
    double v = i * i * 0.25;
    all(v);
    if (i < 5) a(v); else b(v);
  }
  a += b;
  return std::fabs(a.skewness() - all.skewness()) < 1e-9 && std::fabs(a.variance() - all.variance()) < 1e-9 &&
         std::fabs(a.kurtosis() - all.kurtosis()) < 1e-9 ? 0 : 1;
}
"""))
'''
