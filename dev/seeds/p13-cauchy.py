PROPERTY = 'P13'
NEEDS = 'the cauchy covariance asked for by its enumerator'
BREAKS = 'kriging with the Cauchy covariance uses the Gaussian one'
EDITS = [('src/pyinterp/core/include/pyinterp/detail/math/kriging.hpp', '''        function_ = cauchy_covariance<T>;''', '''        function_ = gaussian_covariance<T>;''')]
DEMO = '''
import subprocess, tempfile, os
SRC = r"""
#include <cmath>
#include <cstdio>
#include "pyinterp/detail/math/kriging.hpp"
using namespace pyinterp::detail::math;
int main() {
  Eigen::Matrix<double, 3, -1> c(3, 2);
  c << 0, 3, 0, 0, 0, 0;
  Eigen::Matrix<double, -1, 1> v(2);
  v << 1, 2;
  Eigen::Vector3d q(1, 0, 0);
  auto k = Kriging<double>(1.0, 2.0, CovarianceFunction::kCauchy).universal_kriging(c, v, q);
  auto f = [](double d) { return cauchy_covariance<double>(Eigen::Vector3d(d, 0, 0), Eigen::Vector3d(0, 0, 0), 1.0, 2.0); };
  double a = f(0), b = f(3), p = f(1), r = f(2);
  double det = a * a - b * b;
  double want = (1 * (a * p - b * r) + 2 * (a * r - b * p)) / det;
  std::printf("%f %f\\\\n", k, want);
  return std::fabs(k - want) < 1e-9 ? 0 : 1;
}
"""
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, 'a.cpp'), 'w').write(SRC)
    subprocess.run(['g++', '-std=c++17', '-O0', '-Isrc/pyinterp/core/include', '-I/usr/include/eigen3', '-o', d + '/a', d + '/a.cpp'], check=True)
    raise SystemExit(subprocess.run([d + '/a']).returncode)
'''
