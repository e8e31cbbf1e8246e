PROPERTY = 'P18'
NEEDS = 'a relaxation during which every correction is negative'
BREAKS = 'the largest residual is taken over signed corrections: the iteration stops at once and reports convergence'
EDITS = [('src/pyinterp/core/include/pyinterp/fill.hpp', '''      *max_residual = std::max(*max_residual, std::fabs(residual));''', '''      *max_residual = std::max(*max_residual, residual);''')]
DEMO = '''
import sys
import cxx_demo
sys.exit(cxx_demo.run(r"""
#include <cstdint>
#include "pyinterp/fill.hpp"
#include <cstdio>
int main() {
  using namespace pyinterp;
  Matrix<double> data(6, 6);
  Matrix<bool> mask(6, 6);
  data.setZero();
  mask.setConstant(false);
  data(2, 3) = 100.0;
  mask(2, 3) = true;
  pybind11::EigenDRef<Matrix<double>> grid(data);
  auto r = detail::gauss_seidel<double>(grid, mask, true, 1.0, 1);
  std::printf("%g\\n", r);
  return r == 100.0 ? 0 : 1;
}
""", sources=("-lpython3.12",)))
'''
