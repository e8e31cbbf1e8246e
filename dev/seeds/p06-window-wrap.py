PROPERTY = 'P06'
NEEDS = 'a wrapped window at least as wide as the axis, around a point near its start'
BREAKS = 'the window of positions holds negative indexes, which are then used to read the grid'
EDITS = [('src/pyinterp/core/include/pyinterp/detail/axis.hpp', '''              before = math::remainder(len + before, len);''', '''              before = len + before;''')]
DEMO = '''
import cxx_demo
raise SystemExit(cxx_demo.run(r"""
#include <cstdio>
#include "pyinterp/detail/axis.hpp"
int main() {
  auto axis = pyinterp::detail::Axis<double>(0, 2, 3, 1e-6, false);
  int bad = 0;
  for (uint32_t size = 1; size < 9; ++size) {
    for (double x = 0.1; x < 2; x += 0.2) {
      auto w = axis.find_indexes(x, size, pyinterp::axis::kWrap);
      if (w.size() != 2 * size) { ++bad; }
      for (auto i : w) { if (i < 0 || i >= 3) { ++bad; } }
    }
  }
  std::printf("%d\\\\n", bad);
  return bad ? 1 : 0;
}
"""))
'''
