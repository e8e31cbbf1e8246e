PROPERTY = 'P18'
NEEDS = 'values pushed in decreasing order into a streaming histogram'
BREAKS = 'the maximum is never updated by a value that is also a new minimum'
EDITS = [('src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp', '''      min_ = weighted_value;
    }
    if (weighted_value > max_) {''', '''      min_ = weighted_value;
    } else if (weighted_value > max_) {''')]
DEMO = '''
import sys
import cxx_demo
sys.exit(cxx_demo.run(r"""
#include <cstdint>
#include <cstdio>
#include "pyinterp/detail/math/streaming_histogram.hpp"
using H = pyinterp::detail::math::StreamingHistogram<double>;
int main() {
  H a(10, false);
  for (int i = 0; i < 30; ++i) a(50.0 - i);
  return a.max() == 50.0 && a.min() == 21.0 ? 0 : 1;
}
"""))
'''
