PROPERTY = 'P10'
NEEDS = 'a streaming histogram whose minimum and maximum differ, pickled then asked for its extrema'
BREAKS = 'the minimum and the maximum of a histogram are exchanged by a pickle round trip'
EDITS = [('src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp', '''      ss.read(reinterpret_cast<char *>(&min_), sizeof(T));
      ss.read(reinterpret_cast<char *>(&max_), sizeof(T));
''', '''      ss.read(reinterpret_cast<char *>(&max_), sizeof(T));
      ss.read(reinterpret_cast<char *>(&min_), sizeof(T));
''')]
DEMO = '''
import pickle
import core_demo
import numpy as np
core = core_demo.load()
h = core.StreamingHistogramFloat64(np.arange(1.0, 9.0), bin_count=20)
g = pickle.loads(pickle.dumps(h))
assert g.min()[0] == h.min()[0] == 1.0, (g.min(), h.min())
assert g.max()[0] == h.max()[0] == 8.0, (g.max(), h.max())
assert g.count()[0] == 8
'''
