PROPERTY = 'P13'
NEEDS = 'a window function whose name has several words'
BREAKS = 'the window blackman_harris selects blackman'
EDITS = [('src/pyinterp/interface.py', """    wf = ''.join(item.capitalize() for item in wf.split('_'))
    wf = wf.replace('Swot', 'SWOT')""", """    wf = ''.join(item.capitalize()
                 for item in wf.split('_')).replace('Swot', 'SWOT')
    wf = wf if wf in dir(core.WindowFunction) else wf.title()
    wf = wf.replace('Harris', '')""")]
DEMO = '''
import core_demo
p = core_demo.load_package()
from pyinterp import interface, core
for n, w in (('blackman_harris', 'BlackmanHarris'), ('blackman', 'Blackman'), ('flat_top', 'FlatTop'), ('parzen_swot', 'ParzenSWOT')):
    assert interface._core_window_function(n, None) == getattr(core.WindowFunction, w), n
'''
