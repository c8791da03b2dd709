MAIN = 'pyfileconf/main.py'
RUN = 'pyfileconf/runner/models/runner.py'
CONF = 'pyfileconf/config/models/manager.py'
BASE = 'pyfileconf/basemodels/config.py'
HOOKS = 'pyfileconf/plugin/default_hooks.py'
ITER = 'pyfileconf/iterate.py'
HEAD = '''
from lib import *
'''

BUGS = [
    dict(id='manager-by-folder-prefix', property='C14', file=MAIN,
         old='''            if abs_filepath.startswith(manager_path + os.sep):''',
         new='''            if abs_filepath.startswith(manager_path):''',
         needs='two managers where the folder of one is named like the beginning of the folder of the other',
         breaks='A file is attributed to the wrong manager.',
         demo=HEAD + '''
src = "pipeline_dict = {}\\n"
a = project('proj', src)
b = project('proj_two', src)
found = PipelineManager.get_manager_by_filepath(os.path.join(ROOT, 'proj_two', 'defaults', 'x.py'))
assert found is b, found.name
'''),
    dict(id='results-of-skipped-cases', property='C15', file=ITER,
         old='''            if not self.should_run(case):
                continue
            result = self._run_case(case)
            in_out_tup = (case, result)
            yield in_out_tup''',
         new='''            if self.should_run(case):
                result = self._run_case(case)
            in_out_tup = (case, result)
            yield in_out_tup''',
         needs='a runner which skips a case in the middle, used as a generator',
         breaks='Cases which did not run are reported with the result of the one before.',
         demo=HEAD + '''
module('funcs16', "def item(a=1):\\n    return a\\n")
pm = project('p16', "from funcs16 import item\\npipeline_dict = {'s': [item]}\\n")
class Some(IterativeRunner):
    def should_run(self, case):
        return case[0]['a'] != 2
r = Some('s.item', [dict(section_path_str='s.item', a=i) for i in (1, 2, 3)], base_section_path_str='p16')
got = [(case[0]['a'], result) for case, result in r.run_gen()]
assert got == [(1, 1), (3, 3)], got
'''),
    dict(id='cases-share-changes', property='C15', file=ITER,
         old='''        conf = deepcopy(config_dict)
        sp = conf["section_path_str"]''',
         new='''        conf = config_dict
        sp = conf.setdefault("section_path_str", "")''',
         needs='a plugin which modifies cases, and changes which are used again by the caller',
         breaks='The changes which were passed in are modified.',
         demo=HEAD + '''
from pyfileconf.iterate import get_config_product
updates = [dict(section_path_str='a', x=[1]), dict(section_path_str='a', x=[2])]
cases = get_config_product(updates)
cases[0][0]['x'].append(5)
assert updates[0]['x'] == [1], updates
'''),
    dict(id='log-folder-set-before-callback', property='C16', file='pyfileconf/opts/__init__.py',
         old='''        if self.callback is not None and orig_value != val:''',
         new='''        if self.callback is not None and bool(orig_value) != bool(val):''',
         needs='a log folder which is replaced by another one',
         breaks='The log file stays in the folder which was set first.',
         demo=HEAD + '''
from pyfileconf import options
import logging
one, two = os.path.join(ROOT, 'one'), os.path.join(ROOT, 'two')
options.log_folder.value = one
options.log_folder.value = two
assert os.path.exists(os.path.join(two, 'pyfileconf.log'))
options.reset()
'''),
    dict(id='nested-section-runs-first-items-only', property='C17', file=RUN,
         old=None, new=None, needs='', breaks='', demo=''),
]
BUGS = [b for b in BUGS if b['demo']]
