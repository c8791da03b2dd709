MAIN = 'pyfileconf/main.py'
RUN = 'pyfileconf/runner/models/runner.py'
CONF = 'pyfileconf/config/models/manager.py'
BASE = 'pyfileconf/basemodels/config.py'

HEAD = '''
from lib import *
'''

BUGS = [
    dict(id='stack-pop-only-on-success', property='C02', file='pyfileconf/pmcontext/tracing.py',
         old='''        context.stack.pop_frame()''',
         new='''        if exc_type is None:
            context.stack.pop_frame()''',
         needs='an item which raises, and a later operation outside of any item',
         breaks='The entry of an item which raised stays on the record of running items, so that later uses are '
                'attributed to it.',
         demo=HEAD + '''
module('funcs1', """
def bad():
    raise RuntimeError('x')
def good(a=1):
    return a
""")
pm = project('p1', "from funcs1 import bad, good\\npipeline_dict = {'s': [bad, good]}\\n")
try:
    pm.run('s.bad')
except RuntimeError:
    pass
assert context.stack.frames == [], context.stack
pm.get('s.good')
assert not context.config_dependencies.get('p1.s.good'), dict(context.config_dependencies)
'''),
    dict(id='frame-without-manager-for-sections', property='C02', file=RUN,
         old='''        with StackTracker(section_path_str, base_section_path_str=self._manager_name):
            klass, config_dict = self._get_func_and_config(section_path_str)''',
         new='''        with StackTracker(section_path_str, base_section_path_str=self._manager_name or None):
            klass, config_dict = self._get_func_and_config(section_path_str)
        with StackTracker(section_path_str):''',
         needs='a class registered in the general dictionary which uses another item while it runs',
         breaks='A class runs under a path without its manager.',
         demo=HEAD + '''
module('funcs2', """
from pyfileconf import context
seen = []
class Thing:
    def __init__(self, a=1):
        self.a = a
    def __call__(self):
        seen.append(context.currently_running_section_path_str)
        return self.a
""")
pm = project('p2', "from funcs2 import Thing\\npipeline_dict = {'s': [Thing]}\\n")
pm.run('s.Thing')
import funcs2
assert funcs2.seen == ['p2.s.Thing'], funcs2.seen
'''),
    dict(id='cached-object-without-dependency', property='C03', file=RUN,
         old='''        obj = self._get_func_or_collection(section_path_str)
        klass, config_dict = self._get_class_and_config(section_path_str)
        if inspect.isclass(obj):
            obj = obj(**config_dict)
        else:
            apply_config(obj, config_dict)

        self._add_full_section_path_str_to_obj(section_path_str, obj)
        self._loaded_objects[section_path_str] = obj
        self._add_to_config_dependencies_if_necessary(section_path_str)
''',
         new='''        obj = self._get_func_or_collection(section_path_str)
        klass, config_dict = self._get_class_and_config(section_path_str)
        if inspect.isclass(obj):
            obj = obj(**config_dict)
            self._add_to_config_dependencies_if_necessary(section_path_str)
        else:
            apply_config(obj, config_dict)

        self._add_full_section_path_str_to_obj(section_path_str, obj)
        self._loaded_objects[section_path_str] = obj
''',
         needs='a specific class object which is first loaded from inside of a running function',
         breaks='The use of the object by the running item is not recorded.',
         demo=HEAD + '''
module('things3', """
class Thing:
    def __init__(self, name=None, a=1):
        self.name = name
        self.a = a
""")
import things3
module('funcs3', """
from pyfileconf import Selector
def use():
    s = Selector()
    return s.p3.thing.one.First.a
def direct():
    from pyfileconf import PipelineManager
    return PipelineManager.get_manager_by_section_path_str('p3').get('thing.one.First').a
""")
pm = project('p3', "from funcs3 import use, direct\\npipeline_dict = {'s': [use, direct]}\\n",
             {'thing': (things3.Thing, "class_dict = {'one': ['First']}\\n", {})})
pm.run('s.direct')
deps = {sp.path_str for sp in context.config_dependencies['p3.thing.one.First']}
assert 'p3.s.direct' in deps, deps
'''),
    dict(id='stdout-options-late', property='C01', file=MAIN,
         old='''        if options.log_stdout:
            with stdout_also_logged():
                return self._run_depending_on_settings(str_or_list_only)
        else:
            return self._run_depending_on_settings(str_or_list_only)''',
         new='''        if options.log_stdout and not self.auto_pdb:
            with stdout_also_logged():
                return self._run_depending_on_settings(str_or_list_only)
        return self._run_depending_on_settings(str_or_list_only)''',
         needs='capturing standard output together with debugging on errors',
         breaks='What items print is not logged although the option is on.',
         demo=HEAD + '''
module('funcs5', """
def say():
    print('hello from say')
""")
import logging
pm = project('p5', "from funcs5 import say\\npipeline_dict = {'s': [say]}\\n", auto_pdb=True)
from pyfileconf import options
options.log_stdout.value = True
records = []
class H(logging.Handler):
    def emit(self, r): records.append(r.getMessage())
log = logging.getLogger('pyfileconf')
log.setLevel(logging.INFO)
log.addHandler(H())
pm.run('s.say')
assert any('hello from say' in r for r in records), records
'''),
]
