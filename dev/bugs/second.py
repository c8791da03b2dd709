MAIN = 'pyfileconf/main.py'
RUN = 'pyfileconf/runner/models/runner.py'
CONF = 'pyfileconf/config/models/manager.py'
BASE = 'pyfileconf/basemodels/config.py'
HOOKS = 'pyfileconf/plugin/default_hooks.py'
ITER = 'pyfileconf/iterate.py'
HEAD = '''
from lib import *
'''

BUGS = [
    dict(id='batch-update-always-persists', property='C09', file='pyfileconf/batch.py',
         old='''            new_update = {**update, 'section_path_str': relative_section_path_str}
            pm._update(**new_update)  # type: ignore''',
         new='''            new_update = {**update, 'section_path_str': relative_section_path_str}
            new_update.pop('pyfileconf_persist', None)
            pm._update(**new_update)  # type: ignore''',
         needs='an update in a batch which is not to persist, and a refresh later',
         breaks='An update without persistence survives a refresh.',
         demo=HEAD + '''
module('funcs7', """
def item(a=1, b=2):
    return a, b
""")
pm = project('p7', "from funcs7 import item\\npipeline_dict = {'s': [item]}\\n")
pm.update_batch([dict(section_path_str='s.item', a=5, pyfileconf_persist=False)])
pm.refresh('s.item')
assert pm.run('s.item') == (1, 2), pm.run('s.item')
'''),
    dict(id='refresh-only-first-round', property='C04', file=CONF,
         old='''            if update_deps == new_update_deps:''',
         new='''            if update_deps == new_update_deps or len(new_update_deps) == len(all_updated_deps):''',
         needs='a refresh of a dependent during which exactly as many new dependents are recorded',
         breaks='The refresh of dependents which are recorded during the propagation fails.',
         demo=HEAD + '''
from pyfileconf.config.models.manager import ConfigManager
from pyfileconf.sectionpath.sectionpath import SectionPath
import pyfileconf.config.models.manager as m
done = []
def fake(paths):
    for sp in list(paths):
        done.append(sp.path_str)
        if sp.path_str == 'x.one':
            context.force_update_dependencies['x.base'].add(SectionPath('x.two'))
m._refresh_configs = fake
context.force_update_dependencies['x.base'].add(SectionPath('x.one'))
ConfigManager('nowhere', 'x').refresh_dependent_configs('base')
assert done == ['x.one', 'x.two'], done
'''),
    dict(id='pre-hook-for-empty-refresh', property='C05', file=CONF,
         old='''        updates = config.change_from_refresh()
        if updates:
            self._track_pre_update(config, section_path_str, updates)
        return updates != {}''',
         new='''        updates = config.change_from_refresh()
        self._track_pre_update(config, section_path_str, updates)
        return updates != {}''',
         needs='a refresh of an item whose file and settings give the same values as before, with a plugin looking at changes',
         breaks='Plugins are told of a change before a refresh which changes nothing.',
         demo=HEAD + '''
module('funcs10', """
def item(a=1, b=2):
    return a, b
""")
pm = project('p10', "from funcs10 import item\\npipeline_dict = {'s': [item]}\\n")
from pyfileconf.plugin import manager
from pyfileconf.plugin.impl import hookimpl
pm.get('s.item')
seen = []
class Plugin:
    @hookimpl
    def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
        seen.append((section_path_str, dict(updates)))
manager.plm.register(Plugin())
pm.refresh('s.item')
assert not seen, seen
pm.update(section_path_str='s.item', a=7)
assert len(seen) == 1, seen
pm.refresh('s.item')
assert len(seen) == 1, seen
'''),
    dict(id='section-order-reversed', property='C07', file=CONF,
         old='''        for section in section_path[:-1]: # skip the last section or function for special handling at end
            full_section += section # rebuilding full section path str
            section_configs.append(
                self._get_func_or_section_configs(full_section)
            )
            full_section += '.\'''',
         new='''        for section in section_path[:-1]: # skip the last section or function for special handling at end
            full_section += section # rebuilding full section path str
            section_configs.insert(1, self._get_func_or_section_configs(full_section))
            full_section += '.\'''',
         needs='two enclosing sections which give different values for the same name',
         breaks='The outermost section overrides the inner ones.',
         demo=HEAD + '''
module('funcs11', """
def item(a=1, b=2):
    return a, b
""")
pm = project('p11', "from funcs11 import item\\npipeline_dict = {'s': {'t': [item]}}\\n")
pm.update(section_path_str='s', a=10)
pm.update(section_path_str='s.t', a=20)
assert pm.run('s.t.item') == (20, 2), pm.run('s.t.item')
'''),
    dict(id='equal-values-by-repr', property='C10', file=BASE,
         old='''    try:
        return bool(val1 == val2)''',
         new='''    if isinstance(val1, (list, tuple, dict)) and type(val1) is type(val2):
        return str(val1) == str(val2)
    try:
        return bool(val1 == val2)''',
         needs='values in a container whose text does not show the difference',
         breaks='Updates of containers whose text is the same are ignored.',
         demo=HEAD + '''
module('funcs12', """
def item(a=(), b=2):
    return a, b
""")
class X:
    def __init__(self, v): self.v = v
    def __repr__(self): return 'X'
pm = project('p12', "from funcs12 import item\\npipeline_dict = {'s': [item]}\\n")
one, two = X(1), X(2)
pm.update(section_path_str='s.item', a=[one])
pm.update(section_path_str='s.item', a=[two])
assert pm.run('s.item')[0][0] is two
'''),
]
