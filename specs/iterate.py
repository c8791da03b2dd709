"""What running every combination of changes and applying many changes at once have to do (reference definitions)"""
import itertools
from copy import deepcopy

from pyfileconf.batch import BatchUpdater
from pyfileconf.iterate import get_config_product
from pyfileconf.main import PipelineManager
from pyfileconf.plugin import manager
from pyfileconf.sectionpath.sectionpath import SectionPath


def init(self, items, config_updates, base=None, strip=False):
    self.base_section_path_str = base
    self.strip_manager_from_iv = strip
    self.run_items = SectionPath.list_from_ambiguous(items, base_section_path_str=base, strip_manager_from_iv=strip)
    self.config_updates = config_updates
    self.cases = self.get_cases()
    self.defaults = self.get_defaults()


def get_cases(self):
    cases = list(itertools.chain(*manager.plm.hook.pyfileconf_iter_get_cases(
        config_updates=self.config_updates, runner=self)))
    manager.plm.hook.pyfileconf_iter_modify_cases(cases=cases, runner=self)
    return cases


def full_path(self, section_path_str):
    if not self.base_section_path_str:
        return section_path_str
    return SectionPath.join(self.base_section_path_str, section_path_str).path_str


def get_defaults(self):
    if not hasattr(self, 'cases'):
        raise ValueError
    result = {}
    for conf in self.cases[0]:
        full = full_path(self, conf['section_path_str'])
        pm = PipelineManager.get_manager_by_section_path_str(full)
        config = pm.config.get(SectionPath('.'.join(SectionPath(full)[1:])).path_str)
        if config is not None:
            result[full] = {**config}
    return result


def fill_case(self, case):
    return tuple([{**self.defaults[full_path(self, conf['section_path_str'])], **conf} for conf in case])


def run(self, collect_results=True):
    results = []
    for case in self.cases:
        if self.should_run(case):
            result = self._run_case(case)
            if collect_results:
                results.append((case, result))
    return results


def run_gen(self):
    for case in self.cases:
        if self.should_run(case):
            yield case, self._run_case(case)


def run_case(self, case):
    filled = self._fill_case_with_defaults(case)
    manager.plm.hook.pyfileconf_iter_update_for_case(case=filled, runner=self)
    self.last_case = filled
    return self._run()


def run_items(self):
    results = []
    for sp in self.run_items:
        pm = PipelineManager.get_manager_by_section_path_str(sp.path_str)
        results.append(pm.run(SectionPath('.'.join(sp[1:])).path_str))
    if len(results) == 1:
        return results[0]
    return results


def should_run(self, case):
    return True


def config_product(config_dicts):
    by_path = {}
    for config_dict in config_dicts:
        own = deepcopy(config_dict)
        by_path.setdefault(own['section_path_str'], []).append(own)
    return list(itertools.product(*by_path.values()))


# ---- default behaviour of the hooks

def default_cases(config_updates, runner):
    return get_config_product(config_updates)


def default_update_for_case(case, runner):
    if runner.last_case is None:
        changed = case
    else:
        changed = [conf for conf in case if conf not in runner.last_case]
    BatchUpdater(base_section_path_str=runner.base_section_path_str,
                 strip_manager_from_iv=runner.strip_manager_from_iv).update(changed)


def default_pre_update_batch(pm, updates):
    return updates


def default_post_changed(manager, new_config, updates, section_path_str):
    manager.refresh_dependent_configs(section_path_str)


# ---- batch

def batch_init(self, base=None, strip=False):
    self.base_section_path_str = base
    self.strip_manager_from_iv = strip


def batch_update(self, updates):
    updates = list(updates)
    wanted = manager.plm.hook.pyfileconf_pre_update_batch(pm=self, updates=updates)
    for update in itertools.chain(*wanted):
        sp = SectionPath.from_ambiguous(update['section_path_str'], base_section_path_str=self.base_section_path_str,
                                        strip_manager_from_iv=self.strip_manager_from_iv)
        PipelineManager.get_manager_by_section_path_str(sp.path_str)._update(
            **{**update, 'section_path_str': SectionPath('.'.join(sp[1:])).path_str})
    manager.plm.hook.pyfileconf_post_update_batch(pm=self, updates=updates)


def batch_reset(self, section_path_strs):
    for path in section_path_strs:
        sp = SectionPath.from_ambiguous(path, base_section_path_str=self.base_section_path_str,
                                        strip_manager_from_iv=self.strip_manager_from_iv)
        PipelineManager.get_manager_by_section_path_str(sp.path_str).reset(SectionPath('.'.join(sp[1:])).path_str)
