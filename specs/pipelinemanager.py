"""What the manager has to do (reference definitions, only ever parsed)"""
import ast
import bdb
import os
import sys
import traceback
from functools import partial

from pyfileconf import context
from pyfileconf.batch import BatchUpdater
from pyfileconf.config.models.manager import ConfigManager
from pyfileconf.data.logic.convert import convert_to_empty_obj_if_necessary
from pyfileconf.data.models.registrar import SpecificRegistrar
from pyfileconf.debug import pdb_post_mortem_or_passed_debug_fn
from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException, \
    NoPipelineManagerForFilepathException, NoPipelineManagerForSectionPathException
from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from
from pyfileconf.imports.models.statements.container import ImportStatementContainer
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
from pyfileconf.imports.models.tracker import ImportTracker
from pyfileconf.iterate import IterativeRunner
from pyfileconf.logger.bind_stdout import stdout_also_logged
from pyfileconf.main import create_project, create_registrars, report_runner_exceptions, RunnerException
from pyfileconf.opts import options
from pyfileconf.plugin import manager as plugin_manager
from pyfileconf.runner.models.runner import Runner
from pyfileconf.sectionpath.sectionpath import SectionPath
from pyfileconf.selector.models.itemview import is_item_view
from pyfileconf.views.object import ObjectView


# ---- paths

def relative_path(self, section_path_str_or_view):
    """views carry the name of their manager first"""
    if is_item_view(section_path_str_or_view):
        path = SectionPath(section_path_str_or_view.section_path_str)
        return SectionPath.from_section_str_list(path[1:]).path_str
    if isinstance(section_path_str_or_view, str):
        return section_path_str_or_view
    raise ValueError


def relative_paths(self, run_list):
    if isinstance(run_list, list):
        return [relative_path(self, arg) for arg in run_list]
    return relative_path(self, run_list)


# ---- lifecycle

def init(self, folder, name='project', specific_class_config_dicts=None, auto_pdb=False, force_continue=False,
         default_config_folder_name='defaults'):
    if specific_class_config_dicts is None:
        specific_class_config_dicts = []
    self.folder = folder
    self.pipeline_dict_path = os.path.join(folder, 'pipeline_dict.py')
    self.specific_class_config_dicts = specific_class_config_dicts
    self.specific_class_names = [sc_dict['name'] for sc_dict in specific_class_config_dicts]
    self.default_config_path = os.path.join(folder, default_config_folder_name)
    self.name = name
    self.auto_pdb = auto_pdb
    self.force_continue = force_continue
    self._registrars = None
    self._general_registrar = None
    self._validate_options()
    context.active_managers[name] = self
    self._create_project_if_needed()


def validate_options(self):
    if self.auto_pdb and self.force_continue:
        raise ValueError


def create_project_if_needed(self):
    if need_to_create_project(self):
        create_project(self.folder, options.log_folder, self.specific_class_config_dicts)


def need_to_create_project(self):
    if not os.path.exists(self.folder):
        return True
    if not os.path.exists(self.pipeline_dict_path):
        return True
    if not os.path.exists(self.default_config_path):
        return True
    if options.log_folder is not None and not os.path.exists(options.log_folder):
        return True
    return any(not os.path.exists(os.path.join(self.folder, f'{name}_dict.py'))
               for name in self.specific_class_names)


def load_parts(self):
    self._registrars, self._general_registrar = create_registrars(
        self.specific_class_config_dicts, self.default_config_path, self.folder, self.pipeline_dict_path,
        manager_name=self.name)
    self.config = ConfigManager(self.default_config_path, self.name)
    self.config.load()
    self.runner = Runner(config=self.config, registrars=self._registrars, general_registrar=self._general_registrar,
                         name=self.name)


def load(self):
    self._import_tracker = ImportTracker()
    try:
        self._load_pipeline_config_and_runner()
    except Exception as e:
        self._loaded_modules = self._import_tracker.imported_modules
        self._wipe_loaded_modules()
        self._loaded_modules = []
        raise
    self._loaded_modules = self._import_tracker.imported_modules


def wipe_loaded_modules(self):
    for module in self._loaded_modules:
        sys.modules.pop(module)


def reload(self):
    self._wipe_loaded_modules()
    self.load()


def getattr_(self, item):
    if item == 'runner':
        raise PipelineManagerNotLoadedException
    return getattr(self.runner, item)


def del_(self):
    if self.name in context.active_managers and context.active_managers[self.name] is self:
        del context.active_managers[self.name]


# ---- running

def run(self, section_path_str_or_list):
    additional = plugin_manager.plm.hook.pyfileconf_pre_run(section_path_str_or_list=section_path_str_or_list, pm=self)
    own = relative_paths(self, section_path_str_or_list)
    items = [*as_list(own), *[path for items in additional for path in as_list(relative_paths(self, items))]]
    if len(items) == 1:
        items = items[0]
    if options.log_stdout:
        with stdout_also_logged():
            return run_with_settings(self, items)
    return run_with_settings(self, items)


def as_list(item):
    if item is None:
        return []
    if isinstance(item, list):
        return item
    if isinstance(item, tuple):
        return list(item)
    return [item]


def run_with_settings(self, items):
    if self.auto_pdb:
        return run_with_pdb(self, items)
    if self.force_continue:
        return run_with_force_continue(self, items)
    return self.runner.run(items)


def run_with_pdb(self, items):
    try:
        return self.runner.run(section_path_str_or_list=items)
    except (KeyboardInterrupt, SystemExit, bdb.BdbQuit):
        quit()
    except Exception as e:
        pdb_post_mortem_or_passed_debug_fn(e, debug_fn=self.auto_pdb)
        return None


def run_with_force_continue(self, items):
    single = not isinstance(items, list)
    if single:
        items = [items]
    exceptions = []
    results = []
    for item in items:
        try:
            result = self.runner.run(section_path_str_or_list=item)
        except (KeyboardInterrupt, SystemExit, bdb.BdbQuit):
            quit()
        except Exception as e:
            exceptions.append(RunnerException(e, section_path_str=item, trace_back=traceback.format_exc()))
        else:
            results.append(result)
    report_runner_exceptions(exceptions)
    if not single:
        return results
    if len(results) == 0:
        return []
    if len(results) > 1:
        raise ValueError
    return results[0]


def run_product(self, section_path_str_or_list, config_updates, collect_results=True):
    runner = IterativeRunner(section_path_str_or_list, config_updates, base_section_path_str=self.name,
                             strip_manager_from_iv=True)
    return runner.run(collect_results=collect_results)


def run_product_gen(self, section_path_str_or_list, config_updates):
    runner = IterativeRunner(section_path_str_or_list, config_updates, base_section_path_str=self.name,
                             strip_manager_from_iv=True)
    return runner.run_gen()


# ---- getting and changing

def get(self, section_path_str_or_view):
    return self.runner.get(relative_path(self, section_path_str_or_view))


def reset(self, section_path_str_or_view, allow_create=False):
    self.runner.reset(relative_path(self, section_path_str_or_view), allow_create=allow_create)


def refresh(self, section_path_str):
    self.runner.refresh(section_path_str)


def update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    extra = plugin_manager.plm.hook.pyfileconf_pre_update(
        pm=self, d_=d_, section_path_str=section_path_str, kwargs=kwargs)
    additions = {k: v for d in extra for k, v in d.items()}
    if additions:
        if d_ is not None:
            d_ = {**d_, **additions}
        kwargs.update(additions)
    self._update(d_, section_path_str=section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
    plugin_manager.plm.hook.pyfileconf_post_update(pm=self, d_=d_, section_path_str=section_path_str, kwargs=kwargs)


def apply_update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    if section_path_str:
        for value in {**(d_ if d_ is not None else {}), **kwargs}.values():
            if is_item_view(value):
                context.add_config_dependency(SectionPath.join(self.name, section_path_str), value)
    self.runner.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)


def update_batch(self, updates):
    BatchUpdater(base_section_path_str=self.name, strip_manager_from_iv=True).update(updates)


# ---- finding the manager

def manager_by_filepath(cls, filepath):
    for manager in context.active_managers.values():
        if os.path.abspath(filepath).startswith(os.path.abspath(manager.folder) + os.sep):
            return manager
    raise NoPipelineManagerForFilepathException


def manager_by_section_path(cls, section_path_str):
    name = SectionPath(section_path_str)[0]
    if name in context.active_managers:
        return context.active_managers[name]
    raise NoPipelineManagerForSectionPathException


# ---- creating

def registrar_dict(self):
    if self._general_registrar is None:
        raise ValueError
    result = {'general': self._general_registrar}
    if self._registrars is not None:
        for registrar in self._registrars:
            result[registrar.name] = registrar
    return result


def create(self, section_path_str, func_or_class=None):
    section_path = SectionPath(section_path_str)
    if section_path[0] in self.specific_class_names:
        if len(section_path) < 3:
            raise ValueError
        if func_or_class is not None:
            raise ValueError
        self._create_specific_class_dict_entry(section_path)
        registrar = self._registrar_dict[section_path[0]]
        if registrar.collection.klass is None:
            raise ValueError
        obj = convert_to_empty_obj_if_necessary(
            section_path[-1], registrar.collection.klass, key_attr=registrar.collection.key_attr)
        registrar.set(SectionPath.from_section_str_list(section_path[1:-1]).path_str, obj)
        registrar.scaffold_config_for(SectionPath.from_section_str_list(section_path[1:]).path_str)
        self.reset(section_path.path_str, allow_create=True)
    else:
        if func_or_class is None:
            raise ValueError
        self._create_pipeline_dict_entry(section_path, func_or_class)
        full = SectionPath.join(section_path, func_or_class.__name__)
        mod, import_base = get_module_and_name_imported_from(func_or_class)
        view = ObjectView.from_ast_and_imports(
            ast.Name(id=func_or_class.__name__),
            ImportStatementContainer([ObjectImportStatement([func_or_class.__name__], import_base)]))
        if self._general_registrar is None:
            raise ValueError
        self._general_registrar.set(section_path_str, view)
        self._general_registrar.scaffold_config_for(full.path_str)
        self.reset(full.path_str, allow_create=True)
