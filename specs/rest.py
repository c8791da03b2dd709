"""What setting up projects and managers has to do, and small parts used everywhere (reference definitions)"""
import ast
import builtins
import os
import sys
from collections import defaultdict
from copy import deepcopy
from importlib._bootstrap import _find_spec
from importlib.util import resolve_name

import black
import pluggy

from pyfileconf.assignments.models.container import AssignmentStatementContainer
from pyfileconf.assignments.models.statement import AssignmentStatement
from pyfileconf.basemodels.config import ConfigBase
from pyfileconf.basemodels.registrar import Registrar
from pyfileconf.config.models.config import ActiveFunctionConfig
from pyfileconf.config.models.manager import ConfigManager
from pyfileconf.config.models.section import ConfigSection
from pyfileconf.data.models.astitems import ast_none, ast_str
from pyfileconf.data.models.collection import SpecificClassCollection
from pyfileconf.data.models.file import SpecificClassConfigFile
from pyfileconf.data.models.dictconfig import SpecificClassDictConfig
from pyfileconf.data.models.dictfile import SpecificClassDictFile
from pyfileconf.data.models.registrar import SpecificRegistrar
from pyfileconf.dictfiles.modify import (
    add_item_into_nested_dict_at_section_path, create_dict_assignment_str_from_nested_dict_with_ast_names,
    pretty_format_str
)
from pyfileconf.logic.combine import combine_items_into_list_whether_they_are_lists_or_not
from pyfileconf.imports.logic.load.func import function_args_as_dict
from pyfileconf.imports.logic.load.klass import class_function_args_as_dict
from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from
from pyfileconf.imports.models.statements.container import ImportStatementContainer
from pyfileconf.imports.models.statements.module import ModuleImportStatement
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
from pyfileconf.main import (
    _create_registrars_or_collections_from_dict, _validate_registrars, create_registrars
)
from pyfileconf.pipelines.models.collection import PipelineCollection
from pyfileconf.pipelines.models.dictconfig import PipelineDictConfig
from pyfileconf.pipelines.models.dictfile import PipelineDictFile
from pyfileconf.pipelines.models.registrar import PipelineRegistrar
from pyfileconf.logger.logger import logger
from pyfileconf.plugin import default_hooks, hookspecs
from pyfileconf.plugin.manager_utils import get_plugin_manager
from pyfileconf.runner.models.runner import Runner


# ---- projects

def create_file_if_missing(path, text):
    if not os.path.exists(path):
        with open(path, 'w') as f:
            f.write(text)


def create_folder_if_missing(path):
    if not os.path.exists(path):
        os.makedirs(path)


def create_project(path, logs_path, specific_class_config_dicts=None):
    create_folder_if_missing(os.path.join(path, 'defaults'))
    if logs_path is not None:
        create_folder_if_missing(logs_path)
    create_file_if_missing(os.path.join(path, 'pipeline_dict.py'), '\npipeline_dict = {}\n')
    if specific_class_config_dicts:
        for settings in specific_class_config_dicts:
            create_file_if_missing(os.path.join(path, f'{settings["name"]}_dict.py'), '\nclass_dict = {}\n')


def validate_registrars(registrars, general_registrar):
    taken = dir(general_registrar)
    for registrar in registrars:
        if registrar.name in taken:
            raise ValueError
    names = [registrar.name for registrar in registrars]
    if len(set(names)) != len(names):
        raise ValueError


def make_registrars(specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, manager_name=None):
    registrars, general = _create_registrars_or_collections_from_dict(
        specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, registrar=True,
        manager_name=manager_name)
    _validate_registrars(registrars, general)
    for registrar in registrars:
        registrar.scaffold_config()
    general.scaffold_config()
    return registrars, general


def make_collections(specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, manager_name=None):
    return _create_registrars_or_collections_from_dict(
        specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, registrar=False,
        manager_name=manager_name)


def from_definitions(specific_class_config_dicts, basepath, pipeline_folder, pipeline_dict_path, registrar=True,
                     manager_name=None):
    if registrar:
        general_class = PipelineRegistrar
        specific_class = SpecificRegistrar
    else:
        general_class = PipelineCollection
        specific_class = SpecificClassCollection
    general_file = PipelineDictFile(pipeline_dict_path, name='pipeline_dict')
    definition = general_file.load()
    specific = []
    for given in specific_class_config_dicts:
        settings = {'always_assign_strs': None, 'always_import_strs': None}
        settings.update(given)
        if 'name' not in settings or settings['name'] is None:
            raise ValueError
        if 'class' not in settings or settings['class'] is None:
            raise ValueError
        keywords = deepcopy(settings)
        keywords['klass'] = settings['class']
        keywords.pop('class')
        name = settings['name']
        file = SpecificClassDictFile(os.path.join(pipeline_folder, f'{name}_dict.py'), name=name + '_dict')
        names = file.load()
        specific.append(specific_class.from_dict(
            names, basepath=os.path.join(basepath, name), imports=file.interface.imports, **keywords))
    general = general_class.from_dict(
        definition, basepath=basepath, name=manager_name, imports=general_file.interface.imports)
    return specific, general


# ---- managers

def load_parts(self):
    self._registrars, self._general_registrar = create_registrars(
        self.specific_class_config_dicts, self.default_config_path, self.folder, self.pipeline_dict_path,
        manager_name=self.name)
    self.config = ConfigManager(self.default_config_path, self.name)
    self.config.load()
    self.runner = Runner(config=self.config, registrars=self._registrars, general_registrar=self._general_registrar,
                         name=self.name)


def runner_init(self, config, registrars, general_registrar, name):
    self._config = config
    self._registrars = registrars
    self._general_registrar = general_registrar
    self._manager_name = name
    self._full_getattr = ''
    self._all_specific_classes = tuple([registrar.klass for registrar in registrars])
    self._specific_class_registrar_map = {registrar.klass: registrar for registrar in registrars}
    self._loaded_objects = {}


def config_manager_init(self, basepath, pipeline_manager_name, main_section=None):
    self.section = main_section
    self.basepath = basepath
    self.pipeline_manager_name = pipeline_manager_name
    self.local_config = ActiveFunctionConfig()


def config_manager_load(self):
    self.section = ConfigSection.from_files(self.basepath)


def config_manager_getattr(self, item):
    return getattr(self.section, item)


def config_manager_dir(self):
    return ['load', 'get', 'update', 'basepath', 'pipeline_manager_name'] + list(self.section.config_map.keys())


def config_section_init(self, configs, section_config=None, name=None):
    self.config = section_config
    self.items = configs
    self.name = name


def manager_dir(self):
    names = ['run', 'run_product', 'run_product_gen', 'get', 'update', 'load', 'reload', 'refresh', 'reset', 'name']
    names = names + self.specific_class_names
    if hasattr(self, '_registrars'):
        for registrar in self._registrars:
            if isinstance(registrar, SpecificRegistrar):
                names.append(registrar.name)
        names += [name for name in dir(self._general_registrar)
                  if name not in names + ['scaffold_config', 'basepath']]
    return names


def registrar_dir(self):
    own = ['scaffold_config', 'get', 'basepath', 'name']
    return own + [name for name in dir(self.collection) if name not in own]


# ---- creating entries

def add_general_entry(self, section_path, func_or_class):
    file = PipelineDictFile(self.pipeline_dict_path, name='pipeline_dict')
    definition = file.load()
    module, import_base = get_module_and_name_imported_from(func_or_class)
    imports = ImportStatementContainer([ObjectImportStatement([func_or_class.__name__], import_base)])
    add_item_into_nested_dict_at_section_path(definition, section_path, func_or_class.__name__)
    text = create_dict_assignment_str_from_nested_dict_with_ast_names(definition)
    file.save(PipelineDictConfig({'pipeline_dict': text}, name='pipeline_dict', _file=file, imports=imports))


def add_specific_entry(self, section_path):
    name = section_path[0]
    file = SpecificClassDictFile(os.path.join(self.folder, f'{name}_dict.py'), name=name + '_dict')
    definition = file.load()
    add_item_into_nested_dict_at_section_path(definition, section_path[1:-1], str(section_path[-1]),
                                              add_as_ast_name=False)
    text = pretty_format_str('class_dict = ' + str(definition))
    file.save(SpecificClassDictConfig({'class_dict': text}, name='specific_class_dict', _file=file))


def add_to_nested(nested_dict, section_path, item, add_as_ast_name=True):
    current = nested_dict
    for i, section in enumerate(section_path):
        if i <= len(section_path) - 2:
            try:
                current = current[section]
            except KeyError:
                current[section] = {}
                current = current[section]
        if i == len(section_path) - 1:
            entry = ast.Name(item) if add_as_ast_name else item
            try:
                entries = current[section]
            except KeyError:
                current[section] = []
                entries = current[section]
            if not isinstance(entries, list):
                raise ValueError
            entries.append(entry)


def definition_text(nested_dict, existing_str=None, assign_to_name='pipeline_dict'):
    text = f'{assign_to_name} = {{' if existing_str is None else ''
    for key, value in nested_dict.items():
        text += f'"{key}": '
        if isinstance(value, ast.Name):
            text += value.id + ','
        elif isinstance(value, str):
            text += value + ','
        elif isinstance(value, list):
            text += '['
            for item in value:
                text += item.id + ','
            text += '],'
        elif isinstance(value, dict):
            text += '{'
            text += create_dict_assignment_str_from_nested_dict_with_ast_names(value, text)
            text += '},'
        else:
            raise ValueError
    if existing_str is None:
        text = pretty_format_str(text + '}')
    return text


def formatted(string):
    return black.format_str(string, mode=black.FileMode())


def general_entry_parts(self):
    return self.imports, AssignmentStatementContainer([AssignmentStatement.from_str(self['pipeline_dict'])])


def specific_entry_parts(self):
    return self.imports, AssignmentStatementContainer([AssignmentStatement.from_str(self['class_dict'])])


def load_definition(self):
    return self.interface.load()


# ---- configs

def config_update(self, E=None, pyfileconf_persist=True, **F):
    if E is None:
        E = {}
    if pyfileconf_persist:
        self._applied_updates.update({**E, **F})
    super().update(E, **F)


def config_dir(self):
    return self.keys()


def for_function(self, func):
    accepted = function_args_as_dict(func)
    return {name: value for name, value in self.items() if name in accepted}


def config_from_obj(cls, obj, klass, name=None, imports=None, always_import_strs=None, always_assign_strs=None,
                    file_path=None, key_attr='name'):
    values = {}
    for attr, value in class_function_args_as_dict(klass).items():
        values[attr] = ast_none if value is None else value
    for attr in values:
        if getattr(obj, attr, None) is not None:
            values[attr] = getattr(obj, attr)
    if isinstance(values[key_attr], str):
        values[key_attr] = ast_str(values[key_attr])
    return cls(values, name=name, imports=imports, klass=klass, always_import_strs=always_import_strs,
               always_assign_strs=always_assign_strs, file_path=file_path)


# ---- plugins

def make_plugin_manager():
    plm = pluggy.PluginManager('pyfileconf')
    plm.add_hookspecs(hookspecs)
    plm.load_setuptools_entrypoints('pyfileconf')
    plm.register(default_hooks)
    return plm


def forget_plugins():
    from pyfileconf.plugin import manager
    manager.plm = get_plugin_manager()


def without_defaults():
    from pyfileconf.plugin import manager
    manager.plm.unregister(name='pyfileconf.plugin.default_hooks')


# ---- what goes wrong while continuing after errors

def runner_exception_init(self, *args, section_path_str=None, trace_back=None):
    self.section_path_str = section_path_str
    self.trace_back = trace_back
    self.exc = args[0] if len(args) > 0 else None
    super().__init__(*args)


def runner_exception_text(self):
    return f'Error while running {self.section_path_str}:\n\n' + self.trace_back


def report(runner_exceptions):
    if len(runner_exceptions) == 0:
        logger.info('\n\nEverything ran successfully, no exceptions to report.\n\n')
        return
    paths = ', '.join([str(e.section_path_str) for e in runner_exceptions])
    logger.error(f'Exception summary for running {paths} (exceptions were also shown when raised):\n'
                 + '\n\n'.join([str(e) for e in runner_exceptions]))


# ---- small parts

def collection_dir(self):
    return self.name_dict.keys()


def section_dir(self):
    return self.config_map.keys()


def config_attribute(self, attr):
    try:
        return self[attr]
    except KeyError:
        raise AttributeError(attr)


def iterate(self):
    for item in self.items:
        yield item


def specific_config_init(self, d=None, name=None, annotations=None, imports=None, _file=None, begin_assignments=None,
                         always_import_strs=None, always_assign_strs=None, klass=None, file_path=None, **kwargs):
    self.config_file_class = SpecificClassConfigFile(
        file_path, name=name, klass=klass, always_import_strs=always_import_strs, always_assign_strs=always_assign_strs)
    ConfigBase.__init__(
        self, d=d, name=name, annotations=annotations, imports=imports, _file=_file, begin_assignments=begin_assignments,
        klass=klass, always_import_strs=always_import_strs, always_assign_strs=always_assign_strs, **kwargs)


def set_module(self):
    if self.import_statement is None:
        self._module = None
    if isinstance(self.import_statement, ObjectImportStatement):
        self._module = self.import_statement.module
    elif isinstance(self.import_statement, ModuleImportStatement):
        self._module = self.import_statement.modules[0]
    else:
        raise ValueError


def has_name(obj, accept_output_names=True):
    return any(hasattr(obj, attr) for attr in names_of(accept_output_names))


def names_of(accept_output_names):
    return ['output_name', 'name', '__name__'] if accept_output_names else ['name', '__name__']


def combine_to_list(item1, item2):
    return as_list(item1) + as_list(item2)


def as_list(item):
    if item is None:
        return []
    if isinstance(item, list):
        return item
    if isinstance(item, tuple):
        return list(item)
    return [item]


def combine(item1, item2):
    items = combine_items_into_list_whether_they_are_lists_or_not(item1, item2)
    if len(items) == 1:
        return items[0]
    return items


def debug(*args, debug_fn=False, **kwargs):
    if isinstance(debug_fn, bool):
        if debug_fn:
            import pdb
            pdb.post_mortem()
    else:
        if debug_fn is None:
            import pdb
            debug_fn = pdb.post_mortem
        debug_fn()


def base_update(self, **kwargs):
    self.__init__(**kwargs)


def is_begin(begin_str):
    return begin_str is not None and begin_str.strip().lower() in ('b', 'begin', 'beginning', 'start', 's')


def find_spec(name, package=None):
    full_name = resolve_name(name, package) if name.startswith('.') else name
    if full_name in sys.modules:
        module = sys.modules[full_name]
        if module is None:
            return None
        try:
            spec = module.__spec__
        except AttributeError:
            raise ValueError
        if spec is None:
            raise ValueError
        return spec
    parent_name = full_name.rpartition('.')[0]
    if parent_name:
        parent = find_spec(parent_name, package=package)
        return _find_spec(full_name, parent.submodule_search_locations)
    return _find_spec(full_name, None)


def is_builtin(value):
    if value is None:
        return True
    return type(value) in [getattr(builtins, d) for d in dir(builtins) if isinstance(getattr(builtins, d), type)]


def is_builtin_name(str_value):
    types = [getattr(builtins, d) for d in dir(builtins) if isinstance(getattr(builtins, d), type)]
    return f"<class '{str_value}'>" in [str(t) for t in types]


def by_path(config_dicts):
    result = defaultdict(lambda: [])
    for config_dict in config_dicts:
        conf = deepcopy(config_dict)
        result[conf['section_path_str']].append(conf)
    return result
