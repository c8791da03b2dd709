"""What a single configuration and a section of them have to do (reference definitions, only ever parsed)"""
import os
from copy import deepcopy
from functools import partial

import pandas as pd

from pyfileconf.assignments.models.container import AssignmentStatementContainer
from pyfileconf.config.models.config import ActiveFunctionConfig
from pyfileconf.config.models.file import ActiveFunctionConfigFile
from pyfileconf.config.models.section import ConfigSection
from pyfileconf.exceptions.config import ConfigManagerNotLoadedException
from pyfileconf.imports.logic.load.func import function_args_as_dict
from pyfileconf.imports.models.statements.container import ImportStatementContainer


def config_init(self, d=None, name=None, annotations=None, imports=None, _file=None, begin_assignments=None,
                klass=None, always_import_strs=None, always_assign_strs=None, **kwargs):
    super().__init__({} if d is None else d, **kwargs)
    self.name = name
    self.annotations = {} if annotations is None else annotations
    self.imports = ImportStatementContainer([]) if imports is None else imports
    self._file = _file
    self.begin_assignments = AssignmentStatementContainer([]) if begin_assignments is None else begin_assignments
    self.klass = klass
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs
    self._applied_updates = {}


def config_getattr(self, attr):
    try:
        return self[attr]
    except KeyError:
        raise AttributeError(attr)


def from_own_file(self):
    return self.__class__.from_file(
        self._file.filepath, name=self.name, klass=self.klass, always_import_strs=self.always_import_strs,
        always_assign_strs=self.always_assign_strs)


def refreshed_values(self):
    """what the file says now, with the persistent updates on top"""
    return {**from_own_file(self), **self._applied_updates}


def refresh(self):
    values = refreshed_values(self)
    self.update(values, pyfileconf_persist=False)
    return values


def same_values(val1, val2):
    if isinstance(val1, (pd.DataFrame, pd.Series)):
        return val1.equals(val2)
    if isinstance(val2, (pd.DataFrame, pd.Series)):
        return False
    try:
        return bool(val1 == val2)
    except Exception:
        return False


def would_update(self, E=None, **F):
    for key, value in {**({} if E is None else E), **F}.items():
        if key not in self or not same_values(self[key], value):
            return True
    return False


def change_from_refresh(self):
    values = refreshed_values(self)
    if would_update(self, values):
        return values
    return {}


def to_file(self, filepath):
    if self._file is None:
        file = self.config_file_class(
            filepath, name=self.name, klass=self.klass, always_import_strs=self.always_import_strs,
            always_assign_strs=self.always_assign_strs)
    else:
        file = deepcopy(self._file)
        file.filepath = filepath
        file.interface.filepath = filepath
    if os.path.exists(filepath):
        file.load()
    file.save(self)


def from_file(cls, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    return cls.config_file_class(
        filepath, name=name, klass=klass, always_import_strs=always_import_strs,
        always_assign_strs=always_assign_strs).load(cls)


def imports_and_assignments(self):
    return self.imports, self.begin_assignments + AssignmentStatementContainer.from_dict_of_varnames_and_ast(
        self, self.annotations)


def copy(self):
    return deepcopy(self)


# ---- sections

def section_getattr(self, item):
    if self.config is not None and item == self.config.name:
        return self.config
    return self.config_map[item]


def set_config_map(self):
    result = {}
    for config in self:
        if config.name is not None:
            result[config.name] = config
    self._config_map = result


def section_append(self, item):
    self._items.append(item)
    self._set_config_map()


def section_extend(self, items):
    self._items.extend(items)
    self._set_config_map()


def section_update(self, d=None, **kwargs):
    if self.config is None:
        raise ConfigManagerNotLoadedException
    if d is not None:
        self.config.update(d)
    self.config.update(kwargs)


def section_from_files(cls, basepath):
    name = os.path.basename(os.path.abspath(basepath))
    if not os.path.exists(basepath):
        return cls([], name=name)
    files = [file for file in next(os.walk(basepath))[2] if file.endswith('.py')]
    folders = [folder for folder in next(os.walk(basepath))[1]
               if not folder.startswith('_') and not folder.startswith('.')]
    try:
        files.remove('section.py')
        config = ActiveFunctionConfig.from_file(os.path.join(basepath, 'section.py'), name=name)
    except ValueError:
        config = None
    configs = [ActiveFunctionConfigFile(os.path.join(basepath, file), name=without_py(file)) for file in files]
    configs += [ConfigSection.from_files(os.path.join(basepath, folder)) for folder in folders]
    return cls(configs, section_config=config, name=name)


def section_from_files_passing_errors_on(cls, basepath):
    name = os.path.basename(os.path.abspath(basepath))
    if not os.path.exists(basepath):
        return cls([], name=name)
    files = [file for file in next(os.walk(basepath))[2] if file.endswith('.py')]
    folders = [folder for folder in next(os.walk(basepath))[1]
               if not folder.startswith('_') and not folder.startswith('.')]
    config = None
    if 'section.py' in files:
        files.remove('section.py')
        config = ActiveFunctionConfig.from_file(os.path.join(basepath, 'section.py'), name=name)
    configs = [ActiveFunctionConfigFile(os.path.join(basepath, file), name=without_py(file)) for file in files]
    configs += [ConfigSection.from_files(os.path.join(basepath, folder)) for folder in folders]
    return cls(configs, section_config=config, name=name)


def without_py(filename_str):
    if filename_str.endswith('.py'):
        return filename_str[:-3]
    return filename_str


def active_load(self, config_class=None):
    values = self.interface.load()
    if config_class is None:
        config_class = ActiveFunctionConfig
    return config_class(d=values, imports=self.interface.imports, _file=self, name=self.name)


# ---- applying to what was loaded

def apply(obj, config):
    if isinstance(obj, partial):
        for name, value in config.items():
            if name in obj.keywords.keys():
                obj.keywords[name] = value
    else:
        accepted = function_args_as_dict(obj.__init__)
        relevant = {name: value for name, value in config.items() if name in accepted.keys()}
        try:
            func = obj._pyfileconf_update_
        except AttributeError:
            func = obj.__init__
        func(**relevant)
