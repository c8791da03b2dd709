"""What registering items under section paths and scaffolding their configs have to do (reference definitions)"""
import os
from copy import deepcopy

from pyfileconf.assignments.models.container import AssignmentStatementContainer
from pyfileconf.assignments.models.statement import AssignmentStatement
from pyfileconf.basemodels.collection import Collection
from pyfileconf.basemodels.config import ConfigBase
from pyfileconf.data.logic.convert import convert_to_empty_obj_if_necessary
from pyfileconf.data.models.astitems import ast_str
from pyfileconf.data.models.collection import SpecificClassCollection
from pyfileconf.data.models.config import SpecificClassConfig
from pyfileconf.imports.logic.load.klass import class_function_args_as_dict
from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from
from pyfileconf.imports.models.statements.module import ModuleImportStatement
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
from pyfileconf.io.file.write.asttosource import ast_node_to_source
from pyfileconf.io.func.load.args import extract_function_args_and_arg_imports_from_import
from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
from pyfileconf.exceptions.imports import ExtractedIncorrectTypeOfImportException
from pyfileconf.logic.get import _get_from_nested_obj_by_section_path, _get_public_name_or_special_name
from pyfileconf.pipelines.models.collection import PipelineCollection
from pyfileconf.pipelines.models.config import FunctionConfig
from pyfileconf.sectionpath.sectionpath import SectionPath, _strip_py
from pyfileconf.views.object import ObjectView


# ---- looking up and setting by path

def nested_get(obj, section_path, prevent_property_access=False):
    for section in section_path:
        try:
            if prevent_property_access and isinstance(getattr(type(obj), section), property):
                return 5
        except AttributeError:
            pass
        obj = getattr(obj, section)
    return obj


def public_name(obj, accept_output_names=True):
    if accept_output_names and hasattr(obj, 'output_name'):
        return obj.output_name
    if hasattr(obj, 'name'):
        return obj.name
    if hasattr(obj, '__name__'):
        return obj.__name__
    raise ValueError


def nested_set(obj, section_path, value):
    for section in section_path[:-1]:
        obj = getattr(obj, section)
    setattr(obj, section_path[-1], value)


# ---- registrar

def registrar_init(self, collection, basepath, name=None, always_import_strs=None, always_assign_strs=None, klass=None,
                   key_attr='name', execute_attr='__call__'):
    self.collection = collection
    self.basepath = basepath
    self.name = name
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs
    self.klass = klass
    self.key_attr = key_attr
    self.execute_attr = execute_attr


def registrar_getattr(self, item):
    return getattr(self.collection, item)


def registrar_from_dict(cls, dict_, basepath, name=None, imports=None, always_import_strs=None,
                        always_assign_strs=None, klass=None, key_attr='name', execute_attr='__call__'):
    collection = cls.collection_class.from_dict(
        dict_, basepath=basepath, name=name, imports=imports, always_assign_strs=always_assign_strs,
        always_import_strs=always_import_strs, klass=klass, key_attr=key_attr, execute_attr=execute_attr)
    return cls(collection, basepath=basepath, name=name, always_assign_strs=always_assign_strs,
               always_import_strs=always_import_strs, klass=klass, key_attr=key_attr, execute_attr=execute_attr)


def scaffold(self):
    self.collection._output_config_files()


def scaffold_for(self, section_path_str):
    _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str)[:-1])._output_config_files()


def registrar_get(self, section_path_str):
    return _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))


def registrar_set(self, section_path_str, value):
    target = self
    folder = self.basepath
    for section in SectionPath(section_path_str):
        folder = os.path.join(folder, section)
        try:
            target = getattr(target, section)
        except AttributeError:
            target.append(self.collection_class(
                folder, [], name=section, imports=self.imports, always_assign_strs=self.always_assign_strs,
                always_import_strs=self.always_import_strs, klass=self.klass, key_attr=self.key_attr,
                execute_attr=self.execute_attr))
            target = getattr(target, section)
    target.append(value)


def pipeline_registrar_get(self, section_path_str):
    found = super().get(section_path_str)
    if isinstance(found, PipelineCollection):
        return found
    return found.load()


# ---- collections

def collection_init(self, basepath, items, name=None, imports=None, always_import_strs=None, always_assign_strs=None,
                    klass=None, key_attr='name', execute_attr='__call__'):
    self.basepath = basepath
    self.imports = imports
    self.name = name
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs
    self.key_attr = key_attr
    self.execute_attr = execute_attr
    self.klass = klass
    self.items = [self._transform_item(item) for item in items]
    self._set_name_map()


def collection_get(self, section_path_str):
    obj = self
    for section in SectionPath(section_path_str):
        if not isinstance(obj, self.__class__):
            raise AttributeError
        obj = getattr(obj, section)
    return obj


def collection_getattr(self, item):
    try:
        return self.name_dict[item]
    except KeyError:
        raise AttributeError


def set_items(self, items):
    self._items = items
    self._set_name_map()


def append(self, item):
    self._items.append(item)
    self._set_name_map()


def extend(self, items):
    self._items.extend(items)
    self._set_name_map()


def name_for_obj(self, obj):
    for name, item in self.name_dict.items():
        if obj is item:
            return name
    raise ValueError


def from_dict(cls, dict_, basepath, name=None, imports=None, always_import_strs=None, always_assign_strs=None,
              klass=None, key_attr='name', execute_attr='__call__'):
    items = []
    for section, content in dict_.items():
        folder = os.path.join(basepath, section)
        if isinstance(content, dict):
            items.append(cls.from_dict(
                content, basepath=folder, name=section, imports=imports, always_assign_strs=always_assign_strs,
                always_import_strs=always_import_strs, klass=klass, key_attr=key_attr, execute_attr=execute_attr))
        elif isinstance(content, list):
            items.append(cls.from_list(
                content, basepath=folder, name=section, imports=imports, always_assign_strs=always_assign_strs,
                always_import_strs=always_import_strs, klass=klass, key_attr=key_attr, execute_attr=execute_attr))
    return cls(basepath=basepath, items=items, name=name, always_assign_strs=always_assign_strs,
               always_import_strs=always_import_strs, klass=klass, key_attr=key_attr, execute_attr=execute_attr)


def from_list(cls, list_, basepath, name=None, imports=None, always_import_strs=None, always_assign_strs=None,
              klass=None, key_attr='name', execute_attr='__call__'):
    items = []
    for element in list_:
        if isinstance(element, dict):
            for section, content in element.items():
                folder = os.path.join(basepath, section)
                if isinstance(content, dict):
                    items.append(cls.from_dict(
                        content, basepath=folder, name=section, imports=imports,
                        always_assign_strs=always_assign_strs, always_import_strs=always_import_strs, klass=klass,
                        key_attr=key_attr, execute_attr=execute_attr))
                elif isinstance(content, list):
                    items.append(cls.from_list(
                        content, basepath=folder, name=section, imports=imports,
                        always_assign_strs=always_assign_strs, always_import_strs=always_import_strs, klass=klass,
                        key_attr=key_attr, execute_attr=execute_attr))
                else:
                    items.append(content)
        else:
            items.append(element)
    return cls(basepath=basepath, items=items, name=name, imports=imports, always_assign_strs=always_assign_strs,
               always_import_strs=always_import_strs, klass=klass, key_attr=key_attr, execute_attr=execute_attr)


def class_collection_init(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    if self.klass is None:
        raise ValueError


def class_name_map(self):
    names = {}
    for item in self:
        if isinstance(item, SpecificClassCollection):
            names[item.name] = item
        else:
            names[getattr(item, self.key_attr)] = item
    self.name_dict = names


def class_transform(self, item):
    return convert_to_empty_obj_if_necessary(item, self.klass, key_attr=self.key_attr)


def function_name_map(self):
    names = {}
    for item in self:
        names[_get_public_name_or_special_name(item)] = item
    self.name_dict = names


def function_transform(self, item):
    if isinstance(item, PipelineCollection):
        return item
    return ObjectView.from_ast_and_imports(item, self.imports)


def empty_object(item, item_class, key_attr='name'):
    if isinstance(item, (item_class, SpecificClassCollection)):
        return item
    return item_class(**{**class_function_args_as_dict(item_class), key_attr: item})


# ---- scaffolding

def class_output_all(self):
    if not os.path.exists(self.basepath):
        os.makedirs(self.basepath)
    for item in self:
        self._output_config_file(item)


def class_output(self, item):
    if isinstance(item, SpecificClassCollection):
        return item._output_config_files()
    name = getattr(item, self.key_attr)
    path = os.path.join(self.basepath, name + '.py')
    if os.path.exists(path):
        imports = SpecificClassConfig.from_file(
            path, name=name, klass=self.klass, always_import_strs=self.always_import_strs,
            always_assign_strs=self.always_assign_strs)._file.interface.imports
    else:
        imports = None
    config = SpecificClassConfig(imports=imports, file_path=path, klass=self.klass,
                                 always_import_strs=self.always_import_strs,
                                 always_assign_strs=self.always_assign_strs)
    module, base = get_module_and_name_imported_from(self.klass)
    args, arg_imports = extract_function_args_and_arg_imports_from_import(
        self.klass.__name__, ObjectImportStatement([name], base))
    defaults, annotations = function_args_as_arg_and_annotation_dict(args)
    defaults[self.key_attr] = ast_str(name)
    config.update(defaults)
    config.annotations.update(annotations)
    config.imports.extend(arg_imports)
    config.to_file(path)


def function_output_all(self):
    if not os.path.exists(self.basepath):
        os.makedirs(self.basepath)
    self._output_section_config_file()
    for item in self:
        self._output_config_file(item)


def function_output(self, item):
    if isinstance(item, PipelineCollection):
        return item._output_config_files()
    if not isinstance(item, ObjectView):
        raise ValueError
    path = os.path.join(self.basepath, item.output_name + '.py')
    if os.path.exists(path):
        existing = FunctionConfig.from_file(path, item.output_name)
    else:
        existing = FunctionConfig()
    config = item.default_config.copy()
    config.update(existing)
    config.to_file(path)


def section_output(self):
    path = os.path.join(self.basepath, 'section.py')
    if os.path.exists(path):
        return
    with open(path, 'w') as f:
        f.write('\n')


# ---- config files

def file_init(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    self.interface = self.interface_class(filepath)
    self.filepath = filepath
    self.name = _strip_py(os.path.basename(filepath)) if name is None else name
    self.klass = klass
    self.always_import_strs = always_import_strs
    self.always_assign_strs = always_assign_strs


def file_load(self, config_class=None):
    values, annotations = self.interface.load()
    return (ConfigBase if config_class is None else config_class)(
        d=values, annotations=annotations, imports=self.interface.imports, _file=self, name=self.name,
        klass=self.klass, always_import_strs=self.always_import_strs, always_assign_strs=self.always_assign_strs)


def file_save(self, config):
    self._add_always_imports_and_assigns_to_config(config)
    self.interface.save(config)


def add_always(self, config):
    for statement in self.always_imports:
        config.imports.add_if_missing(statement)
    assigns = list(self.always_assigns)
    if self.name in self.always_assign_with_names_dict:
        assigns.extend(self.always_assign_with_names_dict[self.name])
    config.begin_assignments = AssignmentStatementContainer([a for a in assigns if a.prefer_beginning])
    defaults, annotations = AssignmentStatementContainer(
        [a for a in assigns if not a.prefer_beginning]).to_default_dict_and_annotation_dict()
    values = {key: value for key, value in defaults.items() if key not in config}
    types = {key: value for key, value in annotations.items() if key not in config.annotations}
    config.update(values)
    config.annotations.update(types)


def class_file_init(self, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    super().__init__(filepath, name=name, klass=klass, always_import_strs=always_import_strs,
                     always_assign_strs=always_assign_strs)
    if self.always_import_strs:
        statements = []
        for text in self.always_import_strs:
            try:
                statements.append(ObjectImportStatement.from_str(text))
            except ExtractedIncorrectTypeOfImportException:
                statements.append(ModuleImportStatement.from_str(text))
        self.always_imports = statements
    elif self.always_import_strs == []:
        self.always_imports = []
    if self.always_assign_strs:
        self.always_assigns = [AssignmentStatement.from_str(text) for text in self.always_assign_strs]
    elif self.always_assign_strs == []:
        self.always_assigns = []


def class_file_call(self, *args, **kwargs):
    return self.__class__(*args, **{
        'name': self.name, 'klass': self.klass, 'always_import_strs': self.always_import_strs,
        'always_assign_strs': self.always_assign_strs, **kwargs})


def class_file_load(self, config_class=None):
    values, annotations = self.interface.load()
    return (SpecificClassConfig if config_class is None else config_class)(
        d=values, annotations=annotations, imports=self.interface.imports, _file=self, name=self.name,
        klass=self.klass, always_import_strs=self.always_import_strs, always_assign_strs=self.always_assign_strs)


def function_file_save(self, config):
    if self.name == 'DataPipeline' and 'cleanup_kwargs' in config \
            and ast_node_to_source(config['cleanup_kwargs']) == 'None\n':
        config.pop('cleanup_kwargs')
    super().save(config)


def function_from_file(cls, filepath, name=None, klass=None, always_import_strs=None, always_assign_strs=None):
    return cls.config_file_class(filepath, name=name, klass=klass, always_import_strs=always_import_strs,
                                 always_assign_strs=always_assign_strs).load(cls)
