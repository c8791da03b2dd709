"""What names refer to, and how the settings of a function are taken from its definition (reference definitions)"""
import ast
import importlib
import inspect
import sys
import warnings
from importlib._bootstrap import _find_spec
from importlib.util import resolve_name

from pyfileconf.exceptions.imports import (
    CouldNotDetermineModuleForObjectException, CouldNotExtractModuleImportFromAstException,
    CouldNotExtractObjectImportFromAstException, CouldNotExtractRenameException, NoImportMatchingNameException,
    NoImportStatementException)
from pyfileconf.imports.logic.load.ext_importlib import find_spec, get_filepath_from_module_str
from pyfileconf.imports.logic.load.func import function_args_as_dict
from pyfileconf.imports.models.statements.comment import Comment
from pyfileconf.imports.models.statements.container import ImportStatementContainer
from pyfileconf.imports.models.statements.module import ModuleImportStatement
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
from pyfileconf.imports.models.statements.rename import RenameStatement, RenameStatementCollection
from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
from pyfileconf.io.file.load.parsers.extname import (
    extract_external_name_from_assign_value, extract_unique_external_names_from_assign_value)
from pyfileconf.io.file.load.parsers.funcdef import extract_function_definition_or_class_init_from_ast_by_name
from pyfileconf.io.file.load.parsers.imp import extract_module_import_from_ast, extract_obj_import_from_ast
from pyfileconf.io.file.load.parsers.kwargs import extract_keywords_from_ast_by_name
from pyfileconf.io.func.load.args import (
    extract_function_args_and_arg_imports_from_import, get_module_filepath_from_import)
from pyfileconf.io.func.load.config import FunctionConfigExtractor, function_args_as_arg_and_annotation_dict
from pyfileconf.io.func.load.extractimp import extract_import_statements_from_function_args_imports_and_assigns
from pyfileconf.logic.inspect import _is_str_matching_builtin_type
from pyfileconf.logic.userinput import _is_begin_str
from pyfileconf.pipelines.models.config import FunctionConfig


# ---- import statements

def obj_import_init(self, objs, module, renames=None, comment=None, preferred_position=None):
    self.objs = objs
    self.module = module
    self.renames = RenameStatementCollection([]) if renames is None else renames
    self.comment = comment
    self.preferred_position = preferred_position


def module_import_init(self, modules, renames=None, comment=None, preferred_position=None):
    self.modules = modules
    self.renames = RenameStatementCollection([]) if renames is None else renames
    self.comment = comment
    self.preferred_position = preferred_position


def obj_import_text(self):
    names = ', '.join(self._renamed)
    if self.comment is None:
        return f'from {self.module} import {names}'
    return f'from {self.module} import {names} {self.comment}'


def module_import_text(self):
    names = ', '.join(self._renamed)
    if self.comment is None:
        return f'import {names}'
    return f'import {names} {self.comment}'


def obj_import_from_str(cls, import_str, comment=None, preferred_position=None):
    imp = extract_obj_import_from_ast(ast.parse(import_str))
    if imp is None:
        raise CouldNotExtractObjectImportFromAstException
    imp.comment = comment
    imp.preferred_position = preferred_position
    return imp


def module_import_from_str(cls, import_str, renames=None, comment=None, preferred_position=None):
    imp = extract_module_import_from_ast(ast.parse(import_str))
    if imp is None:
        raise CouldNotExtractModuleImportFromAstException
    imp.comment = comment
    imp.preferred_position = preferred_position
    return imp


def obj_import_from_ast(cls, ast_import, preferred_position=None):
    renames = RenameStatementCollection.from_ast_import(ast_import)
    objs = [alias.name for alias in ast_import.names]
    if ast_import.module is None:
        raise CouldNotExtractObjectImportFromAstException
    return cls(objs, ast_import.module, renames, preferred_position=preferred_position)


def module_import_from_ast(cls, ast_import, preferred_position=None):
    renames = RenameStatementCollection.from_ast_import(ast_import)
    return cls([alias.name for alias in ast_import.names], renames, preferred_position=preferred_position)


def obj_import_file(self, import_section_path_str=None):
    return get_filepath_from_module_str(self.module, import_section_path_str)


def module_import_files(self, import_section_path_str=None):
    return {module: get_filepath_from_module_str(module, import_section_path_str) for module in self.modules}


def obj_import_execute(self, import_section_path_str=None):
    module = importlib.import_module(self.module, import_section_path_str)
    return [getattr(module, name) for name in self.objs]


def module_import_execute(self, import_section_path_str=None):
    return [importlib.import_module(name, import_section_path_str) for name in self.modules]


def single_module(self):
    if len(self.modules) > 1:
        raise ValueError
    return self.modules[0]


def renamed(self):
    if self.rename_attr is None:
        raise ValueError
    if self.renames is None:
        return getattr(self, self.rename_attr)
    names = []
    for item in dict.fromkeys(getattr(self, self.rename_attr)):
        if item in self._not_renamed:
            names.append(item)
        names.extend([str(rename) for rename in self.renames if rename.item == item])
    return names


def not_renamed(self):
    items = list(getattr(self, self.rename_attr))
    for rename in self.renames or []:
        if rename.item in items:
            items.remove(rename.item)
    return items


def rename_init(self, item, new_name):
    self.item = item
    self.new_name = new_name


def rename_text(self):
    return f'{self.item} as {self.new_name}'


def rename_from_alias(cls, alias):
    if alias.asname is None:
        raise CouldNotExtractRenameException
    return cls(alias.name, alias.asname)


def renames_init(self, items):
    self.items = items


def renames_contain(self, item):
    if isinstance(item, RenameStatement):
        return item in self.items
    return item in [rename.item for rename in self.items]


def renames_getitem(self, item):
    return self.item_map[item]


def new_names(self):
    return [rename.new_name for rename in self]


def orig_names(self):
    return [rename.item for rename in self]


def item_map(self):
    return {rename.item: rename for rename in self.items}


def reverse_name_map(self):
    return {rename.new_name: rename.item for rename in self.items}


def name_map(self):
    return {rename.item: rename.new_name for rename in self.items}


def renames_from_ast(cls, ast_import):
    return cls([RenameStatement.from_ast_alias(alias) for alias in ast_import.names if alias.asname is not None])


# ---- the imports of a file

def imports_init(self, items):
    self.items = items


def imports_contain(self, item):
    for imp in self:
        if isinstance(imp, type(item)) and item == imp:
            return True
        if isinstance(item, ModuleImportStatement) and isinstance(imp, ModuleImportStatement):
            if all([mod in imp._renamed for mod in item._renamed]):
                return True
        if isinstance(item, ObjectImportStatement) and isinstance(imp, ObjectImportStatement):
            if imp.module == item.module and all([obj in imp._renamed for obj in item._renamed]):
                return True
    return False


def imports_text(self):
    return '\n'.join([str(imp) for imp in self])


def import_for_ast(self, obj_ast):
    name = extract_external_name_from_assign_value(obj_ast)
    if name is None:
        return None
    return self.get_import_for_module_or_obj_name(name)


def import_for_name(self, name):
    for imp in self:
        if isinstance(imp, ModuleImportStatement):
            if name in imp._not_renamed:
                return ModuleImportStatement(modules=[name], renames=None)
            if name in imp.renames.new_names:
                renames = RenameStatementCollection([rename for rename in imp.renames if rename.new_name == name])
                return ModuleImportStatement(modules=[renames.reverse_name_map[name]], renames=renames)
            if self._submodules_imported_for(name):
                return ModuleImportStatement(modules=self._submodules_imported_for(name), renames=None)
        elif isinstance(imp, ObjectImportStatement):
            if name in imp._not_renamed:
                return ObjectImportStatement([name], module=imp.module, renames=None)
            if name in imp.renames.new_names:
                renames = RenameStatementCollection([rename for rename in imp.renames if rename.new_name == name])
                return ObjectImportStatement([renames.reverse_name_map[name]], module=imp.module, renames=renames)
    raise NoImportMatchingNameException


def submodules_for(self, name):
    return [mod for imp in self if isinstance(imp, ModuleImportStatement)
            for mod in imp._not_renamed if mod.startswith(name + '.')]


def name_is_imported(self, obj_name):
    parts = obj_name.split('.')
    if len(parts) != 1:
        module = '.'.join(parts[:-1])
        name = parts[-1]
    else:
        module = None
        name = obj_name
    for imp in self:
        if isinstance(imp, Comment):
            continue
        if isinstance(imp, ModuleImportStatement):
            if module is not None and (module in imp.modules or module in imp.renames.new_names):
                return True
        elif isinstance(imp, ObjectImportStatement):
            if name in imp.objs or name in imp.renames.new_names:
                return True
    return False


def imported_names(self):
    names = []
    for imp in self:
        if isinstance(imp, Comment):
            continue
        if isinstance(imp, ModuleImportStatement):
            names += imp.modules
            names += imp.renames.new_names
        elif isinstance(imp, ObjectImportStatement):
            names += imp.objs
            names += imp.renames.new_names
            names.append(imp.module)
    return list(set(names))


def imported_modules_of(self):
    modules = []
    for imp in self:
        if isinstance(imp, ObjectImportStatement):
            modules.append(imp.module)
        elif isinstance(imp, ModuleImportStatement):
            modules += imp.modules
    return modules


def imported_objs_of(self):
    objs = []
    for imp in self:
        if isinstance(imp, ObjectImportStatement):
            objs += imp.objs
    return objs


# ---- what a name in a pipeline dictionary stands for

def view_init(self, obj_ast, import_statement=None, section_path_str=None):
    self.obj_ast = obj_ast
    self.import_statement = import_statement
    self.section_path_str = section_path_str


def view_load(self):
    if self.import_statement is not None:
        self._item = executed(self.import_statement, self.name)
    return self._item


def executed(import_statement, obj_name):
    result = import_statement.execute()[0]
    if isinstance(import_statement, ObjectImportStatement):
        return result
    if isinstance(import_statement, ModuleImportStatement):
        return getattr(result, obj_name)
    raise ValueError


def view_output_name(self):
    try:
        return self._output_name
    except AttributeError:
        return self.name


def view_from_ast(cls, obj_ast, import_statements, section_path_str=None):
    return cls(obj_ast, import_statement=import_statements.get_import_for_ast_obj(obj_ast),
               section_path_str=section_path_str)


def view_set_name(self):
    name = extract_external_name_from_assign_value(self.obj_ast)
    if name == 'DataPipeline':
        self._output_name = extract_keywords_from_ast_by_name(self.obj_ast, 'name')['name'].s
    self._name = name


def view_set_config(self):
    self._default_config = FunctionConfigExtractor(self).extract_config(self.name)


def view_default_config(self):
    return self._try_getattr_else_call_func('_default_config', self._get_default_config)


def view_item(self):
    return self._try_getattr_else_call_func('_item', self.load)


def view_name(self):
    return self._try_getattr_else_call_func('_name', self._set_name)


# ---- the settings of a function

def args_of_view(self):
    return extract_function_args_and_arg_imports_from_import(
        self.object_view.name, self.object_view.import_statement, self.object_view.section_path_str)


def args_from_import(function_name, imp, import_section_path_str=None):
    if imp is None:
        raise NoImportStatementException
    filepath = get_module_filepath_from_import(imp, import_section_path_str)
    if function_name in imp.renames.new_names:
        function_name = imp.renames.reverse_name_map[function_name]
    loader = ImportAssignmentLazyLoader(filepath)
    definition = extract_function_definition_or_class_init_from_ast_by_name(loader.ast, function_name)
    if definition is not None:
        if definition.name == '__init__':
            del definition.args.args[0]
        imports = extract_import_statements_from_function_args_imports_and_assigns(
            definition.args, loader.imports, loader.assigns, imp.module)
        return definition.args, imports
    following = loader.imports.get_import_for_module_or_obj_name(function_name)
    if following is None:
        raise ValueError
    if import_section_path_str is None:
        section_path = None
    elif following.module.startswith('.'):
        section_path = resolve_name(following.module, import_section_path_str)
    else:
        section_path = following.module
    return extract_function_args_and_arg_imports_from_import(
        function_name, imp=following, import_section_path_str=section_path)


def file_of_import(imp, import_section_path_str):
    if imp is None:
        return None
    if isinstance(imp, ObjectImportStatement):
        return imp.get_module_filepath(import_section_path_str)
    if isinstance(imp, ModuleImportStatement):
        return imp.get_module_filepaths(import_section_path_str)[imp.modules[0]]
    raise ValueError


def config_of_function(self, name=None):
    args, imports = super().extract_args()
    defaults, annotations = function_args_as_arg_and_annotation_dict(args)
    return FunctionConfig(defaults, annotations=annotations, name=name, imports=imports)


def signature(args):
    missing = len_or_none(args.args) - len_or_none(args.defaults)
    defaults = [ast.NameConstant(value=None)] * missing + list_or_none(args.defaults)
    assert len(defaults) == len_or_none(args.args)
    values = {}
    annotations = {}
    for i, arg in enumerate(args.args):
        values[arg.arg] = defaults[i]
        if arg.annotation is not None:
            annotations[arg.arg] = unquoted(arg.annotation)
    for i, arg in enumerate(args.kwonlyargs):
        if args.kw_defaults[i] is None:
            values[arg.arg] = ast.NameConstant(value=None)
        else:
            values[arg.arg] = args.kw_defaults[i]
        if arg.annotation is not None:
            annotations[arg.arg] = unquoted(arg.annotation)
    return values, annotations


def len_or_none(section):
    if section is None:
        return 0
    return len(section)


def list_or_none(section):
    if section is None:
        return []
    return list(section)


def unquoted(node):
    if isinstance(node, ast.Str):
        return ast.Name(node.s)
    return node


def imports_of_signature(args, imports, assigns, current_module_section_path_str):
    defaults, annotations = function_args_as_arg_and_annotation_dict(args)
    names = external_names(defaults, annotations)
    result = ImportStatementContainer([])
    for name in names:
        if assigns.contains_varname(name):
            result.append(ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}'))
    for name in names:
        try:
            imp = imports.get_import_for_module_or_obj_name(name)
        except NoImportMatchingNameException:
            continue
        if imp is not None:
            result.append(imp)
    return result


def external_names(default_dict, annotation_dict):
    names = external_names_of_values(default_dict)
    names += external_names_of_annotations(annotation_dict)
    return list(set(names))


def external_names_of_values(assignment_dict):
    names = []
    for key, value in assignment_dict.items():
        names.extend(extract_unique_external_names_from_assign_value(value))
    return list(set([name for name in names if name is not None]))


def external_names_of_annotations(annotation_dict):
    return [name for name in annotation_names(annotation_dict) if not _is_str_matching_builtin_type(name)]


def annotation_names(annotation_dict):
    names = []
    for value in annotation_dict.values():
        names.extend(names_of_annotation(value))
    return list(set(names))


def names_of_annotation(annotation):
    names = []
    if isinstance(annotation, ast.Name):
        names.append(annotation.id)
    elif hasattr(annotation, 'elts'):
        names.extend(names_of_tuple(annotation))
    elif isinstance(annotation, ast.Index):
        names.extend(names_of_annotation(annotation.value))
    elif isinstance(annotation, ast.Subscript):
        names.extend(names_of_subscript(annotation))
    elif isinstance(annotation, ast.Attribute):
        names.append(annotation.value.id)
    elif isinstance(annotation, ast.Str):
        names.append(annotation.s)
    else:
        raise NotImplementedError
    return names


def names_of_subscript(subscript):
    names = []
    names.extend(names_of_annotation(subscript.value))
    names.extend(names_of_annotation(subscript.slice))
    return names


def names_of_tuple(tuple):
    names = []
    for item in tuple.elts:
        names.extend(names_of_annotation(item))
    return names


def len_of_section(section):
    if section is None:
        return 0
    return len(section)


def list_of_section(section):
    if section is None:
        return []
    return list(section)


def signature_of_object(func):
    args = inspect.getfullargspec(func)
    if inspect.ismethod(func):
        del args.args[0]
    missing = len_of_section(args.args) - len_of_section(args.defaults)
    defaults = [None] * missing + list_of_section(args.defaults)
    assert len(defaults) == len_of_section(args.args)
    values = {}
    for i, arg in enumerate(args.args):
        values[arg] = defaults[i]
    keyword_defaults = args.kwonlydefaults or {}
    for arg in args.kwonlyargs:
        values[arg] = keyword_defaults.get(arg)
    return values


def signature_of_class(klass):
    return {key: value for key, value in function_args_as_dict(klass.__init__).items() if key != 'self'}


# ---- modules

def module_of_object(obj, search_list=None):
    if search_list is None:
        search_list = list(sys.modules.keys())
    for module_name in search_list:
        if skipped(module_name):
            continue
        module = sys.modules[module_name]
        if obj_in_module(obj, module):
            return module, module_name
    raise CouldNotDetermineModuleForObjectException


def is_imported_name(name, search_list=None):
    if search_list is None:
        search_list = list(sys.modules.keys())
    for module_name in search_list:
        if skipped(module_name):
            continue
        if name_in_module(name, sys.modules[module_name]):
            return True
    return False


def is_imported_obj(obj, search_list=None):
    if search_list is None:
        search_list = list(sys.modules.keys())
    for module_name in search_list:
        if skipped(module_name):
            continue
        if obj_in_module(obj, sys.modules[module_name]):
            return True
    return False


def modules_with_name(name, search_list=None):
    if search_list is None:
        search_list = list(sys.modules.keys())
    result = []
    for module_name in search_list:
        if skipped(module_name):
            continue
        if name_in_module(name, sys.modules[module_name]):
            result.append(module_name)
    return result


def obj_in_module(obj, module):
    for key in dir(module):
        try:
            other = getattr(module, key)
        except AttributeError:
            continue
        if obj is other:
            return True
    return False


def name_in_module(name, module):
    return name in dir(module)


def filepath_of_module(module_str, location_section_path_str=None):
    spec = find_spec(module_str, package=location_section_path_str)
    if not spec.has_location:
        raise ValueError
    return spec.origin


def tracker_init(self):
    self.original_modules = list(sys.modules.keys())


def tracked_modules(self):
    return [module for module in list(sys.modules.keys()) if module not in self.original_modules]


def position(self):
    if self.prefer_beginning:
        return 'begin'
    return 'end'


def is_begin(self, begin_str):
    return _is_begin_str(begin_str)


def skipped(name):
    from pyfileconf.imports.logic.load.skipmodules import skip_modules
    from pyfileconf.sectionpath.sectionpath import SectionPath
    path = SectionPath(name)
    for skip_name in skip_modules:
        if path.endswith(SectionPath(skip_name)):
            return True
    return False
