"""How assignments, imports and source text are taken apart and put together (reference definitions, only parsed)"""
import ast
from copy import deepcopy

import astor

from pyfileconf.assignments.models.container import AssignmentStatementContainer
from pyfileconf.assignments.models.statement import AssignmentStatement
from pyfileconf.exceptions.assignments import CouldNotExtractAssignmentFromAstException
from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from, get_imported_obj_variable_name
from pyfileconf.io.file.load.parsers.assign import (
    AssignmentByVarnameExtractor, AssignmentExtractor, extract_assignment_from_ast, extract_assignments_from_ast,
    extract_assignments_from_ast_by_name)
from pyfileconf.io.file.load.parsers.collections import AstDictListConverter, extract_collections_from_ast
from pyfileconf.io.file.load.parsers.extname import NameExtractor
from pyfileconf.io.file.load.parsers.funcdef import (
    FunctionDefinitionByNameExtractor, FunctionDefinitionExtractor, FunctionDefinitionOrClassInitByNameExtractor,
    extract_function_definitions_from_ast_by_name, extract_function_definitions_or_class_inits_from_ast_by_name)
from pyfileconf.io.file.load.parsers.imp import ImportExtractor, extract_imports_from_ast
from pyfileconf.io.file.load.parsers.kwargs import (
    KeywordByNameExtractor, KeywordExtractor, extract_keywords_from_ast)
from pyfileconf.io.file.write.asttosource import ast_node_to_source
from pyfileconf.imports.models.statements.container import ImportStatementContainer
from pyfileconf.imports.models.statements.module import ModuleImportStatement
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
from pyfileconf.logic.inspect import _is_builtin
from pyfileconf.selector.models.itemview import is_item_view
from pyfileconf.selector.models.selector import _is_selector


# ---- containers of statements

def c_getitem(self, item):
    return self.items[item]


def c_contains(self, item):
    return item in self.items


def c_len(self):
    return len(self.items)


def c_add(self, other):
    if isinstance(other, type(self)):
        return type(self)(self.items + other.items)
    raise TypeError


def c_append(self, item):
    self.items.append(item)


def c_extend(self, items):
    self.items.extend(items)


def c_insert(self, index, item):
    self.items.insert(index, item)


def c_copy(self):
    return deepcopy(self)


def add_if_missing(self, item):
    if getattr(item, 'prefer_beginning', False):
        self.insert_if_missing(0, item)
    else:
        self.append_if_missing(item)


def append_if_missing(self, item):
    if item not in self:
        self.append(item)


def insert_if_missing(self, index, item):
    if item not in self:
        self.insert(index, item)


# ---- assignments

def assigns_init(self, items):
    self.items = items


def assigns_text(self):
    return ''.join([str(assign) for assign in self])


def contains_varname(self, varname):
    return any([assign.varname == varname for assign in self])


def all_defaults_and_annotations(self):
    defaults = {}
    annotations = {}
    for assign in self.items:
        one_default, one_annotation = assign.to_default_dict_and_annotation_dict()
        defaults.update(one_default)
        annotations.update(one_annotation)
    return defaults, annotations


def from_names_and_asts(cls, assignment_dict, annotation_dict=None, preferred_position=None):
    if annotation_dict is None:
        annotation_dict = {}
    assigns = []
    for name, value in assignment_dict.items():
        assigns.append(AssignmentStatement.from_varname_and_ast_value(
            name, value=value, annotation=annotation_dict[name] if name in annotation_dict else None,
            preferred_position=preferred_position))
    return cls(assigns)


def assign_init(self, target, value, annotation=None, preferred_position=None):
    self.target = target
    self.varname = target.id if isinstance(target, ast.Name) else ast_node_to_source(target)
    self.value = value
    self.annotation = annotation
    self.preferred_position = preferred_position
    self.created_from_str = False
    self.orig_str = None


def assign_text(self):
    if self.created_from_str:
        return self.orig_str
    return ast_node_to_source(self.to_ast())


def assign_equal(self, other):
    if not isinstance(other, AssignmentStatement):
        if not isinstance(other, (ast.Assign, ast.AnnAssign)):
            return False
        other = AssignmentStatement.from_ast_assign(other)
    if self.varname != other.varname:
        return False
    if ast_node_to_source(self.value) != ast_node_to_source(other.value):
        return False
    return True


def from_ast_assign(cls, ast_assign, preferred_position=None):
    if isinstance(ast_assign, ast.Assign):
        if len(ast_assign.targets) > 1:
            raise NotImplementedError
        return cls(ast_assign.targets[0], ast_assign.value, None, preferred_position=preferred_position)
    if isinstance(ast_assign, ast.AnnAssign):
        return cls(ast_assign.target, ast_assign.value, ast_assign.annotation, preferred_position=preferred_position)
    raise ValueError


def to_ast(self):
    if self.annotation is None:
        return ast.Assign(targets=[self.target], value=self.value)
    return ast.AnnAssign(target=self.target, value=self.value, annotation=self.annotation, simple=1)


def from_name_and_ast(cls, varname, value, annotation=None, preferred_position=None):
    return cls(ast.Name(id=varname, ctx=ast.Store()), value=value, annotation=annotation,
               preferred_position=preferred_position)


def assign_from_str(cls, assign_str, preferred_position=None):
    assign = extract_assignment_from_ast(ast.parse(assign_str))
    if assign is None:
        raise CouldNotExtractAssignmentFromAstException
    assign.preferred_position = preferred_position
    assign.created_from_str = True
    assign.orig_str = assign_str
    return assign


def node_to_source(ast_node):
    if not isinstance(ast_node, ast.Module):
        ast_node = ast.Module([ast_node])
    ast.fix_missing_locations(ast_node)
    return astor.to_source(ast_node)


# ---- values as text

def assignment_repr(value, module_strs=None):
    if _is_selector(value):
        return 'Selector()'
    if is_item_view(value):
        return f's.{value.section_path_str}'
    try:
        return value.__name__
    except (AttributeError, KeyError):
        pass
    if _is_builtin(value):
        if isinstance(value, str):
            return f"r'{value}'"
        return value
    if module_strs is None:
        return value
    found = get_module_and_name_imported_from(value, module_strs)
    if found is None:
        return None
    return get_imported_obj_variable_name(value, found[0])


# ---- parsing

def assign_extractor_init(self):
    self.assigns = AssignmentStatementContainer([])


def visit_assign(self, node):
    self.assigns.append(AssignmentStatement.from_ast_assign(node))


def extract_assigns(module):
    extractor = AssignmentExtractor()
    extractor.visit(module)
    return extractor.assigns


def extract_assign(module):
    assigns = extract_assignments_from_ast(module)
    if len(assigns) == 0:
        return None
    if len(assigns) > 1:
        raise ValueError
    return assigns[0]


def named_assign_extractor_init(self, varname):
    self.varname = varname
    super().__init__()


def visit_assign_named(self, node):
    if self.varname in [target.id for target in node.targets]:
        super().visit_Assign(node)


def visit_ann_assign_named(self, node):
    if node.target.id == self.varname:
        super().visit_AnnAssign(node)


def extract_assigns_by_name(module, name):
    extractor = AssignmentByVarnameExtractor(name)
    extractor.visit(module)
    return extractor.assigns


def extract_assign_by_name(module, name):
    assigns = extract_assignments_from_ast_by_name(module, name)
    if len(assigns) == 0:
        return None
    if len(assigns) > 1:
        raise ValueError
    return assigns[0]


def collection_converter_init(self, convert_str_values=False):
    self.collections = []
    self.convert_str_values = convert_str_values


def visit_dict(self, node):
    self.collections.append(dict_to_dict(node, convert_str_values=self.convert_str_values))


def visit_list(self, node):
    self.collections.append(list_to_list(node, convert_str_values=self.convert_str_values))


def extract_collections(ast_node, convert_str_values=False):
    converter = AstDictListConverter(convert_str_values=convert_str_values)
    converter.visit(ast_node)
    return converter.collections


def extract_collection(ast_node, convert_str_values=False):
    collections = extract_collections_from_ast(ast_node=ast_node, convert_str_values=convert_str_values)
    if len(collections) == 0:
        return None
    if len(collections) > 1:
        raise ValueError
    return collections[0]


def any_to_collection(node, convert_str_values=False):
    if isinstance(node, ast.Dict):
        return dict_to_dict(node, convert_str_values=convert_str_values)
    if isinstance(node, ast.List):
        return list_to_list(node, convert_str_values=convert_str_values)
    raise ValueError


def dict_to_dict(ast_dict, convert_str_values=False):
    result = {}
    for key, value in zip(ast_dict.keys, ast_dict.values):
        if isinstance(value, (ast.Dict, ast.List)):
            result[key.s] = any_to_collection(value, convert_str_values=convert_str_values)
        else:
            result[key.s] = plain_or_text(value, convert_desired=convert_str_values)
    return result


def list_to_list(ast_list, convert_str_values=False):
    result = []
    for value in ast_list.elts:
        if isinstance(value, (ast.Dict, ast.List)):
            result.append(any_to_collection(value, convert_str_values=convert_str_values))
        else:
            result.append(plain_or_text(value, convert_desired=convert_str_values))
    return result


def plain_or_text(ast_node, convert_desired=False):
    if convert_desired and isinstance(ast_node, ast.Str):
        return ast_node.s
    return ast_node


def name_extractor_init(self):
    self.names = []


def visit_name(self, node):
    self.names.append(node.id)


def extract_name(ast_node):
    extractor = NameExtractor()
    extractor.visit(ast_node)
    if len(extractor.names) == 0:
        return None
    if len(extractor.names) > 1:
        raise ValueError
    return extractor.names[0]


def extract_unique_names(ast_node):
    extractor = NameExtractor()
    extractor.visit(ast_node)
    return list(set(extractor.names))


def dict_of_ast(ast_dict):
    if isinstance(ast_dict, ast.Dict):
        result = {}
        for key, value in zip(ast_dict.keys, ast_dict.values):
            result[key.s] = value
        return result
    if isinstance(ast_dict, ast.Call):
        result = {}
        for key, value in extract_keywords_from_ast(ast_dict).items():
            result[key] = value
        return result
    raise ValueError


def def_extractor_init(self):
    self.defs = []


def visit_function_def(self, node):
    self.defs.append(node)


def visit_class_def(self, node):
    pass


def extract_defs(module):
    extractor = FunctionDefinitionExtractor()
    extractor.visit(module)
    return extractor.defs


def named_def_extractor_init(self, func_name):
    self.func_name = func_name
    super().__init__()


def visit_named_function_def(self, node):
    if node.name == self.func_name:
        super().visit_FunctionDef(node)


def extract_defs_by_name(module, name):
    extractor = FunctionDefinitionByNameExtractor(name)
    extractor.visit(module)
    return extractor.defs


def extract_def_by_name(module, name):
    defs = extract_function_definitions_from_ast_by_name(module, name)
    if len(defs) == 0:
        return None
    if len(defs) > 1:
        raise ValueError
    return defs[0]


def visit_named_class_def(self, node):
    if node.name == self.func_name:
        name = self.func_name
        self.func_name = '__init__'
        self.generic_visit(node)
        self.func_name = name


def extract_defs_or_inits_by_name(module, name):
    extractor = FunctionDefinitionOrClassInitByNameExtractor(name)
    extractor.visit(module)
    return extractor.defs


def extract_def_or_init_by_name(module, name):
    defs = extract_function_definitions_or_class_inits_from_ast_by_name(module, name)
    if len(defs) == 0:
        return None
    if len(defs) > 1:
        raise ValueError
    return defs[0]


def import_extractor_init(self):
    self.imports = ImportStatementContainer([])


def visit_import(self, node):
    self.imports.append(ModuleImportStatement.from_ast_import(node))


def visit_import_from(self, node):
    self.imports.append(ObjectImportStatement.from_ast_import_from(node))


def extract_imports(module):
    extractor = ImportExtractor()
    extractor.visit(module)
    return extractor.imports


def extract_obj_import(module):
    imports = extract_imports_from_ast(module)
    imp = single_import(imports)
    check_import_type(imp, ObjectImportStatement)
    return imp


def extract_module_import(module):
    imports = extract_imports_from_ast(module)
    imp = single_import(imports)
    check_import_type(imp, ModuleImportStatement)
    return imp


def single_import(import_container):
    if len(import_container) == 0:
        return None
    if len(import_container) > 1:
        raise ValueError
    return import_container[0]


def check_import_type(import_statement, enforce_type=ObjectImportStatement):
    from pyfileconf.exceptions.imports import ExtractedIncorrectTypeOfImportException
    if import_statement is not None and not isinstance(import_statement, enforce_type):
        raise ExtractedIncorrectTypeOfImportException


def keyword_extractor_init(self):
    self.kwargs = {}


def visit_keyword(self, node):
    self.kwargs[node.arg] = node.value
    self.generic_visit(node)


def extract_keywords(node):
    extractor = KeywordExtractor()
    extractor.visit(node)
    return extractor.kwargs


def named_keyword_extractor_init(self, name):
    self.name = name
    super().__init__()


def visit_named_keyword(self, node):
    if node.arg == self.name:
        super().visit_keyword(node)


def extract_keywords_by_name(node, name):
    extractor = KeywordByNameExtractor(name)
    extractor.visit(node)
    return extractor.kwargs


def text_node(string):
    return ast.Str(s=string)


def dict_call_node(d):
    return ast.Call(func=ast.Name(id='dict'), args=[],
                    keywords=[ast.keyword(arg=key, value=value) for key, value in d.items()])
