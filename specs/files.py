"""What reading and writing the files of the user has to do (reference definitions, only ever parsed)"""
import ast
import importlib.util
import os
import sys
from importlib.abc import Loader
from types import ModuleType

from pyfileconf.assignments.models.container import AssignmentStatementContainer
from pyfileconf.config.logic.load import _split_lines_into_import_and_assignment
from pyfileconf.exceptions.imports import CouldNotImportException
from pyfileconf.imports.models.statements.container import ImportStatementContainer
from pyfileconf.io.file.load.active.userdef import get_user_defined_dict_from_filepath
from pyfileconf.io.file.load.parsers.assign import extract_assignment_from_ast_by_name, extract_assignments_from_ast
from pyfileconf.io.file.load.parsers.collections import extract_collection_from_ast
from pyfileconf.io.file.load.parsers.imp import extract_imports_from_ast
from pyfileconf.io.file.load.parsers.py import PythonFileParser
from pyfileconf.io.file.write.base import FileStr
from pyfileconf.io.file.write.config import ConfigFileStr
from pyfileconf.pmcontext.actions import PyfileconfActions
from pyfileconf.pmcontext.tracing import StackTracker


# ---- what a file becomes

def text_init(self, import_assignment_obj, existing_imports, existing_assigns, existing_body):
    self.file_str = self._create_str(import_assignment_obj=import_assignment_obj, existing_imports=existing_imports,
                                     existing_assigns=existing_assigns, existing_body=existing_body)


def config_text_init(self, config, existing_imports, existing_assigns, existing_body):
    super().__init__(config, existing_imports=existing_imports, existing_assigns=existing_assigns,
                     existing_body=existing_body)


def create_text(self, import_assignment_obj, existing_imports, existing_assigns, existing_body):
    imports, begin, end = self._combine_imports_get_new_assignments(
        import_assignment_obj, existing_imports=existing_imports, existing_assigns=existing_assigns)
    parts = [str(imports) + '\n', str(begin), '\n'.join(existing_body), str(end)]
    return '\n'.join([part for part in parts if part not in ('', None)])


def combine(self, import_assignment_obj, existing_imports, existing_assigns):
    imports = existing_imports.copy()
    begin = AssignmentStatementContainer([])
    end = AssignmentStatementContainer([])
    wanted_imports, wanted_assigns = import_assignment_obj.as_imports_and_assignments()
    for imp in wanted_imports:
        imports.add_if_missing(imp)
    for assign in wanted_assigns:
        if existing_assigns.contains_varname(assign.varname):
            continue
        if getattr(assign, 'prefer_beginning', False):
            begin.append_if_missing(assign)
        else:
            end.append_if_missing(assign)
    return imports, begin, end


# ---- writing

def save_config(self, config):
    text = ConfigFileStr(config, existing_assigns=self.assigns, existing_imports=self.beginning_imports,
                         existing_body=self.assignment_body)
    with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
        f.write(text.file_str)


def save_dict(self, config):
    text = FileStr(config, existing_assigns=AssignmentStatementContainer([]), existing_imports=self.imports,
                   existing_body=[])
    with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
        f.write(text.file_str)


def save_active(self):
    raise NotImplementedError


# ---- reading without running

def loader_init(self, filepath):
    self.filepath = filepath


def register_lines(self):
    if os.path.exists(self.filepath):
        self._ast, self._body = PythonFileParser(self.filepath).load()
    else:
        self._ast, self._body = None, None


def get_ast(self):
    return self._try_getattr_else_register('_ast')


def get_body(self):
    return self._try_getattr_else_register('_body')


def get_or_register(self, attr):
    return self._try_getattr_else_call_func(attr, self.register)


def register(self):
    super().register()
    if self._ast is None:
        self._imports = ImportStatementContainer([])
        self._assigns = AssignmentStatementContainer([])
    else:
        self._imports = extract_imports_from_ast(self._ast)
        self._assigns = extract_assignments_from_ast(self._ast)


def get_imports(self):
    return self._try_getattr_else_register('_imports')


def get_assigns(self):
    return self._try_getattr_else_register('_assigns')


def load_config(self):
    super().register()
    with StackTracker(file_path=self.filepath, action=PyfileconfActions.LOAD_FILE_AST):
        self._file_body_to_assignment_body()
        values, annotations = self.assigns.to_default_dict_and_annotation_dict()
    return values, annotations


def get_assignment_body(self):
    return self._try_getattr_else_call_func('_assignment_body', self.load)


def get_beginning_imports(self):
    return self._try_getattr_else_call_func('_beginning_imports', self.load)


def split_body(self):
    if self.body is None:
        self._assignment_body = []
        self._beginning_imports = ImportStatementContainer([])
        return
    imports, rest = _split_lines_into_import_and_assignment(self.body)
    self._assignment_body = rest
    self._beginning_imports = extract_imports_from_ast(ast.parse('\n'.join(imports)))


def get_or_load(self, attr):
    return self._try_getattr_else_call_func(attr, self.load)


def load_class_assign(self):
    super().register()
    with StackTracker(file_path=self.filepath, action=PyfileconfActions.LOAD_PIPELINE_FILE_AST):
        self._class_dict_assign = extract_assignment_from_ast_by_name(self._ast, 'class_dict')


def get_class_assign(self):
    return self._try_getattr_else_load('_class_dict_assign')


def load_class_dict(self):
    super().load()
    self._class_dict_assign_to_dict()
    return self.class_dict


def get_class_dict(self):
    return self._try_getattr_else_load('_class_dict')


def convert_class_dict(self):
    self._class_dict = extract_collection_from_ast(self.class_dict_assign.to_ast(), convert_str_values=True)


def load_pipeline_assign(self):
    super().register()
    if self._ast is None:
        self._pipeline_dict_assign = None
    else:
        with StackTracker(file_path=self.filepath, action=PyfileconfActions.LOAD_PIPELINE_FILE_AST):
            self._pipeline_dict_assign = extract_assignment_from_ast_by_name(self._ast, 'pipeline_dict')


def get_pipeline_assign(self):
    return self._try_getattr_else_load('_pipeline_dict_assign')


def load_pipeline_dict(self):
    super().load()
    self._pipeline_dict_assign_to_dict()
    return self.pipeline_dict


def get_pipeline_dict(self):
    return self._try_getattr_else_load('_pipeline_dict')


def convert_pipeline_dict(self):
    if self.pipeline_dict_assign is None:
        self._pipeline_dict = {}
    else:
        self._pipeline_dict = extract_collection_from_ast(self.pipeline_dict_assign.to_ast())


# ---- running a file

def load_active(self):
    super().register()
    with StackTracker(file_path=self.filepath, action=PyfileconfActions.LOAD_FILE_EXECUTE):
        self._user_defined_dict = get_user_defined_dict_from_filepath(self.filepath)
    return self._user_defined_dict


def get_user_defined_dict(self):
    return self._try_getattr_else_call_func('_user_defined_dict', self.load)


def defined_in_file(filepath, module_name=None, remove_imports=False, imports=None):
    defined = defined_in_module(load_as_module(filepath, name=module_name))
    if not remove_imports:
        return defined
    if imports is None:
        raise ValueError
    return {k: v for k, v in defined.items() if imports.get_import_for_module_or_obj_name(k) is None}


def defined_in_module(module):
    return {k: v for k, v in module.__dict__.items() if not k.startswith('__') and not isinstance(v, ModuleType)}


def load_as_module(filepath, name='module.name'):
    add_to_sys = name is not None
    if not add_to_sys:
        name = 'module.name'
    spec = importlib.util.spec_from_file_location(name, filepath)
    module = importlib.util.module_from_spec(spec)
    if spec is None or spec.loader is None or not isinstance(spec.loader, Loader):
        raise CouldNotImportException
    spec.loader.exec_module(module)
    if add_to_sys:
        sys.modules[name] = module
    return module


def read_lines(self):
    with open(self.filepath, 'r', encoding='utf8') as f:
        lines = f.readlines()
    return lines


def read_python(self):
    lines = super().load()
    return ast.parse(''.join(lines)), lines


def file_parser_init(self, filepath):
    self.filepath = filepath


# ---- imports and the rest

def split_lines(lines, strip_lines=True):
    of_imports = beginning_import_lines(lines)
    imports = []
    rest = []
    beginning = True
    for i, line in enumerate(lines):
        if strip_lines:
            line = line.strip('\n')
        if beginning:
            if i in of_imports or is_blank(line):
                imports.append(line)
            else:
                beginning = False
        if not beginning:
            rest.append(line)
    return without_blank_end(imports), rest


def beginning_import_lines(lines):
    nodes = ast.parse('\n'.join(line.strip('\n') for line in lines)).body
    result = set()
    for i, node in enumerate(nodes):
        if not isinstance(node, (ast.Import, ast.ImportFrom)):
            break
        if i + 1 < len(nodes) and nodes[i + 1].lineno <= node.end_lineno:
            break
        result.update(range(node.lineno - 1, node.end_lineno))
    return result


def is_blank(line):
    return line.strip() == ''


def without_blank_end(lines):
    from copy import deepcopy
    if lines == []:
        return []
    backwards = deepcopy(lines)
    backwards.reverse()
    for i, line in enumerate(backwards):
        if not is_blank(line):
            break
    result = backwards[i:]
    result.reverse()
    return result
