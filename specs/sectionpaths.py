"""What section paths mean (reference definitions, only ever parsed)"""
import os

from pyfileconf.sectionpath.sectionpath import SectionPath
from pyfileconf.selector.models.itemview import is_item_view


def init(self, section_path):
    self.path_str = section_path
    self.sections = section_path.split('.')


def iter_(self):
    for section in self.sections:
        yield section


def getitem(self, item):
    return self.sections[item]


def len_(self):
    return len(self.sections)


def from_filepath(cls, basepath, filepath):
    parts = os.path.relpath(filepath, start=basepath).split(os.path.sep)
    if parts[-1].endswith('.py'):
        parts[-1] = parts[-1][:-3]
    return cls('.'.join(parts))


def from_list(cls, section_strs):
    return cls('.'.join(section_strs))


def from_ambiguous(cls, item, strip_manager_from_iv=False, base_section_path_str=None):
    result = None
    if is_item_view(item):
        path = cls(item.section_path_str)
        if strip_manager_from_iv:
            result = cls.from_section_str_list(path[1:])
        else:
            result = path
    if isinstance(item, cls):
        result = item
    elif isinstance(item, str):
        result = cls(item)
    if result is None:
        raise ValueError
    if base_section_path_str is not None:
        return SectionPath.join(base_section_path_str, result)
    return result


def list_from_ambiguous(cls, items, base_section_path_str=None, strip_manager_from_iv=False):
    if not isinstance(items, (list, tuple)):
        items = [items]
    return [SectionPath.from_ambiguous(item, strip_manager_from_iv=strip_manager_from_iv,
                                       base_section_path_str=base_section_path_str) for item in items]


def as_path(value):
    if isinstance(value, SectionPath):
        return value
    if isinstance(value, str):
        return SectionPath(value)
    raise ValueError


def join(cls, section_path_1, section_path_2):
    return cls.from_section_str_list(as_path(section_path_1).sections + as_path(section_path_2).sections)


def to_filepath(self, basepath):
    return os.path.join(basepath, os.path.sep.join(self.sections))


def endswith(self, sp):
    if len(sp) > len(self):
        return False
    for i, part in enumerate(self[-len(sp):]):
        if part != sp[i]:
            return False
    return True


def eq(self, other):
    try:
        return self.path_str == other.path_str
    except AttributeError:
        return False


def hash_(self):
    return hash(self.path_str)
