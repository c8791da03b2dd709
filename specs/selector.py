"""What selecting items has to do (reference definitions, only ever parsed)"""
import inspect
import warnings
from copy import deepcopy
from functools import partial
from typing import Callable

from pyfileconf.data.models.collection import SpecificClassCollection
from pyfileconf.exceptions.pipelinemanager import PipelineManagerNotLoadedException
from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
from pyfileconf.pipelines.models.collection import PipelineCollection
from pyfileconf.sectionpath.sectionpath import SectionPath
from pyfileconf.selector.logic.exc.typo import (
    ItemNotFoundException, handle_known_typo_after_pipeline_manager_name,
    handle_known_typo_at_end_of_section_path_str, handle_pipeline_manager_not_loaded_or_typo
)
from pyfileconf.selector.models.itemview import ItemView
from pyfileconf.selector.models.selector import Selector
from pyfileconf.views.object import ObjectView


# ---- selector

def selector_init(self):
    self._attach_to_pipeline_manager()
    self._load_structure()
    self._is_selector = True


def structure_of(managers):
    """the collections of every manager by name, and the general one"""
    result = {}
    for name, manager in managers.items():
        collections = {'_general': manager._general_registrar.collection}
        for registrar in manager._registrars:
            collections[registrar.collection.name] = registrar.collection
        result[name] = collections
    return result


def load_structure(self):
    self._structure = structure_of(self._managers)


def attach(self):
    from pyfileconf import context
    self._managers = context.active_managers


def locate(self, section_path_str):
    """the collection a full path belongs to, and the path in it (None: the whole manager or collection)"""
    path = SectionPath(section_path_str)
    manager = path[0]
    if len(path) == 1:
        return self._managers[manager], None
    if path[1] in self._managers[manager].specific_class_names:
        if len(path) == 2:
            return self._structure[manager][path[1]], None
        rest, name = path[2:], path[1]
    else:
        rest, name = path[1:], '_general'
    relative = SectionPath('.'.join(rest))
    return self._structure[manager][name], relative


def contains(self, item):
    from pyfileconf import context
    if not isinstance(item, (str, SectionPath)):
        warnings.warn('')
        return False
    collection, relative = self._get_collection_obj_and_relative_section_path_from_structure(item)
    if relative is None:
        return True
    try:
        result = collection.get(relative.path_str)
    except AttributeError:
        return False
    items = (Callable, ObjectView)
    if collection.klass is not None:
        items = items + (collection.klass,)
    if not isinstance(result, (SpecificClassCollection, PipelineCollection) + items):
        return False
    if context.file_is_currently_being_loaded and isinstance(result, items):
        context.add_config_dependency(context.stack.currently_loading_file_section_path, item)
    return True


def selector_getattr(self, item):
    return ItemView(item, self)


def selector_eq(self, other):
    try:
        return self._structure == other._structure
    except AttributeError:
        return False


def get_type(self, section_path_str):
    collection, relative = self._get_collection_obj_and_relative_section_path_from_structure(section_path_str)
    if relative is None:
        return collection
    result = _get_from_nested_obj_by_section_path(collection, relative)
    if isinstance(result, ObjectView):
        loaded = result.load()
        if inspect.isclass(loaded):
            return loaded
        return type(loaded)
    return type(result)


def real_item(self, item):
    from pyfileconf import context
    from pyfileconf.main import PipelineManager
    manager = PipelineManager.get_manager_by_section_path_str(item)
    relative = SectionPath('.'.join(SectionPath(item)[1:]))
    if context.file_is_currently_being_loaded:
        context.add_config_dependency(context.stack.currently_loading_file_section_path, item, force_update=True)
    return _get_from_nested_obj_by_section_path(manager, relative)


def set_attr_for_item(self, item, attr, value):
    path = SectionPath(item)
    relative = '.'.join(path[1:])
    self._managers[path[0]].update({attr: value}, section_path_str=relative)


def dir_for(self, section_path_str):
    collection, relative = self._get_collection_obj_and_relative_section_path_from_structure(section_path_str)
    if relative is None:
        return dir(collection)
    return dir(_get_from_nested_obj_by_section_path(collection, relative))


def selector_dir(self):
    return ['get_type'] + list(self._managers.keys())


def is_selector(obj):
    return getattr(obj, '_is_selector', False)


# ---- views of items

def view_init(self, section_path_str, selector=None):
    if selector is None:
        selector = Selector()
    self.section_path_str = section_path_str
    self._section_path_str = section_path_str
    self.selector = selector
    self._is_item_view = True


def view_getattr(self, item):
    full = self.section_path_str + '.' + item
    if full in self.selector:
        return ItemView(full, self.selector)
    try:
        actual = self.selector._get_real_item(self.section_path_str)
    except PipelineManagerNotLoadedException:
        return handle_pipeline_manager_not_loaded_or_typo(full, self.selector._managers)
    except RecursionError:
        return handle_known_typo_after_pipeline_manager_name(full)
    result = getattr(actual, item)
    record(self)
    return result


def record(self):
    from pyfileconf import context
    context.add_config_dependency_for_currently_running_item_if_exists(self.section_path_str, force_update=True)


def view_setattr(self, key, value):
    if key in ('section_path_str', 'selector', '_is_item_view', '_section_path_str'):
        super().__setattr__(key, value)
    else:
        self.selector._set_attr_for_item(self.section_path_str, key, value)


def view_dir(self):
    return ['type', 'item'] + self.selector._get_dir_for_section_path(self.section_path_str)


def view_call(self, *args, **kwargs):
    from pyfileconf import PipelineManager
    actual = self.selector._get_real_item(self.section_path_str)
    record(self)
    manager = PipelineManager.get_manager_by_section_path_str(self.section_path_str)
    name = SectionPath(self.section_path_str)[1]
    specific = name in manager._registrar_dict
    if isinstance(actual, partial):
        return actual(*args, **kwargs)
    if specific and isinstance(actual, classes(self)):
        actual._section_path_str = self.section_path_str
        execute_attr = class_map(self)[type(actual)].execute_attr
        return getattr(actual, execute_attr)(*args, **kwargs)
    try:
        owner = actual.__self__
        bound = True
    except AttributeError:
        owner = None
        bound = False
    if bound:
        if not isinstance(owner, classes(self)):
            raise ValueError
        owner._section_path_str = SectionPath.from_section_str_list(SectionPath(self.section_path_str)[:-1]).path_str
        return actual(*args, **kwargs)
    if inspect.isclass(actual):
        raise ValueError
    actual._section_path_str = self.section_path_str
    return actual


def view_deepcopy(self, memodict={}):
    return deepcopy(self.selector._get_real_item(self.section_path_str), memodict)


def view_eq(self, other):
    if not hasattr(other, 'section_path_str'):
        return False
    return self.section_path_str == other.section_path_str


def view_hash(self):
    return hash(self.section_path_str)


def view_class(self):
    return self.selector.get_type(self.section_path_str)


def view_item(self):
    return self.selector._get_real_item(self.section_path_str)


def view_record(self):
    record(self)


def class_map(self):
    result = {}
    for manager_name, collections in self.selector._structure.items():
        for name, collection in collections.items():
            if name != '_general':
                result[collection.klass] = collection
    return result


def classes(self):
    return tuple(class_map(self).keys())


def view_from_path(cls, section_path_str):
    path = SectionPath(section_path_str)
    view = Selector()
    if len(path) < 2:
        raise ValueError
    for part in path:
        view = getattr(view, part)
    return view


def is_view(obj):
    return getattr(obj, '_is_item_view', False) is True


# ---- errors

def not_loaded_or_typo(full_section_path_str, managers):
    if SectionPath(full_section_path_str)[0] in managers:
        raise ItemNotFoundException
    raise PipelineManagerNotLoadedException


def typo_after_manager(full_section_path_str):
    raise ItemNotFoundException


def typo_at_end(full_section_path_str):
    raise ItemNotFoundException
