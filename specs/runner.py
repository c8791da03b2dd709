"""What running, getting and changing items has to do (reference definitions, only ever parsed)"""
import inspect
from functools import partial
from typing import Any, Dict

from pyfileconf import context
from pyfileconf.basemodels.collection import Collection
from pyfileconf.config.logic.apply import apply_config
from pyfileconf.data.models.collection import SpecificClassCollection
from pyfileconf.exceptions.config import ConfigManagerNotLoadedException
from pyfileconf.logic.get import _get_public_name_or_special_name
from pyfileconf.pipelines.models.registrar import PipelineCollection
from pyfileconf.plugin import manager
from pyfileconf.pmcontext.actions import PyfileconfActions
from pyfileconf.pmcontext.stack import PyfileconfFrame
from pyfileconf.sectionpath.sectionpath import SectionPath
from pyfileconf.views.object import ObjectView


# ---- lookup

def lookup(self, section_path_str):
    """what is registered under a path: the registrar of the first section, else the general one"""
    path = SectionPath(section_path_str)
    for registrar in self._registrars:
        if registrar.name == path[0]:
            rest = SectionPath.from_section_str_list(path[1:]).path_str
            if rest:
                return registrar.get(rest)
            return registrar.collection
    return self._general_registrar.get(section_path_str)


def is_specific(self, obj):
    return self._all_specific_classes and isinstance(obj, self._all_specific_classes)


def config_of(self, section_path_str):
    config = self._config.get(section_path_str)
    if config is None:
        raise ConfigManagerNotLoadedException
    return config


def class_of(obj):
    if inspect.isclass(obj):
        return obj
    return obj.__class__


# ---- loading with config

def record_dependency(self, section_path_str):
    context.add_config_dependency_for_currently_running_item_if_exists(
        SectionPath.join(self._manager_name, section_path_str), force_update=True)


def loaded(self, section_path_str, obj):
    obj._section_path_str = SectionPath.join(self._manager_name, section_path_str).path_str
    self._loaded_objects[section_path_str] = obj
    record_dependency(self, section_path_str)
    return obj


def get_func(self, section_path_str):
    if section_path_str in self._loaded_objects:
        record_dependency(self, section_path_str)
        return self._loaded_objects[section_path_str]
    config = config_of(self, section_path_str)
    func = lookup(self, section_path_str)
    return loaded(self, section_path_str, partial(func, **config.for_function(func)))


def get_obj(self, section_path_str):
    if section_path_str in self._loaded_objects:
        record_dependency(self, section_path_str)
        return self._loaded_objects[section_path_str]
    item = lookup(self, section_path_str)
    config = config_of(self, section_path_str)
    args = config.for_function(class_of(lookup(self, section_path_str)))
    if inspect.isclass(item):
        obj = item(**args)
    else:
        obj = item
        apply_config(obj, args)
    return loaded(self, section_path_str, obj)


# ---- running: under a frame of the own full path, which is removed however the item ends

def run_func(self, section_path_str):
    context.stack.add_frame(PyfileconfFrame(
        SectionPath.join(self._manager_name, section_path_str).path_str, PyfileconfActions.RUN, file_path=None))
    try:
        config_of(self, section_path_str).for_function(lookup(self, section_path_str))
        func = get_func(self, section_path_str)
        result = func()
    finally:
        context.stack.pop_frame()
    record_dependency(self, section_path_str)
    return result


def run_class(self, section_path_str):
    context.stack.add_frame(PyfileconfFrame(
        SectionPath.join(self._manager_name, section_path_str).path_str, PyfileconfActions.RUN, file_path=None))
    try:
        config_of(self, section_path_str).for_function(lookup(self, section_path_str))
        obj = get_obj(self, section_path_str)
        result = obj()
    finally:
        context.stack.pop_frame()
    record_dependency(self, section_path_str)
    return result


def run_specific(self, section_path_str):
    context.stack.add_frame(PyfileconfFrame(
        SectionPath.join(self._manager_name, section_path_str).path_str, PyfileconfActions.RUN, file_path=None))
    try:
        config = config_of(self, section_path_str)
        klass = class_of(lookup(self, section_path_str))
        config.for_function(klass)
        obj = get_obj(self, section_path_str)
        registrar = self._specific_class_registrar_map[klass]
        result = getattr(obj, registrar.execute_attr)()
    finally:
        context.stack.pop_frame()
    record_dependency(self, section_path_str)
    return result


def run_section(self, section_path_str):
    results = []
    for entry in lookup(self, section_path_str):
        own_path = SectionPath.join(
            section_path_str, _get_public_name_or_special_name(entry, accept_output_names=False)).path_str
        item = entry
        if isinstance(entry, ObjectView):
            item = entry.item
        if isinstance(item, PipelineCollection):
            results.append(run_section(self, own_path))
        elif is_specific(self, item):
            results.append(run_specific(self, own_path))
        elif inspect.isclass(item):
            results.append(run_class(self, own_path))
        elif callable(item):
            results.append(run_func(self, own_path))
        else:
            raise ValueError
    return results


def run_one(self, section_path_str):
    item = lookup(self, section_path_str)
    if isinstance(item, PipelineCollection):
        return run_section(self, section_path_str)
    if is_specific(self, item):
        return run_specific(self, section_path_str)
    if inspect.isclass(item):
        return run_class(self, section_path_str)
    if callable(item):
        return run_func(self, section_path_str)
    raise ValueError


def run(self, section_path_str_or_list):
    if isinstance(section_path_str_or_list, str):
        result = run_one(self, section_path_str_or_list)
        extra = manager.plm.hook.pyfileconf_post_run(results=result, runner=self)
        if extra:
            return [result, *extra]
        return result
    if isinstance(section_path_str_or_list, list):
        results = [run_one(self, path) for path in section_path_str_or_list]
        extra = manager.plm.hook.pyfileconf_post_run(results=results, runner=self)
        if extra:
            results.extend(extra)
        return results
    raise ValueError


# ---- getting

def get_section(self, section_path_str):
    section = lookup(self, section_path_str)
    if any(isinstance(item, Collection) for item in section):
        results = {}
    else:
        results = []
    for entry in section:
        item = entry
        if isinstance(entry, ObjectView):
            item = entry.item
        if is_specific(self, item):
            name = section.name_for_obj(entry)
        else:
            name = _get_public_name_or_special_name(entry, accept_output_names=False)
        own_path = SectionPath.join(section_path_str, name).path_str
        if isinstance(item, Collection):
            assert isinstance(results, dict)
            results[item.name] = get_section(self, own_path)
        elif isinstance(results, dict):
            raise ValueError
        elif is_specific(self, item):
            results.append(get_obj(self, own_path))
        elif callable(item):
            results.append(get_func(self, own_path))
        else:
            raise ValueError
    return results


def get(self, section_path_str):
    item = lookup(self, section_path_str)
    if isinstance(item, Collection):
        return get_section(self, section_path_str)
    if is_specific(self, item):
        return get_obj(self, section_path_str)
    if inspect.isclass(item):
        return get_obj(self, section_path_str)
    if callable(item):
        return get_func(self, section_path_str)
    raise ValueError


def getattr_(self, item):
    path = self._full_getattr + item
    self._full_getattr = path
    try:
        found = lookup(self, path)
    except Exception:
        self._full_getattr = ''
        raise
    if isinstance(found, (PipelineCollection, SpecificClassCollection)):
        self._full_getattr = path + '.'
        return self
    self._full_getattr = ''
    return self.get(path)


# ---- changing

def update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    config, changed = self._config.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
    if changed and section_path_str in self._loaded_objects:
        apply_config(self._loaded_objects[section_path_str], config)
        self._config.track_post_update(config, section_path_str, {**(d_ if d_ is not None else {}), **kwargs})


def reset(self, section_path_str=None, allow_create=False):
    default, changed = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
    if changed and section_path_str in self._loaded_objects:
        apply_config(self._loaded_objects[section_path_str], default)
        self._config.track_post_update(default, section_path_str, default)


def refresh(self, section_path_str):
    config, changed, updates = self._config.refresh(section_path_str)
    if changed and section_path_str in self._loaded_objects:
        current = config_of(self, section_path_str)
        apply_config(self._loaded_objects[section_path_str], current)
        self._config.track_post_update(current, section_path_str, updates)
