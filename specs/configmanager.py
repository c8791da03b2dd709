"""What the store of active configuration has to do (reference definitions, only ever parsed)"""
import os
from typing import Any, Dict, Optional

from pyfileconf.basemodels.config import ConfigBase
from pyfileconf.config.models.file import ActiveFunctionConfigFile
from pyfileconf.config.models.section import ConfigSection, ActiveFunctionConfig
from pyfileconf.exceptions.config import ConfigManagerNotLoadedException, CannotResolveConfigDependenciesException
from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
from pyfileconf.logic.set import _set_in_nested_obj_by_section_path
from pyfileconf.plugin import manager
from pyfileconf.sectionpath.sectionpath import SectionPath


def own_config(self, section_path_str):
    """config of exactly this path, loaded from its file once and remembered"""
    if self.section is None:
        raise ConfigManagerNotLoadedException
    section_path = SectionPath(section_path_str)
    item = _get_from_nested_obj_by_section_path(self, section_path)
    if isinstance(item, ConfigSection):
        return item.config
    if isinstance(item, ActiveFunctionConfig):
        config = item
    elif isinstance(item, ActiveFunctionConfigFile):
        config = item.load(ActiveFunctionConfig)
    else:
        raise ValueError
    _set_in_nested_obj_by_section_path(self, section_path, config)
    return config


def addressed_config(self, section_path_str):
    if section_path_str is None:
        config = self.local_config
    else:
        config = own_config(self, section_path_str)
    if config is None:
        raise ConfigManagerNotLoadedException
    return config


def update(self, d_=None, section_path_str=None, pyfileconf_persist=True, **kwargs):
    config = addressed_config(self, section_path_str)
    changes = config.would_update({**(d_ if d_ is not None else {}), **kwargs})
    if changes:
        if section_path_str is not None:
            manager.plm.hook.pyfileconf_pre_config_changed(
                manager=self, orig_config=config, updates={**(d_ if d_ is not None else {}), **kwargs},
                section_path_str=section_path_str)
        config.update({**(d_ if d_ is not None else {}), **kwargs}, pyfileconf_persist=pyfileconf_persist)
    return config, changes


def refresh(self, section_path_str):
    config = addressed_config(self, section_path_str)
    changed = config.change_from_refresh()
    if changed:
        manager.plm.hook.pyfileconf_pre_config_changed(
            manager=self, orig_config=config, updates=changed, section_path_str=section_path_str)
        return config, True, config.refresh()
    return config, False, {}


def refresh_dependent_configs(self, section_path_str):
    from pyfileconf import context
    from pyfileconf import PipelineManager
    full = SectionPath.join(self.pipeline_manager_name, section_path_str)
    pending = {*context.force_update_dependencies[full.path_str]}
    done = set()
    while pending:
        for sp in pending:
            PipelineManager.get_manager_by_section_path_str(sp.path_str).refresh(
                SectionPath('.'.join(sp[1:])).path_str)
        done.update(pending)
        found = context.force_update_dependencies[full.path_str].difference(done)
        if pending == found:
            raise CannotResolveConfigDependenciesException(pending)
        pending = found


def track_post_update(self, config_, section_path_str, d=None, **updates):
    manager.plm.hook.pyfileconf_post_config_changed(
        manager=self, new_config=config_, updates={**(d if d is not None else {}), **updates},
        section_path_str=section_path_str)


def pop(self, key, section_path_str=None):
    return addressed_config(self, section_path_str).pop(key)


def reset(self, section_path_str=None, allow_create=False):
    if section_path_str is None:
        default = ActiveFunctionConfig()
    else:
        section_path = SectionPath(section_path_str)
        try:
            current = _get_from_nested_obj_by_section_path(self, section_path)
        except KeyError:
            if not allow_create:
                raise
            current = ActiveFunctionConfig()
        if isinstance(current, ConfigSection):
            default = ConfigSection.from_files(section_path.to_filepath(self.basepath))
        elif isinstance(current, (ActiveFunctionConfig, ActiveFunctionConfigFile)):
            default = ActiveFunctionConfig.from_file(section_path.to_filepath(self.basepath) + '.py')
        else:
            raise ValueError
    return self.set(section_path_str, default, allow_create=allow_create)


def store(self, section_path_str, value, allow_create):
    if self.section is None:
        raise ConfigManagerNotLoadedException
    section_path = SectionPath(section_path_str)
    if allow_create:
        obj = self
        for section in section_path[:-1]:
            try:
                obj = getattr(obj, section)
            except KeyError:
                obj.append(ConfigSection([], name=section))
                obj = getattr(obj, section)
        obj.append(value)
    else:
        _set_in_nested_obj_by_section_path(self, section_path, value)


def set_(self, section_path_str=None, value=None, allow_create=True):
    if value is None:
        value = ActiveFunctionConfig()
    if section_path_str is None:
        self.local_config = value
        return value, True
    try:
        current = own_config(self, section_path_str)
    except KeyError:
        store(self, section_path_str, value, allow_create)
        return value, True
    if current is None:
        store(self, section_path_str, value, allow_create)
        return value, True
    changes = current.would_update({**value})
    if changes:
        manager.plm.hook.pyfileconf_pre_config_changed(
            manager=self, orig_config=current, updates={**value}, section_path_str=section_path_str)
        store(self, section_path_str, value, allow_create)
    return value, changes


def get(self, section_path_str):
    config = own_config(self, section_path_str)
    overrides = [self.section.config]
    path = SectionPath(section_path_str)
    prefix = ''
    for section in path[:-1]:
        prefix += section
        overrides.append(own_config(self, prefix))
        prefix += '.'
    prefix += path[-1]
    last = _get_from_nested_obj_by_section_path(self, SectionPath(prefix))
    if isinstance(last, ConfigSection):
        overrides.append(own_config(self, prefix))
    elif not isinstance(last, (ActiveFunctionConfig, ActiveFunctionConfigFile)):
        raise ValueError
    if config:
        for override in overrides:
            config.update(override)
        config.update(self.local_config)
    return config


def get_by_slices(self, section_path_str):
    config = own_config(self, section_path_str)
    overrides = [self.section.config]
    sections = list(SectionPath(section_path_str))
    prefix = '.'.join(sections)
    last = _get_from_nested_obj_by_section_path(self, SectionPath(prefix))
    paths = ['.'.join(sections[:i]) for i in range(1, len(sections))]
    if isinstance(last, ConfigSection):
        paths.append(prefix)
    elif not isinstance(last, (ActiveFunctionConfig, ActiveFunctionConfigFile)):
        raise ValueError
    overrides.extend([own_config(self, path) for path in paths])
    if config:
        for override in overrides:
            config.update(override)
        config.update(self.local_config)
    return config


def get_by_slices_at_once(self, section_path_str):
    config = own_config(self, section_path_str)
    overrides = [self.section.config]
    sections = list(SectionPath(section_path_str))
    overrides.extend([own_config(self, '.'.join(sections[:i])) for i in range(1, len(sections))])
    prefix = '.'.join(sections)
    last = _get_from_nested_obj_by_section_path(self, SectionPath(prefix))
    if isinstance(last, ConfigSection):
        overrides.append(own_config(self, prefix))
    elif not isinstance(last, (ActiveFunctionConfig, ActiveFunctionConfigFile)):
        raise ValueError
    if config:
        for override in overrides:
            config.update(override)
        config.update(self.local_config)
    return config
