"""What is recorded about operations and dependencies (reference definitions, only ever parsed)"""
from collections import defaultdict

from pyfileconf.pmcontext.actions import PyfileconfActions
from pyfileconf.pmcontext.stack import PyfileconfFrame, PyfileconfStack
from pyfileconf.sectionpath.sectionpath import SectionPath


def init(self, config_dependencies=None, active_managers=None, force_update_dependencies=None,
         file_is_currently_being_loaded=False, stack=None):
    self.config_dependencies = defaultdict(lambda: set()) if config_dependencies is None else config_dependencies
    self.active_managers = {} if active_managers is None else active_managers
    self.force_update_dependencies = defaultdict(lambda: set()) if force_update_dependencies is None \
        else force_update_dependencies
    self.stack = PyfileconfStack([]) if stack is None else stack


def reset(self):
    self.config_dependencies = defaultdict(lambda: set())
    self.active_managers = {}
    self.force_update_dependencies = defaultdict(lambda: set())
    self.stack = PyfileconfStack([])


def running(self):
    return self.stack.currently_running_section_path_str


def loading(self):
    return self.stack.file_is_currently_being_loaded


def add_dependency(self, dependent, depends_on, force_update=False):
    user = SectionPath.from_ambiguous(dependent)
    used = SectionPath.from_ambiguous(depends_on).path_str
    if user.path_str != used:
        self.config_dependencies[used].add(user)
        if force_update:
            self.force_update_dependencies[used].add(user)


def add_dependency_running(self, depends_on, force_update=False):
    if self.stack.currently_running_section_path_str is not None:
        add_dependency(self, self.stack.currently_running_section_path_str, depends_on, force_update=force_update)


def add_dependency_loading(self, dependent, depends_on, force_update=False):
    if self.stack.file_is_currently_being_loaded:
        add_dependency(self, dependent, depends_on, force_update=force_update)


# ---- the stack of operations

def frame_init(self, section_path, action, file_path=None):
    self.section_path = SectionPath.from_ambiguous(section_path)
    self.action = action
    self.file_path = file_path


def frame_from_file_path(cls, file_path, action):
    from pyfileconf import PipelineManager
    manager = PipelineManager.get_manager_by_filepath(file_path)
    path = SectionPath.from_filepath(manager.default_config_path, file_path)
    return cls(SectionPath.join(manager.name, path), action, file_path=file_path)


def stack_init(self, frames):
    self.frames = list(frames)


def add_frame(self, frame):
    self.frames.append(frame)


def pop_frame(self):
    return self.frames.pop(-1)


def add_running_item(self, section_path):
    self.add_frame(PyfileconfFrame(section_path, PyfileconfActions.RUN))


def running_path(self):
    frames = [frame for frame in self.frames if frame.action == PyfileconfActions.RUN]
    if frames:
        return frames[-1].section_path.path_str
    return None


def any_loading(self):
    return any(frame.action == PyfileconfActions.LOAD_FILE_EXECUTE for frame in self.frames)


def loading_path(self):
    frames = [frame for frame in self.frames if frame.action == PyfileconfActions.LOAD_FILE_EXECUTE]
    if frames:
        return frames[-1].section_path
    return None


def tracker_init(self, section_path_str=None, action=PyfileconfActions.RUN, file_path=None,
                 base_section_path_str=None):
    if section_path_str is None and file_path is None:
        raise ValueError
    if section_path_str is not None and base_section_path_str is not None:
        section_path_str = SectionPath.join(base_section_path_str, section_path_str).path_str
    self.section_path_str = section_path_str
    self.action = action
    self.file_path = file_path


def tracker_enter(self):
    from pyfileconf import context
    if self.section_path_str is None:
        frame = PyfileconfFrame.from_file_path(self.file_path, action=self.action)
    else:
        frame = PyfileconfFrame(self.section_path_str, self.action, file_path=self.file_path)
    context.stack.add_frame(frame)


def tracker_exit(self, exc_type, exc_val, exc_tb):
    from pyfileconf import context
    context.stack.pop_frame()
