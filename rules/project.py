"""
Projections: which of the effects of a function a property is about. A projection maps an effect to True (it counts as
it is), to another effect (only some of it counts) or to False.
"""
from analyzer.state import Ev

from .lib import CONTEXT, STACK, ev_name


def only(*names):
    """calls, hooks and assignments by name, with everything they are given"""
    def keep(e):
        name = ev_name(e)
        name = name.removesuffix(' enter').removesuffix(' exit')
        return any(name == n or name.endswith('.' + n) or n.endswith('*') and n[:-1] in name for n in names)
    return keep


def user(e):
    return e.kind == 'call' and isinstance(e.name, tuple)


def stack(e):
    """frames which are added and removed, and where callables of the user are called in between"""
    name = ev_name(e)
    if name in (STACK + '.add_frame', STACK + '.pop_frame'):
        return True
    if user(e):
        return Ev('call', 'callable of the user', None, (), e.loc)
    return False


def dependencies(e):
    name = ev_name(e)
    return name.startswith(CONTEXT + '.add_config_dependency')


def hooks(e):
    return e.kind == 'hook'


ONLY_EVENTS = dict(returns=False, exceptions=False)


def project(keep, **options):
    return {None: dict(ONLY_EVENTS, keep=keep, **options)}
