"""What options, the log file and the capturing of standard output have to do (reference definitions)"""
import logging
import os
import sys
from logging.handlers import TimedRotatingFileHandler

from pyfileconf.logger.bind_stdout import StdoutLogger
from pyfileconf.logger.logger import CustomFormatter, add_file_handler, file_handler_is_active, logger, \
    remove_file_handler
from pyfileconf.opts import DEFAULT_OPTIONS, PyfileconfOption, PyfileconfOptions, options


def options_init(self, log_stdout=False, log_folder=None, log_file_rollover_freq='D', log_file_num_keep=0):
    self.log_stdout = log_stdout
    self.log_folder = log_folder
    self.log_file_rollover_freq = log_file_rollover_freq
    self.log_file_num_keep = log_file_num_keep


def option_init(self, name, callback=None):
    if callback is None:
        callback = PyfileconfOptions.option_callbacks.get(name)
    self.name = name
    self.callback = callback


def get_value(self):
    return getattr(options, self.name)


def set_value(self, val):
    before = getattr(options, self.name)
    setattr(options, self.name, val)
    if self.callback is not None and before != val:
        self.callback(self.name, val)


def default_value(self):
    return getattr(DEFAULT_OPTIONS, self.name)


def reset_one(self):
    self.value = self.default_value


def manager_init(self):
    self._options = []
    for attr in options.option_attrs:
        opt = PyfileconfOption(attr)
        setattr(self, attr, opt)
        self._options.append(opt)


def reset_all(self):
    for attr in options.option_attrs:
        getattr(self, attr).reset()


def reset_all_held(self):
    for option in self._options:
        option.reset()


def set_option(self, attr, value):
    option = getattr(self, attr)
    option.value = value
    return self


def set_options(self, updates):
    for attr, value in updates:
        option = getattr(self, attr)
        option.value = value
    return self


def reset_option(self, attr):
    getattr(self, attr).reset()


def reset_options(self, attrs):
    for attr in attrs:
        getattr(self, attr).reset()


def enter(self):
    return self


def exit_(self, exc_type, exc_val, exc_tb):
    self.reset()


# ---- log file

def folder_changed(name, value):
    if value is None or file_handler_is_active():
        remove_file_handler()
    if value is not None:
        add_file_handler()


def add_handler():
    if options.log_folder is None:
        raise ValueError
    if not os.path.exists(options.log_folder):
        os.makedirs(options.log_folder)
    handler = TimedRotatingFileHandler(
        os.path.join(options.log_folder, 'pyfileconf.log'), when=options.log_file_rollover_freq,
        backupCount=options.log_file_num_keep)
    handler.setLevel(logging.DEBUG)
    handler.setFormatter(CustomFormatter())
    logger.addHandler(handler)


def handler_active():
    for handler in logger.handlers:
        if isinstance(handler, TimedRotatingFileHandler):
            return True
    return False


def remove_handler():
    found = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
    if len(found) != 1:
        raise ValueError
    found[0].close()
    logger.handlers = [h for h in logger.handlers if h is not found[0]]


def remove_handler_by_logger():
    found = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
    if len(found) != 1:
        raise ValueError
    found[0].close()
    logger.removeHandler(found[0])


def remove_handler_then_close():
    found = [h for h in logger.handlers if isinstance(h, TimedRotatingFileHandler)]
    if len(found) != 1:
        raise ValueError
    logger.removeHandler(found[0])
    found[0].close()


# ---- standard output

def capture():
    replacement = StdoutLogger()
    sys.stdout = replacement
    try:
        yield replacement
    finally:
        sys.stdout = replacement.terminal


def capture_restoring_own():
    before = sys.stdout
    replacement = StdoutLogger()
    sys.stdout = replacement
    try:
        yield replacement
    finally:
        sys.stdout = before


def stdout_init(self):
    self.terminal = sys.stdout


def stdout_write(self, message):
    if message != '\n':
        logger.info(message)
