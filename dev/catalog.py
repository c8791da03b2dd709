"""python3 dev/catalog.py: writes properties.jsonl and MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = 'path-sensitive dataflow summaries compared with reference definitions'
WHOLE = 'whole-package query over the syntax tree and resolved names'


def prop(ident, title, statement, over, text, tests, files, mechanism, observe, technique=TECHNIQUE, note=None,
         state=None, hook=None):
    return dict(ident=ident, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                mechanism=mechanism, observe=observe, technique=technique, note=note, state=state, hook=hook)


MAIN = 'pyfileconf/main.py'
RUN = 'pyfileconf/runner/models/runner.py'
CONF = 'pyfileconf/config/models/manager.py'
BASE = 'pyfileconf/basemodels/config.py'
CTX = 'pyfileconf/pmcontext/main.py'

ALL = [
    prop('C01', 'Standard output is captured only when asked for and always given back',
         'While an item runs, what it prints goes to the log if and only if the option for capturing standard output '
         'is on. However the run ends, normally or with any exception, standard output is afterwards what it was '
         'before the run.',
         ['inputs', 'fault_sequences'],
         'for every item, every value of the option, every way in which the item ends, and every stream which is '
         'installed as standard output before the run',
         'The tests run one item which prints and returns; no test lets a captured item raise, or runs with a '
         'replaced stream.',
         [MAIN, 'pyfileconf/logger/bind_stdout.py'],
         [('context manager around the run', 'pyfileconf/logger/bind_stdout.py: stdout_also_logged'),
          ('choice by option', 'pyfileconf/main.py: PipelineManager._run_depending_on_settings')],
         ['sys.stdout after a run', 'records of the pyfileconf logger']),
    prop('C02', 'The record of running items and loading files mirrors the actual nesting',
         'At any moment the library knows which item is running and which file is being executed: the innermost one '
         'that has been started and not yet ended. Every item runs, and is configured for that run, under its own '
         'full path, and its entry is removed exactly once when it ends, normally or with an exception.',
         ['histories', 'fault_sequences'],
         'for every nesting of runs, gets and file loads across managers, and every point at which one of them raises',
         'The tests nest two items and never look at the record after an exception; any missing removal only shows '
         'in later, unrelated operations.',
         ['pyfileconf/pmcontext/stack.py', 'pyfileconf/pmcontext/tracing.py', RUN, CTX],
         [('frames added and removed by a context manager', 'pyfileconf/pmcontext/tracing.py: StackTracker'),
          ('runs inside of frames', 'pyfileconf/runner/models/runner.py: Runner._run_one_*')],
         ['context.stack.frames', 'context.currently_running_section_path_str'],
         state=[{'name': 'frames', 'meaning': 'operations which have begun and not ended', 'where':
                 'pyfileconf/pmcontext/stack.py: PyfileconfStack'}]),
    prop('C03', 'Every use of an item or config inside another item is recorded as a dependency',
         'When an item or the config of an item is obtained, run or accessed while another item runs or while the '
         'config file of another item is executed, the latter is recorded as depending on the former, also if the '
         'former was already loaded before. Uses which have to be followed by a refresh even if no config value '
         'changes are recorded as such in addition, nothing depends on itself, and nothing is recorded when nothing '
         'is running or loading.',
         ['histories', 'configurations'],
         'for every order of loads, gets and runs, for items of all kinds, in one or several managers',
         'The tests look at a handful of two-item set-ups with fresh managers; items which are already loaded, '
         'nested managers and repeated uses are not covered.',
         [CTX, RUN, MAIN],
         [('recording', 'pyfileconf/pmcontext/main.py: PyFileConfContext.add_config_dependency*'),
          ('calls on every way to an item', 'pyfileconf/runner/models/runner.py')],
         ['context.config_dependencies', 'context.force_update_dependencies'],
         state=[{'name': 'config_dependencies', 'meaning': 'which full paths have used a full path', 'where': CTX}]),
    prop('C04', 'A change of a config is propagated to everything that depends on it',
         'After the config of an item has changed, every item recorded as depending on it is refreshed, each once per '
         'change, by the manager it belongs to. This includes dependents which are only recorded during the '
         'propagation, and dependents recorded as needing a refresh in any case are refreshed even if their own '
         'config does not change.',
         ['histories', 'configurations'],
         'for every graph of dependencies between items of any number of managers and every sequence of changes',
         'Tests propagate along one or two edges between two items.',
         [CONF, 'pyfileconf/plugin/default_hooks.py', MAIN],
         [('propagation', 'pyfileconf/config/models/manager.py: ConfigManager.refresh_dependent_configs'),
          ('trigger', 'pyfileconf/plugin/default_hooks.py: pyfileconf_post_config_changed')],
         ['values of dependents after a change', 'calls of the change hooks']),
    prop('C05', 'Hooks about changes fire around every real change and only then',
         'Plugins are told before the config of an item changes by an update, reset or refresh, with the config as it '
         'was before, and after the change of an item that is loaded, with the new config, the actual updates and '
         'the full path of the item. When an operation changes nothing, neither is called.',
         ['histories', 'inputs'],
         'for every sequence of updates, resets and refreshes with any values on any item',
         'The tests register one plugin and make one change; they do not cover operations without effect or the '
         'order relative to the change.',
         [CONF, RUN],
         [('pre hook before each mutation', 'pyfileconf/config/models/manager.py: ConfigManager.update, reset, refresh'),
          ('post hook', 'pyfileconf/config/models/manager.py: ConfigManager.track_post_update')],
         ['calls of pyfileconf_pre_config_changed and pyfileconf_post_config_changed']),
    prop('C07', 'The config of an item is its own config on top of all enclosing sections',
         'The effective config of an item consists of the config of the project, then of each enclosing section from '
         'the outermost to the innermost, then of the item itself, where later ones override earlier ones. A path '
         'which has no config gives the config of nothing rather than of something else, and folders and files are '
         'read into sections of the same structure.',
         ['inputs', 'configurations'],
         'for every tree of config files and every path into it',
         'The tests use one or two levels of sections with few overlapping keys.',
         [CONF, 'pyfileconf/config/models/section.py'],
         [('merging from the root down', 'pyfileconf/config/models/manager.py: ConfigManager.get'),
          ('tree of files', 'pyfileconf/config/models/section.py: ConfigSection.from_files')],
         ['result of ConfigManager.get', 'arguments items are called with']),
    prop('C09', 'Persistent updates survive refreshes and others do not',
         'After a refresh the config of an item consists of what its file says now and, on top of it, of all updates '
         'which were made with persistence since the last reset. Updates without persistence and values of earlier '
         'versions of the file do not survive, and the choice of persistence is the one of the caller at every level '
         'of the interface.',
         ['histories'],
         'for every interleaving of persistent and transient updates, resets, refreshes and edits of the file',
         'The tests make one update and one refresh.',
         [BASE, CONF, MAIN],
         [('record of applied updates', 'pyfileconf/basemodels/config.py: ConfigBase'),
          ('re-reading', 'pyfileconf/basemodels/config.py: ConfigBase.refresh')],
         ['config values after refresh']),
    prop('C10', 'Operations which would not change a config do nothing, and comparing never fails',
         'An update, reset or refresh whose values equal the current ones has no effect at all: no hook, no refresh '
         'of dependents, no change of objects. Whether values differ is decided for all kinds of values without an '
         'exception, including data frames, arrays and objects whose comparison fails or has no single truth value.',
         ['inputs', 'histories'],
         'for every pair of old and new values of any type and each of the three operations',
         'The tests compare strings and numbers, and one data frame.',
         [BASE, CONF, RUN],
         [('comparison', 'pyfileconf/basemodels/config.py: ConfigBase.would_update, change_from_refresh'),
          ('early return', 'pyfileconf/config/models/manager.py: ConfigManager.update, reset, refresh')],
         ['calls of hooks', 'exceptions of update']),
    prop('C14', 'Loading, reloading and looking up managers is consistent',
         'A manager is found by its name or by any file below its folders while it exists, and by nothing afterwards. '
         'When loading a project fails, the error is passed on and no module which the failed load imported stays '
         'imported, and reloading first removes exactly the modules of the last load.',
         ['histories', 'fault_sequences'],
         'for every sequence of creating, loading, failing to load, reloading and deleting managers',
         'The tests load projects which work, one or two at a time.',
         [MAIN],
         [('registry', 'pyfileconf/main.py: PipelineManager.get_manager_by_*'),
          ('tracking of modules', 'pyfileconf/main.py: PipelineManager.load, reload')],
         ['context.active_managers', 'sys.modules']),
    prop('C15', 'Iterative runs cover each combination of the changes exactly once',
         'The cases are all combinations of one change per path out of the given ones, in the order given, as modified '
         'by plugins, and each case which should run is run exactly once with exactly its values applied on top of '
         'the values from before. Every result is paired with the case which produced it, the variant which yields '
         'results gives the same pairs, and the changes passed in are not modified.',
         ['inputs', 'histories', 'fault_sequences'],
         'for every list of changes over any number of paths and managers, and any cases which raise',
         'The tests use two paths and few values, and no case which fails.',
         ['pyfileconf/iterate.py', 'pyfileconf/plugin/default_hooks.py', MAIN],
         [('cases', 'pyfileconf/iterate.py: get_config_product, IterativeRunner.get_cases'),
          ('run of a case', 'pyfileconf/iterate.py: IterativeRunner._run_case')],
         ['results of run_product and run_product_gen', 'values the items receive']),
    prop('C16', 'Options take effect, reset to their defaults, and the log file follows them',
         'Every option has the value it was last set to, or its default after a reset or after leaving the options as '
         'a context, however the block ended; the defaults themselves never change. The log file exists exactly while '
         'a log folder is set, in the folder set last.',
         ['histories', 'fault_sequences'],
         'for every sequence of setting, resetting and context blocks over all options',
         'The tests set one option at a time and reset it.',
         ['pyfileconf/opts/__init__.py', 'pyfileconf/opts/filelog.py', 'pyfileconf/logger/logger.py'],
         [('table of options', 'pyfileconf/opts/__init__.py: PyfileconfOptions.option_attrs'),
          ('callback on change', 'pyfileconf/opts/filelog.py')],
         ['pyfileconf.options', 'handlers of the pyfileconf logger']),
    prop('C17', 'A path runs exactly the items it stands for',
         'Running a path runs the function, class or object registered under it, or each item of a section in order '
         'including nested sections, and returns the results in the same structure, followed by additional results of '
         'plugins. Each item runs with the config of its own path, objects run by the attribute their class is '
         'registered with, and anything which is not runnable is an error.',
         ['inputs', 'configurations'],
         'for every tree of registered items, specific classes and paths or lists of paths',
         'The tests run a few items and one section.',
         [RUN],
         [('dispatch', 'pyfileconf/runner/models/runner.py: Runner._run, _run_section')],
         ['result of run', 'items which were called']),
    prop('C18', 'An item is loaded once and every later config change reaches the loaded object',
         'Getting or running a path gives the same loaded object each time, created with the config of that path. '
         'Whenever that config changes by an update, reset or refresh, the loaded object has the new values, and no '
         'object of another path is touched.',
         ['histories'],
         'for every sequence of gets, runs and changes over items of all kinds',
         'The tests change one item once after loading it.',
         [RUN, 'pyfileconf/config/logic/apply.py'],
         [('cache', 'pyfileconf/runner/models/runner.py: Runner._loaded_objects'),
          ('application', 'pyfileconf/config/logic/apply.py: apply_config')],
         ['identity and attributes of results of get']),
    prop('C19', 'Operations on full paths reach the right item of the right manager',
         'An operation on a path with a manager name, a path within a manager or an item view is carried out by the '
         'manager which the path belongs to on the path within it. Several updates at once have the effect of the '
         'single ones in order, after plugins had the chance to replace them, and plugins are told afterwards about '
         'all of them.',
         ['inputs', 'configurations'],
         'for every set of managers and every mixture of paths and item views, given once or as an iterable',
         'The tests use two managers and one update each.',
         [MAIN, 'pyfileconf/batch.py'],
         [('split of a path', 'pyfileconf/batch.py: BatchUpdater'),
          ('own manager', 'pyfileconf/main.py: PipelineManager.get_manager_by_section_path_str')],
         ['configs of the managers', 'calls of the batch hooks']),
    prop('C21', 'Creating an item either completes or leaves nothing behind',
         'Creating an item checks what can be wrong with the request before it writes or registers anything. A '
         'successful creation adds the item to the definition file and to the registered items and scaffolds and '
         'loads its config, without changing other items.',
         ['inputs', 'fault_sequences'],
         'for every path and object passed to create',
         'The tests create items which are valid.',
         [MAIN],
         [('order of checks and writes', 'pyfileconf/main.py: PipelineManager.create')],
         ['definition files', 'registered items']),
    prop('C22', 'Scaffolding gives each registered item its config file and keeps existing ones',
         'Loading a project creates, for every registered item at any depth, a config file in the folder of its '
         'section with the defaults and annotations from its signature, and a section file per section of functions. '
         'Values and statements in files which exist are kept, and section files are never overwritten.',
         ['inputs', 'configurations', 'histories'],
         'for every tree of items, every signature and every earlier version of the config files',
         'The tests scaffold one tree, and rescaffold unchanged files.',
         ['pyfileconf/pipelines/models/collection.py', 'pyfileconf/data/models/collection.py',
          'pyfileconf/basemodels/file.py'],
         [('recursion over collections', 'PipelineCollection._output_config_files'),
          ('statements which are always there', 'ConfigFileBase._add_always_imports_and_assigns_to_config')],
         ['contents of the config folders']),
    prop('C24', 'Continuing after errors and debugging on errors do exactly what was asked',
         'Without special settings an exception of an item reaches the caller unchanged. When continuing was asked '
         'for, each item of a list still runs and failures are reported instead of raised; when debugging was asked '
         'for, the debugger starts on the exception and the exception is passed on unless the run continues.',
         ['inputs', 'fault_sequences'],
         'for every combination of the settings, every list of items and every subset of them which fails',
         'The tests use one failing item per setting.',
         [MAIN],
         [('settings', 'pyfileconf/main.py: PipelineManager._run_with_*')],
         ['exceptions and results of run', 'calls of the debug function']),
    prop('C27', 'Section paths are a faithful representation of dotted paths',
         'Splitting and joining paths loses nothing, paths with the same sections are equal and have the same hash, '
         'a path ends with another one exactly if the sections of the latter are its last sections, and item views, '
         'strings and section paths are accepted alike. A path and the file it stands for convert into each other.',
         ['inputs'],
         'for all paths, base paths, item views and files',
         'The tests check a few paths.',
         ['pyfileconf/sectionpath/sectionpath.py'],
         [('class', 'pyfileconf/sectionpath/sectionpath.py: SectionPath')],
         ['results of SectionPath methods']),
    prop('C28', 'Nested definitions register each item under the path they spell out',
         'Every item of a nested definition of dictionaries and lists is registered under the path spelled out by the '
         'keys on the way to it, whatever the nesting, and its section has the matching folder. The class and the '
         'attributes by which its objects are named and run are passed on to every level, setting an item under a new '
         'path creates the missing sections with the same settings, and names which clash are refused.',
         ['inputs'],
         'for every nested definition and every path',
         'The tests use one definition per kind.',
         ['pyfileconf/basemodels/collection.py', 'pyfileconf/basemodels/registrar.py',
          'pyfileconf/data/models/collection.py', 'pyfileconf/pipelines/models/collection.py'],
         [('recursion', 'pyfileconf/basemodels/collection.py: Collection.from_dict, from_list')],
         ['results of get by path', 'folders of config files']),
    prop('C06', 'Plugins can take part at every documented point with all they are promised',
         'Each documented hook is specified with its documented arguments, is called wherever its documentation says, '
         'with each of the arguments and with all registered plugins, and the results of all plugins are used as '
         'documented: more items to run, more results, more or replaced updates, more or modified cases. Resetting the '
         'plugins leaves the default behaviour and the plugins of entry points.',
         ['inputs', 'configurations'],
         'for every set of plugins implementing any of the hooks with any of their arguments and any results',
         'The tests register one plugin per hook which asks for some of the arguments.',
         ['pyfileconf/plugin/hookspecs.py', 'pyfileconf/plugin/default_hooks.py', 'pyfileconf/plugin/manager_utils.py', MAIN],
         [('specifications', 'pyfileconf/plugin/hookspecs.py'),
          ('calls', 'pyfileconf/main.py, batch.py, iterate.py, runner/models/runner.py, config/models/manager.py')],
         ['arguments plugins receive', 'effects of what they return'], technique=TECHNIQUE + '; ' + WHOLE),
    prop('C08', 'Items get exactly the settings of their config which they accept',
         'A function or class is called with each setting of its config that is a parameter of it, and with no other. '
         'Parameters without a setting are left to their defaults, settings nobody accepts are not passed, and '
         'parameters of all kinds (positional or keyword-only, of the class or of its constructor) count as accepted. '
         'The same settings are set on an object when its config changes.',
         ['inputs', 'configurations'],
         'for every signature and every config',
         'The tests use functions and classes with one or two parameters which all have settings.',
         ['pyfileconf/pipelines/models/config.py', 'pyfileconf/imports/logic/load/func.py', RUN,
          'pyfileconf/config/logic/apply.py'],
         [('selection', 'pyfileconf/pipelines/models/config.py: FunctionConfig.for_function'),
          ('parameters', 'pyfileconf/imports/logic/load/func.py: function_args_as_dict')],
         ['arguments items are called with', 'attributes of loaded objects']),
    prop('C11', 'What a user wrote in a definition or config file is read completely',
         'Reading a file as a syntax tree finds each import and each assignment in it, annotated or not, with its value '
         'as it is written and in the order of the file, tells the imports at the beginning from the rest of the file, '
         'and drops nothing but blank lines at the end. Reading a file by executing it gives each name it assigns with '
         'its value. A missing file is an error or an empty config as documented, never a stale or shared one.',
         ['inputs'],
         'for every file made of imports and assignments',
         'The tests read a few generated files.',
         ['pyfileconf/io/file/load/lazy/config.py', 'pyfileconf/io/file/load/parsers/assign.py',
          'pyfileconf/io/file/load/parsers/imp.py', 'pyfileconf/config/logic/load.py', 'pyfileconf/basemodels/file.py'],
         [('lazy loaders', 'pyfileconf/io/file/load/lazy'), ('active loader', 'pyfileconf/io/file/load/active')],
         ['results of the loaders', 'contents of rewritten files']),
    prop('C12', 'Files are written with all their parts, once, and in a working order',
         'A file that is written consists of its imports, each once and those which have to come first or last in their '
         'place, then what has to stand at the beginning of the file, then each assignment with its annotation and value '
         'as it was read or as source of the value. Existing content of the file is combined with what is added and not '
         'lost, and definition files consist of the imports and exactly one assignment of the nested definition.',
         ['inputs', 'configurations'],
         'for every combination of existing content, imports, assignments, preferred positions and nested definitions',
         'The tests write a few files with few imports.',
         ['pyfileconf/io/file/write/base.py', 'pyfileconf/io/file/write/config.py', 'pyfileconf/io/file/interfaces',
          'pyfileconf/assignments', 'pyfileconf/dictfiles/modify.py', 'pyfileconf/basemodels/container.py'],
         [('text of a file', 'pyfileconf/io/file/write/base.py: FileStr'),
          ('preferred positions', 'pyfileconf/mixins/orderpref.py'),
          ('nested definitions', 'pyfileconf/dictfiles/modify.py')],
         ['contents of written files']),
    prop('C13', 'Names in files mean what their imports say, under new names as well',
         'A name used in a file is resolved to the object which the import binding that name makes available, whether it '
         'is imported from a module, with its module, or under another name. Import statements are written such that '
         'they bind the same names to the same objects, an import counts as present only if it binds the wanted name '
         'to the wanted object, and imports needed by defaults and annotations are found for each external name in them.',
         ['inputs', 'configurations'],
         'for every set of import statements, including several names for one object, submodules and renamed imports',
         'The tests use imports of single names, mostly not renamed.',
         ['pyfileconf/imports/models/statements', 'pyfileconf/views/object.py', 'pyfileconf/io/func/load/extractimp.py',
          'pyfileconf/io/file/load/parsers/imp.py'],
         [('statements', 'pyfileconf/imports/models/statements/obj.py, module.py, rename.py'),
          ('lookup', 'pyfileconf/imports/models/statements/container.py: get_import_for_module_or_obj_name'),
          ('loading', 'pyfileconf/views/object.py: ObjectView')],
         ['objects items are loaded from', 'imports of generated files']),
    prop('C20', 'Item views and selectors behave like the items they stand for',
         'Accessing sections and items through a selector gives a view of exactly the item with that path in the manager '
         'it names. A view behaves like the item when it is called, compared, hashed, copied, inspected or has '
         'attributes read or set, records that it was used, stays usable while the item is not loaded, and a path which '
         'does not exist is an error that names it. Completion offers what can be accessed.',
         ['inputs', 'histories'],
         'for every path, existing or not, into any number of managers, and every operation on a view before and after '
         'the item is loaded',
         'The tests use a few views of loaded items.',
         ['pyfileconf/selector/models/selector.py', 'pyfileconf/selector/models/itemview.py',
          'pyfileconf/selector/logic/exc/typo.py'],
         [('navigation', 'pyfileconf/selector/models/selector.py: Selector.__getattr__'),
          ('transparency', 'pyfileconf/selector/models/itemview.py: ItemView')],
         ['results of operations on views', 'exceptions for paths which do not exist']),
    prop('C23', 'Defaults and annotations of items are taken over from their source faithfully',
         'The initial config of a function or class has an entry for each of its parameters, of the class itself or of '
         'its constructor, in their order, with the default and the annotation as written in its source, and nothing '
         'else. Of functions or classes with the same name in one file the right one is used, a parameter without default '
         'has none, and names which defaults and annotations use are imported in the config file.',
         ['inputs'],
         'for every signature, including keyword-only parameters, renamed imports and classes with and without constructor',
         'The tests use about ten signatures.',
         ['pyfileconf/io/func/load', 'pyfileconf/io/file/load/parsers/funcdef.py', 'pyfileconf/imports/logic/load/func.py',
          'pyfileconf/views/object.py'],
         [('definitions in a file', 'pyfileconf/io/file/load/parsers/funcdef.py'),
          ('parameters', 'pyfileconf/io/func/load/config.py'), ('imports', 'pyfileconf/io/func/load/extractimp.py')],
         ['generated config files', 'default configs']),
    prop('C25', 'Data of callers, shared defaults and class attributes are never modified',
         'What a caller passes to the public interface (dictionaries of updates, lists of updates, changes and paths) is '
         'the same afterwards, also its nested containers, whatever plugins return. No call leaves something behind in '
         'the default value of a parameter or in a container that all objects of a class share.',
         ['inputs', 'histories'],
         'for every call of a public method with any arguments, and every plugin which does not itself modify what it is given',
         'The tests do not look at their arguments after the call, and each uses fresh ones.',
         [MAIN, 'pyfileconf/batch.py', 'pyfileconf/iterate.py', BASE],
         [('copies where updates are changed', 'pyfileconf/batch.py: BatchUpdater.update'),
          ('copies of changes', 'pyfileconf/iterate.py: get_config_product')],
         ['arguments after calls', 'default values of parameters'],
         technique='interprocedural ownership analysis of containers; ' + TECHNIQUE),
    prop('C26', 'Reading files as syntax never executes or imports them',
         'Whatever reads definitions, configs and signatures as syntax trees (for scaffolding, for rewriting files and to '
         'find defaults) does not run the file or import it, and works on the text of the file itself, read once, when '
         'it is needed.',
         ['inputs'],
         'for every file and every use of the syntactic loaders',
         'The tests read files which have no effects when executed.',
         ['pyfileconf/io/file/load/lazy', 'pyfileconf/io/file/load/parsers', 'pyfileconf/io/func/load'],
         [('lazy loaders', 'pyfileconf/io/file/load/lazy/base/loader.py: LazyLoader')],
         ['effects of files which are read'], technique=WHOLE + ' (call graph); ' + TECHNIQUE),
    prop('C29', 'Files are closed on every way out and read and written as UTF-8',
         'Each file the library opens is closed also when reading or writing it fails. Source files are read and written '
         'as UTF-8 with unchanged line ends, independent of the locale and of the system.',
         ['inputs', 'configurations', 'fault_sequences'],
         'for every file which is opened, every content and every point at which reading or writing fails',
         'The tests write ASCII files in one locale, and no write fails.',
         ['pyfileconf/io/file/load/parsers/base.py', 'pyfileconf/io/file/interfaces', MAIN],
         [('with statements and encodings', 'each call of open in pyfileconf')],
         ['open files after errors', 'bytes of written files'], technique=WHOLE + '; ' + TECHNIQUE),
    prop('C30', 'Config entries may have any name',
         'Updating, resetting, refreshing and loading configs work in the same way whatever the entries are called, also '
         'where an entry is called like a parameter of a method of the library which works on configs. Only the keywords '
         'd_, section_path_str and pyfileconf_persist of the public update methods are reserved, and changes with those '
         'names can be passed in d_.',
         ['inputs'],
         'for every name of an entry which is not reserved, in every operation which changes or replaces a config',
         'The tests use entries a, b, c, which are no names of parameters.',
         [CONF, RUN, BASE, 'pyfileconf/config/models/section.py', 'pyfileconf/batch.py'],
         [('changes passed as dictionaries', 'pyfileconf/config/models/manager.py: ConfigManager.update'),
          ('post update hook', 'pyfileconf/runner/models/runner.py: Runner.reset')],
         ['contents of configs', 'exceptions', 'updates given to hooks'],
         technique='name collision analysis of all calls which spread a dictionary into keywords (abstract interpretation '
                   'of each caller); ' + TECHNIQUE),
]

NOT_APPLICABLE = [
    prop('C90', 'Config files survive a round trip through parsing and writing',
         'Parsing a config file and writing it again without changes gives a file with the same statements, for every '
         'valid Python source.',
         ['inputs'], 'for every Python source which is a config file',
         'The tests compare a few files.',
         ['pyfileconf/io/file/interfaces/base.py', 'pyfileconf/io/file/write/asttosource.py'],
         [('source from syntax trees', 'pyfileconf/io/file/write/asttosource.py')],
         ['file contents']),
    prop('C91', 'Imports in config files are written so that they resolve to the same objects',
         'The import statement which is generated for an object resolves to that object in every environment in which '
         'the project is importable.',
         ['inputs', 'configurations'], 'for every object, module layout and sys.path',
         'The tests use one layout.',
         ['pyfileconf/imports/logic/load/name.py'],
         [('search over sys.path', 'pyfileconf/imports/logic/load/name.py')],
         ['generated import statements']),
]
REASONS = {
    'C90': 'Quantifies over the text of arbitrary Python files and over what the third-party source generators (astor, '
           'black) print for them; no static argument about this repository bounds that. The parts of it which are '
           'visible in the shape of the code (what is added, kept and written where) are claimed by other properties.',
    'C91': 'Whether a generated import resolves depends on sys.path, the file system and the import system at run '
           'time, which the source does not determine.',
}
NOTE = ('Decides from the source, for all inputs: each obligation compares the effects and results of a function on all '
        'its paths with a reference definition written from the property. Trusted: the analyzer in /verif/analyzer, the '
        'documented behaviour of external libraries; loops are summarised by one generic iteration. Code the analysis '
        'cannot summarise is reported as undecided in the evidence and does not alarm.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in ALL + NOT_APPLICABLE:
            assert len(p['title']) <= 80, p['title']
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                       'observe_at': p['observe'], 'hook_needed': p['hook']}
            if p['state']:
                anchors['state'] = p['state']
            f.write(json.dumps({
                'id': p['ident'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['tests'],
                'anchors': anchors}) + '\n')
    manifest = {
        'version': 1, 'setup_cmd': 'python3 -m compileall -q analyzer rules check.py',
        'checks': [{
            'property': p['ident'], 'quick_cmd': f'python3 check.py {p["ident"]}',
            'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p["ident"]} --tier thorough',
            'technique': p['technique'], 'level': 'other', 'level_note': p['note'] or NOTE} for p in ALL],
        'not_applicable': [{'property': p['ident'], 'reason': REASONS[p['ident']]} for p in NOT_APPLICABLE],
        'notes': 'All checks are static: they parse /repo and run none of it. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
