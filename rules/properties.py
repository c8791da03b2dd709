"""
Which obligations decide which property. A part names an area (rules/areas.py), the functions of it whose obligations
the property consists of (None: all of them), and for functions which also do other things the projection onto the
effects the property is about.
"""
from analyzer.conform import Result
from analyzer.model import AnalysisBroken

from . import queries
from .areas import AREAS
from .lib import *
from .project import dependencies, hooks, only, project, stack


class Part:
    def __init__(self, area, prefix='', names=None, keep=None, **options):
        self.area = area
        self.entries = None if names is None else {prefix + n for n in names.split()}
        self.keep = keep
        self.project = project(keep, **options) if keep is not None else {None: options} if options else None

    def run(self, specs):
        area = AREAS[self.area]()
        if self.entries is not None:
            for e in [e for e in self.entries if e.endswith('*')]:
                self.entries.remove(e)
                found = {p.entry for p in area.pairs if p.entry.startswith(e[:-1])}
                assert found, e
                self.entries |= found
            unknown = self.entries - {p.entry for p in area.pairs}
            assert not unknown, unknown
        result = area.run(specs, only=self.entries, project=self.project)
        if self.keep and not result.kept and not result.undecided and not result.violations:
            raise AnalysisBroken(f'nothing of {self.entries} is kept')
        return result


class Query:
    """a rule over the whole package"""

    def __init__(self, function):
        self.function = function

    def run(self, specs):
        return self.function(specs.prog)


M = PIPELINE_MANAGER + '.'
R = RUNNER + '.'
CM = CONFIG_MANAGER + '.'
CB = CONFIG_BASE + '.'
CX = CONTEXT + '.'
SECTION = P + 'config.models.section.ConfigSection.'
B = P + 'basemodels.'

PROPERTIES = {
    # captured standard output is restored
    'C01': [
        Part('pipeline_manager', M, 'run _run_depending_on_settings', keep=only('stdout_also_logged')),
        Part('log_output', P + 'logger.bind_stdout.', 'stdout_also_logged StdoutLogger.__init__ StdoutLogger.write')],
    # the record of operations mirrors the nesting of runs and loads
    'C02': [
        Part('context', STACK + '.', '__init__ add_frame pop_frame add_running_item currently_running_section_path_str '
                                     'file_is_currently_being_loaded currently_loading_file_section_path'),
        Part('context', STACK_TRACKER + '.', '__init__ __enter__ __exit__'),
        Part('context', FRAME + '.', '__init__ from_file_path'),
        Part('context', CX, 'currently_running_section_path_str file_is_currently_being_loaded'),
        Part('runner', R, '_run_one_func _run_one_class _run_one_specific_class', keep=stack)],
    # dependencies are recorded on every access
    'C03': [
        Part('context', CX, '__init__ reset add_config_dependency '
                            'add_config_dependency_for_currently_running_item_if_exists '
                            'add_config_dependency_if_file_is_currently_being_loaded'),
        Part('runner', R, '_run_one_func _run_one_class _run_one_specific_class _get_one_func_with_config '
                          '_get_one_obj_with_config', keep=dependencies),
        Part('pipeline_manager', M, '_update', keep=dependencies),
        Part('selector', P + 'selector.models.', 'selector.Selector.__contains__ selector.Selector._get_real_item '
                                                 'itemview.ItemView._add_to_config_dependencies_if_necessary '
                                                 'itemview.ItemView.__getattr__ itemview.ItemView.__call__ '
                                                 'itemview.ItemView.item')],
    # changes reach dependents
    'C04': [
        Part('rest', CB, 'update'),
        Part('context', CX, 'add_config_dependency'),
        Part('runner', R, 'update reset refresh', keep=only('track_post_update', 'apply_config', 'ConfigManager.update',
                                                          'ConfigManager.reset', 'ConfigManager.refresh')),
        Part('config_manager', CM, 'refresh_dependent_configs track_post_update'),
        Part('iteration', P + 'plugin.default_hooks.', 'pyfileconf_post_config_changed'),
        Part('pipeline_manager', M, 'refresh')],
    # change hooks
    'C05': [
        Part('rest', CB, 'update'),
        Part('config_manager', CM, 'update refresh reset track_post_update', keep=hooks),
        Part('runner', R, 'update reset refresh', keep=only('track_post_update', 'apply_config', 'ConfigManager.update',
                                                          'ConfigManager.reset', 'ConfigManager.refresh'))],
    # inheritance of configs
    'C07': [
        Part('rest', P, 'config.models.manager.ConfigManager.* config.models.section.ConfigSection.__init__ '
                        'basemodels.config.ConfigBase.update'),
        Part('config_manager', CM, 'get set pop'),
        Part('configs', SECTION, '__getattr__ _set_config_map append extend update from_files')],
    # persistent updates, updates without effect
    'C09': [
        Part('configs', CB, '__init__ refresh change_from_refresh copy'),
        Part('rest', CB, 'update'),
        Part('config_manager', CM, 'update refresh reset', keep=only('ConfigBase.update', 'ConfigBase.refresh')),
        Part('pipeline_manager', M, 'update update_batch reset'),
        Part('iteration', P + 'batch.BatchUpdater.', 'update reset')],
    'C10': [
        Part('rest', CB, 'update'),
        Part('configs', CB, 'would_update change_from_refresh'),
        Part('small_parts', P, 'basemodels.config.ConfigBase.__getattr__'),
        Part('config_manager', CM, 'update refresh reset'),
        Part('runner', R, 'update reset refresh')],
    # running every combination
    'C15': [
        Part('iteration', P, 'iterate.IterativeRunner.__init__ iterate.IterativeRunner.get_cases '
             'iterate.IterativeRunner.get_defaults iterate.IterativeRunner._fill_case_with_defaults '
             'iterate.IterativeRunner.run iterate.IterativeRunner.run_gen iterate.IterativeRunner._run_case '
             'iterate.IterativeRunner._run iterate.IterativeRunner.should_run iterate.get_config_product '
             'iterate.IterativeRunner._get_full_section_path_str '
             'plugin.default_hooks.pyfileconf_iter_get_cases plugin.default_hooks.pyfileconf_iter_update_for_case'),
        Part('rest', P, 'iterate._get_configs_by_section_path_dict'),
        Part('pipeline_manager', M, 'run_product run_product_gen')],
    # options
    'C16': [Part('options'), Part('log_output', P, 'opts.filelog.add_file_handler_if_log_folder_exists_else_remove_handler '
                                                   'logger.logger.add_file_handler logger.logger.file_handler_is_active '
                                                   'logger.logger.remove_file_handler')],
    # dispatch
    'C17': [
        Part('runner', R, '_get_func_or_collection _run _run_section run _run_one_func _run_one_class '
                          '_run_one_specific_class'),
        Part('rest', P, 'pipelines.models.config.FunctionConfig.for_function logic.combine.*'),
        Part('registration', P, 'logic.get.* pipelines.models.registrar.PipelineRegistrar.get basemodels.registrar.Registrar.get '
                                'basemodels.collection.Collection.get'),
        Part('small_parts', P, 'views.object.* logic.get.*'),
        Part('imports', P, 'views.object.ObjectView.load views.object.ObjectView.item '
                           'views.object._execute_import_get_obj_from_result')],
    # loaded objects
    'C18': [
        Part('runner', R, '_get_one_func_with_config _get_one_obj_with_config update reset refresh get _get_section '
                          '__getattr__'),
        Part('configs', P, 'config.logic.apply.apply_config'),
        Part('rest', P, 'pipelines.models.config.FunctionConfig.for_function runner.models.runner.Runner.__init__')],
    # managers
    'C14': [
        Part('pipeline_manager', M, '__init__ load reload __del__ get_manager_by_filepath '
                                    'get_manager_by_section_path_str _load_pipeline_config_and_runner '
                                    '_wipe_loaded_modules __getattr__ _registrar_dict _validate_options '
                                    '_create_project_if_needed _need_to_create_project'),
        Part('rest', P, 'main.create_project main.PipelineManager._load_pipeline_config_and_runner '
                        'main._validate_registrars runner.models.runner.Runner.__init__ '
                        'config.models.manager.ConfigManager.__init__ config.models.manager.ConfigManager.load'),
        Part('imports', P, 'imports.models.tracker.*')],
    # force continue
    'C24': [
        Part('pipeline_manager', M, 'run _run_depending_on_settings _run_with_auto_pdb _run_with_force_continue'),
        Part('rest', P, 'debug.*'), Part('small_parts', P, 'main.*')],
    # routing
    'C19': [
        Part('pipeline_manager', M, 'get reset refresh update update_batch _update '
                                    '_get_section_path_str_from_section_path_str_or_view '
                                    '_convert_list_or_single_item_view_or_str_to_strs'),
        Part('iteration', P + 'batch.BatchUpdater.', '__init__ update reset')],
    # section paths
    'C27': [Part('section_paths')],
    # registration
    'C28': [
        Part('registration'),
        Part('rest', P, 'main._validate_registrars main.create_registrars main.create_collections '
                        'main._create_registrars_or_collections_from_dict')],
    # scaffolding
    'C22': [
        Part('scaffolding'), Part('config_files'),
        Part('rest', P, 'main.PipelineManager._load_pipeline_config_and_runner main._create_registrars_or_collections_from_dict '
                        'main.create_registrars '
                        'data.models.config.SpecificClassConfig.from_obj basemodels.config.ConfigBase.update'),
        Part('configs', CB, '__init__ copy to_file from_file as_imports_and_assignments'),
        Part('small_parts', P, 'data.models.config.*'),
        Part('imports', P, 'views.object.ObjectView.default_config views.object.ObjectView._get_default_config '
                           'views.object.ObjectView.output_name')],
    # creating
    'C21': [
        Part('pipeline_manager', M, 'create'),
        Part('rest', P, 'main.PipelineManager._create_pipeline_dict_entry main.PipelineManager._create_specific_class_dict_entry '
                        'dictfiles.* pipelines.models.dictfile.* data.models.dictfile.* pipelines.models.dictconfig.* '
                        'data.models.dictconfig.*'),
        Part('registration', P, 'logic.set.* basemodels.registrar.Registrar.set'),
        Part('scaffolding', P, 'basemodels.registrar.Registrar.scaffold_config_for'),
        Part('files', P, 'io.file.interfaces.pipeline.* io.file.interfaces.datadict.*')],
    # plugins
    'C06': [
        Query(queries.hook_contract), Query(queries.hook_modifications),
        Part('pipeline_manager', M, 'run update', keep=hooks),
        Part('runner', R, 'run'),
        Part('iteration', P, 'iterate.IterativeRunner.get_cases iterate.IterativeRunner._run_case batch.BatchUpdater.update '
                             'plugin.default_hooks.*'),
        Part('config_manager', CM, 'update refresh reset track_post_update', keep=hooks),
        Part('rest', P, 'plugin.manager_utils.* logic.combine.*'),
        Part('small_parts', P, 'plugin.manager_utils.*')],
    # accepted settings
    'C08': [
        Part('rest', P, 'pipelines.models.config.FunctionConfig.for_function data.models.config.SpecificClassConfig.from_obj'),
        Part('configs', P, 'config.logic.apply.apply_config'),
        Part('imports', P, 'imports.logic.load.func.* imports.logic.load.klass.*'),
        Part('runner', R, '_get_config _get_one_func_with_config _get_one_obj_with_config _run_one_func _run_one_class '
                          '_run_one_specific_class')],
    # files which users edit
    'C11': [
        Part('files', P, 'io.file.load.* config.logic.load.* io.file.write.base.FileStr._combine_imports_get_new_assignments '
                         'io.file.interfaces.activeconfig.*'),
        Part('text_parts', P, 'io.file.load.parsers.assign.* io.file.load.parsers.imp.* assignments.models.* '
                              'io.file.load.parsers.collections.* io.file.load.parsers.fromdict.*'),
        Part('configs', CB, 'from_file __init__ copy'),
        Part('configs', P, 'config.models.file.ActiveFunctionConfigFile.load'),
        Part('rest', P, 'pipelines.models.dictfile.* data.models.dictfile.*'),
        Part('config_files')],
    # composition of files
    'C12': [
        Part('files', P, 'io.file.write.* io.file.interfaces.*'),
        Part('text_parts', P, 'basemodels.container.* assignments.* io.file.write.* data.models.astitems.*'),
        Part('imports', P, 'imports.models.statements.obj.ObjectImportStatement.__str__ '
                           'imports.models.statements.module.ModuleImportStatement.__str__ imports.models.statements.importbase.* '
                           'imports.models.statements.rename.RenameStatement.__str__ '
                           'imports.models.statements.container.ImportStatementContainer.__str__ mixins.*'),
        Part('rest', P, 'dictfiles.* pipelines.models.dictconfig.* data.models.dictconfig.* logic.userinput.*'),
        Part('config_files', P, 'basemodels.file.ConfigFileBase.save '
                                'basemodels.file.ConfigFileBase._add_always_imports_and_assigns_to_config '
                                'pipelines.models.file.FunctionConfigFile.save'),
        Part('configs', CB, 'to_file as_imports_and_assignments')],
    # imports
    'C13': [
        Part('imports', P, 'imports.* views.* mixins.* io.func.load.extractimp.* '
                           'io.func.load.args.*'),
        Part('small_parts', P, 'basemodels.container.* imports.* views.*'),
        Part('text_parts', P, 'basemodels.container.* io.file.load.parsers.imp.* io.file.load.parsers.extname.* '
                              'io.file.load.parsers.collections.*'),
        Part('rest', P, 'imports.logic.load.ext_importlib.find_spec pipelines.models.dictconfig.* data.models.dictconfig.*'),
        Part('files', P, 'io.file.load.lazy.base.impassign.*')],
    # item views and selectors
    'C20': [
        Part('selector'),
        Part('rest', P, 'main.PipelineManager.__dir__ config.models.manager.ConfigManager.__dir__ '
                        'basemodels.registrar.Registrar.__dir__ basemodels.config.ConfigBase.__dir__'),
        Part('small_parts', P, 'basemodels.collection.Collection.__dir__ config.models.section.ConfigSection.__dir__')],
    # defaults from signatures
    'C23': [
        Part('imports', P, 'io.func.* imports.logic.load.func.* imports.logic.load.klass.* views.object.ObjectView._get_default_config '
                           'views.object.ObjectView.default_config'),
        Part('text_parts', P, 'io.file.load.parsers.* assignments.models.container.* data.models.astitems.*'),
        Part('rest', P, 'data.models.config.SpecificClassConfig.from_obj logic.inspect.*')],
    # ownership of data
    'C25': [
        Query(queries.ownership),
        Part('iteration', P, 'iterate.IterativeRunner.__init__ iterate.IterativeRunner.get_defaults '
                             'iterate.IterativeRunner._fill_case_with_defaults iterate.get_config_product '
                             'iterate.IterativeRunner._run_case batch.BatchUpdater.update '
                             'plugin.default_hooks.pyfileconf_iter_update_for_case'),
        Part('pipeline_manager', M, 'update _update update_batch run'),
        Part('configs', CB, '__init__ copy'),
        Part('context', CX, '__init__ reset')],
    # reading without running
    'C26': [
        Query(queries.syntactic),
        Part('files', P, 'io.file.load.lazy.* io.file.load.parsers.*')],
    # handling of files
    'C29': [
        Query(queries.files),
        Part('files', P, 'io.file.load.parsers.* io.file.interfaces.config.* io.file.interfaces.pipeline.* '
                         'io.file.interfaces.datadict.*')],
    # names of entries
    'C30': [
        Query(queries.entry_names),
        Part('config_manager', CM, 'update refresh set track_post_update'),
        Part('runner', R, 'update reset refresh'),
        Part('configs', CB, 'would_update refresh change_from_refresh'),
        Part('rest', CB, 'update')],
}

# how many obligations there are on the tree the rules were written for (fewer means that the analysis is broken)
EXPECTED = {}
