"""The functions of the package which are compared with reference definitions, and what is taken as agreed there"""
from rules.lib import *

A = P + 'basemodels.'
SP_PURE = {SECTION_PATH + '.' + m for m in ('join', 'from_section_str_list', 'from_ambiguous')}


def pairs(prefix, spec, table):
    out = []
    for name, *rest in table:
        ref = rest[0] if rest and isinstance(rest[0], str) else name
        opts = rest[-1] if rest and isinstance(rest[-1], dict) else {}
        out.append(Pair(prefix + name, f'{spec}:{ref}', **opts))
    return out


EVERY = [lambda e: True]
EXC = dict(exc_mode=True)
PURE = dict(pure=True)
FOLLOW = dict(follow=True)


def config_manager():
    return Group(
        'configuration store',
        *pairs(CONFIG_MANAGER + '.', 'configmanager', [
            ('update',), ('refresh',), ('refresh_dependent_configs',), ('track_post_update',), ('pop',), ('reset',),
            ('set', 'set_'), ('get', dict(also=['get_by_slices', 'get_by_slices_at_once']))]),
        atoms={P + 'logic.get._get_from_nested_obj_by_section_path',
               P + 'logic.set._set_in_nested_obj_by_section_path', CONFIG_BASE + '.would_update',
               CONFIG_BASE + '.update', CONFIG_BASE + '.change_from_refresh', CONFIG_BASE + '.refresh',
               P + 'config.models.file.ActiveFunctionConfigFile.load', P + 'basemodels.file.ConfigFileBase.load',
               P + 'config.models.section.ConfigSection.from_files', CONFIG_BASE + '.from_file',
               PIPELINE_MANAGER + '.refresh'},
        pure=SP_PURE | {SECTION_PATH + '.to_filepath', PIPELINE_MANAGER + '.get_manager_by_section_path_str'},
        order=EVERY)


def runner():
    return Group(
        'running and getting',
        *pairs(RUNNER + '.', 'runner', [
            ('_get_func_or_collection', 'lookup', PURE), ('_get_config', 'config_of', PURE),
            ('_get_one_func_with_config', 'get_func'), ('_get_one_obj_with_config', 'get_obj'),
            ('_run_one_func', 'run_func', EXC), ('_run_one_class', 'run_class', EXC),
            ('_run_one_specific_class', 'run_specific', EXC), ('_run_section', 'run_section'),
            ('_run', 'run_one'), ('_get_section', 'get_section'), ('run',), ('get',), ('__getattr__', 'getattr_'),
            ('update',), ('reset',), ('refresh',)]),
        atoms={CONFIG_MANAGER + '.' + m for m in ('get', 'update', 'reset', 'refresh', 'track_post_update')} | {
            P + 'config.logic.apply.apply_config', STACK + '.add_frame', STACK + '.pop_frame',
            CONTEXT + '.add_config_dependency_for_currently_running_item_if_exists', A + 'registrar.Registrar.get'},
        pure=SP_PURE | {P + 'pipelines.models.config.FunctionConfig.for_function',
                        P + 'logic.get._get_public_name_or_special_name',
                        A + 'collection.Collection.name_for_obj'},
        order=EVERY, inline_classes={STACK_TRACKER, FRAME})


def pipeline_manager():
    M = PIPELINE_MANAGER + '.'
    return Group(
        'manager',
        *pairs(M, 'pipelinemanager', [
            ('_get_section_path_str_from_section_path_str_or_view', 'relative_path', PURE),
            ('_convert_list_or_single_item_view_or_str_to_strs', 'relative_paths', PURE),
            ('__init__', 'init'), ('_validate_options', 'validate_options'),
            ('_create_project_if_needed', 'create_project_if_needed'),
            ('_need_to_create_project', 'need_to_create_project', PURE),
            ('_load_pipeline_config_and_runner', 'load_parts'), ('load', EXC),
            ('_wipe_loaded_modules', 'wipe_loaded_modules'), ('reload',), ('__getattr__', 'getattr_'),
            ('__del__', 'del_'), ('run',), ('_run_depending_on_settings', 'run_with_settings'),
            ('_run_with_auto_pdb', 'run_with_pdb', EXC),
            ('_run_with_force_continue', 'run_with_force_continue', EXC),
            ('run_product',), ('run_product_gen',), ('get',), ('reset',), ('refresh',), ('update',),
            ('_update', 'apply_update'), ('update_batch',), ('get_manager_by_filepath', 'manager_by_filepath'),
            ('get_manager_by_section_path_str', 'manager_by_section_path'),
            ('_registrar_dict', 'registrar_dict', PURE), ('create',)]),
        atoms={RUNNER + '.' + m for m in ('run', 'get', 'update', 'reset', 'refresh')} | {
            P + 'main.create_registrars', P + 'main.create_project', P + 'main.report_runner_exceptions',
            CONFIG_MANAGER + '.load', P + 'debug.pdb_post_mortem_or_passed_debug_fn',
            P + 'batch.BatchUpdater.update', P + 'iterate.IterativeRunner.__init__',
            P + 'iterate.IterativeRunner.run', P + 'iterate.IterativeRunner.run_gen', A + 'registrar.Registrar.set',
            A + 'registrar.Registrar.scaffold_config_for', CONTEXT + '.add_config_dependency',
            P + 'logger.bind_stdout.stdout_also_logged', M + '_create_specific_class_dict_entry',
            M + '_create_pipeline_dict_entry', P + 'imports.models.tracker.ImportTracker.__init__'},
        pure=SP_PURE | {P + 'selector.models.itemview.is_item_view',
                        P + 'imports.logic.load.name.get_module_and_name_imported_from',
                        P + 'data.logic.convert.convert_to_empty_obj_if_necessary',
                        P + 'views.object.ObjectView.from_ast_and_imports', P + 'main.RunnerException'},
        order=EVERY)


def context():
    return Group(
        'record of operations and dependencies',
        *pairs(CONTEXT + '.', 'context', [
            ('__init__', 'init'), ('reset',), ('currently_running_section_path_str', 'running', FOLLOW),
            ('file_is_currently_being_loaded', 'loading', FOLLOW), ('add_config_dependency', 'add_dependency'),
            ('add_config_dependency_for_currently_running_item_if_exists', 'add_dependency_running'),
            ('add_config_dependency_if_file_is_currently_being_loaded', 'add_dependency_loading')]),
        *pairs(FRAME + '.', 'context', [('__init__', 'frame_init'), ('from_file_path', 'frame_from_file_path')]),
        *pairs(STACK + '.', 'context', [
            ('__init__', 'stack_init'), ('add_frame',), ('pop_frame',), ('add_running_item',),
            ('currently_running_section_path_str', 'running_path', PURE),
            ('file_is_currently_being_loaded', 'any_loading', PURE),
            ('currently_loading_file_section_path', 'loading_path', PURE)]),
        *pairs(STACK_TRACKER + '.', 'context', [
            ('__init__', 'tracker_init'), ('__enter__', 'tracker_enter'), ('__exit__', 'tracker_exit')]),
        pure=SP_PURE | {PIPELINE_MANAGER + '.get_manager_by_filepath', SECTION_PATH + '.from_filepath'}, order=EVERY)


def section_paths():
    return Group(
        'section paths',
        *pairs(SECTION_PATH + '.', 'sectionpaths', [
            ('__init__', 'init'), ('__iter__', 'iter_'), ('__getitem__', 'getitem'), ('__len__', 'len_'),
            ('from_filepath',), ('from_section_str_list', 'from_list'), ('from_ambiguous',), ('list_from_ambiguous',),
            ('join',), ('to_filepath',), ('endswith',), ('__eq__', 'eq'), ('__hash__', 'hash_')]),
        pure={P + 'selector.models.itemview.is_item_view'}, modular=False, order=EVERY)


def configs():
    return Group(
        'configurations',
        *pairs(CONFIG_BASE + '.', 'configs', [
            ('__init__', 'config_init'), ('__getattr__', 'config_getattr'), ('refresh',), ('would_update', EXC),
            ('change_from_refresh',), ('to_file',), ('from_file',),
            ('as_imports_and_assignments', 'imports_and_assignments'), ('copy',)]),
        *pairs(P + 'config.models.section.ConfigSection.', 'configs', [
            ('__getattr__', 'section_getattr'), ('_set_config_map', 'set_config_map'), ('append', 'section_append'),
            ('extend', 'section_extend'), ('update', 'section_update'), ('from_files', 'section_from_files', dict(also=['section_from_files_passing_errors_on']))]),
        *pairs(P + 'config.models.file.ActiveFunctionConfigFile.', 'configs', [('load', 'active_load')]),
        *pairs(P + 'config.logic.apply.', 'configs', [('apply_config', 'apply')]),
        atoms={CONFIG_BASE + '.update', P + 'basemodels.file.ConfigFileBase.load',
               P + 'basemodels.file.ConfigFileBase.save'},
        pure={P + 'imports.logic.load.func.function_args_as_dict',
              P + 'assignments.models.container.AssignmentStatementContainer.from_dict_of_varnames_and_ast'},
        order=EVERY)


def iteration():
    I = P + 'iterate.IterativeRunner.'
    return Group(
        'running combinations of changes',
        *pairs(I, 'iterate', [
            ('__init__', 'init'), ('get_cases',), ('get_defaults',), ('_fill_case_with_defaults', 'fill_case'),
            ('run',), ('run_gen',), ('_run_case', 'run_case'), ('_run', 'run_items'), ('should_run',)]),
        Pair(I + '_get_full_section_path_str', 'iterate:full_path', follow=True),
        *pairs(P, 'iterate', [
            ('iterate.get_config_product', 'config_product', PURE),
            ('plugin.default_hooks.pyfileconf_iter_get_cases', 'default_cases'),
            ('plugin.default_hooks.pyfileconf_iter_update_for_case', 'default_update_for_case'),
            ('plugin.default_hooks.pyfileconf_pre_update_batch', 'default_pre_update_batch'),
            ('plugin.default_hooks.pyfileconf_post_config_changed', 'default_post_changed'),
            ('batch.BatchUpdater.__init__', 'batch_init'), ('batch.BatchUpdater.update', 'batch_update'),
            ('batch.BatchUpdater.reset', 'batch_reset')]),
        atoms={PIPELINE_MANAGER + '.' + m for m in ('run', 'reset', '_update')} | {
            CONFIG_MANAGER + '.get', CONFIG_MANAGER + '.refresh_dependent_configs'},
        pure=SP_PURE | {PIPELINE_MANAGER + '.get_manager_by_section_path_str', SECTION_PATH + '.list_from_ambiguous'},
        order=EVERY)


def options():
    return Group(
        'options',
        *pairs(P + 'opts.PyfileconfOptions.', 'options', [('__init__', 'options_init')]),
        *pairs(P + 'opts.PyfileconfOption.', 'options', [
            ('__init__', 'option_init'), ('value', 'get_value', FOLLOW), ('value:setter', 'set_value'),
            ('default_value', 'default_value', FOLLOW), ('reset', 'reset_one')]),
        *pairs(P + 'opts.PyfileconfOptionsManager.', 'options', [
            ('__init__', 'manager_init'), ('reset', 'reset_all', dict(also=['reset_all_held'])), ('set_option', FOLLOW), ('set_options',),
            ('reset_option', FOLLOW), ('reset_options',), ('__enter__', 'enter'), ('__exit__', 'exit_')]),
        order=EVERY)


def log_output():
    return Group(
        'log file and standard output',
        *pairs(P, 'options', [
            ('opts.filelog.add_file_handler_if_log_folder_exists_else_remove_handler', 'folder_changed'),
            ('logger.logger.add_file_handler', 'add_handler'),
            ('logger.logger.file_handler_is_active', 'handler_active', PURE),
            ('logger.logger.remove_file_handler', 'remove_handler', dict(also=['remove_handler_by_logger', 'remove_handler_then_close'])),
            ('logger.bind_stdout.stdout_also_logged', 'capture', dict(EXC, also=['capture_restoring_own'])),
            ('logger.bind_stdout.StdoutLogger.__init__', 'stdout_init'),
            ('logger.bind_stdout.StdoutLogger.write', 'stdout_write', dict(kwargs=dict(keep_log=True)))]),
        order=EVERY)


def registration():
    C = A + 'collection.Collection.'
    SC, FC = P + 'data.models.collection.SpecificClassCollection.', P + 'pipelines.models.collection.PipelineCollection.'
    return Group(
        'registered items',
        *pairs(P + 'logic.', 'registration', [
            ('get._get_from_nested_obj_by_section_path', 'nested_get', PURE),
            ('get._get_public_name_or_special_name', 'public_name', PURE),
            ('set._set_in_nested_obj_by_section_path', 'nested_set')]),
        *pairs(A + 'registrar.Registrar.', 'registration', [
            ('__init__', 'registrar_init'), ('__getattr__', 'registrar_getattr'),
            ('from_dict', 'registrar_from_dict'), ('get', 'registrar_get'), ('set', 'registrar_set')]),
        *pairs(P + 'pipelines.models.registrar.PipelineRegistrar.', 'registration', [
            ('get', 'pipeline_registrar_get')]),
        *pairs(C, 'registration', [
            ('__init__', 'collection_init'), ('get', 'collection_get'), ('__getattr__', 'collection_getattr'),
            ('items:setter', 'set_items', FOLLOW), ('append',), ('extend',), ('name_for_obj',), ('from_dict',),
            ('from_list',)]),
        *pairs(SC, 'registration', [
            ('__init__', 'class_collection_init'), ('_set_name_map', 'class_name_map'),
            ('_transform_item', 'class_transform')]),
        *pairs(FC, 'registration', [
            ('_set_name_map', 'function_name_map'), ('_transform_item', 'function_transform')]),
        *pairs(P + 'data.logic.convert.', 'registration', [
            ('convert_to_empty_obj_if_necessary', 'empty_object', PURE)]),
        pure=SP_PURE | {P + 'views.object.ObjectView.from_ast_and_imports',
                        P + 'imports.logic.load.klass.class_function_args_as_dict'},
        order=EVERY)


def scaffolding():
    SC, FC = P + 'data.models.collection.SpecificClassCollection.', P + 'pipelines.models.collection.PipelineCollection.'
    return Group(
        'scaffolding of configs',
        *pairs(A + 'registrar.Registrar.', 'registration', [
            ('scaffold_config', 'scaffold'), ('scaffold_config_for', 'scaffold_for')]),
        *pairs(SC, 'registration', [
            ('_output_config_files', 'class_output_all'), ('_output_config_file', 'class_output')]),
        *pairs(FC, 'registration', [
            ('_output_config_files', 'function_output_all'), ('_output_config_file', 'function_output'),
            ('_output_section_config_file', 'section_output')]),
        atoms={CONFIG_BASE + '.' + m for m in ('update', 'to_file', 'from_file', '__init__')} | {
            P + 'pipelines.models.config.FunctionConfig.from_file', P + 'data.models.config.SpecificClassConfig.__init__',
            P + 'imports.models.statements.container.ImportStatementContainer.extend', A + 'container.Container.extend'},
        pure=SP_PURE | {P + 'logic.get._get_from_nested_obj_by_section_path', CONFIG_BASE + '.copy',
                        P + 'imports.logic.load.name.get_module_and_name_imported_from',
                        P + 'io.func.load.args.extract_function_args_and_arg_imports_from_import',
                        P + 'io.func.load.config.function_args_as_arg_and_annotation_dict',
                        P + 'views.object.ObjectView.default_config', P + 'views.object.ObjectView.output_name'},
        order=EVERY)


def config_files():
    return Group(
        'config files',
        *pairs(A + 'file.ConfigFileBase.', 'registration', [
            ('__init__', 'file_init'), ('load', 'file_load'), ('save', 'file_save'),
            ('_add_always_imports_and_assigns_to_config', 'add_always')]),
        *pairs(P + 'data.models.file.SpecificClassConfigFile.', 'registration', [
            ('__init__', 'class_file_init'), ('__call__', 'class_file_call'), ('load', 'class_file_load')]),
        *pairs(P + 'pipelines.models.file.FunctionConfigFile.', 'registration', [('save', 'function_file_save')]),
        *pairs(P + 'pipelines.models.config.FunctionConfig.', 'registration', [('from_file', 'function_from_file')]),
        atoms={P + 'mixins.orderpref.OrderPreferenceMixin.preferred_position:setter'},
        pure={P + 'imports.models.statements.container.ImportStatementContainer.__contains__'},
        order=EVERY)


def selector():
    S, V, T = (P + 'selector.models.selector.Selector.', P + 'selector.models.itemview.ItemView.',
               P + 'selector.logic.exc.typo.')
    return Group(
        'selecting items',
        *pairs(S, 'selector', [
            ('__init__', 'selector_init'), ('_attach_to_pipeline_manager', 'attach'),
            ('_load_structure', 'load_structure'), ('__contains__', 'contains'),
            ('_get_collection_obj_and_relative_section_path_from_structure', 'locate', PURE),
            ('__getattr__', 'selector_getattr'), ('__call__', 'selector_getattr'), ('__eq__', 'selector_eq'),
            ('get_type', PURE), ('_get_real_item', 'real_item'), ('_set_attr_for_item', 'set_attr_for_item'),
            ('_get_dir_for_section_path', 'dir_for', PURE), ('__dir__', 'selector_dir')]),
        *pairs(P + 'selector.models.selector.', 'selector', [('_is_selector', 'is_selector')]),
        *pairs(V, 'selector', [
            ('__init__', 'view_init'), ('__getattr__', 'view_getattr'), ('__setattr__', 'view_setattr'),
            ('__dir__', 'view_dir'), ('__call__', 'view_call'), ('__deepcopy__', 'view_deepcopy'),
            ('__eq__', 'view_eq'), ('__hash__', 'view_hash'), ('__class__', 'view_class', FOLLOW),
            ('type', 'view_class', FOLLOW), ('item', 'view_item', FOLLOW),
            ('_add_to_config_dependencies_if_necessary', 'view_record', FOLLOW),
            ('_specific_class_collection_map', 'class_map', PURE), ('_specific_classes', 'classes', FOLLOW),
            ('from_section_path_str', 'view_from_path')]),
        *pairs(P + 'selector.models.itemview.', 'selector', [('is_item_view', 'is_view')]),
        *pairs(T, 'selector', [
            ('handle_pipeline_manager_not_loaded_or_typo', 'not_loaded_or_typo'),
            ('handle_known_typo_after_pipeline_manager_name', 'typo_after_manager'),
            ('handle_known_typo_at_end_of_section_path_str', 'typo_at_end')]),
        atoms={CONTEXT + '.' + m for m in ('add_config_dependency',
                                           'add_config_dependency_for_currently_running_item_if_exists')} | {
            PIPELINE_MANAGER + '.update', P + 'logic.get._get_from_nested_obj_by_section_path',
            A + 'collection.Collection.get', P + 'views.object.ObjectView.load'},
        pure=SP_PURE | {PIPELINE_MANAGER + '.get_manager_by_section_path_str'},
        order=EVERY)


def files():
    F, L = P + 'io.file.', P + 'io.file.load.lazy.'
    return Group(
        'files of the user',
        *pairs(F + 'write.base.FileStr.', 'files', [
            ('__init__', 'text_init'), ('_create_str', 'create_text'),
            ('_combine_imports_get_new_assignments', 'combine')]),
        *pairs(F + 'write.config.ConfigFileStr.', 'files', [('__init__', 'config_text_init')]),
        *pairs(F + 'interfaces.', 'files', [
            ('config.ConfigFileInterface.save', 'save_config'), ('pipeline.PipelineDictInterface.save', 'save_dict'),
            ('datadict.SpecificClassDictInterface.save', 'save_dict'),
            ('activeconfig.ActiveConfigFileInterface.save', 'save_active')]),
        *pairs(L, 'files', [
            ('base.loader.LazyLoader.__init__', 'loader_init'), ('base.loader.LazyLoader.register', 'register_lines'),
            ('base.loader.LazyLoader.ast', 'get_ast', PURE), ('base.loader.LazyLoader.body', 'get_body', PURE),
            ('base.loader.LazyLoader._try_getattr_else_register', 'get_or_register'),
            ('base.impassign.ImportAssignmentLazyLoader.register', 'register'),
            ('base.impassign.ImportAssignmentLazyLoader.imports', 'get_imports', PURE),
            ('base.impassign.ImportAssignmentLazyLoader.assigns', 'get_assigns', PURE),
            ('config.ConfigFileLoader.load', 'load_config'),
            ('config.ConfigFileLoader.assignment_body', 'get_assignment_body', PURE),
            ('config.ConfigFileLoader.beginning_imports', 'get_beginning_imports', PURE),
            ('config.ConfigFileLoader._file_body_to_assignment_body', 'split_body'),
            ('dataast.SpecificClassDictAstLoader.load', 'load_class_assign'),
            ('dataast.SpecificClassDictAstLoader.class_dict_assign', 'get_class_assign', PURE),
            ('dataast.SpecificClassDictAstLoader._try_getattr_else_load', 'get_or_load'),
            ('datadict.SpecificClassDictLoader.load', 'load_class_dict'),
            ('datadict.SpecificClassDictLoader.class_dict', 'get_class_dict', PURE),
            ('datadict.SpecificClassDictLoader._class_dict_assign_to_dict', 'convert_class_dict'),
            ('pipelineast.PipelineAstLoader.load', 'load_pipeline_assign'),
            ('pipelineast.PipelineAstLoader.pipeline_dict_assign', 'get_pipeline_assign', PURE),
            ('pipelineast.PipelineAstLoader._try_getattr_else_load', 'get_or_load'),
            ('pipeline.PipelineDictLoader.load', 'load_pipeline_dict'),
            ('pipeline.PipelineDictLoader.pipeline_dict', 'get_pipeline_dict', PURE),
            ('pipeline.PipelineDictLoader._pipeline_dict_assign_to_dict', 'convert_pipeline_dict')]),
        *pairs(F + 'load.', 'files', [
            ('active.loader.ActiveConfigFileLoader.load', 'load_active'),
            ('active.loader.ActiveConfigFileLoader.user_defined_dict', 'get_user_defined_dict', PURE),
            ('active.userdef.get_user_defined_dict_from_filepath', 'defined_in_file'),
            ('active.userdef._get_user_defined_dict_from_module', 'defined_in_module', PURE),
            ('active.userdef._load_file_as_module', 'load_as_module'),
            ('parsers.base.FileParser.__init__', 'file_parser_init'), ('parsers.base.FileParser.load', 'read_lines'),
            ('parsers.py.PythonFileParser.load', 'read_python')]),
        *pairs(P + 'config.logic.load.', 'files', [
            ('_split_lines_into_import_and_assignment', 'split_lines', PURE),
            ('_get_indices_of_beginning_import_lines', 'beginning_import_lines', PURE),
            ('_is_whitespace_line', 'is_blank', PURE),
            ('_strip_whitespace_lines_from_end_of_lines', 'without_blank_end', PURE)]),
        atoms={CONFIG_BASE + '.as_imports_and_assignments',
               A + 'container.Container.add_if_missing', A + 'container.Container.append_if_missing'},
        pure={P + 'io.file.load.parsers.imp.extract_imports_from_ast',
              P + 'io.file.load.parsers.assign.extract_assignments_from_ast',
              P + 'io.file.load.parsers.assign.extract_assignment_from_ast_by_name',
              P + 'io.file.load.parsers.collections.extract_collection_from_ast',
              P + 'assignments.models.statement.AssignmentStatement.to_ast',
              P + 'assignments.models.container.AssignmentStatementContainer.contains_varname',
              P + 'assignments.models.container.AssignmentStatementContainer.to_default_dict_and_annotation_dict',
              P + 'imports.models.statements.container.ImportStatementContainer.get_import_for_module_or_obj_name',
              A + 'container.Container.copy'},
        order=EVERY)


def text_parts():
    C, S, O = A + 'container.Container.', P + 'assignments.models.container.AssignmentStatementContainer.', \
        P + 'assignments.models.statement.AssignmentStatement.'
    R = P + 'io.file.load.parsers.'
    return Group(
        'parts of source files',
        *pairs(C, 'text', [
            ('__getitem__', 'c_getitem', PURE), ('__contains__', 'c_contains', PURE), ('__len__', 'c_len', PURE),
            ('__add__', 'c_add', PURE), ('append', 'c_append', FOLLOW), ('extend', 'c_extend', FOLLOW), ('insert', 'c_insert'),
            ('copy', 'c_copy', PURE), ('add_if_missing',), ('append_if_missing',), ('insert_if_missing',)]),
        *pairs(S, 'text', [
            ('__init__', 'assigns_init'), ('__str__', 'assigns_text', PURE), ('contains_varname', PURE),
            ('to_default_dict_and_annotation_dict', 'all_defaults_and_annotations', PURE),
            ('from_dict_of_varnames_and_ast', 'from_names_and_asts')]),
        *pairs(O, 'text', [
            ('__init__', 'assign_init'), ('__str__', 'assign_text', PURE), ('__eq__', 'assign_equal', PURE),
            ('from_ast_assign',), ('to_ast', PURE), ('from_varname_and_ast_value', 'from_name_and_ast'),
            ('from_str', 'assign_from_str')]),
        *pairs(P, 'text', [
            ('io.file.write.asttosource.ast_node_to_source', 'node_to_source'),
            ('assignments.logic.write._assignment_output_repr', 'assignment_repr', PURE),
            ('data.models.astitems.ast_str', 'text_node', PURE),
            ('data.models.astitems.ast_dict_constructor_with_kwargs_from_dict', 'dict_call_node', PURE)]),
        *pairs(R, 'text', [
            ('assign.AssignmentExtractor.__init__', 'assign_extractor_init'),
            ('assign.AssignmentExtractor.visit_Assign', 'visit_assign'),
            ('assign.AssignmentExtractor.visit_AnnAssign', 'visit_assign'),
            ('assign.extract_assignments_from_ast', 'extract_assigns'),
            ('assign.extract_assignment_from_ast', 'extract_assign'),
            ('assign.AssignmentByVarnameExtractor.__init__', 'named_assign_extractor_init'),
            ('assign.AssignmentByVarnameExtractor.visit_Assign', 'visit_assign_named'),
            ('assign.AssignmentByVarnameExtractor.visit_AnnAssign', 'visit_ann_assign_named'),
            ('assign.extract_assignments_from_ast_by_name', 'extract_assigns_by_name'),
            ('assign.extract_assignment_from_ast_by_name', 'extract_assign_by_name'),
            ('collections.AstDictListConverter.__init__', 'collection_converter_init'),
            ('collections.AstDictListConverter.visit_Dict', 'visit_dict'),
            ('collections.AstDictListConverter.visit_List', 'visit_list'),
            ('collections.extract_collections_from_ast', 'extract_collections'),
            ('collections.extract_collection_from_ast', 'extract_collection'),
            ('collections._ast_dict_or_list_to_dict_or_list', 'any_to_collection', PURE),
            ('collections._ast_dict_to_dict', 'dict_to_dict', PURE),
            ('collections._ast_list_to_list', 'list_to_list', PURE),
            ('collections._convert_to_str_if_ast_str_and_desired', 'plain_or_text', PURE),
            ('extname.NameExtractor.__init__', 'name_extractor_init'),
            ('extname.NameExtractor.visit_Name', 'visit_name'),
            ('extname.extract_external_name_from_assign_value', 'extract_name'),
            ('extname.extract_unique_external_names_from_assign_value', 'extract_unique_names'),
            ('fromdict.extract_dict_from_ast_dict_or_dict_constructor', 'dict_of_ast'),
            ('funcdef.FunctionDefinitionExtractor.__init__', 'def_extractor_init'),
            ('funcdef.FunctionDefinitionExtractor.visit_FunctionDef', 'visit_function_def'),
            ('funcdef.FunctionDefinitionExtractor.visit_ClassDef', 'visit_class_def'),
            ('funcdef.extract_function_definitions_from_ast', 'extract_defs'),
            ('funcdef.FunctionDefinitionByNameExtractor.__init__', 'named_def_extractor_init'),
            ('funcdef.FunctionDefinitionByNameExtractor.visit_FunctionDef', 'visit_named_function_def'),
            ('funcdef.extract_function_definitions_from_ast_by_name', 'extract_defs_by_name'),
            ('funcdef.extract_function_definition_from_ast_by_name', 'extract_def_by_name'),
            ('funcdef.FunctionDefinitionOrClassInitByNameExtractor.visit_ClassDef', 'visit_named_class_def'),
            ('funcdef.extract_function_definitions_or_class_inits_from_ast_by_name', 'extract_defs_or_inits_by_name'),
            ('funcdef.extract_function_definition_or_class_init_from_ast_by_name', 'extract_def_or_init_by_name'),
            ('imp.ImportExtractor.__init__', 'import_extractor_init'),
            ('imp.ImportExtractor.visit_Import', 'visit_import'),
            ('imp.ImportExtractor.visit_ImportFrom', 'visit_import_from'),
            ('imp.extract_imports_from_ast', 'extract_imports'),
            ('imp.extract_obj_import_from_ast', 'extract_obj_import'),
            ('imp.extract_module_import_from_ast', 'extract_module_import'),
            ('imp._extract_single_import_from_container', 'single_import', PURE),
            ('imp._validate_import_type', 'check_import_type'),
            ('kwargs.KeywordExtractor.__init__', 'keyword_extractor_init'),
            ('kwargs.KeywordExtractor.visit_keyword', 'visit_keyword'),
            ('kwargs.extract_keywords_from_ast', 'extract_keywords'),
            ('kwargs.KeywordByNameExtractor.__init__', 'named_keyword_extractor_init'),
            ('kwargs.KeywordByNameExtractor.visit_keyword', 'visit_named_keyword'),
            ('kwargs.extract_keywords_from_ast_by_name', 'extract_keywords_by_name')]),
        pure={P + 'selector.models.selector._is_selector', P + 'selector.models.itemview.is_item_view',
              P + 'logic.inspect._is_builtin', P + 'imports.logic.load.name.get_module_and_name_imported_from',
              P + 'imports.logic.load.name.get_imported_obj_variable_name'},
        order=EVERY)


def imports():
    S = P + 'imports.models.statements.'
    L, G, V = P + 'imports.logic.load.', P + 'io.func.load.', P + 'views.object.'
    names_renamed = dict(pure=True, follow={S + 'importbase.ImportStatement._renamed',
                                            S + 'importbase.ImportStatement._not_renamed'})
    return Group(
        'imports and signatures',
        *pairs(S + 'obj.ObjectImportStatement.', 'imports', [
            ('__init__', 'obj_import_init'), ('__str__', 'obj_import_text', names_renamed), ('from_str', 'obj_import_from_str'),
            ('from_ast_import_from', 'obj_import_from_ast'), ('get_module_filepath', 'obj_import_file'),
            ('execute', 'obj_import_execute')]),
        *pairs(S + 'module.ModuleImportStatement.', 'imports', [
            ('__init__', 'module_import_init'), ('__str__', 'module_import_text', names_renamed),
            ('from_str', 'module_import_from_str'), ('from_ast_import', 'module_import_from_ast'),
            ('get_module_filepaths', 'module_import_files'), ('execute', 'module_import_execute'),
            ('module', 'single_module', PURE)]),
        *pairs(S + 'importbase.ImportStatement.', 'imports', [
            ('_renamed', 'renamed', PURE), ('_not_renamed', 'not_renamed', PURE)]),
        *pairs(S + 'rename.RenameStatement.', 'imports', [
            ('__init__', 'rename_init'), ('__str__', 'rename_text', PURE), ('from_ast_alias', 'rename_from_alias')]),
        *pairs(S + 'rename.RenameStatementCollection.', 'imports', [
            ('__init__', 'renames_init'), ('__contains__', 'renames_contain', PURE),
            ('__getitem__', 'renames_getitem', PURE), ('new_names', PURE), ('orig_names', PURE), ('item_map', PURE),
            ('reverse_name_map', PURE), ('name_map', PURE), ('from_ast_import', 'renames_from_ast', PURE)]),
        *pairs(S + 'container.ImportStatementContainer.', 'imports', [
            ('__init__', 'imports_init'), ('__contains__', 'imports_contain', PURE), ('__str__', 'imports_text', PURE),
            ('get_import_for_ast_obj', 'import_for_ast', PURE),
            ('get_import_for_module_or_obj_name', 'import_for_name', PURE),
            ('_submodules_imported_for', 'submodules_for', PURE),
            ('obj_name_is_imported', 'name_is_imported', PURE), ('imported_names', PURE),
            ('modules', 'imported_modules_of', PURE), ('objs', 'imported_objs_of', PURE)]),
        *pairs(V, 'imports', [
            ('ObjectView.__init__', 'view_init'), ('ObjectView.load', 'view_load'),
            ('_execute_import_get_obj_from_result', 'executed'), ('ObjectView.output_name', 'view_output_name', PURE),
            ('ObjectView.from_ast_and_imports', 'view_from_ast'), ('ObjectView._set_name', 'view_set_name'),
            ('ObjectView._get_default_config', 'view_set_config'),
            ('ObjectView.default_config', 'view_default_config', PURE), ('ObjectView.item', 'view_item', PURE),
            ('ObjectView.name', 'view_name', PURE)]),
        *pairs(G, 'imports', [
            ('args.FunctionArgsExtractor.extract_args', 'args_of_view'),
            ('args.extract_function_args_and_arg_imports_from_import', 'args_from_import'),
            ('args.get_module_filepath_from_import', 'file_of_import'),
            ('config.FunctionConfigExtractor.extract_config', 'config_of_function'),
            ('config.function_args_as_arg_and_annotation_dict', 'signature'),
            ('config._get_length_of_arg_section', 'len_or_none', PURE),
            ('config._get_list_of_arg_section', 'list_or_none', PURE),
            ('config._strip_ast_quotes_if_necessary', 'unquoted', PURE),
            ('extractimp.extract_import_statements_from_function_args_imports_and_assigns', 'imports_of_signature'),
            ('extractimp._unique_external_names_from_default_dict_and_annotation_dict', 'external_names', PURE),
            ('extractimp._unique_external_names_from_assignment_dict', 'external_names_of_values', PURE),
            ('extractimp._unique_external_names_from_annotation_dict', 'external_names_of_annotations', PURE),
            ('extractimp._extract_unique_type_str_names_from_annotation_dict', 'annotation_names', PURE),
            ('extractimp._extract_str_names_from_ambiguous_annotation', 'names_of_annotation', PURE),
            ('extractimp._extract_str_names_from_subscript', 'names_of_subscript', PURE),
            ('extractimp._extract_str_names_from_tuple', 'names_of_tuple', PURE)]),
        *pairs(L, 'imports', [
            ('func.function_args_as_dict', 'signature_of_object'), ('klass.class_function_args_as_dict', 'signature_of_class'),
            ('func._get_length_of_arg_section', 'len_of_section', PURE),
            ('func._get_list_of_arg_section', 'list_of_section', PURE),
            ('name.get_module_and_name_imported_from', 'module_of_object'), ('name.is_imported_name', 'is_imported_name'),
            ('name.is_imported_obj', 'is_imported_obj'), ('name._is_imported_from', 'modules_with_name'),
            ('name._obj_in_module', 'obj_in_module', PURE), ('name._name_in_module', 'name_in_module', PURE),
            ('name._should_skip_module', 'skipped', PURE),
            ('ext_importlib.get_filepath_from_module_str', 'filepath_of_module')]),
        *pairs(P, 'imports', [
            ('imports.models.tracker.ImportTracker.__init__', 'tracker_init'),
            ('imports.models.tracker.ImportTracker.imported_modules', 'tracked_modules', PURE),
            ('mixins.orderpref.OrderPreferenceMixin.preferred_position', 'position', PURE),
            ('mixins.orderpref.OrderPreferenceMixin._is_begin_str', 'is_begin', PURE)]),
        pure={SECTION_PATH, SECTION_PATH + '.endswith', P + 'logic.userinput._is_begin_str',
              P + 'logic.inspect._is_str_matching_builtin_type',
              P + 'io.file.load.parsers.extname.extract_external_name_from_assign_value',
              P + 'io.file.load.parsers.extname.extract_unique_external_names_from_assign_value',
              P + 'assignments.models.container.AssignmentStatementContainer.contains_varname',
              P + 'io.file.load.parsers.kwargs.extract_keywords_from_ast_by_name',
              P + 'io.file.load.lazy.base.impassign.ImportAssignmentLazyLoader.imports',
              P + 'io.file.load.lazy.base.impassign.ImportAssignmentLazyLoader.assigns',
              P + 'io.file.load.lazy.base.loader.LazyLoader.ast',
              P + 'io.file.load.parsers.funcdef.extract_function_definition_or_class_init_from_ast_by_name',
              P + 'io.file.load.parsers.imp.extract_obj_import_from_ast',
              P + 'io.file.load.parsers.imp.extract_module_import_from_ast'},
        order=EVERY)


def small_parts():
    return Group(
        'plugins, reports and small parts',
        *pairs(P, 'rest', [
            ('plugin.manager_utils.reset_plugins', 'forget_plugins'),
            ('plugin.manager_utils.remove_default_plugins', 'without_defaults'),
            ('main.RunnerException.__init__', 'runner_exception_init'),
            ('main.RunnerException.__str__', 'runner_exception_text', PURE),
            ('main.report_runner_exceptions', 'report', dict(kwargs=dict(keep_log=True))),
            ('basemodels.collection.Collection.__dir__', 'collection_dir', PURE),
            ('config.models.section.ConfigSection.__dir__', 'section_dir', PURE),
            ('basemodels.config.ConfigBase.__getattr__', 'config_attribute', PURE),
            ('basemodels.container.Container.__iter__', 'iterate'),
            ('imports.models.statements.rename.RenameStatementCollection.__iter__', 'iterate'),
            ('data.models.config.SpecificClassConfig.__init__', 'specific_config_init'),
            ('views.object.ObjectView._set_module', 'set_module'),
            ('logic.get._has_public_name_or_special_name', 'has_name', PURE)]),
        atoms={CONFIG_BASE + '.__init__', P + 'plugin.manager_utils.get_plugin_manager',
               P + 'data.models.file.SpecificClassConfigFile.__init__', 'Exception.__init__'},
        order=EVERY)


def rest():
    M = P + 'main.'
    return Group(
        'setup and small parts',
        *pairs(M, 'rest', [
            ('create_project', 'create_project'), ('_validate_registrars', 'validate_registrars'),
            ('create_registrars', 'make_registrars'), ('create_collections', 'make_collections'),
            ('_create_registrars_or_collections_from_dict', 'from_definitions'),
            ('PipelineManager._load_pipeline_config_and_runner', 'load_parts'),
            ('PipelineManager.__dir__', 'manager_dir'),
            ('PipelineManager._create_pipeline_dict_entry', 'add_general_entry'),
            ('PipelineManager._create_specific_class_dict_entry', 'add_specific_entry')]),
        *pairs(RUNNER + '.', 'rest', [('__init__', 'runner_init')]),
        *pairs(CONFIG_MANAGER + '.', 'rest', [
            ('__init__', 'config_manager_init'), ('load', 'config_manager_load'),
            ('__getattr__', 'config_manager_getattr', PURE), ('__dir__', 'config_manager_dir', PURE)]),
        *pairs(P, 'rest', [
            ('config.models.section.ConfigSection.__init__', 'config_section_init'),
            ('basemodels.registrar.Registrar.__dir__', 'registrar_dir', PURE),
            ('dictfiles.modify.add_item_into_nested_dict_at_section_path', 'add_to_nested'),
            ('dictfiles.modify.create_dict_assignment_str_from_nested_dict_with_ast_names', 'definition_text', PURE),
            ('dictfiles.modify.pretty_format_str', 'formatted', PURE),
            ('pipelines.models.dictconfig.PipelineDictConfig.as_imports_and_assignments', 'general_entry_parts'),
            ('data.models.dictconfig.SpecificClassDictConfig.as_imports_and_assignments', 'specific_entry_parts'),
            ('pipelines.models.dictfile.PipelineDictFile.load', 'load_definition'),
            ('data.models.dictfile.SpecificClassDictFile.load', 'load_definition'),
            ('basemodels.config.ConfigBase.update', 'config_update'),
            ('basemodels.config.ConfigBase.__dir__', 'config_dir', PURE),
            ('pipelines.models.config.FunctionConfig.for_function', 'for_function', PURE),
            ('data.models.config.SpecificClassConfig.from_obj', 'config_from_obj'),
            ('plugin.manager_utils.get_plugin_manager', 'make_plugin_manager'),
            ('logic.combine.combine_items_into_list_whether_they_are_lists_or_not', 'combine_to_list', PURE),
            ('logic.combine.combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item',
             'combine', PURE),
            ('debug.pdb_post_mortem_or_passed_debug_fn', 'debug'),
            ('userbase.PyfileconfBase._pyfileconf_update_', 'base_update'),
            ('logic.userinput._is_begin_str', 'is_begin', PURE),
            ('logic.inspect._is_builtin', 'is_builtin', PURE),
            ('logic.inspect._is_str_matching_builtin_type', 'is_builtin_name', PURE),
            ('imports.logic.load.ext_importlib.find_spec', 'find_spec'),
            ('iterate._get_configs_by_section_path_dict', 'by_path', PURE)]),
        atoms={CONFIG_BASE + '.__init__', P + 'data.models.config.SpecificClassConfig.__init__',
               P + 'config.models.section.ConfigSection.from_files', A + 'registrar.Registrar.from_dict',
               A + 'collection.Collection.from_dict', A + 'file.ConfigFileBase.__init__', A + 'file.ConfigFileBase.save',
               A + 'registrar.Registrar.scaffold_config'},
        pure=SP_PURE | {P + 'imports.logic.load.func.function_args_as_dict',
                        P + 'imports.logic.load.klass.class_function_args_as_dict',
                        P + 'imports.logic.load.name.get_module_and_name_imported_from'},
        order=EVERY)


AREAS = {f.__name__: f for f in (config_manager, runner, pipeline_manager, context, section_paths, configs, iteration,
                                 options, log_output, registration, scaffolding, config_files, selector, files, text_parts,
                                 imports, rest, small_parts)}
