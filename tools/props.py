SAMP = 'sampled executions (no exhaustiveness); trusts numpy/scipy arithmetic and the reference model in /verif'

prop('C01', 'Random variables follow their stated distribution and truncation',
     'For every supported distribution family, parameter set, unit scale and truncation, a random variable\'s inverse transform maps a uniform value to the stated quantile of the (truncated) distribution, its cdf is the inverse of that map, every sampled value lies within the truncation limits, and the inputs passed by the caller are left unchanged. Realization-specific parameters and deterministic, empirical, multilinear and discrete variables follow the same rule.',
     ['inputs'], 'families x parameters x truncation limits x uniform samples',
     'Tests compare a handful of parameter sets against stored values.',
     [UQ], ['inverse_transform and cdf of each RandomVariable class', 'scale_distribution'],
     ['RandomVariable.inverse_transform', 'RandomVariable.cdf', 'RandomVariable.sample'], SAMP)

prop('C02', 'Registry sampling honours method, anchors and seed',
     'Latin hypercube sampling puts exactly one realization in each of the N equal-probability strata of every variable (at the midpoint for the midpoint variant) and Monte Carlo gives uniform independent values. Anchored variables share their anchor\'s realizations, and the generated samples are a function of the seed and the order of the variables only.',
     ['inputs', 'histories'], 'variable sets x sample sizes x methods x seeds x anchors',
     'Tests check one or two sizes; stratification must hold in every dimension for every size.',
     [UQ], ['generate_sample @ RandomVariableRegistry', 'anchor @ BaseRandomVariable'],
     ['uni_sample and sample of every registered variable'], SAMP)

prop('C03', 'Correlated samples keep marginals and show the requested correlation',
     'Applying a correlation matrix to a set of variables preserves each variable\'s uniform marginal and produces joint samples whose normal-space correlation is the requested one (including perfectly correlated sets), with other variables untouched.',
     ['inputs'], 'correlation matrices (incl. singular) x families x sizes',
     'Statistical guarantees cannot be settled by a stored array.',
     [UQ], ['apply_correlation @ RandomVariableSet', 'generate_sample @ RandomVariableRegistry'],
     ['sample of each variable in the set'], SAMP + '; statistical bounds at 6 sigma or wider')

prop('C04', 'Orthotope densities are the multivariate normal box probabilities',
     'The probability mass reported for a box under a multivariate normal equals the true box probability for any correlation, open or closed bounds and dimension, and is additive over partitions of the box. Caller inputs are unchanged.',
     ['inputs'], 'dimensions 1-5 x correlation x bounds (incl. infinite)',
     'A few fixed boxes are tested.', [UQ], ['mvn_orthotope_density', 'orthotope_density @ RandomVariableSet'],
     ['mvn_orthotope_density', 'RandomVariableSet.orthotope_density'], SAMP)

prop('C05', 'Distribution fitting returns the maximum-likelihood / moment estimates',
     'Fitting recovers, per variable, the moments of uncensored data and parameters at least as likely as the generating ones under truncation and detection limits, with the sample correlation in the variables\' own space. Fits and scaled distributions are equivariant with the unit of the data.',
     ['inputs'], 'samples x families x truncation x censoring x units', 'Tests fit a few fixed samples.',
     [UQ], ['fit_distribution_to_sample', 'scale_distribution'], ['returned theta and rho'], SAMP)

prop('C06', 'Units convert exactly and results do not depend on the unit system',
     'Any supported unit converts by the product of its SI factors, conversions compose and invert, incompatible or unknown units are rejected. An assessment\'s damage and losses are the same physical quantities whichever compatible units its demands, components, fragilities, consequences or outputs are stated in, including units from a user file.',
     ['inputs', 'configurations'], 'unit pairs x values x user unit files; whole assessments restated in other units',
     'Tests use one unit per quantity.', [BASE, FIO, ASM, PM],
     ['parse_units', 'convert_units', 'calc_unit_scale_factor @ pelicun/assessment.py', 'unit handling of load_data'],
     ['convert_units', 'loaded parameters', 'damage and loss samples'], SAMP)

prop('C07', 'Saved samples and models load back to the same state',
     'Saving a demand, component, damage or loss sample (or a demand or component model) and loading the result, through a file or in memory, restores the same values in the same units, and a calculation continued from the loaded state gives the results of the original one. Saving does not change the state.',
     ['histories', 'inputs'], 'save/load points in the workflow x units x unit systems',
     'Round trips are tested for single small cases.', [DEM, AST, DMG, LOSS, FIO],
     ['save_sample/load_sample of each model', 'save_to_csv/load_data @ pelicun/file_io.py'],
     ['samples after reload', 'subsequent damage and loss results'], SAMP)

prop('C08', 'Configuration merging is exact and isolated',
     'A user configuration overrides exactly the defaults it names and leaves every other default in place, and neither the caller\'s dictionary nor another assessment\'s options are affected. Nested get, update and is_specified treat any path consistently.',
     ['configurations'], 'nested user configurations', 'Tests merge two or three hand-written dictionaries.',
     [BASE, 'pelicun/settings/default_config.json'], ['merge_default_config', 'update_vals', 'get/update/is_specified'],
     ['merged dictionary', 'Options attributes', 'caller dictionary'], SAMP)

prop('C10', 'Index and table conversions are lossless',
     'Converting labels between hyphenated and multi-level form and back restores the original labels and values in order, and table clean-up helpers (duplicate removal, numeric conversion, missing-value parsing, factor application by level) do only what they state without altering the caller\'s table.',
     ['inputs'], 'label sets and tables', 'Tests use two or three labels.',
     [BASE, FIO], ['convert_to_SimpleIndex/convert_to_MultiIndex', 'dedupe_index', 'multiply_factor_multiple_levels', 'load_data'],
     ['returned tables'], SAMP)

prop('C11', 'Loaded demands equal the input demands',
     'Every realization not flagged as erroneous in a demand file or table becomes one realization of the demand sample, with values converted from the stated unit, labels normalized (event prefix dropped, location and direction kept), and nothing else removed, added or reordered.',
     ['inputs'], 'header styles x units x error flags x column orders', 'Tests load one or two files.',
     [DEM, FIO], ['load_sample @ pelicun/model/demand_model.py', '_parse_header'], ['DemandModel.sample', 'user_units'], SAMP)

prop('C12', 'Calibrated demand models reproduce the specified marginals',
     'A demand model calibrated to a sample assigns to each demand the configured family, limits and parameters estimated from its data with the data\'s correlation, adds the configured uncertainty, and a sample generated from it (or from a loaded model) follows those marginals and correlation with the requested size.',
     ['inputs', 'configurations'], 'calibration configurations x demand sets', 'Tests compare one calibration to stored values.',
     [DEM, UQ], ['calibrate_model', 'generate_sample'], ['marginal_params', 'correlation', 'sample'], SAMP)

prop('C13', 'Residual drift estimates follow the stated model',
     'Residual drift is zero below yield drift, follows the piecewise-linear FEMA P-58 relation (or Weibull model) with the configured dispersion above it, is never negative, and leaves the peak drifts unchanged, whatever unit the drifts are reported in.',
     ['inputs'], 'drift values x yield drift x parameters', 'Tests check stored values for one seed.',
     [DEM, UQ], ['estimate_RID', 'estimate_RID_and_adjust_sample'], ['returned RID table', 'DemandModel.sample'], SAMP + '; statistical bounds at 6 sigma')

prop('C14', 'Demand cloning and expansion copy exactly the stated columns',
     'Cloning replaces each listed demand by exactly the named copies, identical in every realization and with the unit of their source, and expanding adds exactly one demand with the given values in the given unit; all other demands, their units and the order of realizations are unchanged. Inconsistent requests (duplicate names, wrong lengths) are rejected without changing the sample.',
     ['inputs', 'configurations'], 'cloning maps x samples x sizes', 'Tests use one map.',
     [DEM], ['clone_demands', 'expand_sample'], ['DemandModel.sample', 'demand units'], SAMP)

prop('C15', 'Component definitions expand to exactly the stated performance groups',
     'Location and direction strings (ranges, lists, all, top, roof, storey offsets) expand to exactly the floors and directions they denote for the number of stories, and each resulting performance group carries the stated quantity distribution, block weights and unit.',
     ['inputs'], 'location/direction strings x story counts x blocks x units', 'Tests check single strings.',
     [AST], ['_get_locations', '_get_directions', '_get_blocks', 'load_cmp_model', 'generate_cmp_sample'],
     ['cmp_marginal_params', 'cmp_sample'], SAMP)

prop('C16', 'Damage states follow from demands and capacities',
     'In every realization a component block is in the damage state of the highest limit state whose capacity the demand it is exposed to exceeds (undamaged if there is none); the demand is the one at the fragility\'s type, offset location and direction, scaled for non-directional components or combined by the stated expression.',
     ['inputs', 'configurations'], 'demand samples x fragility definitions x locations/directions/offsets x expressions',
     'Tests cover a few locations with stored outcomes.',
     [DMG], ['_assemble_required_demand_data', '_evaluate_damage_state', 'parse_demand expressions'],
     ['damage.ds_model.sample'], SAMP)

prop('C17', 'Damage calculation conserves component quantities',
     'In every realization the quantities over all damage states of a performance group sum to its quantity, none is negative, and the result does not depend on how performance groups are batched or in which order components were listed.',
     ['inputs', 'configurations'], 'block counts x batch sizes x component orders x quantities', 'A few batch sizes are tested.',
     [DMG], ['calculate batching', '_prepare_dmg_quantities'], ['damage.ds_model.sample', 'component sample'], SAMP)

prop('C18', 'Fragility capacities have the stated distribution, weights and scaling',
     'Across realizations, limit-state exceedance frequencies, damage-state splits and capacity correlations match the fragility\'s distribution and damage-state weights, and a scaling specification changes exactly the targeted limit states of the targeted performance groups by the stated amount.',
     ['inputs', 'configurations'], 'fragility families x weights x scaling specifications', 'Statistical guarantees; tests compare one seed.',
     [DMG, UQ], ['_create_dmg_RVs', 'scaling specification handling'], ['damage.ds_model.sample'], SAMP + '; statistical bounds at 6 sigma')

prop('C19', 'Damage processes move damage exactly as prescribed',
     'Each damage process step, applied in its stated order, moves or removes quantities of exactly the target components in exactly the realizations (and, for location-specific steps, locations) where the triggering damage state occurs, leaving all others and total quantities unchanged.',
     ['inputs', 'configurations'], 'process definitions x damage outcomes', 'Tests cover one event type each.',
     [DMG], ['perform_dmg_task'], ['damage.ds_model.sample before/after'], SAMP)

prop('C20', 'Parameter sources are merged by stated precedence',
     'When several fragility or consequence sources define a component, the first source that defines it provides all of its parameters; incomplete or missing components are reported and excluded consistently, and listing all damage states only adds empty columns.',
     ['configurations', 'inputs'], 'source lists with overlaps, missing and incomplete entries', 'Tests use a single source.',
     [DMG, LOSS], ['load_model_parameters', '_get_pg_batch', 'save/complete ds columns'], ['damage_params', 'loss_params', 'results'], SAMP)

prop('C21', 'Damage-state losses follow the consequence functions and economies of scale',
     'The loss of a damaged quantity is that quantity times the unit consequence of its damage state, taken from the consequence function at the quantity aggregated as configured (per floor or across floors, per or across damage states) with the stated uncertainty; undamaged quantities cause none.',
     ['inputs', 'configurations'], 'damage samples x consequence functions x economies-of-scale settings',
     'Tests check shapes and a few medians.', [LOSS], ['RepairModel_DS.calculate', '_calc_median_consequence'], ['loss.ds_model.sample'], SAMP)

prop('C22', 'Loss-function losses interpolate the stated function at the demand',
     'Loss-function based losses equal the interpolated loss at the component\'s demand times its quantity for every block and realization, with the stated variability, and are proportional to quantity.',
     ['inputs'], 'loss functions x demands x quantities x blocks', 'Tests use one function.', [LOSS, DMG, BASE],
     ['RepairModel_LF.calculate'], ['loss.lf_model.sample'], SAMP)

prop('C23', 'Loss maps and decision variables select exactly the stated consequences',
     'Losses are calculated for exactly the mapped components and requested decision variables, a component\'s explicit mapping wins over policies, each policy maps only what it states, and consequence definitions from earlier sources win.',
     ['configurations'], 'loss maps x policies x decision variables x sources', 'Tests cover each policy once.', [LOSS],
     ['add_loss_map', 'load_model_parameters', 'decision_variables'], ['loss_map', 'loss samples'], SAMP)

prop('C24', 'Aggregate losses equal component losses or the replacement consequence',
     'In realizations without replacement each aggregate decision variable is the sum of its component losses (times: both the sum and the largest location), in realizations where replacement is triggered it is exactly the replacement consequence, and replacement is triggered exactly where its threshold is exceeded or its trigger occurs.',
     ['inputs', 'configurations'], 'loss samples x replacement consequences x thresholds', 'Tests cover no or one threshold.',
     [LOSS], ['aggregate_losses', '_apply_replacement_thresholds', '_aggregate_sample'], ['aggregate_losses output'], SAMP)

prop('C25', 'Loss combination applies the stated combination to matching losses',
     'Combining losses replaces exactly the two combined loss types of each component, location and realization by the value of the combination table (interpolated linearly along the components in their stated order), whatever the order of columns; losses outside the table are rejected.',
     ['inputs', 'configurations'], 'combination tables x loss samples', 'One table is tested.', [LOSS], ['consequence combination in aggregate_losses'],
     ['aggregate_losses output'], SAMP)

prop('C26', 'Reading results does not change them; consequence scaling is exact',
     'Reading, aggregating or saving results any number of times in any order gives the same output (random replacement thresholds aside, which are drawn anew) and leaves the stored samples as they were. Consequence scaling multiplies exactly the targeted losses.',
     ['histories', 'configurations'], 'sequences of read operations x scaling specifications', 'Tests read each result once.',
     [LOSS, DMG, PM], ['aggregate_losses', 'consequence scaling', 'sample properties'], ['samples before and after reads'], SAMP)

prop('C27', 'A seed determines the results of an assessment',
     'Two assessments with the same inputs and seed produce identical samples, whatever other assessments ran before or between their steps in the same process, and different seeds differ. Input tables and configurations are never modified.',
     ['histories', 'configurations'], 'workflows x seeds x interleaved assessments', 'Each test runs one assessment.',
     [ASM, BASE, UQ, DEM, DMG, LOSS], ['Options.rng', 'Assessment'], ['all samples of both runs', 'inputs before and after'], SAMP)

prop('C28', 'Calculation outputs are complete, consistent and confined',
     'A command-line calculation writes exactly the requested outputs, the CSV, JSON, zipped and summary-statistics forms of one result agree with each other and with the underlying sample, stale outputs of earlier runs are replaced, and unrelated files are untouched.',
     ['configurations', 'histories'], 'output selections x formats x repeated runs x directory contents',
     'Tests only check that runs finish.', [DL, ASM], ['run_pelicun', '_demand_save/_damage_save/_loss_save', 'remove_existing_files'],
     ['output directory'], SAMP)

prop('C29', 'Calculation configurations act exactly as stated or are rejected',
     'Each setting of a calculation configuration has its documented effect on the assessment (same results as the equivalent direct API calls), defaults fill only what is missing, and invalid configurations are rejected before outputs are written.',
     ['configurations'], 'configuration files', 'Example configurations run without comparing results.', [DL, ASM],
     ['_parse_config_file', 'DLCalculation.calculate_* @ pelicun/assessment.py'], ['outputs vs direct API results'], SAMP)

prop('C30', 'Regional results equal per-building results in building order',
     'A regional simulation gives every building in the inventory the damage and losses of its own intensity measures and archetype, in building order, for any chunk size, worker count or filter, and aggregates conserve totals.',
     ['configurations', 'schedules', 'inputs'], 'inventories x grids x chunk sizes x CPUs x filters', 'One example runs per test.',
     [REG, NNR], ['regional_sim', 'process_and_save_chunk', '_parse_id_filter'], ['output files'], SAMP)

prop('C31', 'Nearest-neighbour mapping assigns true neighbours with true weights',
     'Every location is assigned realizations only from its k nearest grid points, with probability given by inverse distance weights, deterministically for a seed, and values are copied unchanged.',
     ['inputs'], 'point clouds x k x samples', 'One configuration is tested.', [NNR], ['NNR'], ['mapped values'], SAMP + '; statistical bounds at 6 sigma')

prop('C32', 'A successful model-library download is a complete copy of one version',
     'After a successful download or update every listed file is present with the content of the requested version (a local edit is only tolerated when the recorded commit is requested again with the cache), recorded files removed upstream are gone unless edited locally, other files of the user are untouched, nothing outside the data folder is written, the recorded version and commit are the ones downloaded, and files that did not change are not downloaded again.',
     ['histories', 'fault_sequences'], 'upstream histories x versions x local states', 'Network tests do not run offline; mocks check single calls.',
     [DLML], ['download_data_files', 'compare API update'], ['data folder vs server content'], SAMP)

prop('C33', 'Failed downloads never pass for a complete library',
     'If any request fails, is interrupted or cannot be stored at any point of a download or update, the failure is reported unless the operation completes without that request; a mix of versions is never accepted silently by the next import or reported as up to date; and the next attempt, or a return to the previous version, gives a complete copy of what was requested.',
     ['fault_sequences', 'crash_points'], 'each request x failure kind, then retry', 'Tests mock one failure.',
     [DLML], ['download_file', 'version cache'], ['data folder, recorded version, raised errors'],
     'every request index of each generated history is failed in turn; sampled histories', 'fault_enumeration',
     'runtime monitoring: fault injection at every request of a local HTTP server, offline checker over folder state')

prop('C34', 'Version checks report updates truthfully and never break a run',
     'The version check reports an available update exactly when the newest release is newer than the recorded one (or differs from it when one of the names is not a version, or a commit or nothing is recorded), asks the server at most once a day, repeats the cached answer in between, reports errors as errors and not as updates, and damaged or unwritable caches and network errors never stop the import of pelicun.',
     ['histories', 'fault_sequences'], 'cache contents x times x server answers', 'Tests mock single answers.', [DLML], ['check_dlml_version', 'cache helpers'],
     ['returned information', 'number of requests'], SAMP)

prop('C35', 'Log files record every message; warnings are emitted once and in full',
     'Every message and warning issued through the log is written in order to the log file, accumulated warnings are emitted exactly once, and messages of one assessment never land in another\'s file (only uncaught errors of the process are recorded in every open log).',
     ['histories'], 'message sequences x logger settings', 'Tests check a few messages.', [BASE, WARN], ['Logger'], ['log file', 'emitted warnings'], SAMP)

prop('C37', 'Automatic population runs exactly the given script on a private copy',
     'Auto-population returns what the given script produces for the given asset description, for any sequence of scripts in one process, and leaves the caller\'s configuration unchanged.',
     ['histories', 'configurations'], 'script sequences x configurations', 'One script is tested.', [AUTO], ['auto_populate'], ['returned configuration'], SAMP)

prop('C09', 'Default library references name the documented files',
     'A PelicunDefault reference, by method and file name or by any documented legacy file name, resolves to that method\'s file in the model library, in any mix with tables and user files, which stay untouched and in order; unknown references are rejected; default data and metadata are returned as stored; and damage and loss models take each entry from the first source that has it.',
     ['inputs', 'configurations'], 'libraries x reference lists x methods x legacy names x user paths',
     'Tests load a few of the shipped files without looking at them.', [FIO, ASM, LOSS, DMG],
     ['substitute_default_path', 'get_default_data @ pelicun/assessment.py', 'get_default_metadata @ pelicun/assessment.py', 'load_model_parameters @ pelicun/model/loss_model.py'],
     ['resolved paths', 'returned tables and metadata', 'damage_params and loss_params'], SAMP)

prop('C36', 'One-call assessment methods equal the documented steps',
     'calculate_damage, calculate_loss and aggregate_loss of an Assessment give exactly the samples of the individual steps (loading and sampling demands, residual drifts, the extra demand for collapse at its stated or default location and direction, components, damage, loss mapping with its policy, losses, aggregation) for every combination of their documented arguments, without changing those arguments or, when aggregating, the loss samples.',
     ['configurations', 'inputs'], 'argument combinations x models x seeds',
     'The methods are exercised with one set of arguments.', [ASM],
     ['Assessment.calculate_damage', 'Assessment.calculate_loss', 'Assessment.aggregate_loss'],
     ['samples of all models'], SAMP)

prop('C38', 'Repeated and extended steps act on the current inputs only',
     'Repeating steps of an assessment (demands, components, damage and loss parameters, maps, decision variables, calculations, aggregation) in any order with the same or new inputs gives the results that a new assessment gives for the current inputs: parameters loaded in several calls extend each other with the earliest definition kept, and nothing of an earlier calculation remains in the results. The same holds for a demand model whose samples are loaded, generated, cloned, expanded or given residual drifts and whose parameters are calibrated or loaded, in any order: samples, units and saved models follow from the steps behind them alone.',
     ['histories'], 'sequences of repeated steps x inputs',
     'Every test builds its object anew and runs each step once.', [ASM, DEM, AST, DMG, LOSS],
     ['load_model_parameters', 'convert_loss_parameter_units @ pelicun/model/loss_model.py', 'calculate @ pelicun/model/loss_model.py',
      'calculate @ pelicun/model/damage_model.py', 'load_cmp_model @ pelicun/model/asset_model.py', 'calibrate_model @ pelicun/model/demand_model.py',
      'generate_sample @ pelicun/model/demand_model.py', 'clone_demands @ pelicun/model/demand_model.py'],
     ['all samples after every calculation'], SAMP)

prop('C39', 'Invalid requests are rejected and change nothing else',
     'Requests that cannot be met (steps before the ones they need, missing files, unknown units, locations, directions, families, demand types and expressions, damage process events, scaling operations, demands a component needs that are not available, samples of different lengths, malformed loss combinations and replacement settings, inconsistent decision variable units, loss functions outside of their domain) raise an error instead of producing results; demand, component, damage and loss samples and parameters loaded before stay as they were, and repeating the step with valid input gives the results of an assessment that never saw the invalid request.',
     ['faults', 'histories', 'inputs'], 'stages x invalid requests x models',
     'A few error messages are asserted, never the state after them.', [ASM, DEM, AST, DMG, LOSS, FIO],
     ['load_model_parameters', 'load_cmp_model @ pelicun/model/asset_model.py', 'aggregate_losses @ pelicun/model/loss_model.py', '_verify_edps_available',
      'clone_demands', 'expand_sample', 'parse_scaling_specification'],
     ['raised errors', 'fingerprints of samples, parameters, units and options around each request', 'final samples'], SAMP)

prop('C40', 'Deprecated interfaces give what their replacements give',
     'The deprecated spellings that are still accepted (bldg_repair, repair, load_damage_model, damage.sample, loss.load_model, decision variables passed with the loss parameters, DMG- labels and BldgRepair columns of loss maps, loss.load_sample, aggregate_losses without `future`) and component and loss samples without uids give the same samples as the current ones, with any component names.',
     ['inputs', 'configurations'], 'deprecated spellings x models', 'Only some are called, on one example.', [ASM, DMG, LOSS, AST],
     ['bldg_repair', 'load_damage_model', 'add_loss_map', 'load_model @ pelicun/model/loss_model.py', 'load_sample @ pelicun/model/loss_model.py',
      'load_cmp_sample'], ['all samples of both runs'], SAMP)
