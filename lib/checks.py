"""The table of checks: how each property is run.  Case counts bound a run; nothing is bounded by time."""

CHECKS = {}


def check(pid, stages, rule, level='exploration', require=None, assumptions=None, note='', technique=''):
    CHECKS[pid] = dict(stages=stages, rule=rule, level=level, require=require or {},
                       assumptions=assumptions or [], note=note, technique=technique)


def st(harness=None, quick=100, thorough=1000, flavour='asan', **kw):
    return dict(harness=harness, quick=quick, thorough=thorough, flavour=flavour, **kw)


check('C02', [st('c02_bucket', 4000, 200000)],
      'A case is a value sequence (counts and distinct values around the budget, adjacent floats, infinities, '
      'skewed, missing), a bucket budget and a cut into pieces; non-trivial: at least two non-missing rows; '
      'distinct by budget, size and row codes.',
      require={'long_columns': 8, 'balance_checked': 300, 'late_pieces': 100, 'merged_columns': 300, 'distinct:width': 2},
      technique='differential monitor: raw values vs. codes and bucket bounds, under ASan+UBSan',
      note='Held on the value sequences run; compares every row with its reported bucket under ASan+UBSan.')

check('C01', [st('c01_tsv', 3000, 100000)],
      'A case is a random table written as 1-7 TSV blocks (CR, blank and unterminated lines, odd cells, short and long '
      'rows, columns requested in any role, some twice), one injected error in a third of them, and a thread count; '
      'non-trivial: at least one row, or an error; distinct by configuration, blocks and cells.',
      require={'wide_tables': 8, 'tall_tables': 2, 'long_cells': 100, 'multi_block': 300, 'errors': 200, 'requested_twice': 100, 'distinct:error_kind': 6},
      technique='differential monitor: cells written vs. columns read, under ASan+UBSan',
      note='Held on the tables, block divisions and injected errors run, compared cell by cell with what was written.')

check('C03', [st('c03_strings', 2000, 60000)],
      'A case is a sequence of strings (odd, empty, embedded NUL, numbers of distinct values around 256 and 65536) and a '
      'cut into pieces; non-trivial: at least one row; distinct by size and first rows.',
      require={'long_columns': 3, 'lookups': 10000, 'distinct:around_256': 6, 'distinct:around_65536': 2},
      technique='differential monitor: strings stored vs. codes and lookups, under ASan+UBSan',
      note='Held on the string sequences run; every row, code and lookup compared with the stored strings.')

check('C04', [st('c04_store', 3000, 100000)],
      'A case is a history of additions (right and wrong sizes, zero rows, used names), removals and lookups over 8 names '
      'and 3 column types, with the whole visible state compared after each step; non-trivial: two or more operations; '
      'distinct by operations.',
      require={'many_columns': 4, 'added': 3000, 'removed': 1000, 'refused_duplicate': 500, 'refused_size': 500,
               'refused_size_beside_empty': 50, 'distinct:state': 60},
      technique='model-based state monitor over operation histories, under ASan+UBSan',
      note='Held on the operation histories run; the store is compared with a model after every operation.')

check('C05', [st('c05_flat', 1500, 40000), st('c05_flat', 800, 20000, flavour='tsan')],
      'A case is 1-3 directories of flat files (typed, absent, unknown type, wrong row count, comments, CR) looked up by '
      '1-12 threads twice each, in lockstep or in random orders; non-trivial: rows and at least one good file; each is '
      'a distinct generated case.',
      require={'long_files': 4, 'long_lines': 400, 'concurrent_cases': 500, 'refused_files': 100, 'lookups': 20000, 'distinct:shape': 60},
      technique='concurrent lookup stress with identity and content monitors, under ASan+UBSan and TSan',
      note='Held on the directories and thread schedules run: contents, identity and lifetime of columns, and no race seen by TSan.')

check('C17', [st('c17_pool', 4000, 150000), st('c17_pool', 2500, 60000, flavour='tsan')],
      'A case is a pool of 1-16 threads and a history of up to 400 tasks from 1-5 enqueuing threads and, when nested, from '
      'tasks themselves, with delays; non-trivial: two or more tasks; distinct by observed start order and worker.',
      require={'many_tasks': 8, 'tasks': 50000, 'nested_cases': 1000, 'many_enqueuers': 1000, 'parallel_cases': 1000,
               'order_checked': 500, 'distinct:interleaving': 2000},
      technique='event-log monitor (exactly once, order, width, join) under ASan+UBSan and TSan',
      note='Held on the schedules observed; interleavings come from the scheduler and injected delays, not from enumeration.')

check('C19', [st('c19_sampling', 2000, 40000)],
      'A case is a division, a seeded sampling sequence or a batch of samples for statistics (7 sigma); non-trivial: more '
      'than one row; distinct by sizes, rate and seed.',
      require={'divisions': 500, 'slices': 200, 'exact': 200, 'z_tests': 2000, 'fewer_than_groups': 50, 'large_cases': 50},
      technique='exact and statistical monitors over returned samples, under ASan+UBSan',
      assumptions=['Deviations from uniform, independent inclusion below about 7 standard errors of the batches are not seen.'],
      note='Exact requirements held on every call run; uniformity and independence up to the stated statistical resolution.')

check('C20', [st('c20_importance', 5000, 300000)],
      'A case is a random model (odd names, no, equal, tiny and huge gains); non-trivial: two or more inner nodes; distinct '
      'by model shape and gains.',
      require={'many_features': 5, 'inner_nodes': 10000, 'no_gain': 100, 'distinct:features': 8},
      technique='differential monitor: own walk of the model vs. reported importance, under ASan+UBSan',
      note='Held on the models run.')

check('C06', [st('c06_predict', 2500, 30000)],
      'A case is a random table (adjacent, huge, subnormal and infinite numbers, missing and odd categories) and a random '
      'model with thresholds at and beside data values; non-trivial: two or more rows and a split; distinct by model shape '
      'and scores.',
      require={'many_trees': 3, 'deep_trees': 4, 'rows': 50000, 'regrouped': 1500, 'missing_feature': 500, 'huge_tables': 2, 'distinct:paths': 20},
      assumptions=['Tables have fewer distinct numeric values than the bucket budget, so that columns are lossless (C02).'],
      technique='differential monitor: own interpreter of models vs. scores, under ASan+UBSan',
      note='Held on the models, tables, row orders and thread counts run.')

check('C07', [st('c07_checkpoints', 3000, 100000)],
      'A case is a model, a table and a list of checkpoints (derived from a configuration or arbitrary ascending); '
      'non-trivial: a file of two or more rows; distinct by model shape and checkpoints.',
      require={'many_trees': 8, 'deep_trees': 8, 'many_points': 4, 'score_files': 3000, 'lines': 30000, 'derived_points': 2000, 'derived_runs': 500, 'distinct:checkpoints': 200},
      technique='monitor over written files vs. own partial sums, under ASan+UBSan',
      note='Held on the models and checkpoint lists run, up to the six digits printed.')

check('C08', [st('c08_json', 4000, 150000)],
      'A case is a random model or configuration (random bit patterns, odd strings, chains up to depth 140, strings that are '
      'not UTF-8) and texts that must be refused; non-trivial: a round trip; distinct by wire form.',
      require={'many_trees': 3, 'forests': 1000, 'configs': 1000, 'chains': 40, 'not_utf8': 40, 'refused_truncated': 2000,
               'refused_unknown': 2000, 'refused_type': 2000, 'refused_junk': 1000},
      technique='round-trip monitor over wire forms, under ASan+UBSan',
      note='Held on the messages run, with the recorded finding that trees deeper than 62 cannot be written.')

check('C09', [st('c09_split', 40000, 2000000)],
      'A case is a column (numbers, adjacent, huge and infinite values, merged buckets, categories; missing), weights, '
      'gradients (half exactly representable), a sample and limits; non-trivial: two or more candidate divisions; distinct '
      'by gain, candidates and rows.',
      require={'found': 1000, 'none': 300, 'all_subsets': 100, 'lossy': 300, 'with_missing': 500, 'exact': 1000},
      technique='differential monitor: all divisions enumerated from raw values vs. the split found, under ASan+UBSan',
      note='Held on the columns run; every candidate division of each is evaluated by the oracle.')

check('C10', [st('c10_tree', 2000, 60000)],
      'A case is a table, weights and gradients (half exactly representable, some tied), limits, 1-60 leaves and 1-3 '
      'threads; non-trivial: a tree with a split; distinct by tree shape and rows.',
      require={'many_features': 4, 'inner': 1500, 'passed_over': 1000, 'full': 300, 'exhausted': 300, 'many_leaves': 3, 'distinct:leaves': 8},
      technique='replay monitor: every node checked against all divisions of its rows, under ASan+UBSan',
      note='Held on the data sets and limits run; ties and rounding leave the choice open within stated tolerances.')

check('C11', [st('c11_boost', 1500, 40000)],
      'A case is a table, weights, targets, one of seven losses or a scripted one, a configuration, a base model in 40 %, '
      'sampling in 30 %, a forced divergence in 8 %; non-trivial: two or more trees with splits; distinct by model and scores.',
      require={'many_trees': 5, 'calls': 3000, 'trees': 3000, 'models': 1000, 'with_base': 300, 'diverged': 50, 'mse_steps': 300, 'sampled': 200, 'overflowed': 8, 'distinct:loss': 8},
      technique='recording loss function (trace of every call) vs. ensemble recomputed from the model, under ASan+UBSan',
      note='Held on the training runs observed; with sampling the fitted scores themselves are not recomputed.')

check('C12', [st('c12_pointwise', 3000, 100000)],
      'A case is a loss, weights, targets (one-sided, rare, odd), scores at scales 0 to 1e5 and a thread count, for up to three '
      'rounds; non-trivial: two or more rows; distinct by loss, constant and scores.',
      require={'very_long_tables': 2, 'direct': 20000, 'direct_extreme': 5000, 'bad_targets': 150, 'constants': 1000, 'losses': 1500, 'thread_pairs': 800, 'reused': 300, 'distinct:steps': 5},
      technique='differential monitor: own derivatives and Newton steps in long double vs. the loss functions, under ASan+UBSan',
      note='Held on the inputs run; where Newton steps amplify rounding only self-consistency is checked.')

check('C13', [st('c13_pairwise', 1500, 40000)],
      'A case is a group (order, pair count, chi-square of sampled pairs, ranks) or a pairwise loss on up to 12 groups with '
      'weights, ties, missing groups and repeated calls; non-trivial: pairs were drawn; distinct by configuration and data.',
      require={'many_groups': 10, 'ranked_alone': 5, 'ranked_rows': 10000, 'chi_tests': 200, 'z_tests': 5000, 'forced': 500, 'draws_counted': 300, 'no_partner': 300, 'no_pairs_at_all': 20,
               'missing_groups': 50, 'refused': 50, 'progress_exact': 30, 'huge_groups': 5, 'reused': 100, 'long_rankings': 8, 'distinct:kind': 16},
      assumptions=['Non-uniformity or extra draws below about 7 standard errors of a case are not seen.'],
      technique='statistical and exact monitors over gradients and sampled pairs vs. enumerated pairs, under ASan+UBSan',
      note='Exact where draws are forced; otherwise up to the stated statistical resolution.')

check('C14', [st('c14_repro', 1500, 8000, ldflags='-Wl,--wrap=pthread_mutex_lock')],
      'A case is a training job (any loss, weights, groups, sampling, base model, threads) trained once and then 1-3 times '
      'again from memory, TSV blocks or flat files, after other work, with random delays before locks and inside the callbacks '
      'made by workers, and once with another number of threads; non-trivial: a tree with a split; distinct by model and job.',
      require={'repeats': 1500, 'perturbed': 1000, 'repeats_from_files': 500, 'row_sampled': 200, 'feature_sampled': 150,
               'trees_same_across_threads': 1500, 'loss_reused': 300, 'distinct:interleaving': 300, 'distinct:loss': 7, 'distinct:threads': 6},
      assumptions=['After iteration one, losses with jumps in their derivatives are compared across repeats but not across thread counts.'],
      technique='repeat-run monitor (bitwise) under injected delays, and cross-thread-count comparison, under ASan+UBSan',
      note='Held on the jobs and schedules observed; schedules come from the system and injected delays, not from enumeration.')

check('C16', [st('c16_race', 700, 12000, flavour='tsan', ldflags='-Wl,--wrap=pthread_mutex_lock'),
              st('c14_repro', 120, 2500, flavour='tsan', ldflags='-Wl,--wrap=pthread_mutex_lock')],
      'A case loads a table (memory, 1-7 TSV blocks, or flat files first touched by workers or by several threads at once), '
      'trains with one of the seven losses on up to 1500 rows and 80 groups with 2-8 threads, and evaluates, with random delays '
      'before locks and in callbacks; non-trivial: trained; distinct by model, job and number of threads seen.',
      require={'trained': 500, 'spread': 300, 'lazy_parallel': 60, 'grouped': 150, 'distinct:store': 3, 'distinct:workers': 5,
               'trained_mse': 40, 'trained_logloss': 40, 'trained_huberized_hinge': 40, 'trained_auc': 40,
               'trained_pairwise_logloss': 40, 'trained_gbrank': 40, 'trained_lambdamart': 40},
      technique='ThreadSanitizer over loading, training and evaluating under stress with injected delays',
      note='No race between the accesses that were executed; TSan sees races of code that ran, whatever the order it ran in.')

check('C23', [st('c23_config', 4000, 120000)],
      'A case is a training job whose configuration, targets or features are made wrong in 0-4 ways (boundary and odd values '
      'of every limited field) and a loss name; every case is judged; distinct by request.',
      require={'trained': 800, 'refused_invalid': 800, 'refused_absent': 200, 'trained_without_rows': 10, 'loss_unknown': 500,
               'distinct:loss': 7, 'distinct:lone_reason': 35},
      technique='monitor of the accept/refuse verdict against an own validity predicate, under ASan+UBSan',
      note='Held on the requests run, which cover the boundary values of every limited field singly and combined.')

check('C24', [st('c24_symmetry', 4000, 24000)],
      'A case is a training job without sampling and one of eight transforms of it (rows permuted, weights as repetition, '
      'weight zero left out, features renamed and reordered, categories relabelled, numbers mapped increasingly, targets '
      'shifted and scaled, several at once); non-trivial: a split; distinct by model and job.',
      require={'same_trees': 5000, 'predictions': 50000, 'distinct:kind_loss': 30, **{'split_%d' % k: 200 for k in range(8)}},
      assumptions=['From the second tree on, divisions that differ are tolerated below a rate of one tree in eight, because '
                   'rounding of the stored scores may decide near-ties; the first tree (also on top of a base model) is compared strictly.'],
      technique='metamorphic monitor: pairs of training runs compared node by node over shared rows, under ASan+UBSan',
      note='Held on the job pairs run; ties are accepted only where the recorded gains are equal up to rounding.')

check('C22', [st('c22_scores', 400, 8000), st(py='c22_cli', quick=60, thorough=900, cli=True)],
      'A case is a trained job (files from 0 bytes to many buffers) and about 60 runs of training or evaluation, each with one '
      'fault: a limit on file sizes at the first, last, buffer and random bytes, a full device, a directory or dangling link in the '
      'way, no output directory, or a failing, short or interrupted write or close; or a model evaluated with every size limit up to '
      'the length of its score files; distinct by job and file sizes.',
      level='fault_enumeration',
      require={'cut': 3000, 'positions': 5000, 'faults': 1000, 'lost_train': 200, 'lost_test': 100, 'whole': 200, 'full_device': 60,
               'delivered_write': 80, 'deep_refused': 3, 'deep_written': 2, 'delivered_close': 20, 'harmless': 20, 'distinct:delivered': 12, 'distinct:limit': 40},
      technique='fault injection at the write path with a monitor of exit status against file contents, under ASan+UBSan',
      note='Every byte position for small score files; sampled positions for models and large files.')

check('C18', [st(py='c18_cli', quick=1200, thorough=9000, cli=True)],
      'A case is a job (any loss, weights, groups, base model, eval interval, seed, threads) trained and scored by the tool from one '
      'TSV, from blocks, from columns in another order and from flat files, with the files judged by an own reader; or one of 79 single '
      'mistakes in flags, configuration, data or models, next to earlier files; non-trivial: a model with splits or a mistake; distinct '
      'by job and command.',
      require={'scores': 4000, 'importances': 100, 'extended': 20, 'form_files': 80, 'form_blocks': 50, 'form_order': 50, 'form_repeat': 50,
               'own_models': 30, 'shipped': 5, 'mistakes': 250, 'distinct:mistake': 75, 'distinct:loss': 7},
      technique='end-to-end monitor of exit status and files against an own model interpreter, under ASan+UBSan',
      note='Held on the jobs and mistakes run.')

VT = '/opt/veriftools/pyvenv/bin/python3'
check('C21', [st(py='c21_python', quick=1200, thorough=20000, cli=True, pymodule=True, python=VT)],
      'A case is a history of up to 25 calls over several data stores and held columns, compared with lists after every call; or a '
      'training job run from Python and by the tool; or one of 60 wrong requests followed by checks that everything still works; '
      'distinct by history, job or request.',
      require={'operations': 3000, 'held_read': 2000, 'verified': 2000, 'refused': 2000, 'trained': 200, 'predictions': 5000, 'checkpoints': 300,
               'dropped': 100, 'deep_refused': 10, 'deep_written': 10, 'repeats': 50, 'distinct:op_pair': 120, 'distinct:refused_way': 58, 'distinct:loss': 7},
      technique='model-based monitor of the Python interface under AddressSanitizer and UBSan in the interpreter',
      note='Held on the histories, jobs and wrong requests run.')

check('C25', [st(py='c25_helpers', quick=2400, thorough=40000, pymodule=True, python=VT)],
      'A case is a data frame with types overridden loaded and turned back, a model drawn, an importance chart or a dependence plot, '
      'with recording stand-ins for pandas, graphviz and matplotlib; distinct by frame, model or plot.',
      require={'frames': 500, 'overrides': 500, 'drawings': 900, 'nodes_drawn': 3000, 'charts': 500, 'plots': 450, 'plots_refused': 20,
               'distinct:frame_kinds': 100, 'distinct:draw_how': 3, 'distinct:plot_kind': 5},
      technique='monitor of the calls made to recording stand-ins against own models, under AddressSanitizer and UBSan in the interpreter',
      note='Held on the frames, models and plots run; the drawing libraries are stand-ins, so rendering itself is not judged.')

check('C28', [st(py='c28_scripts', quick=1200, thorough=20000, cli=True)],
      'A case is a delimited table converted to flat files, predictions measured (RMSE, or metrics by group), a model drawn with a '
      'recording stand-in for dot, or a table bagged with the tool itself; distinct by table, scores or model.',
      require={'tables': 100, 'cells': 20000, 'trained': 60, 'metrics': 500, 'groups': 300, 'rmses': 60, 'drawings': 60, 'nodes_drawn': 500,
               'own_models': 10, 'baggings': 15, 'bag_scores': 2000},
      technique='monitor of the files and output of the scripts against own conversion, measures and model readers',
      note='Held on the tables, scores and models run; the scripts are Python 2 and run through a small translation, as there is no Python 2 here.')

check('C26', [st('c26_memory', 800, 6000, flavour='plain', env={'MALLOC_ARENA_MAX': '4'})],
      'A case creates and destroys a column, loads and drops a store repeatedly, or trains, scores and writes a model repeatedly, with '
      'every allocation counted; distinct by shape.',
      require={'columns': 180, 'batched': 80, 'stores': 180, 'lazy': 80, 'trainings': 300, 'trees_watched': 15000, 'distinct:column': 6, 'distinct:loss': 7},
      technique='allocation monitor (interposed operator new) against size bounds, per phase and per tree',
      note='Held on the workloads run; bounds leave room for another layout of the same size class, not for another order of growth.')

check('C27', [st('c27_callers', 1500, 20000), st('c27_callers', 500, 8000, flavour='tsan')],
      'A case is a job, a store and three models used by 2-5 callers at once (scoring, checkpoints, reading columns, loading other '
      'tables, models to and from JSON, importance), half of the time with a training among them; distinct by job and callers.',
      require={'calls': 10000, 'trained': 500, 'cases_together': 1800, 'distinct:op_pair': 36, 'distinct:callers': 18, 'distinct:store': 3},
      technique='differential monitor of concurrent against solitary calls, under ASan+UBSan and under ThreadSanitizer',
      note='Held on the schedules that came up; TSan judges the accesses that were executed.')

check('C15', [st('c15_hostile', 6000, 120000), st('c15_hostile', 120, 2000, flavour='plain', valgrind=True, hang_s=300)],
      'A case trains, evaluates and saves jobs with data and settings at their extremes, loads damaged tables (repeatedly, '
      'watching memory), uses damaged models, or runs damaged configurations; distinct by configuration, model shape or text.',
      require={'trained': 800, 'train_refused': 200, 'tables_refused': 200, 'leak_checked': 100, 'evaluate_refused': 100, 'config_read': 400, 'model_read': 150},
      technique='hostile workloads under AddressSanitizer, UBSan, libstdc++ assertions and valgrind memcheck, with an allocation monitor',
      note='Held on the hostile jobs, tables, models and configurations run; valgrind adds uninitialized reads on a smaller sample.')
