#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are readable and reviewable)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


p('C01', 'TSV loading reproduces the table or reports the right error',
  'Loading a tab-separated table, given as one file or as several blocks of which only the first has a header, yields for '
  'every requested column exactly the cells of that column in file order: string cells verbatim, numeric cells as the '
  'single-precision value they denote, and the missing tokens NAN, nan, NaN, ?, _, - and * as missing; how the rows are '
  'divided into blocks, the number of threads, blank lines and CR line ends make no difference. A missing file or unknown '
  'column is reported as not found, a row too short for a requested column as out of range, and an unparsable numeric cell '
  'or a column requested under conflicting types as an invalid argument. A column requested twice under the same type is '
  'loaded once.',
  ['inputs', 'configurations', 'schedules'],
  'All tables (cells, widths, line ends, empty lines), all partitions into blocks, all selections of columns as float '
  'feature, categorical, group, target, weight or additional column, all thread counts and completion orders of blocks.',
  'The tests load three tiny hand-written files with one selection of columns; they never vary the block partition, line '
  'ends, malformed cells per block, or repeat a column in two roles.',
  ['src/data_store/tsv_data_store.cc', 'src/data_store/tsv_block.cc', 'src/utils/utils.cc'],
  [('block reading and cell conversion', 'src/data_store/tsv_block.cc ReadTSV'),
   ('ordered assembly of blocks', 'src/data_store/tsv_data_store.cc LoadTSVs/ProcessBlock'),
   ('header lookup and column selection', 'src/data_store/tsv_data_store.cc SetupColumns')],
  ['columns of the loaded data store', 'status of the data store'])

p('C02', 'Bucketized float columns describe their rows soundly',
  'For every sequence of float values added in any number of pieces and any positive bucket budget, finalizing succeeds and '
  'each row is either missing, exactly when its value was NaN, or in a bucket whose reported minimum and maximum enclose its '
  'value; buckets are disjoint and ordered, so that a smaller value never has a larger bucket and equal values share one. '
  'When there are no more values than the budget the representation is lossless: the minimum and maximum reported for a row '
  'both equal its value. When there are more, the number of buckets stays within a small multiple of the budget and, unless many '
  'values are individually frequent, the rows merged with different values in one bucket within a small multiple of an even '
  'share.',
  ['inputs', 'histories'],
  'All value sequences (duplicates, infinities, subnormals, adjacent floats, all-missing, empty), all ways of cutting them '
  'into additions before and after the buckets are fixed, all bucket budgets from 1 up.',
  'Tests check a handful of short columns with chosen budgets; boundaries where the number of frequent values meets the '
  'budget, late values above or between buckets, and index-width changes are outside what they sample.',
  ['src/data_store/column.h', 'src/data_store/column.cc'],
  [('bucket construction', 'src/data_store/column.cc BuildBuckets/UniformBinning'),
   ('assignment of values to buckets', 'src/data_store/column.cc AddBucketizedVec'),
   ('8/16/32-bit storage selection', 'src/data_store/column.cc IntegerizedColumn::Finalize')],
  ['row and bucket minimum/maximum accessors', 'row codes', 'column status'])

p('C03', 'String columns are a faithful dictionary at every cardinality',
  'For every sequence of strings added in any number of pieces, each row reads back exactly the string that was stored, two '
  'rows have the same code exactly when their strings are equal, and the codes are the dense range from 0 with 0 reserved '
  'for the missing marker. Looking up a category succeeds exactly for strings that occurred (or the missing marker) and '
  'returns the code whose string it is. This holds whatever the number of distinct strings, including around 256 and 65536.',
  ['inputs', 'histories'],
  'All string sequences (empty, non-ASCII, very long, the missing marker) and cuts into additions; cardinalities from 0 to '
  'beyond 65536.',
  'The tests sample a few cardinalities with generated strings; the code-width switch makes an off-by-one visible only at '
  'exact cardinalities.',
  ['src/data_store/column.h', 'src/data_store/column.cc'],
  [('string to index map', 'src/data_store/column.cc StringColumn::Add'),
   ('8/16/32-bit storage selection', 'src/data_store/column.cc StringColumn::Finalize')],
  ['row strings', 'row codes', 'category lookups'])

p('C04', 'A data store holds exactly the columns added and not removed',
  'After any history of additions, removals and lookups, a data store contains exactly the columns successfully added and '
  'not since removed, every one with its own content and all with the same number of rows. Adding a name that is present is '
  'refused as already existing and adding a column with a different number of rows, including to columns with zero rows, is '
  'refused as out of range; a refused addition changes nothing. A typed lookup yields the column exactly when it is present '
  'with that type, and counts, per-type listings and the description agree with the content.',
  ['histories'],
  'All sequences of add/remove/get over a small set of names, types and row counts.',
  'Tests walk one short history; they do not cover removal followed by a different row count, zero-row columns, or refused '
  'additions followed by lookups.',
  ['src/data_store/data_store.h', 'src/data_store/data_store.cc'],
  [('name and size checks', 'src/data_store/data_store.cc Add'),
   ('typed lookup', 'src/data_store/data_store.cc Get*Column')],
  ['lookups, listings, counts, description and statuses'])

p('C05', 'Flat-file columns load lazily, correctly and safely from many threads',
  'Looking up a column of a flat-file store yields, from the first listed directory that has the file, exactly the lines of '
  'the file in order as the declared type (strings verbatim, raw or bucketized floats with unparsable text as missing, lines '
  'starting with # skipped), or nothing when the file is absent, declares an unknown type or has a different row count than '
  'the columns already loaded. Repeated and concurrent lookups from any number of threads all succeed with the same column, '
  'which stays valid as long as the store does.',
  ['inputs', 'schedules', 'histories'],
  'All file contents and directory layouts; all interleavings of concurrent lookups of the same and of different columns.',
  'Tests read three files from one thread; the first concurrent lookup of one column by two threads is a schedule they never '
  'create.',
  ['src/data_store/flatfiles_data_store.h', 'src/data_store/flatfiles_data_store.cc'],
  [('lazy load under a lock', 'src/data_store/flatfiles_data_store.cc GetColumn/LoadColumn'),
   ('directory precedence', 'src/data_store/flatfiles_data_store.cc FindFlatfile')],
  ['returned columns and their identity', 'sanitizer reports'])

p('C06', 'Predictions follow the documented meaning of the model',
  'For every model and table with the features it uses, the score of a row is the sum over trees of the score of the leaf '
  'reached when a numeric split sends values below its threshold left and missing values to the side it names, and a '
  'categorical split sends the listed categories left and everything else, including unseen categories, right. The result '
  'for a row does not depend on the other rows, their order or the number of threads. A model that needs a column the table '
  'lacks is reported as not found and yields no scores.',
  ['inputs', 'configurations', 'schedules'],
  'All forests (depth, split kinds, thresholds on, next to and away from data values, empty category sets), all tables, all '
  'thread counts and row orders.',
  'Tests evaluate two fixed trees on one table of a few rows; thresholds equal to data values, missing values on both sides '
  'and unseen categories are combinations they do not enumerate.',
  ['src/gbdt_algo/compute_tree_scores.cc', 'src/gbdt_algo/evaluation.cc', 'src/gbdt_algo/split_algo.cc'],
  [('routing of rows', 'src/gbdt_algo/split_algo.cc Partition'),
   ('parallel accumulation of leaf scores', 'src/gbdt_algo/compute_tree_scores.cc AddTreeScores')],
  ['scores returned by evaluation'])

p('C07', 'Checkpoint score files hold the prefix predictions at the right points',
  'Evaluating a model at checkpoints writes, for every checkpoint between 1 and the number of trees, one file named after '
  'the checkpoint that holds one score per row, in row order, equal to the sum over that many leading trees up to the printed '
  'precision, and writes no other file. The checkpoints derived from a configuration are every eval-interval counted back '
  'from the full model, ascending and always ending with the full model, or just the full model when no interval is set.',
  ['inputs', 'configurations'],
  'All forests, tables, checkpoint lists (ascending, with repeats, beyond the model) and evaluation intervals.',
  'Tests check the list of checkpoints for two intervals and never read a score file.',
  ['src/gbdt_algo/evaluation.cc', 'src/gbdt_algo/utils.cc'],
  [('checkpoint loop', 'src/gbdt_algo/evaluation.cc EvaluateForest'),
   ('checkpoint list', 'src/gbdt_algo/utils.cc GetTestPoints')],
  ['files in the output directory'])

p('C08', 'Models and configurations survive the JSON round trip exactly',
  'Writing any model or configuration as JSON and reading it back yields an identical one: every number bit for bit '
  '(including the ends of the float range, subnormals, infinities and NaN; a negative zero may become zero), every string, '
  'flag and the tree structure, so the reloaded model gives the same predictions; a model with text that is not UTF-8 is '
  'refused. Text that is not valid JSON, has unknown fields or values of the wrong '
  'type is rejected with an error rather than read as a different model.',
  ['inputs'],
  'All models and configurations, all texts.',
  'Tests round-trip one small model; number formatting and escaping are input-space properties.',
  ['src/utils/json_utils.cc', 'src/utils/json_utils.h', 'src/proto/tree.proto', 'src/proto/config.proto'],
  [('JSON conversion', 'src/utils/json_utils.cc ToJson/FromJson')],
  ['JSON text', 'parsed message', 'status'])

p('C09', 'A chosen split does what it says and no better admissible split exists',
  'For every column, weighting, gradients and sample set, the split found for a feature really divides the samples into two '
  'parts that both exceed the minimum hessian, its recorded gain equals the reduction of the regularized energy computed '
  'from that very division and exceeds the minimum gain. Among all thresholds between values with missing values on either '
  'side, no admissible split has a higher gain; for categories, none in the order of category scores does and, without '
  'regularization or hessian limits, no subset of categories at all. No split is reported exactly when none is admissible.',
  ['inputs', 'configurations'],
  'All columns (ties, adjacent floats, extreme magnitudes, infinities, missing values), weights, gradients (zero gradients '
  'and zero hessians included), sample subsets and regularization settings.',
  'Tests compare a few splits on ten rows with hand-computed gains; zero gradients in one bucket, adjacent floats and '
  'missing-side choices at particular sums are unsampled.',
  ['src/gbdt_algo/split_algo.cc', 'src/gbdt_algo/split_algo.h', 'src/loss_func/gradient_data.h'],
  [('histogram and scan', 'src/gbdt_algo/split_algo.cc Histogram/FindBestSplitPoint'),
   ('threshold choice', 'src/gbdt_algo/split_algo.cc FindBestFloatSplit'),
   ('subset choice by score order', 'src/gbdt_algo/split_algo.cc FindBestStringSplit')],
  ['split returned', 'division of the samples produced by applying it'])

p('C10', 'Trees grow best-first with regularized Newton scores and a leaf limit',
  'For every data set and configuration without sampling, a fitted tree has at most the configured number of leaves; every '
  'node scores the weighted gradient sum over the weighted hessian sum plus the l2 term of exactly the rows that reach it; '
  'and every inner node carries the gain its division of those rows achieves. The tree splits the node with the highest '
  'attainable gain at each step, over all features, and stops short of the leaf limit only when no leaf has an admissible '
  'split. Each split names a feature from the given set and only categories that occur in it.',
  ['inputs', 'configurations'],
  'All data sets, gradients, weights, leaf limits, regularization and minimum gain/hessian settings, thread counts.',
  'Tests fit three trees on ten rows; order of expansion and accounting of rows across levels need many shapes to show.',
  ['src/gbdt_algo/tree_algo.cc', 'src/gbdt_algo/split_algo.cc'],
  [('priority queue of candidate nodes', 'src/gbdt_algo/tree_algo.cc FitTreeToGradients'),
   ('choice over features', 'src/gbdt_algo/tree_algo.cc FindBestFeatureAndSplit'),
   ('weighted sums', 'src/gbdt_algo/tree_algo.cc ComputeWeightedSum')],
  ['tree returned'])

p('C11', 'Boosting fits every tree at the current ensemble and returns that ensemble',
  'In every training run the loss is asked for gradients at exactly the scores of the ensemble built so far (base model, '
  'accumulated constant and earlier trees), each new tree is the shrunken fit to those gradients, and the model returned is '
  'one constant tree followed by the inner trees of the base model, with its constants folded in, and then one tree per '
  'iteration, such that evaluating it on the training table reproduces the final ensemble. With squared loss, shrinkage in '
  '(0,1] and no sampling the training loss never rises. If the loss diverges to a non-finite constant or the scores overflow the '
  'floats of the model, training stops with an internal error.',
  ['histories', 'configurations', 'inputs'],
  'All training histories: losses, shrinkage, numbers of trees, base models with any mix of constant and inner trees, '
  'weights, data.',
  'Tests train on one 20-row data set and compare with a stored model; they do not observe the scores seen by the loss nor '
  'continue from base models with several constants.',
  ['src/gbdt_algo/gbdt_algo.cc', 'src/gbdt_algo/compute_tree_scores.cc'],
  [('boosting loop', 'src/gbdt_algo/gbdt_algo.cc TrainGBDT'),
   ('continuation from a base model', 'src/gbdt_algo/gbdt_algo.cc InitializeWithBaseForest'),
   ('shrinkage', 'src/gbdt_algo/gbdt_algo.cc ApplyShrinkage')],
  ['calls to the loss interface during training', 'model returned', 'predictions of the model'])

p('C12', 'Pointwise losses deliver exact, finite derivatives at a fitted constant',
  'For squared (half of it), logistic and huberized hinge loss and every finite score vector, weights and targets, the '
  'gradient and hessian given for each row are the negative first and the second derivative of the documented loss at the '
  'score shifted by the fitted constant (up to the last, converged Newton step), finite even for extreme scores, and the '
  'constant returned is the result of Newton steps on the weighted loss (for squared loss, the weighted mean residual). The loss reported is the weighted mean loss. Logistic and '
  'hinge loss reject targets other than +1 and -1, and nothing depends on the number of threads.',
  ['inputs', 'configurations'],
  'All targets, scores (including margins beyond +-700), weights including zero, sizes smaller than the number of threads, '
  'thread counts.',
  'Tests evaluate a few well-scaled points; overflow regions and weighted constants are not sampled.',
  ['src/loss_func/loss_func_math.cc', 'src/loss_func/loss_func_pointwise.cc', 'src/loss_func/loss_func_logloss.cc',
   'src/loss_func/loss_func_huberized_hinge.cc', 'src/loss_func/loss_func_mse.h'],
  [('closed-form derivatives', 'src/loss_func/loss_func_math.cc'),
   ('Newton iterations for the constant', 'src/loss_func/loss_func_pointwise.cc ComputeFunctionalGradientsAndHessians'),
   ('target validation', 'src/loss_func/loss_func_logloss.cc Init')],
  ['gradients, hessians, constant and progress text'])

p('C13', 'Pairwise losses sample ordered in-group pairs uniformly, rightly weighted',
  'For AUC, pairwise logistic, GBRank and LambdaMART losses, every sampled pair consists of two rows of one group, the first '
  'with the larger target, all such pairs of a group are equally likely, and about half the sampling rate times the number of '
  'rows pairs are drawn, shared among groups in proportion to their pairs to within one pair. Row gradients and hessians are the sums over the '
  'drawn pairs of the documented loss derivatives times both row weights and the configured pair weight (target difference, '
  'group equalization, discount change under the current ranking), so gradients cancel within each group and rows without '
  'comparable partner get none. Missing targets, weights that are not finite, and sampling rates not positive or not finite are rejected; no pairs at all means zero '
  'gradients, and rows whose group is missing are compared only with each other.',
  ['inputs', 'configurations', 'schedules'],
  'All groupings (singletons, constant targets, missing group, many groups), targets with ties, weights, rates, seeds and '
  'thread counts.',
  'Tests use one or two tiny groups and check sums loosely; uniformity, empty pair sets and missing groups need many samples '
  'and unusual groupings.',
  ['src/loss_func/group.cc', 'src/loss_func/loss_func_pairwise.cc', 'src/loss_func/loss_func_lambdamart.cc',
   'src/loss_func/loss_func_auc.h', 'src/loss_func/loss_func_gbrank.h', 'src/loss_func/loss_func_pairwise_logloss.h'],
  [('pair index to pair map', 'src/loss_func/group.cc SamplePair'),
   ('sampling probability and accumulation', 'src/loss_func/loss_func_pairwise.cc'),
   ('discount weights', 'src/loss_func/loss_func_lambdamart.cc PairWeightingFunc')],
  ['pairs drawn from a group', 'gradients and hessians'])

p('C14', 'Training is reproducible for a seed and independent of the thread count',
  'Training twice on the same data, configuration and seed with the same number of threads gives bit-identical trees, for '
  'every loss and with any row and feature sampling, whatever the scheduling of worker threads and whatever ran before. '
  'Changing only the number of threads changes training predictions by no more than rounding and the near-ties it decides, '
  'and loading data and evaluating models do not depend on it beyond rounding.',
  ['schedules', 'configurations', 'inputs'],
  'All schedules of the worker threads, all losses, sampling rates, seeds, and thread counts from 1 up.',
  'Tests train single models on one thread setting and never compare two runs under perturbed schedules.',
  ['src/utils/subsampling.cc', 'src/loss_func/loss_func_pairwise.cc', 'src/gbdt_algo/tree_algo.cc',
   'src/gbdt_algo/gbdt_algo.cc', 'src/utils/threadpool.cc'],
  [('seeded generator', 'src/utils/subsampling.cc Reseed'),
   ('per-slice partial sums', 'src/gbdt_algo/tree_algo.cc ComputeWeightedSum')],
  ['models returned'])

p('C15', 'No input drives the library into undefined behaviour',
  'Whatever tables, configurations, model texts and sequences of calls it is given, loading, training, evaluating and saving '
  'never read or write outside an object, use freed or uninitialized memory, overflow a conversion, divide by zero or hang; '
  'malformed input ends in an error report, a refused call or a clean fatal message. Failed loads release what they had '
  'read.',
  ['inputs', 'configurations', 'histories'],
  'All byte strings as tables, flat files, models and configurations; all numeric extremes in data and configuration; all '
  'call sequences of the public interface with valid objects.',
  'The tests run without sanitizers on benign inputs, where out-of-bounds reads and use after free go unnoticed.',
  ['src/data_store', 'src/gbdt_algo', 'src/loss_func', 'src/utils'],
  [('input validation', 'src/data_store/tsv_block.cc, src/gbdt_algo/utils.cc CheckConfig'),
   ('ownership by unique_ptr', 'src/data_store/data_store.h')],
  ['AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertion reports'])

p('C16', 'The parallel code has no data race',
  'In loading, training with every loss and evaluating, with any number of threads, every two conflicting accesses to shared '
  'data from different threads are ordered by synchronization, including when several groups, slices, features or blocks are '
  'processed at once and when columns are loaded lazily by workers.',
  ['schedules', 'configurations', 'inputs'],
  'All interleavings of the worker threads in all parallel sections.',
  'The tests run without a race detector and mostly with one group or a few rows, where threads have no work to collide on.',
  ['src/utils/threadpool.cc', 'src/loss_func/loss_func_pairwise.cc', 'src/loss_func/loss_func_pointwise.cc',
   'src/gbdt_algo/tree_algo.cc', 'src/gbdt_algo/compute_tree_scores.cc', 'src/data_store/tsv_data_store.cc',
   'src/data_store/flatfiles_data_store.cc'],
  [('disjoint slices per task', 'src/utils/subsampling.cc DivideSamples'),
   ('pool join as barrier', 'src/utils/threadpool.cc ShutDown'),
   ('lock around the column map', 'src/data_store/flatfiles_data_store.cc')],
  ['ThreadSanitizer reports over instrumented runs'])

p('C17', 'The thread pool runs every task exactly once and waits for all',
  'For every number of threads from 1 up and every history of enqueued tasks, including tasks enqueued by tasks and by '
  'several threads, each task runs exactly once, tasks start in the order they were enqueued, no more than the given number '
  'run at the same time, and destroying the pool returns only after every task has finished, with all its effects visible to '
  'the destroying thread. Creating and destroying pools never deadlocks.',
  ['schedules', 'histories'],
  'All interleavings of enqueue, execution and shutdown; pools with no tasks, fewer tasks than threads and many more.',
  'There is no test of the pool itself; its use in tests exercises a few schedules.',
  ['src/utils/threadpool.h', 'src/utils/threadpool.cc'],
  [('queue under a mutex and condition variable', 'src/utils/threadpool.cc Invoke/Enqueue'),
   ('drain before exit', 'src/utils/threadpool.cc ShutDown')],
  ['event log written by the tasks', 'ThreadSanitizer reports'])

p('C18', 'The command-line tool trains and scores consistently end to end',
  'A model file written by the train mode, read by the test mode, gives score files equal to applying the documented tree '
  'semantics by hand to the input table, and the importance file lists the features of the model with their normalized '
  'gains; the same data as one TSV, as several TSV blocks or as flat files gives the same trees, and repeating a command '
  'gives the same files. Continuing from a base model extends that model. A bad flag value, configuration, data file, '
  'column, loss, target or model ends with a non-zero exit status and without a new model or score file.',
  ['inputs', 'configurations', 'fault_sequences'],
  'All data sets, configurations, losses, thread counts, seeds and forms of input; all single mistakes in the invocation.',
  'No test runs the command-line tool.',
  ['src/main.cc', 'src/flags.cc', 'src/gbdt_algo/gbdt_algo.cc', 'src/gbdt_algo/evaluation.cc', 'src/gbdt_algo/utils.cc'],
  [('train and test drivers', 'src/main.cc'), ('fatal checks on bad input', 'src/main.cc, src/gbdt_algo/utils.cc')],
  ['exit status', 'files written'])

p('C19', 'Row sampling and work division are exact, unbiased and complete',
  'Sampling n rows at a rate yields strictly increasing row numbers below n, each row included independently with '
  'probability equal to the rate (all rows at rate 1), and repeats exactly after reseeding with the same seed. Dividing work '
  'into k groups covers every item exactly once, in order, in k contiguous groups whose sizes differ by at most one, for '
  'every number of items including fewer than k.',
  ['inputs', 'configurations'],
  'All n, rates, seeds, group counts.',
  'Tests check one size with a loose count and two divisions.',
  ['src/utils/subsampling.cc', 'src/utils/subsampling.h', 'src/utils/vector_slice.h'],
  [('Bernoulli sampling', 'src/utils/subsampling.cc UniformSubsample'),
   ('group sizes', 'src/utils/subsampling.cc DivideSamples')],
  ['samples and groups returned'])

p('C20', 'Feature importance is the normalized total gain of each feature',
  'For every model, the feature importance lists exactly the features used by inner nodes, each once, with the sum of the '
  'gains of all nodes that split on it divided by the largest such sum, in descending order with the first equal to 1 '
  '(all zero, never NaN, when no gain was recorded). The features needed to evaluate a model are exactly those its splits '
  'name.',
  ['inputs'],
  'All forests, including repeated features, single-node trees, zero gains and empty models.',
  'The test checks one fixed forest.',
  ['src/gbdt_algo/utils.cc'],
  [('gain accumulation', 'src/gbdt_algo/utils.cc ComputeFeatureImportance'),
   ('feature collection', 'src/gbdt_algo/utils.cc CollectAllFeatures')],
  ['importance list', 'feature set'])

p('C21', 'The Python package mirrors native behaviour and never crashes Python',
  'Through the Python package, loading from dictionaries or TSV, indexing, slicing, copying, adding and erasing columns '
  'behave as the same operations on Python lists; training repeats itself and gives the same trees as the command line for the same '
  'data, configuration and seed (unless sampling of features or a choice between splits of equal gain makes the trees depend on the '
  'order in which features are listed), predictions and checkpoints equal the model semantics, and a model rebuilt from its text predicts '
  'the same. Every refused operation (unknown column, duplicate name, wrong length, index out of range, empty store, invalid '
  'configuration, bad model text, failed write) raises a Python exception and leaves objects usable; no sequence of calls, '
  'including using a column after its store is gone or the column was erased, crashes the interpreter or touches freed '
  'memory.',
  ['histories', 'inputs'],
  'All sequences of calls of the Python interface over small stores, all data, configurations and seeds.',
  'No test loads the Python module.',
  ['src/python/datastore_py.cc', 'src/python/column_py.cc', 'src/python/forest_py.cc', 'src/python/train_gbdt_py.cc',
   'src/python/gbdt_py_base.cc', 'gbdt/_data_store.py', 'gbdt/_forest.py', 'gbdt/_gbdt.py'],
  [('status to exception mapping', 'src/python/gbdt_py_base.cc'),
   ('column views', 'src/python/column_py.cc, src/python/datastore_py.cc'),
   ('slicing and loading helpers', 'gbdt/_data_store.py')],
  ['Python values and exceptions', 'AddressSanitizer reports under the interpreter'])

p('C22', 'A failed write is reported and never passes for a complete file',
  'Whenever the model, the importance file or a score file cannot be written completely, at whatever byte the failure '
  'happens and whether the cause is a full disk, a size limit or an unusable directory, the command ends with a non-zero '
  'exit status or the call reports an error; success is reported only when every file is complete.',
  ['fault_sequences', 'crash_points'],
  'All byte positions of the first failing write, for every output file of training and evaluation.',
  'Tests never inject a write failure.',
  ['src/utils/utils.cc', 'src/gbdt_algo/evaluation.cc', 'src/main.cc'],
  [('stream checks after writing', 'src/utils/utils.cc WriteStringToFile, src/gbdt_algo/evaluation.cc WriteScoreFile')],
  ['exit status, returned status and file content under injected write limits'])

p('C23', 'Invalid training requests are refused before any model is produced',
  'Training is refused with an invalid-argument error exactly when the number of trees or leaves is not positive, a row or '
  'feature sampling rate is not within (0,1] (NaN included), targets do not suit the loss or the pair sampling rate of a '
  'pairwise loss is not positive, and with not found when a feature is absent from the data; an unknown loss name yields no '
  'loss. Every other finite configuration within range trains and returns the number of trees asked for.',
  ['configurations'],
  'All configurations, boundary values of every numeric field, all feature lists against all data stores.',
  'Tests try a handful of invalid values, one at a time.',
  ['src/gbdt_algo/utils.cc', 'src/gbdt_algo/gbdt_algo.cc', 'src/loss_func/loss_func_factory.cc',
   'src/loss_func/loss_func_pairwise.cc'],
  [('configuration check', 'src/gbdt_algo/utils.cc CheckConfig'),
   ('feature loading', 'src/gbdt_algo/utils.cc LoadFeatures'),
   ('loss registry', 'src/loss_func/loss_func_factory.cc')],
  ['status returned', 'model returned'])

p('C24', 'Training respects the symmetries of the problem',
  'Without sampling, reordering rows permutes the training predictions and nothing else; giving a row weight k is the same '
  'as repeating it k times, and a row of weight zero as leaving it out of the fit; renaming or reordering features, '
  'relabelling categories one to one, and strictly increasing rescaling of a numeric feature leave training predictions '
  'unchanged; and with squared loss, shifting or scaling all targets shifts or scales predictions. All hold up to rounding.',
  ['inputs', 'configurations'],
  'All data sets without exact ties between candidate splits, all pointwise losses, all permutations, weights and '
  'monotone maps.',
  'A symmetry relates pairs of runs; tests look at single runs on one data set.',
  ['src/gbdt_algo/gbdt_algo.cc', 'src/gbdt_algo/tree_algo.cc', 'src/gbdt_algo/split_algo.cc',
   'src/loss_func/loss_func_pointwise.cc', 'src/data_store/column.cc'],
  [('weighted histograms and sums', 'src/gbdt_algo/split_algo.cc, src/gbdt_algo/tree_algo.cc'),
   ('order-based splits', 'src/gbdt_algo/split_algo.cc')],
  ['predictions of the models of two related runs'])

p('C25', 'Data frames, drawings and plots show the data and models they are given',
  'Loading a data frame yields one column per frame column, numeric ones bucketized and others strings unless overridden to '
  'string, float, raw_float or bucketized_float, with the frame\'s values; to_df gives them back. A drawn tree has exactly '
  'the nodes of the tree, left child before right, each labelled with its score and split, including the side of missing '
  'values, also for models that omit default fields. The importance chart shows each feature\'s importance in descending '
  'order. A partial dependency plot shows, for every value given, the mean (and spread) of forest(f=x) - forest(f=x0) over '
  'the data, labelled with that value, and leaves the data and values given unchanged.',
  ['inputs', 'histories'],
  'All frames, overrides, models, data stores, plotted features and values.',
  'There are no tests of these helpers; the mapping must hold for every order of values and shape of model.',
  ['gbdt/_data_store.py', 'gbdt/_forest_visualizer.py', 'gbdt/_partial_dependency_plot.py', 'gbdt/_forest.py'],
  [('type overrides', 'gbdt/_data_store.py'), ('node labels and edges', 'gbdt/_forest_visualizer.py'),
   ('score differences and ordering', 'gbdt/_partial_dependency_plot.py')],
  ['columns of stores made from frames', 'nodes and edges drawn', 'bars, lines and labels plotted'])

p('C26', 'Memory stays compact, proportional and is given back',
  'A loaded bucketized or string column keeps one, two or four bytes per row according to its number of distinct codes, plus '
  'each distinct value once, and raw columns four bytes per row; nothing else of the input stays in memory. Flat-file stores '
  'hold only the columns asked for. Training and scoring need memory proportional to rows and buckets, which does not grow '
  'with the number of trees or checkpoints beyond the model itself. Dropping columns, stores, models and losses gives their '
  'memory back, so that repeating any work does not accumulate.',
  ['inputs', 'histories'],
  'All tables, cardinalities, blocks, losses, tree counts and repetitions.',
  'Tests look at values, never at what is kept; the point of bucketization is footprint at sizes tests do not use.',
  ['src/data_store/column.cc', 'src/data_store/tsv_data_store.cc', 'src/data_store/flatfiles_data_store.cc',
   'src/gbdt_algo/gbdt_algo.cc', 'src/gbdt_algo/evaluation.cc', 'docs/PERFORMANCE_BENCHMARK.md'],
  [('narrow codes and freed buffers', 'src/data_store/column.cc'), ('per-tree memory', 'src/gbdt_algo/gbdt_algo.cc')],
  ['live and peak bytes allocated around each call'])

p('C27', 'Callers using a loaded data store at once get what each gets alone',
  'Several threads may at the same time score models on one data store whose columns are loaded, write checkpoint score files '
  'into directories of their own, read its columns, load other tables, convert models to and from JSON and compute importances, '
  'also while one of them trains: every call returns exactly what it returns alone, without data races.',
  ['schedules', 'inputs'],
  'All interleavings of such calls of any number of threads, for every kind of store and any number of worker threads.',
  'Tests call from a single thread.',
  ['src/gbdt_algo/evaluation.cc', 'src/gbdt_algo/compute_tree_scores.cc', 'src/data_store/data_store.cc',
   'src/data_store/flatfiles_data_store.cc', 'src/utils/json_utils.cc'],
  [('state of one call kept out of the others', 'src/gbdt_algo/compute_tree_scores.cc, src/gbdt_algo/evaluation.cc')],
  ['scores, files, columns, JSON and models returned to concurrent callers'])

p('C28', 'The scripts convert, bag, measure and draw what they are given',
  'Converting a delimited table (whose cells do not start with # or a quote) to flat files yields one file per column, named after '
  'it with spaces and slashes replaced by underscores, with the type configured (numbers bucketized otherwise) and the cells in '
  'order, so that the tool trains the same model from the files as from the table. The RMSE printed is that of the scores, and '
  'the metrics printed are the mean over groups of counts and of targets discounted by rank. A drawn model has the nodes, '
  'scores, splits and sides of missing values of its trees. Bagging leaves every row out of exactly one bag, trains each bag on '
  'the rows in it, and writes for every checkpoint the score of each row by the bag that left it out and the mean of the others.',
  ['inputs'],
  'All such tables, scores, targets, groups, models and numbers of bags.',
  'Nothing runs the scripts, and they have to agree with formats and flags of the tool that change without them.',
  ['scripts/convert_tsv_to_filatfiles.py', 'scripts/compute_metrics.py', 'scripts/compute_rmse.py', 'scripts/draw_trees.py', 'scripts/bagged.py'],
  [('declared types', 'scripts/convert_tsv_to_filatfiles.py'), ('weights and averages', 'scripts/bagged.py'),
   ('averages over groups', 'scripts/compute_metrics.py')],
  ['files written', 'numbers printed'])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
