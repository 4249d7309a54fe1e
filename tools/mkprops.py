"""Writes properties.jsonl (kept as a script because JSON lines are hard to
review)."""
import json
import os

P = []


def p(id, title, statement, over, text, tests, files, mech, state=(), observe=(),
      hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))


p('C01', 'The triplets of a task are exactly those of its definition',
  'For every item file and every choice of on, across and by columns, the generated task file holds exactly the triplets (A, B, X) of items of one by value such that A and X (two different items) have the same on label, B has another one, A and B share every across label and X differs from A on every across label. Each triplet is there once, whatever the number of items or triplets and the type or spelling of the labels, and no task file is written when there is no triplet.',
  ['inputs', 'configurations'],
  'all item databases (labels, repetitions, sizes crossing every internal buffer and integer width) and all choices of on/across/by, including none and several across or by columns',
  'the tests count the triplets of a few regular grids (base**n items); they never compare the content of irregular databases, of several across columns, or of sizes above the write buffers',
  ['ABXpy/task.py', 'ABXpy/h5tools/np2h5.py', 'ABXpy/misc/type_fitting.py'],
  [('block enumeration and factorial design', 'ABXpy/task.py:on_across_triplets'),
   ('buffered output and by_index', 'ABXpy/task.py:generate_triplets')],
  [('triplets/data, by_index', 'triplets, in the item numbers of their by value', 'task file')],
  ['task file: triplets/data, triplets/by_index, bys, feat_dbs'])
p('C02', 'Filters keep exactly the triplets that satisfy them',
  'With any list of filters, written as Python expressions over columns with the documented extensions, the task holds exactly the triplets for which every filter is true; a filter without extension is a condition on each item. The result does not depend on the order of the filters nor on the point of the computation where each can be evaluated.',
  ['inputs', 'programs'],
  'all databases and all filter expressions over the A, B, X, 1, 2 and bare forms of on, across, by and other columns, alone or combined',
  'one test uses one filter on one grid; the evaluation stage depends on which columns are on/across/by and which extensions are mixed, and each stage has its own context code',
  ['ABXpy/sideop/filter_manager.py', 'ABXpy/sideop/side_operations_manager.py', 'ABXpy/dbfun/dbfun_compute.py', 'ABXpy/dbfun/dbfun_column.py', 'ABXpy/task.py'],
  [('classification of a filter by the variables it uses', 'side_operations_manager.py:add'),
   ('lazy evaluation of vectorial filters', 'filter_manager.py:vectorial_filter')],
  (), ['task file content'])
p('C03', 'The statistics of a task are those of the triplets it generates',
  'The number of triplets announced by a task before generation is the number of triplets generated without threshold, in total and for each by value. The numbers of by values, of on/across blocks and of items, on levels, across levels and combined levels of each by value are those of the items that the item filters keep, and the block sizes add up to the number of triplets.',
  ['inputs', 'configurations'],
  'all databases, all on/across/by choices, all filters',
  'tests read a few statistics of regular grids; the counts go through a different code path than the generation and the two can drift apart',
  ['ABXpy/task.py'],
  [('compute_statistics', 'ABXpy/task.py'), ('compute_nb_levels', 'ABXpy/task.py')],
  [('stats, by_stats', 'statistics', 'Task object')], ['Task.stats', 'Task.by_stats'])
p('C04', 'The pair list covers exactly what the triplets need',
  'For every task, the list of pairs of each by value is strictly increasing, contains the pairs (A, X) and (B, X) of every triplet of this by value and no other, and decodes back to the items of the pair. The ranges given for the by values tile the list.',
  ['inputs', 'configurations'],
  'all tasks, with and without filters or thresholds, of every size (pair codes of every integer width, lists crossing the buffers and the chunks of the external sort)',
  'the tests look at pairs of one grid; the external sort, the duplicate elimination across buffer boundaries and the code width only act on larger files',
  ['ABXpy/task.py', 'ABXpy/h5tools/h5_handler.py', 'ABXpy/h5tools/h52np.py'],
  [('pair coding, sort, unique', 'ABXpy/task.py:_generate_pairs')],
  [('unique_pairs', 'sorted codes A + base * X', 'task file')],
  ['task file: unique_pairs/data and its attributes'])
p('C05', 'Every pair gets the distance of its own two items',
  'After a distance run, the value stored for each pair is the distance function applied to the frames of the first item then to those of the second (the frames whose time lies between onset and offset, bounds included), in that order. This holds for every number of jobs, every partition of the pairs, and features spread over one or several files; the run then declares itself done.',
  ['inputs', 'configurations', 'schedules'],
  'all task files and features, all numbers of jobs (more than pairs or by values included), all splits of the pairs into blocks, asymmetric distances',
  'the tests run the example with 1 job; the load balancing is only exercised with sizes and numbers of jobs where blocks are split unevenly',
  ['ABXpy/distances/distances.py', 'ABXpy/distance.py'],
  [('create_distance_jobs', 'ABXpy/distances/distances.py'), ('run_distance_job', 'ABXpy/distances/distances.py'),
   ('frame selection', 'ABXpy/distances/distances.py:Features_Accessor')],
  (), ['distance file: distances/data, attribute done'])
p('C06', 'Concurrent distance jobs are exclusive, complete, and failures are reported',
  'Whatever the interleaving of the distance workers, accesses to the shared files never overlap and no result is lost or overwritten. If a distance computation fails in any worker at any point, the run ends with an error instead of hanging or succeeding, and the distance file is marked done only when every pair was computed.',
  ['schedules', 'fault_sequences'],
  'all schedules of the workers, all numbers of jobs, a failure of any worker at any of its computations, reads or writes',
  'tests run a single job and never a failing distance; interleavings and failure points are not controlled',
  ['ABXpy/distances/distances.py'],
  [('lock shared by the workers', 'ABXpy/distances/distances.py:run_distance_job'),
   ('done flag', 'ABXpy/distances/distances.py:compute_distances')],
  [('done', 'set when the run is complete', 'distance file attribute')],
  ['order of the file accesses and lock operations of the workers', 'outcome of the call', 'distance file'])
p('C07', 'The score of a triplet is the comparison of its two distances',
  'For every task and every distance file, the score of each triplet, in the order of the task file, is 1 if the distance of (A, X) is smaller than that of (B, X), -1 if it is greater and 0 if they are equal or cannot be compared. Every triplet has a score, for every number of by values and triplets.',
  ['inputs'],
  'all tasks and all distance values, ties, infinities and undefined values included',
  'tests compare one run with a frozen file; the lookups depend on the pair code width, on the by ranges and on the read buffers',
  ['ABXpy/score.py', 'ABXpy/h5tools/h52np.py'],
  [('search of the pair codes', 'ABXpy/score.py:score')], (), ['score file'])
p('C08', 'Analysis gives the exact mean and count of each condition',
  'The result file holds exactly one line for each by value and combination of regressor labels that occurs among the triplets, with the number of these triplets and the mean of their scores (rescaled to 0..1), under the labels of the item file. The counts add up to the number of triplets.',
  ['inputs', 'configurations'],
  'all tasks, scores and regressor lists, labels of any type and spelling',
  'the test compares one file, with an equality helper that accepts anything; the mixed radix coding depends on the label counts of each regressor',
  ['ABXpy/analyze.py'],
  [('mixed radix coding, collapse, decoding', 'ABXpy/analyze.py:collapse')], (), ['result csv file'])
p('C09', 'Regressors written for a triplet are those of its items',
  'For every triplet of a task file, each requested regressor and each default regressor has, at the same position, the label that this column has for the item the extension designates. This holds with filters, thresholds and any combination of by, on, across and other columns.',
  ['inputs', 'configurations'],
  'all databases, all lists of regressors, filters and thresholds',
  'tests use the default regressors of a grid; the values are computed in five stages and permuted separately from the triplets',
  ['ABXpy/sideop/regressor_manager.py', 'ABXpy/task.py', 'ABXpy/h5tools/h5io.py'],
  [('regressor stages', 'ABXpy/sideop/regressor_manager.py'), ('reordering', 'ABXpy/task.py:_compute_regressors')],
  (), ['task file: regressors/<by>/indexed_data and indexes'])
p('C10', 'The threshold keeps min(threshold, size) triplets of every cell',
  'With a threshold, a task holds a subset of the triplets it has without, without repetition; in each cell (by value, on and across labels of A, regressor values of B and X) it keeps min(threshold, size) triplets. Every triplet of a cell can be drawn, and nothing else of the task changes.',
  ['inputs', 'configurations', 'histories'],
  'all databases, thresholds, regressors, filters and random seeds',
  'one test checks the size of one grid with one threshold',
  ['ABXpy/task.py', 'ABXpy/sampling/sampler.py'],
  [('sort_and_threshold', 'ABXpy/task.py')], (), ['task file'])
p('C11', 'Buffered HDF5 writing and reading transfers every row once, in order',
  'For every sequence of writes through the buffered writer, the dataset holds the rows written, in order, once each; for every sequence of reads, the buffered reader yields the rows of the dataset or of the requested range, in order, once each. This holds for every buffer size, dataset length and sequence of amounts; a dataset of fixed size which was not filled exactly is reported, and a dataset which exists already is overwritten only on request and in its own shape and type.',
  ['histories', 'configurations'],
  'all sequences of write and read amounts, buffer sizes, dataset sizes, sub-ranges and refill policies',
  'no test exercises these classes directly; the pipeline tests are smaller than one buffer',
  ['ABXpy/h5tools/np2h5.py', 'ABXpy/h5tools/h52np.py'],
  [('buffer dump and flush', 'np2h5.py'), ('refill policy', 'h52np.py:refill_buffer')],
  [('buf, buf_ix, dataset_ix', 'pending rows and positions', 'np2h5.py, h52np.py')],
  ['content of the dataset', 'arrays returned by the reads'])
p('C12', 'The external sort orders and permutes all the datasets together',
  'After sorting, the key dataset holds the same keys in increasing order, and the companion datasets hold the same rows, each still next to the key it had. This holds for every number of rows and chunks, repeated keys, and every buffer size the sort accepts.',
  ['inputs', 'configurations'],
  'all key sequences (repetitions included), all numbers of chunks and sizes of the merge buffers',
  'tests sort less than one chunk',
  ['ABXpy/h5tools/h5_handler.py'],
  [('chunk sort and k-way merge', 'h5_handler.py:sort')], (), ['the datasets after the sort'])
p('C13', 'Incremental sampling draws K distinct elements and can draw any of them',
  'For every population size N, sample size K and sequence of chunk sizes, the incremental sampler returns exactly K distinct positions in all once the population is consumed, each chunk in increasing order and within its bounds. Every subset of size K can be drawn, all with the same probability whatever the chunks, and a sampler iterates to the end of the population.',
  ['inputs', 'histories'],
  'all N, K, chunk sequences, both indexing modes, and the sizes where the algorithm changes',
  'tests draw a few large samples and look at their size',
  ['ABXpy/sampling/sampler.py'],
  [('hypergeometric split, Knuth and rejection sampling', 'sampler.py')],
  [('N, K', 'remaining population and sample', 'IncrementalSampler')], ['samples returned'])
p('C14', 'DTW and edit distances are the optimal alignment costs',
  'The dynamic time warping cost of two sequences is the minimum over all the monotonic alignments of the sum of the frame distances, divided when normalized by the length of an optimal alignment; the edit distance is the least number of insertions, deletions and substitutions of frames. Two empty sequences are at distance 0, and an empty one is infinitely far from the others.',
  ['inputs'],
  'all pairs of sequences of frames and all frame distances',
  'one test compares a few random inputs with a stored value',
  ['ABXpy/distances/metrics/dtw/dtw.pyx', 'ABXpy/distance.py', 'ABXpy/distances/example_distances.py'],
  [('dynamic programming and path length', 'dtw.pyx')], (), ['values returned'])
p('C15', 'Items are loaded with their own labels and their own location',
  'Loading an item file gives each item the labels of its line, those that the auxiliary files associate to them, at any depth, and its own file, onset and offset. Lines with missing information are left out and listed, and change nothing for the other items, whatever the spacing, the blank lines, the column names and the characters of the labels. An item file with a wrong header, and an auxiliary file which defines a label twice, are refused.',
  ['inputs'],
  'all item files and auxiliary files, missing values at any place',
  'the tests use complete item files without auxiliary file',
  ['ABXpy/database/database.py', 'ABXpy/task.py'],
  [('load, load_aux_dbs', 'database.py')], (), ['loaded tables', 'feat_dbs of the task file', '-removed file'])
p('C16', 'Existing results are never overwritten or altered silently',
  'Through the Python functions, a task, score or distance file that exists is never overwritten: the call fails and the file is unchanged. The command line tools replace the output they are told to write, and say so; a request which is refused or which only prints statistics deletes nothing. No stage modifies its input files or leaves temporary files behind, even when the storage fails under it; such a failure is reported, touches nothing but the output being written, and the same command given again then succeeds.',
  ['histories', 'configurations'],
  'all sequences of stages on all states of the directory, and a failure of any opening, writing or reading of the storage',
  'tests delete the outputs before each run',
  ['ABXpy/task.py', 'ABXpy/score.py', 'ABXpy/analyze.py', 'ABXpy/distances/distances.py', 'ABXpy/distance.py'],
  [('existence checks', 'task.py:generate_triplets, score.py:score')], (),
  ['files of the directory after each call', 'outcome and warnings'])
p('C17', 'The same request gives the same result',
  'Running a stage again with the same inputs (and, with a threshold, the same seed) gives the same content: in another process, with another hash seed, with another number of jobs, from another directory, in verbose mode, and when a task object is used again. Running other tasks before, however many, has no influence.',
  ['histories', 'configurations', 'schedules'],
  'all tasks, seeds, numbers of jobs, hash seeds, histories of the process',
  'each test runs a stage once',
  ['ABXpy/task.py', 'ABXpy/sideop/regressor_manager.py', 'ABXpy/distances/distances.py'],
  [('seeding', 'task.py:generate_triplets')], (), ['content of the output files'])
p('C18', 'Conversion of features loses nothing, verification accepts what is complete',
  'Converting a folder of feature files gives one feature file in which each source has, under its name, its own times and features, for every number of files and batch size. The verification of an item file against a feature file succeeds if and only if the item file has the right header and every source it names is in the feature file.',
  ['inputs', 'configurations'],
  'all folders, batch sizes, item files and feature files',
  'there is no test',
  ['ABXpy/misc/any2h5features.py', 'ABXpy/verify.py'],
  [('batches', 'any2h5features.py'), ('check', 'verify.py')], (), ['feature file read back', 'outcome of the verification'])
p('C19', 'Frame distances and uniform warping follow their definition',
  'Each entry (i, j) of a frame distance matrix (cosine, Kullback-Leibler, Jensen-Shannon, Hellinger) depends on row i of the first array and row j of the second only, is not changed by scaling the rows, is 0 for equal rows, and follows the convention for null rows; uniform time warping sums the distances of the frames matched by linear interpolation. The arrays given are never modified.',
  ['inputs'],
  'all arrays, of any numbers of rows and columns, null and repeated rows included, both float types',
  'there is no test of these functions',
  ['ABXpy/distances/metrics/cosine.py', 'ABXpy/distances/metrics/kullback_leibler.py', 'ABXpy/distances/metrics/utw.py'],
  [('matrix expressions', 'cosine.py, kullback_leibler.py'), ('distance_coordinates', 'utw.py')],
  (), ['matrices returned', 'arguments after the call'])
p('C20', 'The command line tools do what the Python functions do',
  'Each command line tool (task, distance, score, analyze, verify) gives the same result as the corresponding Python calls with the same parameters, for every combination of its options, and default file names are those documented.',
  ['configurations', 'inputs'],
  'all combinations of the options of the tools',
  'the tests call the Python functions, or one complete example',
  ['ABXpy/task.py', 'ABXpy/distance.py', 'ABXpy/score.py', 'ABXpy/analyze.py', 'ABXpy/verify.py'],
  [('argument parsers', 'main() of each module')], (), ['output files', 'exit status'])
p('C21', 'Tables stored with indexes give back the values written',
  'A table written in pieces through the indexed storage, with raw, indexed and fused columns, decodes to the values written, row by row, whatever the pieces, the number of levels, and the order of the columns; raw values that the type of their column cannot hold are refused, not changed. Integer types chosen for storage can hold every value they are chosen for.',
  ['inputs', 'histories'],
  'all tables, indexes, fusions, and sequences of writes',
  'there is no test of this class; only the indexed columns are used by the pipeline tests',
  ['ABXpy/h5tools/h5io.py', 'ABXpy/misc/type_fitting.py'],
  [('index and key computation', 'h5io.py'), ('fit_integer_type', 'type_fitting.py')], (), ['datasets of the file'])
p('C22', 'The frame distances have the values of their definitions',
  'For any two frames, the cosine distance is the angle between them divided by pi, the Kullback-Leibler divergence is the sum of p log(p/q) over the normalized frames (the mean of both directions when symmetrized; zeros replaced by the epsilon of the type when thresholded), the Jensen-Shannon divergence is the mean divergence of the two frames from their average, and the Hellinger distance is the square root of one minus the sum of the square roots of the products. The sequence distances built on them align these values.',
  ['inputs'],
  'all frames, of any dimension and scale, zeros included, both float types, all options of these functions',
  'no test gives the value of a divergence',
  ['ABXpy/distances/metrics/cosine.py', 'ABXpy/distances/metrics/kullback_leibler.py', 'ABXpy/distance.py', 'ABXpy/distances/example_distances.py'],
  [('floating point expressions', 'cosine.py, kullback_leibler.py')], (), ['values returned'])
p('C23', 'Test data generators cover every combination, file comparisons decide equality',
  'A generated item file of n columns with b labels holds every combination of labels, each exactly repeats + 1 times, each line with its own source, under a header that the loader accepts; generated features hold one entry for each of these sources, with the number of columns asked for and 1 to max_frames frames, whether or not a file was there. The comparisons of result files answer true if and only if the content is the same: the same bytes, the same HDF5 datasets, the same lines of a table whatever the order of its lines and columns.',
  ['inputs', 'configurations'],
  'all bases, numbers of columns and repetitions; all pairs of files to compare',
  'the tests use these helpers as their oracle, and do not test them (the comparison of tables answered true for any two tables)',
  ['ABXpy/misc/items.py'],
  [('digits of the line number', 'items.py:generate_testitems'), ('csv_cmp, h5cmp, cmp', 'items.py')], (), ['files generated', 'value returned'])

p('C24', 'Operations on the hierarchy of columns keep it a forest of ordered trees',
  'After any sequence of additions, removals, replacements, insertions between a node and its children or its parent, and after a construction from nested lists, each node has one parent at most and is once among the children of its parent, and the nodes which were not concerned keep their places. Traversals, paths, neighbours, searches, inherited attributes and the dump answer from this tree; an operation which makes no sense (removal of a root, a list that no node precedes) is refused and changes nothing.',
  ['histories', 'inputs'],
  'all trees and sequences of operations',
  'there is no test of this module; the loading of auxiliary files uses a few of its operations',
  ['ABXpy/misc/tinytree.py', 'ABXpy/database/database.py'],
  [('children lists and parent links', 'tinytree.py:addChild, remove, replace, inject, reparent')], (),
  ['children and parent of the nodes', 'answers of the questions'])
p('C25', 'Requests that run at the same time give the results they give alone',
  'Two requests of any stages (task, statistics, distance, score, analysis, conversion) which run at the same time on the same inputs with different outputs, whatever the interleaving of their accesses to files, both succeed and give the results that each gives alone. They only read their inputs, never touch a file of the other one, and leave nothing but their outputs.',
  ['schedules', 'configurations'],
  'all interleavings of two requests of any kinds, with the same temporary directory',
  'the tests run one stage at a time',
  ['ABXpy/task.py', 'ABXpy/distances/distances.py', 'ABXpy/score.py', 'ABXpy/analyze.py', 'ABXpy/h5tools/h5_handler.py', 'ABXpy/misc/any2h5features.py'],
  [('private names of temporary files', 'task.py:_generate_pairs, h5_handler.py'), ('inputs opened for reading', 'score.py, analyze.py, distances.py')], (),
  ['content of the outputs', 'files opened, made and removed by each process'])
p('C26', 'What a killed stage leaves is never taken for its result',
  'Whatever the point at which a stage is killed, its inputs are unchanged, and the stages after it, asked for with what it left, either fail or give the right result. The killed stage asked for again, once what it left is removed, gives the right result; without removing it, it is refused or gives the right result.',
  ['crash_points', 'histories'],
  'all points (before, inside and after each change of a file) at which a conversion, a task, a distance, a score or an analysis can be killed',
  'no test kills anything; the tests of failures raise exceptions, which run the cleaning code',
  ['ABXpy/task.py', 'ABXpy/distances/distances.py', 'ABXpy/score.py', 'ABXpy/analyze.py', 'ABXpy/misc/any2h5features.py'],
  [('the attribute done of a distance file', 'distances.py:compute_distances, score.py:score'), ('order of the groups of a task file', 'task.py:generate_triplets')],
  [('done', 'true when all the distances are computed', 'distance file')],
  ['outcome and outputs of the stages after the kill'])
p('C27', 'The result of the whole chain is the one of the definition',
  'For every item file (with its auxiliary files), features (any times, in one or several files, any group), filters, regressors and distance function, the file that ends the chain task, distance, score, analysis has one line for each by value and combination of regressor labels that occurs among the triplets of the definition, with the number of these triplets and their mean score: 1 if X is closer to A than to B, 0 if it is farther, 1/2 if it is as close, for the distances of the frames of the items themselves. It does not depend on the number of jobs, nor on which stages are run by the functions or by the command line tools.',
  ['inputs', 'configurations'],
  'all item files, features, distances and options, for the four stages together',
  'the tests of the chain compare a few files with results computed before by the same code',
  ['ABXpy/task.py', 'ABXpy/distance.py', 'ABXpy/distances/distances.py', 'ABXpy/score.py', 'ABXpy/analyze.py', 'ABXpy/database/database.py'],
  [('formats of the files between the stages', 'task.py, distances.py, score.py, analyze.py')], (),
  ['lines of the result file'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
