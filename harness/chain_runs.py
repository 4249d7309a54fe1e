"""The whole chain: item file and features in, result file out."""
import os
import sys

import dist
import pipeline
import project
import smallbuf

MYDIST = '''

def fun(x, y, normalized=None):
    return float(abs(x.sum() - 2 * y.sum()) + x.shape[0])
'''


def seq(x):
    return x if isinstance(x, (list, tuple)) else [] if x is None else [x]


def task(case, args, kw):
    import ABXpy.task
    if case['via'][0]:
        a = ['data.item', 'data.abx', '--on', args[0]]
        for o, v in (('--across', args[1]), ('--by', args[2]), ('--filters', kw.get('filters')),
                     ('--regressors', kw.get('regressors'))):
            if seq(v):
                a += [o] + seq(v)
        if kw.get('verbose'):
            a.append('--verbose')
        return project.cli('task', a)[0]
    ABXpy.task.Task('data.item', *args, **kw).generate_triplets('data.abx')
    return True


def distances(case, files):
    import ABXpy.distance
    import ABXpy.distances.distances as dd
    kind, group = case['kind'], case.get('group', 'features')
    norm = 0 if kind == '' else None
    sys.modules.pop('mydist', None)
    if case['via'][1] and len(files) == 1:
        a = [files[0], 'data.abx', 'data.distance', '-j', case['ncpu']]
        a += ['-d', kind] if kind else ['-n', '0']
        if group != 'features':
            a += ['-g', group]
        return project.cli('distance', a)[0]
    if len(files) == 1:
        ABXpy.distance.run(files[0], 'data.abx', 'data.distance', norm, distance=kind or None,
                           njobs=case['ncpu'], group=group)
    else:
        fun = {'': ABXpy.distance.default_distance, 'levenshtein': ABXpy.distance.edit_distance}.get(kind)
        if fun is None:
            fun = __import__('mydist').fun
        dd.compute_distances(files, [group] * len(files), 'data.abx', 'data.distance', fun, norm,
                             n_cpu=case['ncpu'], feature_file_as_list=True)
    return True


def score(case):
    import ABXpy.score
    if case['via'][2]:
        return project.cli('score', ['data.abx', 'data.distance', 'data.score'])[0]
    ABXpy.score.score('data.abx', 'data.distance', 'data.score')
    return True


def analyze(case):
    import ABXpy.analyze
    if case['via'][3]:
        return project.cli('analyze', ['data.score', 'data.abx', 'data.csv'])[0]
    ABXpy.analyze.analyze('data.abx', 'data.score', 'data.csv')
    return True


def run(case, d):
    with smallbuf.small(case.get('smallbuf', 0)):
        return _run(case)


def _run(case):
    lab = pipeline.Labels(case['task'])
    names = [case.get('prefix', 'f') + str(i) for i in range(len(case['feats']))]
    t = dict(case['task'])
    t['locs'] = [(names[f - 1], dist.seconds(case, on), dist.seconds(case, off))
                 for f, on, off in case['locs']]
    pipeline.write_items(t, lab, 'data.item')
    with open('mydist.py', 'w') as f:
        f.write(MYDIST)
    files = dist.write_features(case, names)
    args, kw = pipeline.task_args(t, lab)
    path = list(sys.path)
    sys.path.insert(0, os.getcwd())
    try:
        if not task(case, args, kw):
            return [{'ev': 'Error', 'what': 'task'}]
        if not os.path.exists('data.abx'):
            return [{'ev': 'Empty'}]
        for what, ok in (('distance', lambda: distances(case, files)), ('score', lambda: score(case)),
                         ('analyze', lambda: analyze(case))):
            if not ok():
                return [{'ev': 'Error', 'what': what}]
        return [pipeline.read_csv('data.csv', t, lab)]
    except Exception as e:
        return [pipeline.err(e)]
    finally:
        sys.path[:] = path
