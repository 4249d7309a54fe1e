"""The same request through the command line and through Python."""
import contextlib
import io
import os
import re
import sys

import project

FILTERS = {'F1': '[v__ == 0 for v__ in c3]', 'F2': "[v__ != 'b' for v__ in c1_A]"}
MYDIST = '''import numpy as np


def fun(x, y, normalized=None):
    d = abs(x.sum() - 2 * y.sum()) + x.shape[0]
    return d if normalized is None else d + 1 + int(normalized)
'''


def renamed(case, s):
    """the columns have other names"""
    return re.sub(r'\bc([123])(?![0-9a-z])', lambda m: case['names'][int(m.group(1)) - 1], s)


def prepare(case):
    import ABXpy.task
    import ABXpy.distance
    import ABXpy.score
    project.items(N['ITEM'], n=case.get('n', 18), seed=case['seed'], cols=case['names'])
    c1, c2, c3 = case['names']
    q = case['req']
    if q['tool'] == 'task':
        os.mkdir('tmpd')
        return
    import h5features
    import h5py
    project.features('feat.h5f', seed=case['seed'])
    with h5py.File('feat.h5f', 'a') as h:      # another group, other values
        h.copy('features', 'other')
        h['other/features'][...] = h['other/features'][...][::-1]
    task = ABXpy.task.Task(N['ITEM'], c1, c2 if case['seed'] % 2 else None,
                           c3 if case['seed'] % 3 == 0 else None)
    task.generate_triplets(N['TASK'])
    if q['tool'] in ('score', 'analyze'):
        ABXpy.distance.run('feat.h5f', N['TASK'], N['DIST'], normalized=1)
    if q['tool'] == 'analyze':
        ABXpy.score.score(N['TASK'], N['DIST'], 't.score')
    with open('mydist.py', 'w') as f:
        f.write(MYDIST)


NAMES = {'ITEM': 'data.item', 'OUT': 'my.out', 'TASK': 't.abx', 'FEAT': 'feat.h5f',
         'DIST': 'd.distance', 'SCORE': 't.score', 'TMP': 'tmpd'}
N = dict(NAMES)


def through_api(q, case):
    import ABXpy.task
    import ABXpy.distance
    import ABXpy.score
    import ABXpy.analyze
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if q['tool'] == 'task':
            t = ABXpy.task.Task(N['ITEM'], renamed(case, q['on']),
                                across=[renamed(case, c) for c in q['across']],
                                by=[renamed(case, c) for c in q['by']],
                                filters=[renamed(case, FILTERS[f]) for f in q['filters']],
                                regressors=[renamed(case, r) for r in q['regs']], verbose=bool(q['verbose']))
            if q['stats']:
                t.print_stats()
            else:
                kw = {}
                if q['thr']:
                    kw['threshold'] = int(q['thr'])
                if q['seed']:
                    kw['seed'] = int(q['seed'])
                if q['tmp']:
                    kw['tmpdir'] = 'tmpd'
                t.generate_triplets('my.out' if q['out'] else None, **kw)
        elif q['tool'] == 'distance' and case.get('low'):
            # the distance asked for, without the function of distance.py
            # which interprets the request
            import ABXpy.distances.distances as dd
            if q['dist'] == 'mydist.fun':
                sys.path.insert(0, os.getcwd())
                sys.modules.pop('mydist', None)
                fun = __import__('mydist').fun
            else:
                fun = {'': ABXpy.distance.default_distance, 'dtw_kl': ABXpy.distance.dtw_kl_distance,
                       'levenshtein': ABXpy.distance.edit_distance}[q['dist']]
            dd.compute_distances('feat.h5f', q['group'] or 'features', N['TASK'], 'my.out', fun,
                                 normalized=int(q['norm']) if q['norm'] else None,
                                 n_cpu=int(q['jobs'] or 1))
        elif q['tool'] == 'distance':
            kw = {}
            if q['dist']:
                kw['distance'] = q['dist']
            if q['jobs']:
                kw['njobs'] = int(q['jobs'])
            if q['group']:
                kw['group'] = q['group']
            sys.modules.pop('mydist', None)
            ABXpy.distance.run('feat.h5f', N['TASK'], 'my.out',
                               int(q['norm']) if q['norm'] else None, **kw)
        elif q['tool'] == 'score':
            ABXpy.score.score(N['TASK'], N['DIST'], *(['my.out'] if q['out'] else []))
        else:
            ABXpy.analyze.analyze(N['TASK'], 't.score', 'my.out')
    return out.getvalue()


def observe(before, ok, text, q, case):
    names = sorted(n for n in set(os.listdir('.')) - before if not n.startswith('__'))
    # the default names, whatever those of the inputs
    default = {case['base'] + '.abx': 'data.abx',
               case['task'] + '_' + case['dist'] + '.score': 't_d.score'}
    return {'ok': int(ok), 'names': [default.get(n, n) for n in names], 'digests': [project.digest(n) for n in names],
            'stats': text.split('\n') if q.get('stats') else []}


def run(case, d):
    q = case['req']
    N.update(NAMES, ITEM=case['base'] + '.item', TASK=case['task'] + '.abx',
             DIST=case['dist'] + '.distance')
    res = {}
    for way in ('api', 'cli'):
        w = os.path.join(d, way)
        os.mkdir(w)
        os.chdir(w)
        prepare(case)
        before = set(os.listdir('.'))
        path = list(sys.path)
        if way == 'cli':
            args = [N[a] if a in N else renamed(case, FILTERS.get(a, a)) for a in case['args']]
            sys.modules.pop('mydist', None)
            ok, text, _ = project.cli(q['tool'], args, real=case['real'])
        else:
            ok, text, _ = project.api(lambda: through_api(q, case))
        sys.path[:] = path
        res[way] = observe(before, ok, text or '', q, case)
        os.chdir(d)
    # the fault of the task, not of the tool: there may be no triplet
    empty = int(q['tool'] == 'task' and res['api']['ok'] == 1 and not res['api']['names'])
    return [{'ev': 'Both', 'cli': res['cli'], 'api': res['api'],
             'empty': empty if q.get('stats') == 0 else 0}]
