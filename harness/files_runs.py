"""Histories of operations on the files of a project."""
import os
import tempfile

import faults
import project

NAMES = ['data.abx', 'out.abx', 'res.distance', 'data_res.score',
         'out_res.score', 'my.score', 'res.csv']
SPECS = {1: ('c1', ['c2'], [], {}), 2: ('c1', [], ['c3'], {'regressors': ['c2_A', 'c2_X']}),
         3: ('nosuch', [], [], {})}
TASKS = ['data.abx', 'out.abx']


def run(case, d):
    project.items('data.item', seed=case['seed'])
    project.features('feat.h5f', seed=case['seed'])
    inputs = ['data.item', 'feat.h5f']
    raw = [project.rawdigest(f) for f in inputs]
    os.mkdir('tmpd')
    given = set(inputs + NAMES + ['tmpd'])
    tmp = tempfile.gettempdir()
    ev = []
    for o in case['ops']:
        before = set(os.listdir(tmp))
        fault = 0
        if 'fault' in o:
            with faults.failing(o['fault']['kind'], o['fault']['at']) as st:
                ok, said = step(o, case)
            fault = st[1]
        else:
            ok, said = step(o, case)
        extra = sorted(set(os.listdir('.')) - given) + os.listdir('tmpd') + sorted(
            n for n in set(os.listdir(tmp)) - before if not n.startswith('pymp-'))
        ev.append({'ev': 'Op', 'op': {k: v for k, v in o.items() if k != 'fault'}, 'fault': fault, 'ok': 'yes' if ok else 'no', 'warned': said,
                   'files': {n: project.digest(n) for n in NAMES},
                   'inputs': int(raw == [project.rawdigest(f) for f in inputs]),
                   'extra': extra})
    return ev


def put(name, what):
    if what == 'hdf5':
        import h5py
        with h5py.File(name, 'w') as f:
            f['somebody'] = [1, 2]
    elif what == 'group':
        import h5py
        h5py.File(name, 'w').close()
    else:
        with open(name, 'w') as f:
            f.write({'empty': '', 'text': 'not a result\n', 'line': '\n'}[what])
    return True, 0


def step(o, case):
    import ABXpy.task
    import ABXpy.distance
    import ABXpy.score
    import ABXpy.analyze
    if o['op'] == 'put':
        return put(o['f'], o['what'])
    real = case.get('real')
    here = os.getcwd()

    def path(n):
        return os.path.join(here, n) if case['absolute'] else n
    t = path(TASKS[o['t']])
    sc = path('my.score' if o['out'] else ['data_res.score', 'out_res.score'][o['t']])
    if o['how'] == 'api':
        if o['op'] == 'task':
            on, across, by, kw = SPECS[o['p']]

            def f():
                task = ABXpy.task.Task(path('data.item'), on, across, by, **kw)
                a = {'tmpdir': path('tmpd')} if case['tmpd'] else {}
                task.generate_triplets(path('out.abx') if o['out'] else None, **a)
        elif o['op'] == 'dist':
            def f():
                ABXpy.distance.run(path('feat.h5f'), t, path('res.distance'),
                                   normalized=2 - o['m'], njobs=o['j'])
        elif o['op'] == 'score':
            def f():
                ABXpy.score.score(t, path('res.distance'), path('my.score') if o['out'] else None)
        else:
            def f():
                ABXpy.analyze.analyze(t, sc, path('res.csv'))
        return project.api(f)[0], 0
    if o['op'] == 'task':
        on, across, by, kw = SPECS[o['p']]
        out = path(TASKS[o['out']])
        a = [path('data.item')] + ([out] if o['out'] else []) + ['-o', on]
        for k, v in (('-a', across), ('-b', by), ('-r', kw.get('regressors'))):
            if v:
                a += [k] + v
        if o['stats']:
            a += ['--stats-only']
        if case['tmpd']:
            a += ['--tempdir', path('tmpd')]
        ok, so, se = project.cli('task', a, real)
    elif o['op'] == 'dist':
        out = path('res.distance')
        a = [path('feat.h5f'), t, out, '-j', o['j']]
        if o['m']:
            a += ['-n', 2 - o['m']]
        ok, so, se = project.cli('distance', a, real)
    elif o['op'] == 'score':
        out = path('my.score')
        ok, so, se = project.cli('score', [t, path('res.distance')] + ([out] if o['out'] else []), real)
    else:
        out = path('res.csv')
        ok, so, se = project.cli('analyze', [sc, t, out], real)
    # the replacement is announced: a message about the output
    said = so + se
    return ok, int(os.path.basename(out) in said)
