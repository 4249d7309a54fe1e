"""The same requests in different circumstances."""
import contextlib
import io
import os
import resource

import h5py
import numpy as np

import pipeline
import project


def feats(case, path):
    """features for the locations of the items of a case"""
    import h5features
    locs = pipeline.locations(case)
    rng = np.random.RandomState(case['rseed'])
    names = sorted(set(l[0] for l in locs))
    t, x = [], []
    for n in names:
        m = int(max(l[2] for l in locs)) + 2
        t.append(np.arange(4 * m) * 0.25)
        x.append(rng.rand(4 * m, 3) + 0.05)
    h5features.write(path, 'features', names, t, x)


def noise(k):
    """other activity of the process"""
    import ABXpy.task
    import ABXpy.sampling.sampler as sampler
    if k & 1:
        np.random.seed(k)
        np.random.rand(k)
    if k & 2:
        if os.path.exists('other%d.abx' % k):
            os.remove('other%d.abx' % k)
        project.items('other.item', n=7, seed=k)
        with contextlib.redirect_stdout(io.StringIO()):
            t = ABXpy.task.Task('other.item', 'c1', 'c2', regressors=['c3_A'])
            t.generate_triplets('other%d.abx' % k, threshold=1)
    if k & 4:
        sampler.sample_without_replacement(3, 10)


def run(case, d):
    import ABXpy.task
    import ABXpy.distance
    import ABXpy.distances.distances as distances
    import ABXpy.score
    import ABXpy.analyze
    env = case['env']
    ev = []
    lab = pipeline.Labels(case)
    sub = os.path.join(d, env['dir'])
    os.makedirs(sub, exist_ok=True)
    pipeline.write_items(case, lab, os.path.join(sub, 'data.item'))
    feats(case, os.path.join(sub, 'data.h5f'))
    here = env['here'] == 'in'
    os.chdir(sub if here else d)

    def path(n):
        return n if here else os.path.join(sub, n) if env['here'] == 'abs' \
            else os.path.join(env['dir'], n)

    def saw(req, what, dig):
        ev.append({'ev': 'Run', 'env': env['name'], 'req': req, 'what': what, 'dig': dig})
    args, kw = pipeline.task_args(case, lab)
    kw.pop('verbose', None)
    n = 0
    limit = resource.getrlimit(resource.RLIMIT_NOFILE)
    if env.get('spare'):
        used = len(os.listdir('/proc/self/fd'))
        resource.setrlimit(resource.RLIMIT_NOFILE, (used + env['spare'], limit[1]))
    try:
        noise(env['noise'])
        task = None
        for req in env['reqs']:
            n += 1
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                if task is None or not env['reuse']:
                    task = ABXpy.task.Task(path('data.item'), *args, verbose=bool(env['verbose']), **kw)
                if req == 'stats':
                    s = os.path.join(d, 's.txt')
                    task.print_stats(s, summarized=False)
                    with open(s) as f:
                        saw(req, 'stats', '|'.join(sorted(f.read().split('\n'))))
                    continue
                abx = path('t%d.abx' % n)
                if req == 'plain':
                    task.generate_triplets(abx)
                else:
                    task.generate_triplets(abx, threshold=case['gthr'], seed=case['gseed'])
                saw(req, 'task', project.task_digest(abx))
                if not os.path.exists(abx) or env['stop'] == 'task':
                    continue
                noise(env['noise'])
                dis = path('t%d.distance' % n)
                ABXpy.distance.run(path('data.h5f'), abx, dis, normalized=case['norm'], njobs=env['njobs'])
                with h5py.File(dis, 'r') as h:
                    saw(req, 'distance', repr(h['distances/data'][...].tobytes().hex())[:4000])
                sc = path('t%d.score' % n)
                ABXpy.score.score(abx, dis, sc)
                saw(req, 'score', project.digest(sc))
                ABXpy.analyze.analyze(abx, sc, path('t.csv'))
                saw(req, 'csv', project.digest(path('t.csv')))
    except Exception as e:
        ev.append({'ev': 'Error', 'what': type(e).__name__, 'env': env['name']})
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, limit)
        os.chdir(d)
    return ev
