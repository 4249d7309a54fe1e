"""Stages killed at any of their changes of files, and what comes after."""
import ctypes
import json
import os
import shutil
import tempfile

import conc_runs
import project

CHAIN = ['convert', 'task', 'dist', 'score', 'analyze']
OUT = {'convert': 'data.h5f', 'task': 'data.abx', 'dist': 'data.distance', 'score': 'data.score',
       'analyze': 'data.csv'}
IN = {'convert': ['src/f0.npz', 'src/f1.npz', 'src/f2.npz'], 'task': ['data.item'],
      'dist': ['data.h5f', 'data.abx'], 'score': ['data.abx', 'data.distance'],
      'analyze': ['data.abx', 'data.score'], 'verify': ['data.item', 'data.h5f']}
MADE = {}


def stage(kind, case, out=None):
    import contextlib
    import io
    import ABXpy.task
    import ABXpy.distances.distances as distances
    import ABXpy.distance
    import ABXpy.score
    import ABXpy.analyze
    import ABXpy.verify
    import ABXpy.misc.any2h5features as any2
    out = out or OUT.get(kind)
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == 'convert':
            any2.convert('src', out)
        elif kind == 'task':
            t = ABXpy.task.Task('data.item', 'c1', 'c2', case['by'] or None)
            t.generate_triplets(out, tmpdir='tmp')
        elif kind == 'dist':
            distances.compute_distances('data.h5f', 'features', 'data.abx', out,
                                        ABXpy.distance.default_distance, 1, n_cpu=case['njobs'])
        elif kind == 'score':
            ABXpy.score.score('data.abx', 'data.distance', out)
        elif kind == 'analyze':
            ABXpy.analyze.analyze('data.abx', 'data.score', out)
        elif kind == 'verify':
            ABXpy.verify.check('data.item', 'data.h5f')


def dig(kind, path=None):
    import h5py
    path = path or OUT[kind]
    try:
        if kind == 'task':
            return project.task_digest(path)
        if kind == 'dist':
            with h5py.File(path, 'r') as f:
                return f['distances/data'][...].tobytes().hex()
        return project.digest(path)
    except Exception:
        return 'unreadable'


def forked(kind, case, rep, at=None, torn=0, fresh=None):
    """runs a stage in a process of its own: (finished, ok, changes)"""
    if os.path.exists(rep):
        os.remove(rep)
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            tempfile.tempdir = os.path.join(os.getcwd(), 'tmp')
            os.environ['TMPDIR'] = tempfile.tempdir
            lib = ctypes.CDLL(None)
            lib.crash_count.restype = ctypes.c_long
            lib.crash_arm(ctypes.c_long(-1 if at is None else at), torn)
            ok = 1
            try:
                stage(kind, case)
            except Exception:
                ok = 0
            n = lib.crash_count()
            lib.crash_arm(ctypes.c_long(-1), 0)
            with open(rep, 'w') as f:
                json.dump([ok, n], f)
        finally:
            os._exit(0)
    done = conc_runs.join(pid, 40)
    if not done or not os.path.exists(rep):
        return (0, 0, 0) if done else (-1, 0, 0)
    with open(rep) as f:
        ok, n = json.load(f)
    return 1, ok, n


def template(scratch, case):
    """the folder after all the stages, what they give and how many changes
    of files they make"""
    key = (case['seed'], case['by'], case['njobs'])
    t = os.path.join(scratch, 'crash_%s_%s_%s' % key)
    if key in MADE:
        return t, MADE[key]
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(os.path.join(t, 'src'))
    os.mkdir(os.path.join(t, 'tmp'))
    os.chdir(t)
    import numpy as np
    project.items('data.item', n=case['seed'] % 3 * 2 + 20, seed=case['seed'])
    rng = np.random.RandomState(case['seed'])
    for k in range(3):
        np.savez('src/f%d.npz' % k, time=np.arange(40) * 0.25, features=rng.rand(40, 3) + 0.1)
    info = {}
    for k in CHAIN:
        done, ok, n = forked(k, case, os.path.join(scratch, 'rep'))
        if done != 1 or not ok:
            raise RuntimeError(k)
        info[k] = [dig(k), n]
    MADE[key] = info
    return t, info


def run(case, d):
    import ABXpy.task, ABXpy.distance, ABXpy.score, ABXpy.analyze, ABXpy.verify    # noqa: E401, F401
    import ABXpy.misc.any2h5features    # noqa: F401
    scratch = os.path.dirname(d)
    rep = os.path.join(scratch, 'rep')
    try:
        t, info = template(scratch, case)
    except RuntimeError as x:
        return [{'ev': 'Error', 'what': 'stage.%s' % x}]
    shutil.rmtree(d)
    shutil.copytree(t, d)
    os.chdir(d)
    k = case['stage']
    later = CHAIN[CHAIN.index(k):]
    if k == 'convert':
        later.remove('task')
    for s in later:
        os.remove(OUT[s])
    n = info[k][1]
    at = 1 + int(case['where'] * n) if case['where'] >= 0 else n + 1
    ev = []

    def raws(s):
        return [project.rawdigest(f) if os.path.exists(f) else '' for f in IN[s]]

    def ask(s, what):
        before = raws(s)
        done, ok, _ = forked(s, case, rep)
        res = 'failed' if done != 1 or not ok else \
            'right' if s == 'verify' or dig(s) == info[s][0] else 'wrong'
        if s == 'verify' and res == 'right' and dig('convert') != info['convert'][0]:
            res = 'wrong'
        ev.append({'ev': what, 'stage': s, 'res': res, 'same': int(raws(s) == before)})
        if done == -1:
            ev.append({'ev': 'Error', 'what': 'hang'})
        return res

    def rest(stages):
        """the stages after, until one fails"""
        for s in stages:
            if os.path.exists(OUT[s]):
                os.remove(OUT[s])
            if ask(s, 'Ask') == 'failed':
                if os.path.exists(OUT[s]):
                    os.remove(OUT[s])
                return
    before = raws(k)
    done, ok, _ = forked(k, case, rep, at, case['torn'])
    ev.append({'ev': 'Kill', 'stage': k, 'died': int(done == 0), 'at': at, 'of': n,
               'same': int(raws(k) == before)})
    if done == -1 or done == 1 and not ok:
        ev.append({'ev': 'Error', 'what': 'killed stage'})
    if k == 'convert' and os.path.exists(OUT[k]):
        ask('verify', 'Ask')
    rest(later[1:])
    if case['again'] and k != 'analyze':
        if ask(k, 'Again') != 'failed':
            rest(later[1:])
    # what is left is removed, and everything works as if nothing happened
    rest(later)
    return ev
