"""Two requests at the same time, in two processes, interleaved step by step
as a schedule of the specification says."""
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time

import project

TEMPLATES = {}
INPUTS = ('data.item', 'data.h5f', 'data.abx', 'data.distance', 'data.score', 'src/f0.npz',
          'src/f1.npz', 'src/f2.npz')


def request(kind, out, var):
    """runs a request, in the current directory"""
    import contextlib
    import io
    import ABXpy.task
    import ABXpy.distance
    import ABXpy.score
    import ABXpy.analyze
    import ABXpy.misc.any2h5features as any2
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == 'task':
            kw = [{}, {'filters': ["c3_A == c3_B"]}, {'regressors': ['c3_X']}][var % 3]
            ABXpy.task.Task('data.item', 'c1', 'c2', **kw).generate_triplets(out, tmpdir=var // 3 % 2 and 'tmp' or None)
        elif kind == 'sampled':
            ABXpy.task.Task('data.item', 'c1', by='c2').generate_triplets(out, threshold=2, seed=var)
        elif kind == 'stats':
            ABXpy.task.Task('data.item', 'c1', 'c2', by=['c3']).print_stats(out, summarized=bool(var % 2))
        elif kind == 'dist':
            ABXpy.distance.run('data.h5f', 'data.abx', out, normalized=var % 2,
                               njobs=2 if var % 5 == 4 else 1,
                               distance=[None, 'dtw_kl'][var // 2 % 2])
        elif kind == 'score':
            ABXpy.score.score('data.abx', 'data.distance', out)
        elif kind == 'analyze':
            ABXpy.analyze.analyze('data.abx', 'data.score', out)
        elif kind == 'convert':
            any2.convert('src', out)


def digest(kind, path):
    return project.task_digest(path) if kind in ('task', 'sampled') else project.digest(path)


def child(r, kind, out, var, cuts, up, down, report):
    """in a forked process: runs the request, stopping at the given points"""
    import h5py
    import tables
    me = os.getpid()
    st = {'n': 0, 'seg': 0}
    log = []
    root = os.getcwd() + os.sep
    busy = [False]

    def point(op=None, f=None):
        if os.getpid() != me or busy[0]:
            return
        if f is not None:
            if isinstance(f, bytes):
                f = os.fsdecode(f)
            if not isinstance(f, str):
                return
            f = os.path.abspath(f)
            if not f.startswith(root):
                return
        st['n'] += 1
        if st['n'] in cuts:
            os.write(up, b'T')
            os.read(down, 1)
            st['seg'] += 1
        if f is not None:
            log.append([st['seg'], op, os.path.relpath(f, root)])

    def audit(name, args):
        if name == 'open':
            flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            if flags & os.O_EXCL:
                point('mk', args[0])
            elif isinstance(args[0], (str, bytes)) and not os.path.isdir(args[0]):
                point('wr' if w else 'rd', args[0])
        elif name in ('os.remove', 'os.rmdir'):
            if args[1] in (-1, None):
                point('rm', args[0])
        elif name == 'shutil.rmtree':
            point('rm', args[0])
        elif name == 'os.mkdir':
            # makedirs(exist_ok) or an error
            if not os.path.isdir(args[0]):
                point('mk', args[0])
        elif name == 'os.rename':
            point('rm', args[0])
            point('wr', args[1])
    for cls in (h5py.File, tables.File):
        def wrap(cls=cls, f=cls.__init__):
            def init(self, name, mode='r', *a, **k):
                point('rd' if mode == 'r' else 'wr', os.fspath(name) if not isinstance(name, int) else None)
                return f(self, name, mode, *a, **k)
            cls.__init__ = init
        wrap()
    for cls, name in ((h5py.Dataset, '__getitem__'), (h5py.Dataset, '__setitem__'),
                      (h5py.Group, 'create_dataset')):
        def wrap2(cls=cls, name=name, f=cls.__dict__[name]):
            def g(self, *a, **k):
                point()
                return f(self, *a, **k)
            setattr(cls, name, g)
        wrap2()
    if down is not None:
        os.read(down, 1)
    sys.addaudithook(audit)
    ok, what = 1, ''
    try:
        request(kind, out, var)
    except Exception as x:
        ok, what = 0, type(x).__name__ + ': ' + str(x)[:100]
    busy[0] = True
    with open(report, 'w') as f:
        json.dump({'ok': ok, 'what': what, 'n': st['n'], 'log': log}, f)
    if up is not None:
        os.write(up, b'D')


def spawn(*args):
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            tempfile.tempdir = os.path.join(os.getcwd(), 'tmp')
            os.environ['TMPDIR'] = tempfile.tempdir
            child(*args)
        finally:
            os._exit(0)
    return pid


def join(pid, timeout=60):
    """waits for a process; False if it had to be killed"""
    end = time.time() + timeout
    while time.time() < end:
        if os.waitpid(pid, os.WNOHANG)[0]:
            return True
        time.sleep(0.002)
    os.killpg(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return False


def alone(kind, out, var, rep):
    if not join(spawn(0, kind, out, var, (), None, None, rep)) or not os.path.exists(rep):
        return {'ok': 0, 'what': 'died', 'n': 0, 'log': [], 'dig': ''}
    with open(rep) as f:
        r = json.load(f)
    r['dig'] = digest(kind, out) if r['ok'] else ''
    os.remove(rep)
    return r


def template(scratch, seed):
    """a folder with the inputs of all the stages"""
    t = os.path.join(scratch, 'conc_%d' % seed)
    if seed in TEMPLATES:
        return t
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(os.path.join(t, 'src'))
    os.mkdir(os.path.join(t, 'tmp'))
    here = os.getcwd()
    os.chdir(t)
    import numpy as np
    project.items('data.item', n=18, seed=seed)
    project.features('data.h5f', seed=seed)
    rng = np.random.RandomState(seed)
    for k in range(3):
        np.savez('src/f%d.npz' % k, time=np.arange(4) * 0.5, features=rng.rand(4, 2))
    rep = os.path.join(scratch, 'rep')
    for kind, out in (('task', 'data.abx'), ('dist', 'data.distance'), ('score', 'data.score')):
        alone(kind, out, 0, rep)
    os.chdir(here)
    TEMPLATES[seed] = {}
    return t


def run(case, d):
    scratch = os.path.dirname(d)
    # once, for all the processes that are forked
    import ABXpy.task, ABXpy.distance, ABXpy.score, ABXpy.analyze, ABXpy.misc.any2h5features    # noqa: E401, F401
    t = template(scratch, case['seed'])
    solo = []
    rep = [os.path.join(scratch, 'rep%d' % r) for r in (1, 2)]
    for r in (0, 1):
        kind, var = case['kinds'][r], case['vars'][r]
        memo = TEMPLATES[case['seed']]
        if (kind, var) not in memo:
            shutil.rmtree(d)
            shutil.copytree(t, d)
            os.chdir(d)
            memo[kind, var] = alone(kind, 'alone', var, rep[0])
        solo.append(memo[kind, var])
    shutil.rmtree(d)
    shutil.copytree(t, d)
    os.chdir(d)
    before = {f: project.rawdigest(f) for f in INPUTS if os.path.exists(f)}
    start = set(listing(d))
    outs = ['one' + case['ext'], 'two' + case['ext']]
    ctl = []
    sched = case['sched']
    steps = [sched.count(1), sched.count(2)]
    for r in (0, 1):
        n = max(solo[r]['n'], 1)
        # the places where the steps of the schedule end, among the points of
        # the request
        cuts = set(max(1, int(c * n)) for c in case['cuts'][r][:steps[r] - 1])
        u, dn = os.pipe(), os.pipe()
        pid = spawn(r + 1, case['kinds'][r], outs[r], case['vars'][r], cuts, u[1], dn[0], rep[r])
        ctl.append({'pid': pid, 'up': u[0], 'down': dn[1], 'done': False, 'left': len(cuts) + 1, 'segs': [],
                    'close': (u[1], dn[0])})
    ev = []
    order = []
    end = time.time() + 60

    def go(r):
        c = ctl[r]
        if c['done']:
            return
        os.write(c['down'], b'g')
        order.append(r)
        while True:
            ready, _, _ = select.select([c['up']], [], [], 0.5)
            if ready:
                if os.read(c['up'], 1) == b'D':
                    c['done'] = True
                return
            if os.waitpid(c['pid'], os.WNOHANG)[0]:
                c['done'], c['gone'] = True, True
                ev.append({'ev': 'Error', 'what': 'died'})
                return
            if time.time() > end:
                os.killpg(c['pid'], signal.SIGKILL)
                c['done'] = True
                ev.append({'ev': 'Error', 'what': 'hang'})
                return
    for r in sched:
        go(r - 1)
    for r in (0, 1, 0, 1):
        while not ctl[r]['done']:
            go(r)
    for c in ctl:
        if not c.get('gone'):
            join(c['pid'], 20)
        for f in (c['up'], c['down']) + c['close']:
            os.close(f)
    if ev:
        return ev, sorted(before), outs, 1
    res = []
    for r in (0, 1):
        with open(rep[r]) as f:
            res.append(json.load(f))
        os.remove(rep[r])
    num = {}

    def number(f):
        return num.setdefault(f, len(num) + 1)
    for f in sorted(start) + outs:
        number(f)
    seg = [0, 0]
    for r in order:
        for s, op, f in res[r]['log']:
            if s == seg[r]:
                ev.append({'ev': 'File', 'r': r + 1, 'op': op, 'f': number(f)})
        seg[r] += 1
    after = {f: project.rawdigest(f) if os.path.exists(f) else '' for f in before}
    ev.append({'ev': 'End', 'ok': [res[0]['ok'], res[1]['ok']],
               'what': [res[0]['what'], res[1]['what']],
               'solo_ok': [s['ok'] for s in solo], 'solo': [s['dig'] for s in solo],
               'dig': [digest(case['kinds'][r], outs[r]) if res[r]['ok'] else '' for r in (0, 1)],
               'same': int(after == before),
               'left': [number(f) for f in sorted(set(listing(d)) - start)]})
    return ev, [number(f) for f in sorted(start)], [number(f) for f in outs], len(num)


def listing(d):
    out = []
    for p, ds, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(p, x), d) for x in ds + fs]
    return out


def conc(case, d):
    ev, inputs, outs, files = run(case, d)
    if ev and ev[0].get('what') in ('died', 'hang'):
        inputs, outs = [1], [2, 3]
        files = 3
    return [{'inputs': inputs, 'outs': outs, 'files': max(files, 3), 'events': ev}]
