"""Distance runs: real compute_distances, in a forked process, with logged
file accesses and injected failures."""
import json
import os
import random
import signal
import sys
import time

import h5py
import numpy as np
import pandas
import tables

import pipeline

STATE = {'log': None, 'main': 0, 'case': None, 'seq': 0}


# ------------------------------------------------------------- the log

def _log(**e):
    if STATE['log'] is not None:
        os.write(STATE['log'], (json.dumps(e) + '\n').encode())


def _who():
    return 0 if os.getpid() == STATE['main'] else os.getpid()


def _watched(name):
    if isinstance(name, bytes):
        name = name.decode('utf8', 'replace')
    if not isinstance(name, (str, os.PathLike)):
        return None
    base = os.path.basename(str(name))
    return {'data.abx': 'pair', 'data.distance': 'dist'}.get(base)


def _pause(ms):
    if ms:
        r = random.Random('%s %s %s' % (STATE['case'].get('rseed', 0),
                                        os.getpid(), STATE['seq']))
        time.sleep(r.random() * ms / 1000.)


def _before_open(f):
    c = STATE['case']
    if c.get('fault') == 'open':
        fd = os.open(os.path.join(c['dir'], 'opens'),
                     os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, b'x')
        n = os.fstat(fd).st_size
        os.close(fd)
        if n == c['at']:
            _log(ev='Fault', what='open')
            raise OSError('injected failure')


def _opened(f, mode, obj):
    STATE['seq'] += 1
    obj.__dict__['_vf'] = h = STATE['seq']
    _log(ev='Open', w=_who(), f=f, m='r' if mode == 'r' else 'w', h=h)
    _pause(STATE['case'].get('hold', 0))


def _closing(obj):
    h = obj.__dict__.pop('_vf', None)
    if h is not None:
        _pause(STATE['case'].get('hold', 0))
        _log(ev='Close', w=_who(), h=h)


def instrument():
    """accesses are logged after opening and before closing: two accesses
    which overlap in the log did overlap"""
    def patch(cls):
        init, close = cls.__init__, cls.close

        def new_init(self, name, *a, **k):
            f = _watched(name) if STATE['log'] is not None else None
            if f is not None:
                _before_open(f)
            init(self, name, *a, **k)
            if f is not None:
                m = k.get('mode', a[0] if a else 'r')
                _opened(f, 'r' if m in ('r', None) else 'w', self)

        def new_close(self, *a, **k):
            if STATE['log'] is not None:
                _closing(self)
            return close(self, *a, **k)
        cls.__init__, cls.close = new_init, new_close
    if not getattr(h5py.File, '_vf_patched', False):
        h5py.File._vf_patched = True
        patch(h5py.File)
        patch(tables.File)


# -------------------------------------------------- the distance function

class Unpicklable(Exception):
    def __reduce__(self):
        raise TypeError('cannot be pickled')


class BadUnpickle(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, a)


def weight(x):
    v = np.asarray(x, dtype=float)
    if v.shape[0] == 0:
        return 0
    return float(sum((i + 1) * (r[0] + 10 * r[1]) for i, r in enumerate(v))
                 + 100 * v.shape[0])


def _failure(c, d):
    kind = c.get('fault')
    if kind in (None, 'open') or d != c['at']:
        return
    _log(ev='Fault', what='distance')
    if kind == 'value':
        raise ValueError('injected')
    if kind == 'memory':
        raise MemoryError('injected')
    if kind == 'unpicklable':
        raise Unpicklable('injected')
    if kind == 'badunpickle':
        raise BadUnpickle('injected', 1)
    if kind == 'exit':
        raise SystemExit(3)
    if kind == 'kill':
        _log(ev='Dead', w=_who())
        os.kill(os.getpid(), signal.SIGKILL)
    if kind == 'killall':
        os.killpg(0, signal.SIGKILL)


def distance(x, y, normalized='none'):
    c = STATE['case']
    d = 3 * weight(x) + weight(y)
    if c.get('comp'):
        STATE['seq'] += 1
        _pause(c['comp'])
    _failure(c, d)
    if normalized == 'none':
        return d
    # (0 and 1 are as good as False and True)
    return d + (200000 if normalized else 100000)


# ------------------------------------------------------------------ a run

def seconds(case, t):
    """time of a tick"""
    base, step = case.get('clock', [0, 0.25])
    return base + t * step


def ticks(case, x):
    base, step = case.get('clock', [0, 0.25])
    return int(round((x - base) / step))


def write_features(case, names):
    """feats[f] = [{'t', 'v'}], times in ticks"""
    import h5features
    groups = case.get('split') or [list(range(len(names)))]
    files = []
    for k, g in enumerate(groups):
        path = 'feats%d.h5f' % k
        its, ts, fs = [], [], []
        for f in g:
            fr = case['feats'][f]
            its.append(names[f])
            ts.append(np.array([seconds(case, x['t']) for x in fr]))
            fs.append(np.array([x['v'] for x in fr], dtype=case.get(
                'dtype', 'float64')).reshape(len(fr), 2))
        group = case.get('group', 'features')
        h5features.write(path, group, its, [np.sort(t) for t in ts], fs)
        if any((np.diff(t) < 0).any() for t in ts):
            # h5features writes increasing times only, and reads any
            import h5py
            with h5py.File(path, 'r+') as h:
                h[group]['labels'][...] = np.concatenate(ts).reshape(h[group]['labels'].shape)
        files.append(path)
    return files


def make_task(case):
    """a real task, made by the real code"""
    import ABXpy.task
    lab = pipeline.Labels(case['task'])
    names = [case.get('prefix', 'f') + str(i) for i in range(len(case['feats']))]
    t = dict(case['task'])
    t['locs'] = [(names[f - 1], seconds(case, on), seconds(case, off)) for f, on, off in case['locs']]
    pipeline.write_items(t, lab, 'data.item')
    args, kw = pipeline.task_args(t, lab)
    ABXpy.task.Task('data.item', *args, **kw).generate_triplets('data.abx')
    return names


def read_blocks(case, names):
    blocks = []
    with h5py.File('data.abx', 'r') as h:
        bys = [b.decode('utf8') if isinstance(b, bytes) else str(b)
               for b in h['bys'][...]]
        attrs = [[int(v) for v in h['unique_pairs'].attrs[b]] for b in bys]
        codes = h['unique_pairs/data'][...].reshape(-1).tolist()
    for b, (base, lo, hi) in zip(bys, attrs):
        store = pandas.HDFStore('data.abx', 'r')
        db = store['feat_dbs/' + b]
        store.close()
        blocks.append({
            'base': base, 'plo': lo, 'codes': codes[lo:hi],
            'items': [[names.index(str(f)) + 1, ticks(case, on), ticks(case, off)]
                      for f, on, off in zip(db['file'], db['onset'], db['offset'])]})
    return blocks


def run(case, d):
    """returns [blocks, events]"""
    import ABXpy.distances.distances as dd
    if case.get('jobs'):
        return jobs(case, dd)
    instrument()
    STATE['log'] = None
    try:
        names = make_task(case)
        if not os.path.exists('data.abx'):
            return [[], []]
        blocks = read_blocks(case, names)
    except Exception as e:
        return [[], [pipeline.err(e)]]
    files = write_features(case, names)
    case['dir'] = d
    if case.get('fault') and case['fault'] != 'open':
        # the failure is at the given pair: the distance it would have
        ws = {}
        seq = []
        for b in blocks:
            for c in b['codes']:
                seq.append([b['items'][c % b['base']], b['items'][c // b['base']]])
        a, x = seq[case['at'] % len(seq)]
        for it in (a, x):
            ws[tuple(it)] = weight([f['v'] for f in case['feats'][it[0] - 1]
                                    if it[1] <= f['t'] <= it[2]] or np.zeros((0, 2)))
        case['at'] = 3 * ws[tuple(a)] + ws[tuple(x)]
    logf = os.path.join(d, 'log')
    log = os.open(logf, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    pid = os.fork()
    if pid == 0:
        code = 7
        try:
            os.setsid()
            STATE.update(log=log, main=os.getpid(), case=case, seq=0)
            kw = {'n_cpu': case['ncpu']}
            multi = len(files) > 1 or case.get('aslist')
            group = case.get('group', 'features')
            if multi:
                kw['feature_file_as_list'] = True
            dd.compute_distances(
                files if multi else files[0],
                [group] * len(files) if multi else group, 'data.abx',
                'data.distance', distance,
                None if case['norm'] == -1 else case['norm'], **kw)
            code = 0
        except BaseException as e:
            code = 5
        finally:
            os._exit(code)
    outcome = None
    end = time.time() + case.get('limit', 60)
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            outcome = {0: 'ok'}.get(st, 'killed' if os.WIFSIGNALED(st) else 'error')
            break
        time.sleep(0.01)
    if outcome is None:
        outcome = 'hang'
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if outcome == 'hang':
        os.waitpid(pid, 0)
    os.close(log)
    STATE['log'] = None
    with open(logf) as f:
        events = [json.loads(x) for x in f.read().split('\n') if x]
    pids = {}
    for e in events:
        if 'w' in e:
            e['w'] = pids.setdefault(e['w'], len(pids))
    events.append({'ev': 'End', 'outcome': outcome})
    fe = {'ev': 'File', 'done': 0, 'd': []}
    try:
        with h5py.File('data.distance', 'r') as h:
            fe['done'] = int(bool(h.attrs['done']))
            for v in h['distances/data'][...].reshape(-1).tolist():
                fe['d'].append(int(v) if v == v and abs(v) < 1e9 and v == int(v)
                               else -1)
    except (OSError, KeyError):
        pass
    events.append(fe)
    return [blocks, events]


def jobs(case, dd):
    """the partition alone, for numbers of pairs no run could compute"""
    sizes = case['sizes']
    with h5py.File('data.abx', 'w') as h:
        names = ['by%d' % i for i in range(len(sizes))]
        h.create_dataset('bys', (len(names),), dtype=h5py.special_dtype(vlen=str))
        for i, n in enumerate(names):
            h['bys'][i] = n
        g = h.create_group('unique_pairs')
        g.create_dataset('data', shape=(sum(sizes), 1), dtype='i8', chunks=True)
        lo = 0
        for n, s in zip(names, sizes):
            g.attrs.create(n, [1000, lo, lo + s])
            lo += s
    try:
        js = dd.create_distance_jobs('data.abx', 'data.distance', case['ncpu'],
                                     case['mb'])
        spans = []
        for j in js:
            for b, sta, sto in zip(j['by'], j['start'], j['stop']):
                b = b.decode('utf8') if isinstance(b, bytes) else str(b)
                spans.append([names.index(b) + 1, int(sta), int(sto)])
    except (AttributeError, TypeError, KeyError):
        return [[], []]         # not organized this way
    except Exception as e:
        return [[], [pipeline.err(e)]]
    return [[], [{'ev': 'Jobs', 'sizes': sizes, 'spans': spans}]]
