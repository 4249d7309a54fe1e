"""Uses of the storage tools and of the sampler, recorded."""
import os

import h5py
import numpy as np

import smallbuf
from pipeline import small


def run(case, d):
    try:
        return {'write': writer, 'read': reader, 'sort': sort,
                'sample': sample, 'draws': draws, 'huge': huge, 'table': table,
                'fit': fit, 'clash': clash}[case['kind']](case)
    except RuntimeError as e:      # StopIteration inside of a generator...
        return [{'ev': 'Error', 'what': type(e).__name__}]


def rows(ids, ncols, dtype):
    """content of the rows of these numbers: each column identifies the row"""
    a = np.array(list(ids), dtype=np.int64).reshape(-1, 1)
    return (a * np.arange(1, ncols + 1)).astype(dtype)


def row_ids(a, ncols, dtype, n):
    """numbers of these rows, -1 when it is not a row that was given"""
    a = np.asarray(a)
    if a.ndim != 2 or a.shape[1] != ncols or a.dtype != np.dtype(dtype):
        return [-2] * max(1, a.shape[0])
    known = {r.tobytes(): i + 1 for i, r in enumerate(rows(range(1, n + 1), ncols, dtype))}
    return [known.get(np.ascontiguousarray(r).tobytes(), -1) for r in a]


# --------------------------------------------------------- buffered files

def writer(case):
    from ABXpy.h5tools import np2h5
    st = case['streams']
    outcome = 'ok'
    h = None
    try:
        over = [k for k, s in enumerate(st) if s.get('overwrite')]
        if over or case.get('handle'):
            with h5py.File('w.h5', 'w') as f:
                for k in over:
                    s = st[k]
                    f.create_dataset('g%d/d%d' % (k % 2, k), data=np.full(
                        (s['n'], s['ncols']), 7, dtype=s['dtype']))
        if case.get('handle'):
            h = h5py.File('w.h5', 'a')
        with np2h5.NP2H5(h or 'w.h5') as f:
            bufs = []
            for k, s in enumerate(st):
                kb = s['blen'] * s['ncols'] * np.dtype(s['dtype']).itemsize / 1000.
                bufs.append(f.add_dataset(
                    'g%d' % (k % 2), 'd%d' % k, n_rows=s['n'],
                    n_columns=s['ncols'], buf_size=kb,
                    item_type=np.dtype(s['dtype']).type,
                    overwrite=bool(s.get('overwrite')), fixed_size=s['n'] > 0))
            pos = [0] * len(st)
            for k, n in case['ops']:
                bufs[k].write(rows(range(pos[k] + 1, pos[k] + n + 1),
                                   st[k]['ncols'], st[k]['dtype']))
                pos[k] += n
    except Exception as e:
        outcome = type(e).__name__
    except BaseException:
        outcome = 'BaseException'
    finally:
        if h is not None:
            h.close()
    got = []
    for k, s in enumerate(st):
        try:
            with h5py.File('w.h5', 'r') as f:
                got.append(row_ids(f['g%d/d%d' % (k % 2, k)][...], s['ncols'],
                                   s['dtype'], s['given']))
        except Exception:
            got.append([-3])
    return [{'ev': 'Written', 'outcome': outcome, 'got': got}]


def clash(case):
    """a dataset which exists already: [rows, columns, type] has and asked"""
    from ABXpy.h5tools import np2h5
    e = {'ev': 'Clash', 'outcome': 'ok', 'kept': 0, 'written': 0}
    n, nc, dt = case['has']
    old = (rows(range(1, n + 1), nc, dt) + 1).astype(dt)
    with h5py.File('w.h5', 'w') as f:
        f.create_dataset('g/d', data=old)
        if case['second']:
            f.create_dataset('g/e', data=old)
    m, mc, mdt = case['asks']
    new = rows(range(1, m + 1), mc, mdt)
    try:
        with np2h5.NP2H5('w.h5') as f:
            b = [f.add_dataset('g', x, n_rows=m if case['fixed'] else 0, n_columns=mc,
                               item_type=np.dtype(mdt).type, fixed_size=bool(case['fixed']),
                               buf_size=case['blen'] * mc * np.dtype(mdt).itemsize / 1000.,
                               overwrite=bool(case['overwrite']))
                 for x in (['e2', 'd'] if case['second'] else ['d'])]
            for x in b:
                x.write(new)
    except Exception as x:
        e['outcome'] = type(x).__name__
    with h5py.File('w.h5', 'r') as f:
        a = f['g/d'][...]
        e['kept'] = int(a.shape == old.shape and a.dtype == old.dtype and bool((a == old).all()))
        e['written'] = int(a.shape == new.shape and a.dtype == new.dtype and bool((a == new).all()))
        if case['second'] and not (f['g/e'][...] == old).all():
            e['kept'] = e['written'] = 0
    return [e]


def reader(case):
    from ABXpy.h5tools import h52np
    rs = case['readers']
    ev = []
    with h5py.File('r.h5', 'w') as f:
        for k, r in enumerate(rs):
            f.create_dataset('g%d/d%d' % (k % 2, k), data=rows(
                range(1, r['size'] + 1), r['ncols'], r['dtype']))
    h = h5py.File('r.h5', 'r') if case.get('handle') else None
    try:
        with h52np.H52NP(h or 'r.h5') as f:
            bufs = []
            for k, r in enumerate(rs):
                kb = r['blen'] * r['ncols'] * np.dtype(r['dtype']).itemsize / 1000.
                a = ('g%d' % (k % 2), 'd%d' % k, kb, r.get('portion', 0.25))
                if r.get('sub'):
                    bufs.append(f.add_subdataset(*a, indexes=(
                        None if (r['lo'], r['hi']) == (0, r['size'])
                        and r['sub'] == 2 else (r['lo'], r['hi']))))
                else:
                    bufs.append(f.add_dataset(*a))
            stopped = set()
            ops = [list(o) for o in case['ops']]
            for k, r in enumerate(rs):
                ops += [[k, case['loop']]] * (r['size'] + 2)
            for k, n in ops:
                if k in stopped:
                    continue
                e = {'ev': 'Read', 'r': k + 1, 'amount': n, 'rows': [],
                     'outcome': 'ok', 'empty': 0}
                try:
                    got = (bufs[k].read(n) if n else
                           next(bufs[k]) if case.get('next') else bufs[k].read())
                    e['rows'] = row_ids(got, rs[k]['ncols'], rs[k]['dtype'],
                                        rs[k]['size'])
                    e['empty'] = int(bufs[k].isempty())
                except StopIteration:
                    e['outcome'] = 'stop'
                    stopped.add(k)
                except Exception as x:
                    e['outcome'] = type(x).__name__
                    stopped.add(k)
                ev.append(e)
            for k in range(len(rs)):
                if k not in stopped:
                    ev.append({'ev': 'Error', 'what': 'endless'})
    except Exception as x:
        ev.append({'ev': 'Error', 'what': type(x).__name__})
    finally:
        if h is not None:
            h.close()
    return ev


# ------------------------------------------------------------------- sort

def sort(case):
    from ABXpy.h5tools.h5_handler import H5Handler
    if case.get('keymap'):        # [[rank, value], ...], increasing
        m = dict(case['keymap'])
        key = np.array([m[k] for k in case['key']], dtype=case['kdtype'])
    else:
        key = np.array([case.get('scale', 1) * k + case.get('base', 0)
                        for k in case['key']], dtype=case.get('kdtype', 'int64'))
    n = len(key)
    os.mkdir('tmpdir')
    comp = case['comp']           # [[group, ncols, dtype]...]
    kg = case.get('keygroup', 'key')
    with h5py.File('s.h5', 'w') as f:
        f.create_dataset(kg + '/k', data=key.reshape(-1, 1))
        for i, (g, nc, dt) in enumerate(comp):
            f.create_dataset('%s/d%d' % (g, i), data=rows(range(1, n + 1), nc, dt))
        f.create_dataset('other/x', data=np.arange(3))
    weight = key.dtype.itemsize + sum(nc * np.dtype(dt).itemsize
                                      for _, nc, dt in comp)
    outcome = 'ok'
    try:
        H5Handler('s.h5', kg, 'k', [c[0] for c in comp],
                  ['d%d' % i for i in range(len(comp))]).sort(
            case['chunk'] * weight / 1000., case['obuf'] * weight / 1000.,
            tmpdir=os.path.abspath('tmpdir'))
    except Exception as e:
        outcome = type(e).__name__
    e = {'ev': 'Sorted', 'outcome': outcome, 'key': [], 'perms': [],
         'left': len(os.listdir('tmpdir'))}
    try:
        back = {v: k for k, v in zip(case['key'], key.tolist())}
        with h5py.File('s.h5', 'r') as f:
            k2 = f[kg + '/k'][...]
            e['key'] = [back.get(v, -1) for v in k2.reshape(-1).tolist()]
            for i, (g, nc, dt) in enumerate(comp):
                e['perms'].append(row_ids(f['%s/d%d' % (g, i)][...], nc, dt, n))
            if set(f.keys()) != set([kg.split('/')[0], 'other'] + [c[0] for c in comp]):
                e['left'] += 1
    except Exception as x:
        e['outcome'] = 'unreadable'
    return [e]


# ---------------------------------------------------------------- sampler

def sample(case):
    from ABXpy.sampling.sampler import IncrementalSampler
    np.random.seed(case['seed'])
    ev = []

    def add(n, s):
        ev.append({'ev': 'Sample', 'n': n, 'outcome': 'ok',
                   's': [small(v) for v in np.asarray(s).tolist()]})
    try:
        kw = {} if case.get('step') is None else {'step': case['step']}
        s = IncrementalSampler(case['N'], case['K'],
                               relative_indexing=bool(case['rel']), **kw)
        if case['iter'] and case.get('step') is None:
            parts = [p for p in s]
            add(case['N'], np.concatenate(parts) if parts else [])
        elif case['iter']:
            for p in s:
                add(case['step'], p)
                if len(ev) > case['N'] + 5:
                    return ev + [{'ev': 'Error', 'what': 'endless'}]
        else:
            for n in case['ops']:
                add(n, s.sample(n))
        ev.append({'ev': 'End'})
    except Exception as e:
        ev.append({'ev': 'Error', 'what': type(e).__name__})
    return ev


def huge(case):
    """positions as pairs of integers of 24 bits or so"""
    from ABXpy.sampling.sampler import IncrementalSampler
    np.random.seed(case['seed'])
    e = {'ev': 'Huge', 'outcome': 'ok', 's': []}
    try:
        if case['iter']:
            x = [p for p in IncrementalSampler(case['big'], case['K'], step=case['ops'][0],
                                               relative_indexing=False)]
        else:
            s = IncrementalSampler(case['big'], case['K'], relative_indexing=False)
            x = [s.sample(n) for n in case['ops']]
        for v in np.concatenate(x).tolist():
            v = int(v)
            e['s'].append([v >> 24, v % (1 << 24)])
    except Exception as x:
        e['outcome'] = type(x).__name__
    return [e]


def draws(case):
    from ABXpy.sampling import sampler
    np.random.seed(case['seed'])
    e = {'ev': 'Draws', 'outcome': 'ok', 'draws': [], 'counts': []}
    counts = [0] * case['N']
    try:
        for _ in range(case['times']):
            if case['ops']:
                s = sampler.IncrementalSampler(case['N'], case['K'],
                                               relative_indexing=False)
                x = np.concatenate([s.sample(n) for n in case['ops']])
            else:
                x = sampler.sample_without_replacement(case['K'], case['N'])
            x = [int(v) for v in x]
            if case['each'] == 'subset':
                e['draws'].append(sorted(x))
            else:
                if len(x) != case['K'] or len(set(x)) != case['K']:
                    e['outcome'] = 'wrong_size'
                for v in x:
                    counts[v] += 1
        if case['each'] != 'subset':
            e['counts'] = counts
    except Exception as x:
        e['outcome'] = type(x).__name__
    return [e]


# ------------------------------------------------------- indexed tables

def eighths(v, ty):
    # raw values are given as numbers of eighths
    if ty == 'list':
        return ([[x / 8 for x in r] for r in v.tolist()] if hasattr(v, 'tolist')
                else [x / 8 for x in v])
    v = np.array(v, dtype=np.int64)
    return (v // 8 if ty[0] in 'iu' else v / 8).astype(ty)


def table(case):
    with smallbuf.small(case.get('smallbuf', 0)):
        return _table(case)


def _table(case):
    """cols: [[name, kind, index, dim]]; rows: level numbers or raw values,
    one entry for each column of each dataset, in the order of cols"""
    from ABXpy.h5tools.h5io import H5IO
    cols, labels = case['cols'], case['labels']
    kw = {}
    if case['form'] == 'dict':
        datasets = {c[0]: c[2] for c in cols}
    else:
        datasets = [c[0] for c in cols]
    outcome = 'ok'
    group = case.get('group', '/')
    off = np.cumsum([0] + [c[3] for c in cols]).tolist()

    types = iter(case.get('types') or [None] * len(case['pieces']))

    def piece(part, asdict, indexed):
        res = []
        ty = next(types)
        for k, c in enumerate(cols):
            v = [r[off[k]:off[k + 1]] for r in part]
            if c[3] == 1:
                v = [x[0] for x in v]
                if c[2] is not None and not indexed:
                    v = [labels[c[2]][x] for x in v]
            if c[3] > 1 or case.get('arrays'):
                v = np.array(v)
            if c[2] is None and ty:
                v = eighths(v, ty)
            res.append(v)
        return dict(zip([c[0] for c in cols], res)) if asdict else res
    try:
        h = H5IO('t.h5', datasets, labels, case['fused'], **(
            {'group': group} if group != '/' else {}))
        with h as io:
            pos = 0
            parts = []
            for n in case['pieces']:
                parts.append(case['rows'][pos:pos + n])
                pos += n
            if case.get('iterate'):
                io.write((piece(p, case['asdict'], case['indexed']) for p in parts),
                         iterate=True, indexed=case['indexed'])
            else:
                for p in parts:
                    io.write(piece(p, case['asdict'], case['indexed']),
                             indexed=case['indexed'])
    except Exception as e:
        return [{'ev': 'Table', 'outcome': type(e).__name__, 'rows': []}]

    def text(x):
        return x.decode('utf8') if isinstance(x, bytes) else x
    try:
        out = {}
        with h5py.File('t.h5', 'r') as f:
            g = f[group]
            idx = {}
            if 'indexed_datasets' in g:
                idx = dict(zip(map(text, g['indexed_datasets'][...]),
                               map(text, g['indexed_datasets_indexes'][...])))
            dims = {c[0]: c[3] for c in cols}
            back = {}
            for i, given in labels.items():
                stored = [text(v) for v in g['indexes'][i][...].tolist()]
                where = {v: k for k, v in enumerate(given)}
                back[i] = [where.get(v, -9) for v in stored]

            def lev(i, v):
                v = int(v)
                return back[i][v] if 0 <= v < len(back[i]) else -8
            for c in cols:
                if c[1] == 'raw':
                    out[c[0]] = [[small(x * 8 if case.get('types') else x) for x in r]
                                 for r in f[c[0]][...].tolist()]
            if 'non_fused_datasets' in g:
                data = g['indexed_data'][...].tolist()
                lo = 0
                for name in map(text, g['non_fused_datasets'][...]):
                    out[name] = [[lev(idx[name], x) for x in r[lo:lo + dims[name]]]
                                 for r in data]
                    lo += dims[name]
            for fu in case['fused']:
                mem = [text(m) for m in g['fused'][fu]['datasets'][...]]
                ws = [int(w) for w in g['fused'][fu]['key_weights'][...]]
                keys = [int(r[0]) for r in g[fu][...].tolist()]
                j = 0
                for m in mem:
                    n = len(labels[idx[m]])
                    out[m] = [[lev(idx[m], k // max(w, 1) % n)
                               for w in ws[j:j + dims[m]]] for k in keys]
                    j += dims[m]
        got = [sum((out[c[0]][k] for c in cols), [])
               for k in range(len(out[cols[0][0]]))]
        if len(set(len(v) for v in out.values())) != 1:
            got = []
    except Exception as e:
        return [{'ev': 'Table', 'outcome': 'unreadable', 'rows': []}]
    return [{'ev': 'Table', 'outcome': 'ok', 'rows': got}]


def fit(case):
    from ABXpy.misc.type_fitting import fit_integer_type
    n = 2 ** case['e'] + case['d']
    try:
        t = np.dtype(fit_integer_type(n, bool(case['signed']))
                     if case['how'] else
                     fit_integer_type(n, is_signed=bool(case['signed'])))
        return [{'ev': 'Fit', 'outcome': 'ok', 'bits': t.itemsize * 8,
                 'signed': int(t.kind == 'i')}]
    except Exception as e:
        return [{'ev': 'Fit', 'outcome': type(e).__name__, 'bits': 0, 'signed': 0}]
