"""Conversion of feature files, verification of items against features."""
import os

import h5py
import numpy as np

import project

BIG = 10 ** 9


def run(case, d):
    return (convert if case['kind'] == 'convert' else verify)(case, d)


def integer(v):
    v = float(v)
    return int(v) if v == int(v) and abs(v) < BIG else -BIG


def convert(case, d):
    import ABXpy.misc.any2h5features as any2
    os.mkdir('in put')
    made = {}
    for k, s in enumerate(case['src'], 1):
        n, sh = s['n'], case['shared']
        t = np.array([k + 2 * i if not sh else 1000 * i if i == n else 0 if i == 1
                      else 10 * i + k % 7 for i in range(1, n + 1)], dtype=case['ttype'])
        x = np.array([[j if sh and i in (1, n) else 1000 * k + 10 * i + j
                       for j in range(1, s['d'] + 1)] for i in range(1, n + 1)], dtype=case['xtype']).reshape(s['n'], s['d'])
        made[s['name']] = (t, x)
        if case['loader'] == 'npz':
            np.savez(os.path.join('in put', s['name'] + '.npz'), time=t, features=x)
        else:
            with open(os.path.join('in put', s['name'] + '.txt'), 'w') as f:
                for a, r in zip(t, x):
                    f.write(' '.join(repr(float(v)) for v in [a] + list(r)) + '\n')
    names = sorted(os.listdir('in put'))
    raw = [project.rawdigest(os.path.join('in put', n)) for n in names]

    def text(path):
        m = np.loadtxt(path, ndmin=2)
        return {'time': m[:, 0], 'features': m[:, 1:]}
    kw = {} if case['loader'] == 'npz' else {'load': text}
    out = 'out.h5f'
    try:
        if case['how'] == 'convert':
            any2.convert('in put', out, **kw)
        elif case['how'] == 'default':
            out = 'features.features'
            any2.convert('in put', **kw)
        elif case['how'] == 'cli':
            ok, so, se = project.cli(os.path.join('misc', 'any2h5features'), ['in put', out])
            if not ok:
                return [{'ev': 'Conv', 'outcome': 'cli'}]
        else:
            order = list(names)
            np.random.RandomState(case['rseed']).shuffle(order)
            cut = case['cut']
            for part in ([order[:cut], order[cut:]] if cut else [order]):
                any2.any_to_h5features('in put', part, out, '/features/',
                                       batch_size=case['batch'], **kw)
    except Exception as e:
        return [{'ev': 'Conv', 'outcome': type(e).__name__}]
    ev = {'ev': 'Conv', 'outcome': 'ok', 'items': []}
    try:
        with h5py.File(out, 'r') as h:
            g = h['features']
            ids = [i.decode('utf8') if isinstance(i, bytes) else str(i) for i in g['items'][...]]
            index = g['index'][...]
            feats, times = g['features'][...], g['labels'][...]
        lo = 0
        for n, hi in zip(ids, index):
            ev['items'].append({
                'name': n, 'times': [integer(v) for v in times[lo:hi + 1].reshape(-1)],
                'feats': [[integer(v) for v in r] for r in feats[lo:hi + 1]]})
            lo = int(hi) + 1
    except Exception as e:
        return [{'ev': 'Conv', 'outcome': 'unreadable'}]
    ev['inputs'] = int(raw == [project.rawdigest(os.path.join('in put', n)) for n in names])
    return [ev]


def verify(case, d):
    import h5features
    import ABXpy.verify
    h5features.write('x.h5f', 'features', case['stored'],
                     [np.arange(2.) for _ in case['stored']],
                     [np.ones((2, 2)) for _ in case['stored']])
    sep = case['sep']
    with open('x.item', 'w', encoding='utf8') as f:
        f.write(sep.join('#c1' if (i == 3 and h == '#') else h for i, h in enumerate(case['head'])))
        f.write('\n')
        for i, n in enumerate(case['named']):
            f.write(sep.join([n, str(i), str(i + 1), 'a', 'b'][:max(1, len(case['head']))]) + '\n')
            if case['blank'] and i % 2:
                f.write('\n' if case['blank'] == 1 else ' \t\n')
    raw = [project.rawdigest(f) for f in ('x.item', 'x.h5f')]
    ok, _, _ = project.api(lambda: ABXpy.verify.check('x.item', 'x.h5f', **case['kw']))
    ev = [{'ev': 'Verify', 'how': 'api', 'accepted': int(ok)}]
    if case['cli']:
        ok, _, _ = project.cli('verify', ['x.item', 'x.h5f'])
        ev.append({'ev': 'Verify', 'how': 'cli', 'accepted': int(ok)})
    same = int(raw == [project.rawdigest(f) for f in ('x.item', 'x.h5f')])
    for e in ev:
        e['inputs'] = same
    return ev
