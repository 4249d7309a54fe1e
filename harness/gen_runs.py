"""Uses of the generators of test data and of the comparisons, recorded."""
import os
import re

import h5py
import numpy as np


def run(case, d):
    return {'items': items, 'features': features, 'both': both,
            'compare': compare}[case['kind']](case)


def number(x):
    """number of a source or item: its digits"""
    m = re.match(r'^\D*(\d+)$', x)
    return int(m.group(1)) if m else -1


def parse(name):
    with open(name) as f:
        lines = [x.rstrip('\n').split() for x in f if x.strip()]
    return lines[0], lines[1:]


def items(case):
    from ABXpy.misc import items as it
    e = {'ev': 'Items', 'outcome': 'ok', 'header': [], 'signs': [], 'rows': [],
         'sources': []}
    try:
        getattr(it, case['fun'])(case['base'], case['n'], case['repeats'],
                                 name='x.item')
    except Exception as x:
        return [dict(e, outcome=type(x).__name__)]
    head, lines = parse('x.item')
    e['header'] = head
    e['signs'] = [int(h.startswith('#')) for h in head] + [0] * 4
    levels = [sorted(set(r[k] for r in lines if len(r) > k))
              for k in range(len(head))]
    for r in lines:
        e['sources'].append(number(r[0]) if len(r) == len(head) else -1)
        e['rows'].append([levels[k].index(r[k]) for k in range(4, len(r))])
    return [e]


def read_features(name):
    import h5features
    res = {'sources': [], 'frames': [], 'dims': [], 'times': [], 'increasing': 1}
    with h5py.File(name, 'r') as f:
        g = f['features']
        names = [x.decode() if isinstance(x, bytes) else x
                 for x in g['items' if 'items' in g else 'files'][...]]
    t, x = h5features.read(name, 'features')
    for n in names:
        res['sources'].append(number(n))
        a, b = np.asarray(x[n]), np.asarray(t[n])
        res['frames'].append(a.shape[0])
        res['dims'].append(a.shape[1] if a.ndim == 2 else -1)
        res['times'].append(len(b))
        if len(b) > 1 and not (np.diff(b) > 0).all():
            res['increasing'] = 0
    return res


def features(case):
    from ABXpy.misc import items as it
    np.random.seed(case['seed'])
    e = {'ev': 'Features', 'outcome': 'ok'}
    try:
        for n, k, m in case['before'] + [[case['files'], case['feat'], case['frames']]]:
            it.generate_features(n, k, m, name='x.features')
    except Exception as x:
        e['outcome'] = type(x).__name__
        return [e]
    e.update(read_features('x.features'))
    return [e]


def both(case):
    from ABXpy.misc import items as it
    np.random.seed(case['seed'])
    e = {'ev': 'Both', 'outcome': 'ok', 'missing': 0, 'items': 0}
    try:
        it.generate_db_and_feat(case['base'], case['n'], case['repeats'], 'x.item',
                                case['feat'], case['frames'], 'x.features')
    except Exception as x:
        e['outcome'] = type(x).__name__
        return [e]
    _, lines = parse('x.item')
    e['items'] = len(lines)
    with h5py.File('x.features', 'r') as f:
        g = f['features']
        names = set(x.decode() if isinstance(x, bytes) else x
                    for x in g['items' if 'items' in g else 'files'][...])
    e['missing'] = len([r for r in lines if r[0] not in names])
    return [e]


def compare(case):
    from ABXpy.misc import items as it
    how = case['how']
    for k, name in enumerate(['a', 'b']):
        v = case[name]
        if how == 'csv':
            spell = case['spell']
            with open(name, 'w') as f:
                f.write(case['sep'].join('c%d' % c for c in v['cols']) + '\n')
                for r in v['rows']:
                    f.write(case['sep'].join(spell[x] for x in r) + '\n')
        elif how == 'h5':
            with h5py.File(name, 'w') as f:
                for n, x in v:
                    f.create_dataset('g/' + n, data=np.array(x, dtype=case['dtype']))
        else:
            with open(name, 'wb') as f:
                f.write(bytes(v))
        # no two files with the same date (filecmp goes by it)
        t = 10 ** 9 + 2 * int(re.sub(r'\D', '', case['id'])) + k
        os.utime(name, (t, t))
    e = {'ev': 'Compare', 'outcome': 'ok', 'answer': -1}
    try:
        if how == 'csv':
            x = it.csv_cmp('a', 'b') if case['sep'] == '\t' else it.csv_cmp('a', 'b', case['sep'])
        elif how == 'h5':
            x = it.h5cmp('a', 'b')
        else:
            x = it.cmp('a', 'b')
        e['answer'] = int(bool(x))
    except Exception as x:
        e['outcome'] = type(x).__name__
    return [e]
