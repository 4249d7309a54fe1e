"""Runs the ABX pipeline on a case and projects what it wrote."""
import os
import re
import warnings

import h5py
import numpy as np
import pandas

import smallbuf

EXTS = ('', 'A', 'B', 'X', '1', '2')
BIG = 10 ** 9


def err(e):
    return {'ev': 'Error', 'what': type(e).__name__}


def small(v):
    """an integer TLC can hold"""
    try:
        v = int(v)
    except (TypeError, ValueError, OverflowError):
        return -BIG
    return v if -BIG < v < 2 * BIG else -BIG


# ------------------------------------------------------------ labels

ODD = ['"x', "it's", '%s', '{0}', '\\n', '$HOME', 'a,b', 'a;b', u'a\u00a0b', '#c', '(', ')',
       '@', '*', '..', '-', '+', '=', '~', 'a:b', u'\u2003', u'e\u0301', u'\u00e9',
       u'\U0001f600', '|', '1e', '0x1', '?']


def label(style, v):
    """text of label v in a column"""
    if style == 'int':
        return str(v)
    if style == 'str':
        return 'l%d' % v
    if style == 'chr':
        return 'abcdefghijklmnopqrstuvwxyz'[v % 26] + ('' if v < 26 else str(v // 26))
    if style == 'uni':
        return u'\u00e9\u0283\u014b\u00f8\u03b8\u0292\u0254\u026a'[v % 8] + ('' if v < 8 else str(v // 8))
    if style == 'flt':
        return '%.2f' % (v + 0.25)
    if style == 'big':
        return str(1000003 * (v + 1))
    if style == 'neg':
        return str(-v)
    if style == 'mix':       # some look like numbers, some do not
        return str(v) if v % 2 else 'w%d' % v
    if style == 'len':       # labels which are prefixes of one another
        return 'a' * (v + 1)
    if style == 'bool':
        return 'True' if v else 'False'
    if style == 'slash':
        return 's%d/t' % v
    if style == 'case':      # a, A, b, B, ...
        t = 'abcdefghijklmnopqrstuvwxyz'[v // 2 % 26] + ('' if v < 52 else str(v // 52))
        return t.upper() if v % 2 else t
    if style == 'odd':
        return ODD[v % len(ODD)] + ('' if v < len(ODD) else str(v // len(ODD)))
    if style == 'long':
        return 'x' * 70 + str(v) + 'y' * (v % 3)
    if style == 'above':     # each label is the path above the next one
        return '/'.join(['a'] * (v + 1))
    if style == 'dot':
        return './l%d' % (v // 2) if v % 2 else 'l%d' % (v // 2)
    raise KeyError(style)


class Labels(object):
    def __init__(self, case):
        self.styles = case.get('styles') or ['int'] * len(case['items'][0])
        self.names = case.get('cols') or [
            'c%d' % (k + 1) for k in range(len(self.styles))]
        self.back = []
        for k, st in enumerate(self.styles):
            d = {}
            for row in case['items']:
                d[label(st, row[k])] = row[k]
            self.back.append(d)

        self.conv = [inferred(list(d)) for d in self.back]

    def typed(self, col, v):
        """literal of label v in the type of the column (col from 0)"""
        t = label(self.styles[col], v)
        try:
            return self.conv[col](t)
        except ValueError:
            return t

    def id(self, col, value):
        """label id of a value read back from the outputs (col from 0)"""
        if isinstance(value, bytes):
            value = value.decode('utf8')
        s = str(value)
        d = self.back[col]
        if s in d:
            return d[s]
        try:
            f = float(s)
        except ValueError:
            return -BIG
        for k, v in d.items():
            try:
                if float(k) == f:
                    return v
            except ValueError:
                pass
        return -BIG

    def var(self, name):
        """parse an extended column name"""
        if isinstance(name, bytes):
            name = name.decode('utf8')
        for k, n in enumerate(self.names):
            for e in EXTS:
                if name == (n + '_' + e if e else n):
                    return {'col': k + 1, 'ext': e}
        return {'col': 0, 'ext': name}

    def varname(self, v):
        n = self.names[v['col'] - 1]
        return n + '_' + v['ext'] if v['ext'] else n


def inferred(texts):
    """the type a column gets when it is read"""
    for conv in (int, float):
        try:
            [conv(t) for t in texts]
            return conv
        except ValueError:
            pass
    if set(texts) <= set(['True', 'False']):
        return lambda t: t == 'True'
    return str


def by_names(case, lab):
    """name of the by blocks in the files -> label ids"""
    if not case['by']:
        return {'0': []}
    res = {}
    conv = {c: inferred([label(lab.styles[c - 1], row[c - 1])
                         for row in case['items']]) for c in case['by']}
    for row in case['items']:
        key = [row[c - 1] for c in case['by']]
        vals = [conv[c](label(lab.styles[c - 1], row[c - 1]))
                for c in case['by']]
        res[str(vals[0]) if len(vals) == 1 else str(tuple(vals))] = key
    return res


def filter_text(f, lab, form=0, script=None):
    """source text of a filter, in the syntax of the tool"""
    names = [lab.varname(v) for v in f['vars']]
    cols = [v['col'] - 1 for v in f['vars']]
    op, args = f['op'], f['args']
    if op == 'col':
        return names[0]

    def lits(c):
        return '(%s)' % ''.join('%r, ' % lab.typed(c, a) for a in args)
    vs = ['v%d' % k for k in range(len(names))]
    src = (names[0] if len(names) == 1 else 'zip(%s)' % ', '.join(names))
    tgt = ', '.join(vs)
    if op in ('in', 'notin'):
        e = 'v0 %s %s' % ('in' if op == 'in' else 'not in', lits(cols[0]))
    elif op == 'true':
        e = 'True'
    elif op in ('eq', 'ne', 'lt'):
        e = '%s %s %s' % (vs[0], {'eq': '==', 'ne': '!=', 'lt': '<'}[op], vs[1])
    elif op == 'mod':
        e = '(%s) %% %d in (%s)' % (' + '.join(vs), args[0], ''.join(
            '%d, ' % a for a in args[1:]))
    else:
        raise KeyError(op)
    if form == 1:
        return 'list(map(lambda %s: %s, %s))' % (tgt, e, ', '.join(names))
    if form == 2:
        return 'import numpy\nnumpy.array([%s for %s in %s])' % (e, tgt, src)
    if form in (3, 4):
        t = 'kept = []\nfor %s in %s:\n    kept.append(int(%s))\nkept' % (tgt, src, e)
        if form == 3 or not script:
            return t
        with open(script, 'w', encoding='utf8') as h:
            h.write('# a filter\n' + t + '\n')
        return script
    return '[%s for %s in %s]' % (e, tgt, src)


def locations(case):
    """(file, onset, offset) of every item, all different"""
    n = len(case['items'])
    nf = case.get('nfiles', 3)
    return [('f%d' % (i % nf), float(i // nf), float(i // nf) + 0.5)
            for i in range(n)]


def write_items(case, lab, path):
    locs = case.get('locs') or locations(case)
    with open(path, 'w', encoding='utf8') as f:
        aux = case.get('aux', [])
        keep = [k for k in range(len(lab.names))
                if k + 1 not in [a['col'] for a in aux]]
        f.write('#file onset offset #%s\n' % ' '.join(lab.names[k] for k in keep))
        for (fi, on, off), row in zip(locs, case['items']):
            f.write('%s %s %s %s\n' % (fi, on, off, ' '.join(
                label(lab.styles[k], row[k]) for k in keep)))
    # the columns which refine the same one are in the same file
    for p in sorted(set(a['parent'] for a in aux)):
        kids = [p] + [a['col'] for a in aux if a['parent'] == p]
        rows = []
        for row in case['items']:
            t = ' '.join(label(lab.styles[k - 1], row[k - 1]) for k in kids)
            if t not in rows:
                rows.append(t)
        with open(os.path.splitext(path)[0] + '.' + lab.names[p - 1], 'w',
                  encoding='utf8') as f:
            f.write(' '.join(lab.names[k - 1] for k in kids) + '\n')
            f.write(''.join(r + '\n' for r in rows[::-1]))
    return {(str(a), float(b), float(c)): i + 1
            for i, (a, b, c) in enumerate(locs)}


def task_args(case, lab):
    """arguments of Task, in one of the forms it accepts"""
    def cols(c):
        l = [lab.names[k - 1] for k in c]
        form = case.get('form', 0)
        if not l:
            return None if form == 0 else []
        return l[0] if (len(l) == 1 and form == 0) else l
    ndef = case.get('ndef') or 2 + 2 * len(case['across'])
    regs = [lab.varname(v) for v in case['regs'][:len(case['regs']) - ndef]]
    ff = case.get('fform') or [0] * len(case['filters'])
    kw = {'filters': [filter_text(f, lab, ff[k], 'filter%d.py' % k)
                      for k, f in enumerate(case['filters'])],
          'regressors': regs}
    if case.get('verbose'):
        kw['verbose'] = True
    if not kw['filters'] and case.get('form', 0) == 0:
        kw['filters'] = None
    if not regs and case.get('form', 0) == 0:
        kw['regressors'] = None
    return (lab.names[case['on'] - 1], cols(case['across']),
            cols(case['by'])), kw


# ------------------------------------------------------- projections

def read_task(path, case, lab, where):
    names = by_names(case, lab)
    ev = {'ev': 'Task', 'blocks': [], 'regvars': []}
    with h5py.File(path, 'r') as h:
        bys = [b.decode('utf8') if isinstance(b, bytes) else str(b)
               for b in h['bys'][...]]
        index = h['triplets/by_index'][...]
        data = h['triplets/data'][...]
        up = h['unique_pairs/data'][...].reshape(-1)
        ev['total'] = int(data.shape[0])
        ev['ptotal'] = int(up.shape[0])
        if len(index) != len(bys):
            ev['total'] = -1
        attrs = {b: [int(v) for v in h['unique_pairs'].attrs[b]] for b in bys}
        regs = {}
        for b in bys:
            g = h['regressors'][b]
            dsets = [d.decode('utf8') if isinstance(d, bytes) else str(d)
                     for d in g['indexed_datasets'][...]]
            vs = [lab.var(d) for d in dsets]
            tables = []
            for d, v in zip(dsets, vs):
                tables.append([lab.id(v['col'] - 1, x)
                               for x in g['indexes'][d][...]])
            rows = g['indexed_data'][...] if 'indexed_data' in g else []
            regs[b] = vs, [[t[c] if 0 <= c < len(t) else -BIG
                            for t, c in zip(tables, r)]
                           for r in np.asarray(rows).tolist()]
    for n, b in enumerate(bys):
        store = pandas.HDFStore(path, 'r')
        try:
            db = store['feat_dbs/' + b]
        finally:
            store.close()
        items = [where.get((str(f), float(on), float(off)), 0) for f, on, off
                 in zip(db['file'], db['onset'], db['offset'])]
        lo, hi = (int(index[n][0]), int(index[n][1])) if n < len(index) else (-1, -1)
        base, plo, phi = attrs[b]
        if n == 0:
            ev['regvars'] = regs[b][0]
        rr = regs[b][1]
        if regs[b][0] != ev['regvars']:
            rr = []
        ev['blocks'].append({
            'key': names.get(b, [-BIG]), 'items': items, 'lo': lo, 'hi': hi,
            'rows': [[small(v) for v in r] for r in data[lo:hi].tolist()],
            'base': small(base), 'plo': plo, 'phi': phi,
            'codes': [[small(v % base), small(v // base)] if base > 40000 else small(v)
                      for v in up[plo:phi].tolist()],
            'regs': rr})
    return ev


def ranks(values):
    """dense ranks, -1 for NaN"""
    v = np.asarray(values, dtype=float).reshape(-1)
    ok = ~np.isnan(v)
    u = np.unique(v[ok])
    r = np.full(v.shape, -1, dtype=int)
    r[ok] = np.searchsorted(u, v[ok])
    return [int(x) for x in r]


def read_csv(path, case, lab):
    names = by_names(case, lab)
    with open(path, encoding='utf8') as f:
        lines = f.read().split('\n')
    head = lines[0].split('\t')
    ev = {'ev': 'Csv', 'rows': [], 'regvars': [lab.var(h) for h in head[:-3]]}
    if head[-3:] != ['by', 'score', 'n'] or lines[-1] != '':
        ev['regvars'] = [{'col': 0, 'ext': '?'}]
    for line in lines[1:-1]:
        p = line.split('\t')
        n = int(p[-1])
        s2 = float(p[-2]) * 2 * n
        r = int(round(s2)) if s2 == s2 else -BIG
        if abs(s2 - r) > 1e-6:
            r = -BIG
        ev['rows'].append({
            'key': names.get(p[-3], [-BIG]), 'n': n, 's2': r,
            'regs': [lab.id(v['col'] - 1, x) if v['col'] else -BIG
                     for v, x in zip(ev['regvars'], p[:-3])]})
    return ev


def read_stats(task, case, lab, levels):
    names = by_names(case, lab)
    ev = {'ev': 'Stats', 'nb': small(task.stats['nb_triplets']),
          'nby': small(task.stats['nb_by_levels']),
          'nblocks': small(task.stats['nb_blocks']), 'by': []}
    for by, s in task.by_stats.items():
        ev['by'].append({
            'key': names.get(str(by), [-BIG]), 'nb': small(s['nb_triplets']),
            'items': small(s['nb_items']), 'on': small(s['nb_on_levels']),
            'across': small(s['nb_across_levels']),
            'onacross': small(s['nb_on_across_levels']),
            'abpairs': small(s['nb_across_pairs']),
            'axpairs': small(s['nb_on_pairs']),
            'blocks': [small(v) for v in s['block_sizes'].values()],
            'levels': small(s['nb_levels']) if 'nb_levels' in s else -1})
    return ev


def read_printed(path, case, lab):
    """the statistics as they are printed (what is not printed is -1)"""
    names = by_names(case, lab)
    with open(path, encoding='utf8') as f:
        text = f.read()
    glob, rest = text.split('###### by blocks stats ######')

    def num(t, k):
        m = re.search(r"\b%s'?: (-?\d+)" % k, t)
        return small(m.group(1)) if m else -1
    ev = {'ev': 'Stats', 'nb': num(glob, 'nb_triplets'), 'nby': num(glob, 'nb_by_levels'),
          'nblocks': num(glob, 'nb_blocks'), 'by': []}
    for part in re.split(r'^### by level: ', rest, flags=re.M)[1:]:
        by, body = part.split(' ###\n', 1)
        ev['by'].append({
            'key': names.get(by, [-BIG]), 'nb': num(body, 'nb_triplets'), 'items': -1,
            'on': num(body, 'nb_on_levels'), 'across': num(body, 'nb_across_levels'),
            'onacross': num(body, 'nb_on_across_levels'),
            'abpairs': num(body, 'nb_across_pairs'), 'axpairs': num(body, 'nb_on_pairs'),
            'blocks': [], 'levels': num(body, 'nb_levels')})
    return ev


# ------------------------------------------------------------ the run

def fake_distances(n, kind, rng):
    if kind == 'ties':
        return rng.randint(0, 2, n).astype(float)
    if kind == 'const':
        return np.zeros(n)
    if kind == 'mixed':
        pool = np.array([0., -0., 1., 1e-300, np.inf, -np.inf, np.nan, 2.5, 1e300])
        return pool[rng.randint(0, len(pool), n)]
    if kind == 'close':      # equal up to the last bits
        return 1 + rng.randint(0, 4, n) * np.finfo(float).eps
    return rng.rand(n)


def draws(task, case, lab, where):
    """how many times each triplet is drawn, over many seeds"""
    n = {}
    for k in range(case['draws']):
        task.generate_triplets('d.abx', threshold=case['thr'], seed=k)
        for b in read_task('d.abx', case, lab, where)['blocks']:
            for r in b['rows']:
                t = tuple(b['items'][i] for i in r)
                n[t] = n.get(t, 0) + 1
        os.remove('d.abx')
    if case.get('byrole'):
        c = [{}, {}, {}]
        for t, m in n.items():
            for k in range(3):
                c[k][t[k]] = c[k].get(t[k], 0) + m
        return [{'ev': 'Roles', 'runs': case['draws'] * case['thr'], 'drawn': [
            [{'i': i, 'n': m} for i, m in sorted(r.items())] for r in c]}]
    return [{'ev': 'Draws', 'runs': case['draws'], 'drawn': [
        {'t': list(t), 'n': m} for t, m in sorted(n.items())]}]


def run(case, d):
    with smallbuf.small(case.get('smallbuf', 0)):
        return _run(case, d)


def _run(case, d):
    import ABXpy.task
    import ABXpy.score
    import ABXpy.analyze
    ev = []
    lab = Labels(case)
    stop = case.get('stop', 'task')
    where = write_items(case, lab, 'data.item')
    args, kw = task_args(case, lab)
    rng = np.random.RandomState(case.get('rseed', 0))
    try:
        task = ABXpy.task.Task('data.item', *args, **kw)
        if 'stats' in case['props']:
            noabx = not any(v['ext'] for f in case['filters'] for v in f['vars'])
            if noabx:
                task.compute_nb_levels()
            ev.append(read_stats(task, case, lab, noabx))
            task.print_stats('stats.txt')
            ev.append(read_printed('stats.txt', case, lab))
            if stop == 'stats':
                return ev
        gk = {}
        if case['thr']:
            gk['threshold'] = case['thr']
        if case.get('draws'):
            return ev + draws(task, case, lab, where)
        if 'gseed' in case:
            gk['seed'] = case['gseed']
        if case.get('tmpdir'):
            os.mkdir('tmpdir')
            gk['tmpdir'] = os.path.abspath('tmpdir')
        task.generate_triplets('data.abx', **gk)
    except Exception as e:
        return ev + [err(e)]
    if not os.path.exists('data.abx'):
        return ev + [{'ev': 'Empty'}]
    try:
        tk = read_task('data.abx', case, lab, where)
    except Exception as e:
        return ev + [{'ev': 'Error', 'what': 'unreadable task file'}]
    ev.append(tk)
    if stop == 'task':
        return ev
    # distances: arbitrary values, in a file with the documented layout
    dist = fake_distances(tk['ptotal'], case.get('dist', 'rand'), rng)
    with h5py.File('data.distance', 'w') as h:
        h.create_group('distances').create_dataset(
            'data', data=dist.reshape(-1, 1))
    ev.append({'ev': 'Dist', 'd': ranks(dist)})
    try:
        if case.get('fakescore'):
            sc = rng.randint(-1, 2, (tk['total'], 1)).astype(np.int8)
            if case['fakescore'] in ('1', '-1', '0'):
                sc[:] = int(case['fakescore'])
            with h5py.File('data.score', 'w') as h:
                h.create_dataset('scores', data=sc)
        else:
            ABXpy.score.score('data.abx', 'data.distance', 'data.score')
        with h5py.File('data.score', 'r') as h:
            ev.append({'ev': 'Score',
                       's': [small(v) for v in h['scores'][...].reshape(-1)]})
        if stop == 'score':
            return ev
        ABXpy.analyze.analyze('data.abx', 'data.score', 'data.csv')
        ev.append(read_csv('data.csv', case, lab))
    except Exception as e:
        return ev + [err(e)]
    return ev
