"""C01-C04, C07-C10: the task, score and analyze stages."""
import json

import gen
import lib

ALLMODES = (1, 2, 3, 4, 5, 6)
INVS = ('Sound Complete NoDuplicate Thresholded PairsExact ScoreExact '
        'CsvExact NotStuck')

ASSUME = [
    'the h5py/pandas readers used to project the files are right',
    'the semantics in spec/AbxSem.tla is what the documentation promises',
    'beyond the exhaustive small scope, the cases are sampled by VERIF_SEED']


def tasks_cfg(n, labels, modes=ALLMODES, filters=(0,), thr=(0,)):
    def s(x):
        return '{%s}' % ', '.join(str(v) for v in x)
    return ('CONSTANTS MaxItems = %d\n MaxLabel = %d\n Modes = %s\n'
            ' FilterIds = %s\n Thresholds = %s\n'
            % (n, labels, s(modes), s(filters), s(thr)))


def design(ctx, n, labels=1, modes=ALLMODES, filters=(0,), thr=(0,),
           dists=(2,)):
    lib.model_check(ctx, 'AbxPipeline', 'SPECIFICATION Spec\n'
                    + tasks_cfg(n, labels, modes, filters, thr)
                    + ' DistIds = {%s}\n' % ', '.join(map(str, dists))
                    + 'INVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % INVS)


def exported(ctx, n, labels=1, most=None, empty=40, filters=False, thr=(0,)):
    """tasks enumerated by TLC (all of them, or a sample)"""
    e = lib.export(ctx, 'AbxExport', tasks_cfg(n, labels))
    tasks = e['tasks']
    total = len(tasks)
    if filters:
        res = []
        for t in tasks:
            for f in e['filters']:
                if t['mode'] in f['modes']:
                    res.append((t, f))
        total = len(res)
        if most is not None and most < len(res):
            res = ctx.rng.sample(res, most)
        tasks = [dict(t, filters=f['filters'], fid=f['fid']) for t, f in res]
    else:
        if most is not None and most < len(tasks):
            tasks = ctx.rng.sample(tasks, most)
        tasks += ctx.rng.sample(e['empty'], min(empty, len(e['empty'])))
    tasks = [dict(t) for t in tasks]
    for i, t in enumerate(tasks):
        t['id'] = 'x%d_%d' % (n, i)
        if len(thr) > 1 or thr[0]:
            t['thr'] = thr[i % len(thr)]
    ctx.notes.setdefault('exported_tasks', []).append(
        {'items': n, 'labels': labels + 1, 'family_size': total,
         'run': len(tasks), 'filters': bool(filters)})
    return tasks


def validate(ctx, cases, props, stop, dist=None, batch=2500, timeout=300):
    kinds = ['rand', 'ties', 'mixed', 'close', 'const']
    for i, c in enumerate(cases):
        c.setdefault('props', props)
        c.setdefault('stop', stop)
        c.setdefault('rseed', i)
        c.setdefault('gseed', (i * 7 + ctx.seed) % 1000)
        if len(c['items']) <= 24:
            c.setdefault('smallbuf', [0, 0, 0, 2, 3, 0, 0, 1, 5][i % 9])
        if stop in ('score', 'csv'):
            c.setdefault('dist', dist or kinds[i % 5])
    evs = lib.run_cases(ctx, 'pipeline:run', cases, timeout=timeout)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.log('ran %d cases of the real code' % len(cases))
    ctx.notes['cases_without_triplet'] = ctx.notes.get(
        'cases_without_triplet', 0) + sum(
            any(x['ev'] == 'Empty' for x in e) for e in evs)
    ctx.notes['triplets_judged'] = ctx.notes.get('triplets_judged', 0) + sum(
        x.get('total', 0) for e in evs for x in e if x['ev'] == 'Task')
    for c in cases[:2] + cases[-1:]:
        s = json.dumps(c)
        ctx.samples.append(c if len(s) < 3000 else s[:600] + '...')
    small = [c for c in cases if len(c['items']) <= 40]
    big = [c for c in cases if len(c['items']) > 40]
    bad = lib.judge(ctx, 'AbxTrace', small, batch=batch)
    for c in big:
        bad.update(lib.judge(ctx, 'AbxTrace', [c]))
    ctx.log('judged')
    lib.record_bad(ctx, bad, cases)


def ids(cases, prefix):
    for i, c in enumerate(cases):
        c['id'] = '%s%d' % (prefix, i)
    return cases


def rand(ctx, n, prefix='r', **kw):
    out = []
    for i in range(n):
        k = {a: (b(ctx.rng) if callable(b) else b) for a, b in kw.items()}
        out.append(gen.random_task(ctx.rng, **k))
    return ids(out, prefix)


def paths():
    """by labels which are paths: see known_findings.json"""
    out = []
    for style in ('above', 'dot', 'slash'):
        items = [[x, y, z] for z in (0, 1) for x in (0, 1) for y in (0, 1)]
        c = gen.make(items, 1, [2], [3])
        c['styles'] = ['str', 'str', style]
        c['id'] = 'by_' + style
        out.append(c)
    return out


def big(ctx, names):
    made = {'n48': lambda: gen.no_across(48), 'n56': lambda: gen.no_across(56),
            'n90by3': lambda: gen.no_across(90, 2, 3),
            'n120by2': lambda: gen.no_across(72, 3, 2),
            'n66': lambda: gen.no_across(66), 'n82': lambda: gen.no_across(82),
            'p115': lambda: gen.product(115),
            'p60': lambda: gen.product(60, 3),
            's300': lambda: gen.sparse(300),
            's150': lambda: gen.sparse(150, extra=120)}
    out = []
    for n in names:
        c = made[n]()
        c['id'] = n
        out.append(c)
    return out


def widths(ctx, n=4, wide=0):
    """sizes of blocks around the widths of the integer types"""
    out = []
    for k, s in enumerate(ctx.rng.sample(gen.WIDTH, ctx.pick(min(n, len(gen.WIDTH)), len(gen.WIDTH)))
                          + ctx.rng.sample(gen.WIDE, ctx.pick(wide, len(gen.WIDE)))):
        c = gen.blocks(*s)
        c['id'] = 'w%d_%d_%d' % s
        out.append(c)
    return out


SHAPES = {
    'by40': lambda: gen.many_by_across(40), 'by300': lambda: gen.many_by_across(300),
    'by90': lambda: gen.many_by_across(90, 1), 'by40x16': lambda: gen.many_by(40, 17),
    'by130': lambda: gen.many_by(130, 4), 'h130': lambda: gen.high(130),
    'h300': lambda: gen.high(300), 'h150': lambda: gen.high(150, 120),
    'l15': lambda: gen.last(15), 'l16': lambda: gen.last(16), 'l17': lambda: gen.last(17),
    'l18': lambda: gen.last(18), 'l255': lambda: gen.last(255), 'l256': lambda: gen.last(256),
    'l257': lambda: gen.last(257), 'l258': lambda: gen.last(258), 'l182': lambda: gen.last(182),
    'k300': lambda: gen.kept(300, 280, 12), 'k300b': lambda: gen.kept(300, 3, 8, 6),
    'k140': lambda: gen.kept(140, 122, 12), 'k270': lambda: gen.kept(270, 250, 12),
    'k33000': lambda: gen.kept(33000, 32900, 8, 6), 'k66000': lambda: gen.kept(66000, 65800, 9, 5),
    'i40': lambda: gen.ids(40, 2), 'i60': lambda: gen.ids(60, 3),
    'j200': lambda: gen.sparse_ids(200, 4), 'j80': lambda: gen.sparse_ids(80, 4),
    'j30': lambda: gen.sparse_ids(30, 6), 'j100': lambda: gen.sparse_ids(100, 6),
    'u1': lambda: gen.uneven(4, 27), 'u2': lambda: gen.uneven(27, 4),
    'u3': lambda: gen.uneven(4, 300), 'u4': lambda: gen.uneven(300, 4),
    'u5': lambda: gen.uneven(4, 20, 300, 5, 17),
    'q3': lambda: gen.joined(3), 'q4': lambda: gen.joined(4), 'q334': lambda: gen.joined(3, 3, 4),
    'i128': lambda: gen.ids(128, 5), 'i24': lambda: gen.ids(24, 8)}


def shapes(ctx, *names, **kw):
    """tasks with many by values, many labels, sparse blocks, wide regressors"""
    return [dict(SHAPES[n](), id=n + kw.get('suffix', ''), **kw.get('extra', {})) for n in names]


# ------------------------------------------------------------------ checks

def C01(ctx):
    """every triplet of the definition, only those, once"""
    design(ctx, *ctx.pick((4,), (5,)))
    cases = exported(ctx, 4, most=ctx.pick(1400, None))
    cases += exported(ctx, 5, most=ctx.pick(500, None), empty=ctx.pick(20, 500))
    if ctx.thorough:
        cases += [dict(c, id='l' + c['id']) for c in exported(ctx, 4, 2)]
    cases += rand(ctx, ctx.pick(500, 6000), nmax=ctx.pick(16, 22),
                  nlab=(2, 3, 4))
    cases += big(ctx, ctx.pick(['n48', 's300', 'n120by2'],
                               ['n48', 'n56', 'n90by3', 'n120by2', 'p115',
                                's300', 's150']))
    cases += widths(ctx, 14, 1) + paths()
    cases += shapes(ctx, 'u1', 'u3', 'u5', 'q3', 'by40', 'by90', 'by130', 'by40x16', 'h300', 'l16', 'l17', 'l257',
                    'k300', 'k33000', 'k66000', *ctx.pick([], ['by300', 'h130', 'h150', 'l15', 'l18', 'l255',
                                           'l256', 'l258', 'k300b']))
    validate(ctx, cases, ['exact'], 'task')
    return ASSUME


def C02(ctx):
    """filters keep exactly the triplets which satisfy them"""
    design(ctx, 3, 1, ALLMODES, range(19)) if not ctx.thorough else \
        design(ctx, 4, 1, ALLMODES, range(19))
    cases = exported(ctx, 4, most=ctx.pick(1300, 20000), filters=True)
    cases += rand(ctx, ctx.pick(900, 8000), filters=lambda r: r.choice([1, 1, 2, 3]),
                  nmax=ctx.pick(14, 20), nlab=(2, 3))
    cases += rand(ctx, ctx.pick(300, 4000), 'ra', filters=lambda r: r.choice([1, 1, 2, 3]),
                  nmax=ctx.pick(14, 20), nlab=(2, 3), aux=lambda r: r.choice([1, 2, 3]))
    cases += shapes(ctx, 'k300', 'k300b', 'k140', 'k270', 'k33000')
    validate(ctx, cases, ['exact'], 'task')
    return ASSUME


def C03(ctx):
    """statistics announced before the generation"""
    design(ctx, *ctx.pick((4,), (5,)))
    cases = exported(ctx, 4, most=ctx.pick(500, None))
    cases += [dict(c, id='f' + c['id']) for c in
              exported(ctx, 4, most=ctx.pick(500, 8000), filters=True)]
    cases += rand(ctx, ctx.pick(500, 5000), nlab=(2, 3), nmax=14,
                  filters=lambda r: r.choice([0, 0, 1, 2]))
    cases += big(ctx, ['n48', 'n90by3'])
    cases += shapes(ctx, 'u3', 'u5', 'by40', 'by130', 'by40x16', 'k300', 'k33000', 'h300', 'l257')
    validate(ctx, cases, ['stats'], 'stats')
    return ASSUME


def C04(ctx):
    """pairs: exactly the needed ones"""
    design(ctx, *ctx.pick((4,), (5,)))
    cases = exported(ctx, 4, most=ctx.pick(700, None))
    cases += rand(ctx, ctx.pick(500, 5000), nmax=ctx.pick(16, 22), nlab=(2, 3, 4),
                  filters=lambda r: r.choice([0, 0, 1]))
    cases += rand(ctx, ctx.pick(150, 1000), 'rt', nmax=12, thr=2, nlab=(2, 3))
    cases += big(ctx, ctx.pick(['n48', 's300', 's150', 'n120by2'],
                               ['n48', 'n56', 'n90by3', 'p115', 's300', 's150']))
    cases += widths(ctx, 4)
    cases += shapes(ctx, 'u1', 'u2', 'u3', 'u4', 'u5', 'q3', 'q4', 'q334', 
                    'by40', 'by130', 'l15', 'l16', 'l17', 'l18', 'l182', 'l255', 'l256',
                    'l257', 'l258', 'k300', 'k300b', 'k33000', 'k66000', *ctx.pick([], ['by40x16', 'by300', 'h300']))
    validate(ctx, cases, ['pairs'], 'task')
    return ASSUME


def C07(ctx):
    """score of a triplet = sign of d(B,X) - d(A,X)"""
    design(ctx, 4, 1, ALLMODES, (0,), (0,), (0, 1, 2, 3)) if ctx.thorough else \
        design(ctx, 4, 1, (1, 2, 4), (0,), (0,), (1, 3))
    cases = exported(ctx, 4, most=ctx.pick(700, None))
    cases += rand(ctx, ctx.pick(500, 5000), nmax=ctx.pick(14, 20), nlab=(2, 3),
                  filters=lambda r: r.choice([0, 0, 0, 1]))
    for i in range(ctx.pick(1, 3)):
        for c in big(ctx, ctx.pick(['n48', 'n120by2', 's300'],
                                   ['n48', 'n56', 'n90by3', 'p115', 's300'])):
            cases.append(dict(c, id='%s_%d' % (c['id'], i)))
    cases += widths(ctx, 4)
    cases += shapes(ctx, 'u1', 'u2', 'u3', 'u4', 'u5', 'q3', 'q4', 'q334', 
                    'by40', 'by130', 'by90', 'l16', 'l17', 'l257', 'k300', 'k33000', 'k66000',
                    *ctx.pick([], ['by40x16', 'by300', 'h300', 'l256', 'l258']))
    validate(ctx, cases, ['score'], 'score')
    return ASSUME


def C08(ctx):
    """one line per by value and regressor combination, exact mean and count"""
    design(ctx, 4, 1, ALLMODES, (0,), (0,), (0, 1, 2, 3)) if ctx.thorough else \
        design(ctx, 4, 1, (1, 2, 4), (0,), (0,), (1, 3))
    cases = exported(ctx, 4, most=ctx.pick(600, None))
    cases += rand(ctx, ctx.pick(600, 5000), nmax=ctx.pick(14, 20), nlab=(2, 3),
                  regs=lambda r: r.choice([0, 0, 1, 2, 3]))
    for i, c in enumerate(cases):
        c['fakescore'] = i % 3 != 0
        if i % 11 == 0 and c.get('styles') and not c['filters']:
            c['styles'] = ['slash' if r == 'by' else s
                           for r, s in zip(c['role'], c['styles'])]
    for c in big(ctx, ctx.pick(['n48', 'n120by2'], ['n48', 'n56', 'n90by3', 'n120by2'])):
        cases += [dict(c, fakescore=True)]
    # sums beyond the range of 16 bits
    for c in big(ctx, ctx.pick(['n66'], ['n66', 'n82'])):
        cases += [dict(c, fakescore=v, id=c['id'] + '_' + v) for v in ctx.pick(('1',), ('1', '-1'))]
    for v in ('1', '-1', '0'):
        for c in widths(ctx, 2):
            cases += [dict(c, fakescore=v, id=c['id'] + '_' + v)]
        cases += shapes(ctx, 'by40', 'h300', 'h130', 'i40', 'i24', suffix='_' + v,
                        extra={'fakescore': v})
    cases += shapes(ctx, 'u1', 'u3', 'u4', 'u5', 'q3', 'by40', 'by90', 'h300', 'h150', 'i40', 'i60', 'i24', 'j200', 'j80', 'j30', 'j100',
                    *ctx.pick([], ['by300', 'by40x16', 'i128']), extra={'fakescore': True})
    validate(ctx, cases, ['csv'], 'csv')
    return ASSUME


def C09(ctx):
    """regressor values written for a triplet are those of its items"""
    design(ctx, *ctx.pick((4,), (5,)))
    cases = exported(ctx, 4, most=ctx.pick(400, None))
    cases += rand(ctx, ctx.pick(800, 6000), nmax=ctx.pick(14, 20), nlab=(2, 3, 4),
                  regs=lambda r: r.choice([1, 2, 3, 5]))
    cases += rand(ctx, ctx.pick(150, 1000), 'rf', nmax=14, nlab=(2, 3), filters=1,
                  regs=3)
    cases += rand(ctx, ctx.pick(200, 1000), 'rt', nmax=12, nlab=(2, 3),
                  thr=lambda r: r.choice([1, 2, 3]), regs=3)
    cases += big(ctx, ctx.pick(['n48', 'n120by2'],
                               ['n48', 'n56', 'n90by3', 'p115', 's300']))
    cases += widths(ctx, 4)
    cases += shapes(ctx, 'u1', 'u3', 'u5', 'q3', 'by40', 'by130', 'h300', 'h150', 'k300', 'k33000', 'l257', 'i40', 'i60', 'i24', 'j200', 'j100',
                    *ctx.pick([], ['by40x16', 'by300', 'h130', 'i128']))
    validate(ctx, cases, ['regs'], 'task')
    return ASSUME


def C10(ctx):
    """threshold: min(threshold, size) triplets of every cell, no repetition"""
    design(ctx, *ctx.pick((4, 1, (1, 2, 3, 4), (0,), (1,)),
                          (4, 1, ALLMODES, (0,), (1, 2, 3))))
    cases = exported(ctx, 4, most=ctx.pick(600, None), thr=(1, 2, 3))
    cases += [dict(c, id='y' + c['id']) for c in
              exported(ctx, 5, most=ctx.pick(500, 8000), thr=(1, 2, 3, 1))]
    cases += rand(ctx, ctx.pick(500, 5000), nmax=ctx.pick(14, 20), nlab=(2, 2, 3),
                  thr=lambda r: r.choice([1, 1, 2, 3, 5, 20]),
                  regs=lambda r: r.choice([0, 0, 1, 2]),
                  filters=lambda r: r.choice([0, 0, 0, 1]))
    for c in big(ctx, ctx.pick(['n48'], ['n48', 'n56', 'n90by3', 'n120by2'])):
        cases += [dict(c, thr=t, id='%s_t%d' % (c['id'], t)) for t in ctx.pick((7,), (1, 7, 200, 550))]
    for c in widths(ctx, 3):
        cases += [dict(c, thr=t, id='%s_t%d' % (c['id'], t)) for t in (3, 100)]
    for t in (1, 2):
        cases += shapes(ctx, 'by40', 'by130', 'i40', 'i24', 'j200', 'j80', 'j30', 'j100', *ctx.pick([], ['i60']),
                        suffix='_t%d' % t, extra={'thr': t})
    cases += shapes(ctx, 'h300', 'l257', 'k300', 'k66000', suffix='_t1', extra={'thr': 1})
    # which triplets are drawn, over many seeds
    drawn = []
    for c, t in ([(gen.blocks(3, 2, 2), 4), (gen.blocks(2, 3, 3), 5), (gen.no_across(8), 3),
                  (gen.blocks(3, 3, 1), 3), (gen.many_by(3, 7), 3), (gen.blocks(4, 4, 2), 8)]
                 + ctx.pick([], [(gen.blocks(5, 4, 2), 9), (gen.product(3), 1), (gen.no_across(9), 4)])):
        drawn.append(dict(c, thr=t, draws=ctx.pick(120, 400), id='d%d' % len(drawn)))
    # one cell, much larger than the threshold: each item in each role
    for (a, b, x), t in ([((12, 12, 12), 1), ((3, 14, 30), 1), ((30, 3, 14), 2), ((14, 30, 3), 1)]
                         + ctx.pick([], [((20, 20, 20), 1), ((25, 20, 3), 3)])):
        drawn.append(dict(gen.blocks(a, b, x), thr=t, draws=ctx.pick(600, 1200) // t, byrole=1,
                          id='dr%d_%d_%d' % (a, b, x)))
    validate(ctx, cases + drawn, ['thr'], 'task')
    return ASSUME
