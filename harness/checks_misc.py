"""C14, C19: distances between sequences and between frames."""
import json

import lib

ASSUME = [
    'the costs are exact multiples of a unit, so that a float result stands '
    'for one integer (rounding errors are C22)',
    'beyond the exhaustive small scope, the cases are sampled by VERIF_SEED']

FIELDS = {'dtw': ('d', 'norm'), 'edit': ('x', 'y'), 'empty': ('n', 'm'),
          'utw': ('d', 'n', 'm'), 'cos': ('x', 'y', 'exact'), 'kl': ('x', 'y'),
          'hel': ('x', 'y'), 'mat': ('x', 'y', 'scale', 'sym', 'same', 'ptw', 'exact'),
          'mono': ('x', 'y', 'scale', 'sym', 'same', 'ptw', 'exact')}


def design(ctx, *scopes):
    for s in scopes:
        lib.model_check(ctx, 'Align', (
            'SPECIFICATION Spec\nCONSTANTS MaxN = %d\n MaxM = %d\n MaxD = %d\n'
            'INVARIANTS Optimal LengthOfAnOptimalPath DPIsDefinition\n'
            'PROPERTIES Ends\nCHECK_DEADLOCK FALSE\n') % s)


def slim(c):
    d = {k: c[k] for k in ('id', 'kind', 'events') + FIELDS[c['kind']]}
    d['refused'] = c.get('refused', 0)
    if c['kind'] in ('mat', 'cos') and c['kind'] == 'mat':
        d['x'], d['y'] = [0] * len(c['x']), [0] * len(c['y'])
    return d


def validate(ctx, cases, batch=4000):
    for i, c in enumerate(cases):
        c['id'] = '%s%d' % (c['kind'], i)
    evs = lib.run_cases(ctx, 'metric_runs:run', cases, timeout=60)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.log('ran %d cases' % len(cases))
    kinds = {}
    for c in cases:
        k = c['kind'] + ('.' + c['how'] if 'how' in c else '')
        kinds[k] = kinds.get(k, 0) + 1
    ctx.notes['cases_by_kind'] = kinds
    for c in [x for x in cases if len(json.dumps(x)) < 1500][:3]:
        ctx.samples.append(c)
    bad = lib.judge(ctx, 'MetricTrace', [slim(c) for c in cases], batch=batch)
    lib.record_bad(ctx, bad, cases)


def C14(ctx):
    design(ctx, *ctx.pick([(3, 3, 1), (2, 3, 2)], [(3, 3, 2), (2, 5, 2), (3, 4, 1)]))
    rng = ctx.rng
    cases = []
    # all the small matrices
    small = []
    for n, m, k in ctx.pick([(1, 1, 3), (1, 2, 3), (2, 1, 3), (2, 2, 3), (3, 2, 2), (2, 3, 2), (3, 3, 2)],
                            [(1, 1, 4), (1, 3, 3), (3, 1, 3), (2, 2, 4), (3, 2, 3), (2, 3, 3), (3, 3, 2),
                             (2, 4, 2), (4, 2, 2)]):
        for c in range(k ** (n * m)):
            d, q = [], c
            for i in range(n):
                d.append([])
                for j in range(m):
                    d[-1].append(q % k)
                    q //= k
            small.append(d)
    ctx.notes['small_matrices'] = len(small)
    for i, d in enumerate(small):
        cases.append({'kind': 'dtw', 'd': d, 'norm': i % 2, 'unit': 1.0,
                      'how': 'metric' if (i // 2) % 2 else 'matrix'})
        if len(small) < 3000:
            cases.append(dict(cases[-1], norm=1 - i % 2))
    for i in range(ctx.pick(300, 5000)):
        n, m = (rng.choice([1, 2, 3, 5, 8, 13, 20]) for _ in range(2))
        k = rng.choice([2, 3, 10, 100])
        cases.append({'kind': 'dtw', 'd': [[rng.randrange(k) for _ in range(m)]
                                           for _ in range(n)],
                      'norm': rng.randrange(2),
                      'unit': rng.choice([1.0, 0.25, 0.5, 2. ** -12, 2. ** -30, 2. ** -200,
                                          2. ** 20, 2. ** 60]),
                      'how': rng.choice(['metric', 'matrix']),
                      'order': rng.choice(['C', 'F'])})
    for i in range(ctx.pick(6, 20)):
        n, m = rng.choice([(60, 45), (45, 70), (1, 120), (90, 2), (130, 70), (40, 260), (300, 12)])
        cases.append({'kind': 'dtw', 'd': [[rng.randrange(4) for _ in range(m)]
                                           for _ in range(n)],
                      'norm': i % 2, 'unit': 1.0, 'how': 'metric'})
    # the distances of the command line and of the examples
    for i in range(ctx.pick(400, 5000)):
        how = rng.choice(['default', 'ex_cosine', 'dtw_kl', 'ex_kl'])
        n, m = (rng.choice([1, 1, 2, 3, 4, 6, 9]) for _ in range(2))
        c = {'kind': 'dtw', 'how': how, 'norm': rng.randrange(2),
             'dtype': 'float64', 'asint': rng.random() < 0.0,
             'scales': [rng.choice([1, 2, 0.5, 7]) for _ in range(9)]}
        if 'kl' in how:
            c['x'], c['y'] = ([rng.randrange(2) for _ in range(k)] for k in (n, m))
            c['d'] = [[int(a != b) for b in c['y']] for a in c['x']]
        else:
            pool = rng.choice([range(9), range(8), (0, 1, 2), (0, 8, 3)])
            c['x'], c['y'] = ([rng.choice(list(pool)) for _ in range(k)] for k in (n, m))
            c['d'] = [[0 if (a == 8 and b == 8) else 4 if 8 in (a, b)
                       else min(abs(a - b), 8 - abs(a - b)) for b in c['y']] for a in c['x']]
        cases.append(c)
    # edit distance
    tables = [[[0, 0], [0, 1], [1, 0], [1, 1]], [[-1, 0], [-2, 0], [-1, -1], [-2, -1]],
              [[0.5], [1.5], [2.5], [-0.5]], [[1, 2, 3], [3, 2, 1], [1, 2, 2], [2, 2, 2]],
              [[0, 1000.], [0, 1000.0625], [2. ** -24, 1000.], [-1000., 0]],
              [[0] * 39 + [k] for k in range(4)], [[k] + [0] * 39 for k in range(4)]]
    seqs = [[]]
    for n in range(1, 4):
        seqs += [[(c // 2 ** k) % 2 for k in range(n)] for c in range(2 ** n)]
    for x in seqs[1:]:
        for y in seqs[1:]:
            cases.append({'kind': 'edit', 'x': x, 'y': y, 'table': rng.choice(tables),
                          'dtype': rng.choice(['float64', 'float32'])})
    for i in range(ctx.pick(200, 3000)):
        x, y = ([rng.randrange(4) for _ in range(rng.randrange(1, 15 if i % 20 else 70))]
                for _ in range(2))
        if rng.random() < 0.3:
            y = list(x)
            for _ in range(rng.randrange(3)):
                y.insert(rng.randrange(len(y) + 1), rng.randrange(4))
            if len(y) > 2:
                del y[rng.randrange(len(y))]
        cases.append({'kind': 'edit', 'x': x, 'y': y, 'table': rng.choice(tables),
                      'dtype': rng.choice(['float64', 'float32'])})
    for how in ('default', 'dtw_kl', 'edit', 'ex_cosine', 'ex_kl'):
        for n, m in ((0, 0), (0, 1), (1, 0), (0, 4), (3, 0)):
            for norm in (False, True):
                cases.append({'kind': 'empty', 'how': how, 'n': n, 'm': m, 'norm': norm})
    validate(ctx, cases)
    return ASSUME


def C19(ctx):
    design(ctx, *ctx.pick([(2, 2, 1)], [(2, 3, 1)]))
    rng = ctx.rng
    cases = []
    # uniform warping, all the small sizes
    for n in range(1, ctx.pick(11, 21)):
        for m in range(n, ctx.pick(13, 27)):
            for swap in (0, 1):
                cases.append({'kind': 'utw', 'n': n, 'm': m, 'swap': swap,
                              'd': [[rng.randrange(100) for _ in range(m)] for _ in range(n)],
                              'dtype': rng.choice(['float64', 'int64']),
                              'column': rng.randrange(2)})
    for i in range(ctx.pick(40, 400)):
        n = rng.randrange(1, 60)
        m = rng.randrange(n, 150)
        cases.append({'kind': 'utw', 'n': n, 'm': m, 'swap': rng.randrange(2),
                      'd': [[rng.randrange(100) for _ in range(m)] for _ in range(n)],
                      'dtype': rng.choice(['float64', 'int64']), 'column': rng.randrange(2)})
    # cosine on integer vectors: remarkable angles and order of all the others
    for i in range(ctx.pick(250, 3000)):
        nc = rng.choice([2, 2, 3, 3, 4])
        top = {2: 3, 3: 2, 4: 1}[nc]
        n, m = (rng.choice([1, 1, 2, 3, 4]) for _ in range(2))

        def row():
            if rng.random() < 0.15:
                return [0] * nc
            return [rng.randint(-top, top) for _ in range(nc)]
        x, y = [row() for _ in range(n)], [row() for _ in range(m)]
        if rng.random() < 0.5:
            y[0] = list(x[0])
        c = {'kind': 'cos', 'x': x, 'y': y, 'dtype': rng.choice(['float64', 'float64', 'float32'])}
        c['exact'] = int(c['dtype'] == 'float64')
        if rng.random() < 0.5:
            c['scales'] = [rng.choice([1, 2, 0.5, 1e-3, 300.] + [1e-7, 1e8] * c['exact'])
                           for _ in range(n)]
        cases.append(c)
    # relations between the entries
    kinds = [('cosine', {}, 1, 1, 0), ('ncosine', {}, 1, 1, 0), ('kl', {}, 1, 1, 1),
             ('kl', {'symmetrized': False}, 1, 0, 1),
             ('kl', {'thresholded': False}, 1, 1, 1),
             ('kl', {'thresholded': False, 'symmetrized': False}, 1, 0, 1),
             ('kl', {'thresholded': False, 'normalize': False}, 0, 1, 1),
             ('js', {}, 1, 1, 1), ('js', {'normalize': False}, 0, 1, 1),
             ('sqrtjs', {}, 1, 1, 1), ('hellinger', {}, 1, 1, 0)]
    for i in range(ctx.pick(420, 5000)):
        how, kw, scale, sym, ptw = kinds[i % len(kinds)]
        mono = rng.random() < 0.4
        nc = 2 if mono else rng.choice([2, 3, 5, 1, 13, 40])
        n, m = (rng.choice([1, 1, 2, 3, 4, 7]) for _ in range(2))
        if i % 30 > 27:
            n, m = rng.randrange(1, 40), rng.randrange(1, 40)
        x, y = ([[rng.randrange(1, 10) for _ in range(nc)] for _ in range(k)]
                for k in (n, m))
        if rng.random() < 0.5:
            for _ in range(1 + m // 3):
                s = rng.choice([1, 2, 3])
                y[rng.randrange(m)] = [s * v for v in x[rng.randrange(n)]]

        def same(a, b):
            return int(all(a[p] * b[q] == a[q] * b[p] for p in range(nc) for q in range(nc)))
        c = {'kind': 'mono' if mono else 'mat', 'how': how, 'kw': kw, 'x': x, 'y': y,
             'scale': scale, 'sym': sym, 'ptw': ptw, 'unit': int(not scale),
             'same': [[same(a, b) for b in y] for a in x],
             'scales': [rng.choice([1, 2, 0.25, 10., 1e-4, 1e5]) for _ in range(40)],
             'dtype': rng.choice(['float64', 'float64', 'float32'])}
        c['exact'] = int(c['dtype'] == 'float64')   # float32: coarse ranks
        if how in ('cosine', 'ncosine') or not c['exact']:
            c['kind'] = 'mat'
        cases.append(c)
    for i in range(ctx.pick(60, 600)):
        n, m = (rng.choice([1, 2, 4]) for _ in range(2))
        cases.append({'kind': 'kl', 'x': [rng.randint(-2, 2) for _ in range(n)],
                      'y': [rng.randint(-2, 2) for _ in range(m)],
                      'scales': [rng.choice([1, 2, 0.5]) for _ in range(4)],
                      'dtype': rng.choice(['float64', 'float64', 'float32'])})
        t = [[3, 4, 5], [4, 3, 5], [5, 12, 13], [12, 5, 13], [1, 0, 1], [0, 1, 1], [8, 15, 17]]
        cases.append({'kind': 'hel', 'x': [rng.choice(t) for _ in range(n)],
                      'y': [rng.choice(t) for _ in range(m)],
                      'scales': [rng.choice([1, 2, 0.5]) for _ in range(4)],
                      'dtype': rng.choice(['float64', 'float64', 'float32'])})
    validate(ctx, cases)
    return ASSUME


def C22(ctx):
    for nc, top in ctx.pick([(2, 3)], [(2, 5), (3, 3)]):
        lib.model_check(ctx, 'Fixed', (
            'SPECIFICATION Spec\nCONSTANTS NC = %d\n Top = %d\n'
            'INVARIANTS LogAdds Positive Identity Symmetric Bounded Inequalities '
            'ScaleFree Angles CosOfSelf\nCHECK_DEADLOCK FALSE\n') % (nc, top))
    rng = ctx.rng
    cases = []
    for i in range(ctx.pick(1500, 12000)):
        how = ('kl', 'symkl', 'js', 'hellinger', 'cosine', 'dtwkl')[i % 6]
        dtype = rng.choice(['float64', 'float64', 'float32'])
        nc = rng.choice([1, 2, 3, 4, 5, 9, 20])
        n, m = (rng.choice([1, 1, 2, 3, 5]) for _ in range(2))
        if i % 50 > 47:
            n, m = rng.randrange(1, 25), rng.randrange(1, 25)
        thr = how == 'dtwkl' or how in ('kl', 'symkl') and rng.random() < 0.7
        zeros = rng.random() < 0.5 and (thr or how in ('hellinger', 'cosine'))
        lo = -4 if how == 'cosine' else 0 if zeros else 1
        top = {1: 20, 2: 11, 3: 7, 4: 6, 5: 5, 9: 3, 20: 2}[nc] if how != 'cosine' else 4

        def row():
            while True:
                r = [rng.randint(lo, top) for _ in range(nc)]
                if any(r) or how == 'cosine':
                    return r
        c = {'kind': 'val', 'how': how, 'dtype': dtype, 'thr': bool(thr),
             'x': [row() for _ in range(n)], 'y': [row() for _ in range(m)],
             'eps': 52 if dtype == 'float64' else 23,
             'tol': 120 if how == 'hellinger' else 20 if dtype == 'float64' else 40,
             'root': rng.random() < 0.5, 'via': rng.choice(['dtw_kl', 'ex_kl']),
             'nonorm': how in ('kl', 'symkl', 'js') and not thr and rng.random() < 0.3,
             'scales': [rng.choice([1, 2, 0.5, 8, 0.125, 2. ** -20, 2. ** 20]) for _ in range(25)]}
        if c['nonorm']:
            c['root'] = False
        cases.append(c)
    for i, c in enumerate(cases):
        c['id'] = 'val%d' % i
    evs = lib.run_cases(ctx, 'metric_runs:run', cases, timeout=60)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.notes['cases_by_kind'] = {h: sum(c['how'] == h for c in cases)
                                  for h in ('kl', 'symkl', 'js', 'hellinger', 'cosine', 'dtwkl')}
    ctx.samples += cases[:3]
    keep = ('id', 'how', 'x', 'y', 'eps', 'tol', 'events')
    bad = lib.judge(ctx, 'ValueTrace', [{k: c[k] for k in keep} for c in cases], batch=2000)
    lib.record_bad(ctx, bad, cases)
    return ['the accuracy decided is 2e-4 (kl, js), 1e-3 (squared Hellinger), 3e-3 (cosine of '
            'the angle), on frames of small integers times powers of two',
            'beyond these frames, the values are not decided; the relations of C19 are']
