"""C23: generators of test data, comparisons of files."""
import copy
import json

import lib

FIELDS = {'items': ('base', 'n', 'repeats'),
          'features': ('files', 'feat', 'frames', 'spread'),
          'both': ('base', 'n', 'repeats'), 'compare': ('how', 'a', 'b')}
GEN = ('SPECIFICATION Spec\nCONSTANTS MaxBase = %d\n MaxCols = %d\n'
       ' MaxRepeats = %d\n MaxLines = %d\nINVARIANTS EachCombination NoLess '
       'SortDecides\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n')


def slim(c):
    return {k: c[k] for k in ('id', 'kind', 'events') + FIELDS[c['kind']]}


def tables(rng):
    """two tables, the second a variant of the first"""
    nc = rng.randrange(1, 5)
    nv = rng.choice([2, 3, 9])
    cols = rng.sample(range(9), nc)
    rows = [[rng.randrange(nv) for _ in cols] for _ in range(rng.randrange(0, 7))]
    a = {'cols': cols, 'rows': rows}
    b = copy.deepcopy(a)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        w = rng.choice(['value', 'swap', 'less', 'more', 'again', 'rename', 'cells'])
        rs = b['rows']
        if w == 'value' and rs:
            rs[rng.randrange(len(rs))][rng.randrange(nc)] = rng.randrange(nv)
        elif w == 'swap' and len(rs) > 1:
            i, j = rng.sample(range(len(rs)), 2)
            k = rng.randrange(nc)
            rs[i][k], rs[j][k] = rs[j][k], rs[i][k]
        elif w == 'less' and rs:
            rs.pop(rng.randrange(len(rs)))
        elif w == 'more':
            rs.append([rng.randrange(nv) for _ in cols])
        elif w == 'again' and rs:
            rs[rng.randrange(len(rs))] = list(rs[rng.randrange(len(rs))])
        elif w == 'rename':
            b['cols'][rng.randrange(nc)] = 9
        elif w == 'cells' and nc > 1 and rs:
            rng.shuffle(rs[rng.randrange(len(rs))])
    if rng.random() < 0.6:
        rng.shuffle(b['rows'])
    if rng.random() < 0.6:
        p = list(range(nc))
        rng.shuffle(p)
        b = {'cols': [b['cols'][k] for k in p],
             'rows': [[r[k] for k in p] for r in b['rows']]}
    return a, b


def C23(ctx):
    lib.model_check(ctx, 'Gen', GEN % ctx.pick((3, 2, 1, 2), (3, 3, 2, 3)))
    rng = ctx.rng
    cases = []
    for base in range(1, 5):
        for n in range(0, 5):
            for rep in range(0, 4):
                if base ** n * (rep + 1) > ctx.pick(100, 400):
                    continue
                for f in ('generate_testitems', 'generate_named_testitems'):
                    cases.append({'kind': 'items', 'fun': f, 'base': base, 'n': n,
                                  'repeats': rep})
                if n and rng.random() < ctx.pick(0.3, 1):
                    cases.append({'kind': 'both', 'base': base, 'n': n, 'repeats': rep,
                                  'feat': rng.randrange(1, 4),
                                  'frames': rng.randrange(1, 4),
                                  'seed': rng.randrange(10 ** 6)})
    for base, n in ((12, 1), (11, 2), (2, 7)):
        for f in ('generate_testitems', 'generate_named_testitems'):
            cases.append({'kind': 'items', 'fun': f, 'base': base, 'n': n, 'repeats': 0})
    for i in range(ctx.pick(40, 300)):
        cases.append({'kind': 'features', 'files': rng.randrange(1, 30),
                      'feat': rng.randrange(1, 5), 'frames': rng.randrange(1, 9),
                      'before': [] if rng.random() < 0.6 else
                      [[rng.randrange(1, 9), rng.randrange(1, 5), 3]],
                      'seed': rng.randrange(10 ** 6), 'spread': 0})
    for k in range(1, 5):
        cases.append({'kind': 'features', 'files': 150, 'feat': 2, 'frames': k,
                      'before': [], 'seed': rng.randrange(10 ** 6), 'spread': 1})
    spells = [['v%d' % i for i in range(9)], [str(i) for i in range(9)],
              ['0.%d' % (i + 1) for i in range(9)], ['c_v%d x' % i for i in range(9)],
              [chr(0x250 + i) for i in range(9)]]
    for i in range(ctx.pick(400, 4000)):
        a, b = tables(rng)
        cases.append({'kind': 'compare', 'how': 'csv', 'a': a, 'b': b,
                      'sep': rng.choice(['\t', '\t', ',']), 'spell': rng.choice(spells)})
    for i in range(ctx.pick(60, 600)):
        a = [[n, [rng.randrange(5) for _ in range(rng.randrange(1, 6))]]
             for n in sorted(rng.sample('uvwxyz', rng.randrange(1, 4)))]
        b = copy.deepcopy(a)
        if rng.random() < 0.5:
            w = rng.choice(['value', 'longer', 'less', 'more'])
            x = rng.choice(b)
            if w == 'value':
                x[1][rng.randrange(len(x[1]))] = rng.randrange(6)
            elif w == 'longer':
                x[1].append(0)
            elif w == 'less' and len(b) > 1:
                b.remove(x)
            elif w == 'more':
                b.append(['zz', [1]])
        cases.append({'kind': 'compare', 'how': 'h5', 'a': a, 'b': b,
                      'dtype': rng.choice(['int64', 'float64'])})
    for i in range(ctx.pick(60, 600)):
        a = [rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 20]))]
        b = list(a)
        if rng.random() < 0.5 and a:
            b[rng.randrange(len(b))] = rng.randrange(256)
        elif rng.random() < 0.3:
            b.append(0)
        cases.append({'kind': 'compare', 'how': 'bytes', 'a': a, 'b': b})
    for i, c in enumerate(cases):
        c['id'] = '%s%d' % (c['kind'], i)
    evs = lib.run_cases(ctx, 'gen_runs:run', cases, timeout=60)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.log('ran %d cases' % len(cases))
    kinds = {}
    for c in cases:
        k = c['kind'] + ('.' + c['how'] if 'how' in c else '')
        kinds[k] = kinds.get(k, 0) + 1
    ctx.notes['cases_by_kind'] = kinds
    for c in [x for x in cases if len(json.dumps(x)) < 1500][:3]:
        ctx.samples.append(c)
    bad = lib.judge(ctx, 'GenTrace', [slim(c) for c in cases])
    lib.record_bad(ctx, bad, cases)
    return ['the files which are compared have different modification times',
            'beyond the exhaustive small scope, the cases are sampled by VERIF_SEED']
