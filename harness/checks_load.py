"""C15: loading of the items."""
import json

import lib

ASSUME = [
    'the labels are not among the spellings which stand for a missing value '
    '(NA, nan, null...), do not begin or end with a white space character, and '
    'numbers have one spelling only',
    'beyond the exhaustive small scope, the item files are sampled by VERIF_SEED']
CFG = ('CONSTANTS Keys = {"a", "b"}\n MaxRows = %d\n Shapes = {%s}\n')
STYLES = ['word', 'word', 'int', 'int', 'flt', 'neg', 'mix', 'odd', 'uni', 'case', 'big', 'esp']
BADHEAD = [['file', 'onset', 'offset', '#p', 't'], ['#file', 'offset', 'onset', '#p', 't'],
           ['#file', 'onset', 'offset', 'p', 't'], ['#file', 'onset', 'offset', '#p', '#t'],
           ['#files', 'onset', 'offset', '#p', 't']]


def dress(c, rng, plain=False):
    """spellings and layout of a case"""
    allc = sorted(set(c['cols']) | set(x for a in c['aux'] for x in a['cols'] + [a['key']]))
    c['styles'] = {x: rng.choice(STYLES) for x in allc}
    c['names'] = {x: x for x in allc}
    if not plain and rng.random() < 0.5:
        pool = ['phone', 'talker', 'ctx_1', 'c1', 'word2', 'Speaker', 'next-phone', 'prev', u'\u00e9tat', 'idx', 'cond']
        rng.shuffle(pool)
        c['names'] = dict(zip(allc, pool))
    free = [x for x in c['cols'] if not any(a['key'] == x for a in c['aux'])]
    if free and rng.random() < 0.1:
        c['names'][free[0]] = 'item'
    s = rng.choice([[' '], [' '], ['\t'], ['  '], [' ', '\t'], [' \t ']])
    c.update(sep=s, lead=rng.choice([[''], [''], ['', ' '], [' ', '\t', '']]),
             trail=rng.choice([[''], [''], ['', ' '], ['\t', '', '   ']]),
             eol=rng.choice(['\n', '\n', '\n', '\r\n']), blank=rng.choice(['', '', ' ', '\t ']),
             final=int(rng.random() < 0.8), withext=int(rng.random() < 0.6),
             relative=int(rng.random() < 0.4), onfmt=rng.choice(['%d', '%d.25', '10%d.333', '%de-1']),
             base=rng.choice(['data', 'my.data', 'd-1', 'data.v2']), dir=rng.choice(['.', 'sub.dir', 'a b']),
             header=1)
    if not c['withext'] and c['base'] == 'data.item':
        c['withext'] = 1
    # a file with no line is not a table, and the blank lines at its end are only layout
    return c


def slim(c):
    return {k: c[k] for k in ('id', 'cols', 'rows', 'aux', 'loc', 'header', 'events')}


def random_case(rng, large=False):
    names = list('pqrstuvw')
    ncols = rng.choice([1, 2, 2, 3])
    cols = names[:ncols]
    rest = names[ncols:]
    labs = 'abcdefghijklmno'[:rng.choice([2, 3, 5, 15])]
    if large:
        labs = ['l%d' % k for k in range(rng.choice([20, 130, 300]))]
    aux, keys = [], list(cols)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if not rest:
            break
        key = rng.choice(keys) if rng.random() < 0.9 else 'z'
        if any(a['key'] == key for a in aux):
            continue
        ac = [rest.pop(0) for _ in range(min(len(rest), rng.choice([1, 1, 2])))]
        keys += ac
        ks = list(labs)
        rng.shuffle(ks)
        if rng.random() < 0.5:
            ks = ks[:rng.randrange(1, len(ks) + 1)]
        if rng.random() < 0.06:
            ks.append(rng.choice(ks))
        rows = []
        for k in ks:
            r = [k] + [rng.choice(labs) for _ in ac]
            if rng.random() < 0.05:
                r = r[:rng.randrange(1, len(r) + 1)]
            rows.append(r)
            if rng.random() < 0.04:
                rows.append([])
        aux.append({'key': key, 'cols': ac, 'rows': rows})
    rng.shuffle(aux)
    n = rng.choice([1, 2, 3, 5, 10, 30]) if not large else rng.choice([129, 257, 700])
    same = rng.choice([0, 0, .1, .4])
    rows, loc = [], []
    for i in range(n):
        r = [rng.choice(labs) for _ in cols]
        x = rng.random()
        if x < (0.01 if large else 0.08):
            r = r[:rng.randrange(len(r))]
        rows.append(r)
        loc.append(i + 1)
        if rng.random() < 0.05:
            rows.append([])
            loc.append(0)
        if same and rng.random() < same:      # the same line, or another for the same place
            rows.append(rng.choice([r, [rng.choice(labs) for _ in cols]]))
            loc.append(i + 1)
    return {'cols': cols, 'rows': rows, 'aux': aux, 'loc': loc}


def C15(ctx):
    rng = ctx.rng
    scope = CFG % ctx.pick((2, '1, 2, 3, 4'), (2, '1, 2, 3, 4'))
    lib.model_check(ctx, 'Loader', 'SPECIFICATION Spec\n' + scope + (
        'INVARIANTS OwnLabels AllColumns KeptLines NoCreation\nPROPERTIES Ends\n'
        'CHECK_DEADLOCK FALSE\n'))
    if ctx.thorough:
        lib.model_check(ctx, 'Loader', 'SPECIFICATION Spec\n' + CFG % (3, '1, 2, 4') + (
            'INVARIANTS OwnLabels AllColumns KeptLines NoCreation\nCHECK_DEADLOCK FALSE\n'))
    fam = lib.export(ctx, 'LoaderExport', scope)
    # a file without any line of items is not a database
    fam = [c for c in fam if any(c['loc'])]
    ctx.notes['exported'] = len(fam)
    if not ctx.thorough:
        rng.shuffle(fam)
        fam = fam[:900]
    cases = [dress(c, rng) for c in fam]
    for i in range(ctx.pick(500, 6000)):
        cases.append(dress(random_case(rng, i % 100 == 0), rng))
    for i in range(ctx.pick(10, 40)):
        c = dress({'cols': ['p', 't'], 'rows': [['a', 'a'], ['b', 'a']], 'aux': [], 'loc': [1, 2]}, rng, True)
        c['badhead'], c['header'] = BADHEAD[i % len(BADHEAD)], 0
        cases.append(c)
    for i, c in enumerate(cases):
        c['id'] = 'load%d' % i
    evs = lib.run_cases(ctx, 'load_runs:run', cases, timeout=60)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.log('ran %d cases' % len(cases))
    kinds = {}
    for e in evs:
        kinds[e[0]['ev']] = kinds.get(e[0]['ev'], 0) + 1
    ctx.notes['outcomes'] = kinds
    for c in [x for x in cases if len(json.dumps(x)) < 2500][:3]:
        ctx.samples.append(c)
    bad = lib.judge(ctx, 'LoaderTrace', [slim(c) for c in cases], batch=3000)
    lib.record_bad(ctx, bad, cases)
    return ASSUME
