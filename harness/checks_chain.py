"""C27: the whole chain."""
import checks_distance
import checks_pipeline
import gen
import lib


def frames(rng, kind, nf):
    """the frames of the sources, of values that suit the distance"""
    feats = checks_distance.features(rng, nf, rng.choice([6, 8, 14]))
    for fr in feats:
        for x in fr:
            if kind == 'levenshtein':
                x['v'] = [rng.choice([0, 1, -1, -2]), rng.choice([0, 0, 3])]
            elif kind == '':        # along the axes, or null
                k = rng.choice([1, 2, 3, 7, 0])
                x['v'] = [k, 0] if rng.random() < 0.5 else [0, k]
                if rng.random() < 0.1:
                    x['v'] = [-v for v in x['v']]
            else:
                x['v'] = [rng.randrange(-6, 7), rng.randrange(-6, 7)]
    return feats


def case(rng, kind, thorough):
    while True:         # most of them with triplets
        task = gen.random_task(rng, nmin=7, nmax=18 if thorough else 13, ncols=rng.choice([3, 3, 4, 5]),
                               nlab=(2, 2, 3), filters=rng.choice([0, 0, 0, 1]), regs=rng.choice([0, 0, 1, 3]))
        if len(task['by']) + len(task['across']) <= 2 or rng.random() < 0.3:
            break
    nf = rng.choice([1, 2, 3, 5])
    feats = frames(rng, kind, nf)
    locs = []
    for _ in task['items']:
        f = rng.randrange(nf)
        ts = sorted(x['t'] for x in feats[f])
        on = rng.choice(ts)
        off = rng.choice([t for t in ts if t >= on])
        if rng.random() < 0.1:          # no frame at all
            on, off = max(ts) + 2, max(ts) + 3
        locs.append([f + 1, on, off])
    c = {'task': task, 'feats': feats, 'locs': locs, 'kind': kind,
         'via': [int(rng.random() < 0.4) for _ in range(4)],
         'ncpu': rng.choice([1, 1, 1, 1, 2, 3]), 'prefix': rng.choice(['f', 'file-', 'spk.']),
         'group': rng.choice(['features', 'features', 'g2']),
         'smallbuf': rng.choice([0, 0, 0, 2, 3, 5])}
    if nf > 1 and rng.random() < 0.4:
        fs = list(range(nf))
        rng.shuffle(fs)
        k = rng.randrange(1, nf)
        c['split'] = [fs[:k], fs[k:]]
    return c


def C27(ctx):
    """the result of the chain is the one of the definition"""
    checks_pipeline.design(ctx, 4, 1, checks_pipeline.ALLMODES, (0,), (0,), (0, 1, 2, 3)) if ctx.thorough \
        else checks_pipeline.design(ctx, 4, 1, (1, 2), (0,), (0,), (3,))
    cases = []
    for i in range(ctx.pick(800, 6000)):
        c = case(ctx.rng, ('mydist.fun', 'levenshtein', '')[i % 3], ctx.thorough)
        c['id'] = 'c%d' % i
        cases.append(c)
    evs = lib.run_cases(ctx, 'chain_runs:run', cases, timeout=200)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.log('ran %d chains' % len(cases))
    ctx.notes['results'] = sum(e['ev'] == 'Csv' for c in cases for e in c['events'])
    ctx.notes['without_triplet'] = sum(e['ev'] == 'Empty' for c in cases for e in c['events'])
    for c in cases[:1]:
        ctx.samples.append(c)
    task = ('items', 'role', 'on', 'across', 'by', 'filters', 'regs', 'thr')
    bad = lib.judge(ctx, 'ChainTrace', [
        dict({k: c['task'][k] for k in task}, **{k: c[k] for k in ('id', 'locs', 'feats', 'kind', 'events')})
        for c in cases], batch=600)
    lib.record_bad(ctx, bad, cases)
    return ['the distances are those which integers decide: a function of the user, the edit distance, and '
            'the default one on frames along the axes, without normalization',
            'no threshold: which triplets are drawn is for C10']
