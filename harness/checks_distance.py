"""C05, C06: distance runs."""
import json

import gen
import lib

ASSUME = [
    'the accesses are logged by wrapping h5py.File and tables.File; two that '
    'overlap in the log did overlap, the converse depends on the schedule',
    'interleavings are explored exhaustively on the specification, and sampled '
    '(with random pauses) on the real processes',
    'the distances are computed by a function which identifies its arguments']

CLOCKS = [[1000, 2. ** -16], [0, 2. ** -30], [2. ** 20, 2. ** -10], [50000, 2. ** -20],
          [1, 1000.], [0, 0.0078125]]
DJ = ('SPECIFICATION Spec\nCONSTANTS ById = %d\n Cpus = {%s}\n MaxBlock = %d\n'
      ' Faults = {%s}\n Locking = TRUE\nINVARIANTS Partition Exclusive '
      'NothingLost DoneMeansComplete FailureMeansNotDone\nPROPERTIES Ends '
      'FailureReported\nCHECK_DEADLOCK FALSE\n')


def design(ctx, *runs):
    for by, cpus, mb, faults in runs:
        lib.model_check(ctx, 'DistJobs', DJ % (
            by, ', '.join(map(str, cpus)), mb,
            ', '.join('"%s"' % f for f in faults)))


def features(rng, nf, most=8):
    """frames at increasing times (quarters of a second); sometimes not
    starting at zero, with gaps"""
    out = []
    for f in range(nf):
        n = rng.randrange(3, most)
        t, fr = rng.randrange(0, 3), []
        for k in range(n):
            fr.append({'t': t, 'v': [rng.randrange(0, 20), rng.randrange(0, 20)]})
            t += rng.choice([1, 1, 1, 2, 3])
        x = rng.random()
        if x < 0.12:            # the frames need not be in the order of time
            a, b = rng.randrange(n), rng.randrange(n)
            fr[a]['t'], fr[b]['t'] = fr[b]['t'], fr[a]['t']
        elif x < 0.2:           # nor at different times
            a = rng.randrange(n - 1)
            fr[a]['t'] = fr[a + 1]['t']
        out.append(fr)
    return out


def random_case(ctx, nmin=4, nmax=10, small=False):
    rng = ctx.rng
    while True:
        task = gen.random_task(rng, nmin=nmin, nmax=nmax, nlab=(2, 2, 3),
                               ncols=rng.choice([3, 4]))
        if len(task['by']) < 2 or rng.random() < 0.5:
            break
    # labels which repeat enough to give triplets
    nf = rng.choice([1, 2, 3, 4])
    feats = features(rng, nf)
    locs = []
    while len(locs) < len(task['items']):
        f = rng.randrange(nf)
        ts = [x['t'] for x in feats[f]]
        on = rng.randrange(0, max(ts) + 1)
        off = on + rng.randrange(0, 6)
        if rng.random() < 0.1:      # no frame at all
            on, off = max(ts) + 2, max(ts) + 3
        if rng.random() < 0.5:      # bounds on frames
            on = rng.choice(ts)
            off = rng.choice([t for t in ts if t >= on])
        loc = [f + 1, on, off]
        if loc not in locs or rng.random() < 0.2:
            locs.append(loc)
    case = {'task': task, 'feats': feats, 'locs': locs,
            'norm': rng.choice([-1, 0, 1]),
            'dtype': rng.choice(['float64', 'float64', 'float32']),
            'prefix': rng.choice(['f', 's', 'file-', 'spk.']),
            'group': rng.choice(['features', 'features', 'g2'])}
    if nf > 1 and rng.random() < 0.5:
        fs = list(range(nf))
        rng.shuffle(fs)
        k = rng.randrange(1, nf)
        case['split'] = [fs[:k], fs[k:]]
    elif rng.random() < 0.1:
        case['aslist'] = True
    if rng.random() < 0.4:
        # another unit of time, frames on even ticks and bounds on odd ones
        # (the text of the item file need not be read to the last bit)
        case['clock'] = rng.choice(CLOCKS)
        for fr in feats:
            for x in fr:
                x['t'] *= 2
        case['locs'] = [[f, 2 * on + rng.choice([-1, -1, 1]), 2 * off + rng.choice([-1, 1, 1])]
                        for f, on, off in locs]
    return case


def validate(ctx, cases, nproc=None, timeout=150):
    for i, c in enumerate(cases):
        c['rseed'] = i + ctx.seed
    res = lib.run_cases(ctx, 'dist:run', cases, timeout=timeout, nproc=nproc)
    out = []
    for c, r in zip(cases, res):
        if r and isinstance(r[0], dict):        # crash of the worker
            r = [[], r]
        c['blocks'], c['events'] = r
        if not c['events']:                     # no triplet
            continue
        out.append(c)
    ctx.log('ran %d cases, %d with pairs' % (len(cases), len(out)))
    ctx.notes['runs_without_pairs'] = ctx.notes.get(
        'runs_without_pairs', 0) + len(cases) - len(out)
    ctx.notes['events'] = ctx.notes.get('events', 0) + sum(
        len(c['events']) for c in out)
    ctx.notes['pairs_judged'] = ctx.notes.get('pairs_judged', 0) + sum(
        len(b['codes']) for c in out for b in c['blocks'])
    ctx.notes['faults_injected'] = ctx.notes.get('faults_injected', 0) + sum(
        any(e['ev'] == 'Fault' for e in c['events']) for c in out)
    keep = ('id', 'feats', 'blocks', 'norm', 'events', 'jobs', 'sizes', 'mb')
    bad = lib.judge(ctx, 'DistTrace', [
        {k: c[k] for k in keep if k in c} for c in out], batch=1000)
    for c in out[:1] + out[-1:]:
        s = json.dumps(c)
        ctx.samples.append(c if len(s) < 3000 else s[:600] + '...')
    lib.record_bad(ctx, bad, out)


def C05(ctx):
    """value of each pair, for every partition"""
    design(ctx, *ctx.pick([(1, (1, 2), 2, ()), (2, (3,), 2, ()), (3, (1, 2), 2, ())],
                          [(1, (1, 2, 3), 2, ()), (2, (3,), 2, ()),
                           (3, (1, 2, 3), 2, ()), (6, (1, 2), 3, ())]))
    rng = ctx.rng
    cases = []
    for i in range(ctx.pick(260, 2500)):
        c = random_case(ctx, *rng.choice([(4, 8), (4, 8), (6, 12), (8, 18)]))
        c['ncpu'] = rng.choice([1, 1, 1, 1, 2, 2, 3, 5])
        c['id'] = 'd%d' % i
        cases.append(c)
    for i, n in enumerate(ctx.pick([9, 16] + [None] * 4, [9, 16, 33] + [None] * 8)):
        # more processes than pairs, number of processes left out
        c = random_case(ctx, 6, 8)
        c['ncpu'] = n
        c['id'] = 'w%d' % i
        cases.append(c)
    if ctx.thorough:
        for i in range(6):
            c = random_case(ctx, 60, 120)
            c['ncpu'] = rng.choice([1, 4, 7])
            c['id'] = 'l%d' % i
            cases.append(c)
    big = [([300000], 1), ([300000], 2), ([300000], 7),
           ([125000, 125001, 1, 250000], 1), ([125000, 124999, 3], 2),
           ([7, 1, 1, 1], 3), ([10], 3), ([1], 4), ([5, 5], 5), ([1] * 9, 2)]
    for i, (sizes, n) in enumerate(big):
        cases.append({'id': 'j%d' % i, 'jobs': 1, 'sizes': sizes, 'ncpu': n,
                      'mb': 1, 'feats': [], 'norm': -1})
    validate(ctx, cases)
    return ASSUME


def C06(ctx):
    """interleavings, faults"""
    design(ctx, *ctx.pick([(1, (1, 2), 2, ('raise', 'die')),
                           (2, (3,), 2, ('raise', 'die')),
                           (1, (3,), 2, ('raise',))],
                          [(1, (1, 2), 2, ('raise', 'die')),
                           (2, (3,), 2, ('raise', 'die')),
                           (1, (3,), 2, ('raise', 'die')),
                           (4, (3,), 1, ('raise', 'die'))]))
    # the lock is what the exclusion rests on: without it TLC finds the loss
    rc, text = lib.tlc(ctx, 'DistJobs', cfg_text=(
        DJ % (2, '2', 2, '')).replace('Locking = TRUE', 'Locking = FALSE')
        .replace('Partition Exclusive', 'Partition'), expect_ok=False)
    if 'Invariant NothingLost is violated' not in text:
        raise lib.Machinery('the specification does not need the lock?')
    rng = ctx.rng
    cases = []
    kinds = ['value', 'memory', 'unpicklable', 'badunpickle', 'exit', 'kill',
             'killall']
    n = 0
    for rep in range(ctx.pick(1, 12)):
        for kind in kinds:
            for ncpu in (1, 2, 3) if kind != 'kill' else (2, 2, 3):
                for at in range(ctx.pick(2, 4)):
                    c = random_case(ctx, 5, 9)
                    c.update(ncpu=ncpu, fault=kind, at=rng.randrange(100),
                             hold=rng.choice([0, 10]), comp=rng.choice([0, 5]),
                             id='f%d' % n, limit=60)
                    n += 1
                    cases.append(c)
    for k in range(1, ctx.pick(17, 25)):
        for rep in range(ctx.pick(1, 4)):
            c = random_case(ctx, 5, 9)
            c.update(ncpu=1 + (k + rep) % 3, fault='open', at=k, hold=5,
                     id='o%d' % n, limit=60)
            n += 1
            cases.append(c)
    for i in range(ctx.pick(60, 600)):
        c = random_case(ctx, 6, 12)
        c.update(ncpu=rng.choice([2, 3, 3, 4, 5, 6]), hold=rng.choice([5, 20, 40]),
                 comp=rng.choice([0, 0, 3]), id='s%d' % i)
        cases.append(c)
    validate(ctx, cases)
    return ASSUME
