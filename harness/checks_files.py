"""C16, C17, C18, C20: files, repetition, conversion, command line."""
import json
import re

import lib

FILES = ('SPECIFICATION Spec\nCONSTANTS Params = {%s}\n Norms = {%s}\n Jobs = {1}\n Export = %s\n Failures = %d\n Puts = %d\n'
         'VIEW View\nINVARIANTS Related Repairable\nPROPERTIES NoSilentLoss RefusedIsHarmless NeverRemoved Contained\n'
         'CHECK_DEADLOCK FALSE\n')
HIST = re.compile(r'^"HIST\|([01])\|(.*)"$', re.M)


def histories(ctx, params, norms, puts=0):
    """one case for each transition which changes the files; those which
    change nothing are done one after the other"""
    rc, text = lib.tlc(ctx, 'Files', cfg_text=FILES % (params, norms, 'TRUE', 0, puts), workers=1)
    states = {}
    for ch, j in HIST.findall(text):
        h = json.loads(j.replace('\\"', '"'))
        states.setdefault(json.dumps(h[:-1]), ([], []))[int(ch)].append(h[-1])
    return [(json.loads(k), loops, moves) for k, (loops, moves) in states.items()]


def finish(ctx, module, cases, slim, batch=2000):
    kinds = {}
    for c in cases:
        kinds[c['kind']] = kinds.get(c['kind'], 0) + 1
    ctx.notes['cases_by_kind'] = kinds
    for c in sorted(cases, key=lambda c: len(json.dumps(c)))[:2]:
        ctx.samples.append(c)
    bad = lib.judge(ctx, module, [slim(c) for c in cases], batch=batch)
    lib.record_bad(ctx, bad, cases)


# how many times each operation uses the storage (about)
POINTS = {'task': {'open': 26, 'create': 20, 'write': 11, 'read': 19},
          'dist': {'open': 8, 'create': 2, 'write': 2, 'read': 8},
          'score': {'open': 6, 'create': 2, 'write': 2, 'read': 6},
          'analyze': {'open': 4, 'read': 18}}


def NAMED(o):
    """the output of an operation"""
    if o['op'] == 'task':
        return ['data.abx', 'out.abx'][o['out']]
    if o['op'] == 'dist':
        return 'res.distance'
    if o['op'] == 'analyze':
        return 'res.csv'
    return 'my.score' if o['out'] else ['data_res.score', 'out_res.score'][o['t']]


def C16(ctx):
    rng = ctx.rng
    lib.model_check(ctx, 'Files', FILES % ('1, 2', '1, 2', 'FALSE', 0, 0))
    lib.model_check(ctx, 'Files', FILES % (ctx.pick('1', '1, 2'), '1', 'FALSE', 1, ctx.pick(0, 1)))
    hs = histories(ctx, '1, 2', ctx.pick('1', '1, 2'))
    ctx.notes['histories_states'] = len(hs)
    ctx.notes['histories_transitions'] = sum(len(l) + len(m) for _, l, m in hs)
    cases = []
    if not ctx.thorough:
        rng.shuffle(hs)
        hs = sorted(hs[:130], key=lambda h: len(h[0])) + [h for h in hs[130:] if len(h[0]) <= 1]
    for prefix, loops, moves in hs:
        loops, moves = list(loops), list(moves)
        rng.shuffle(loops)
        rng.shuffle(moves)
        k = ctx.pick(1, 3)
        for i, m in enumerate(moves[:k] or [None]):
            part = loops[i::max(1, min(k, len(moves)))]
            if not ctx.thorough:
                part = part[:9]
            ops = prefix + part + ([m] if m else [])
            for o in ops:
                if o['op'] == 'dist':
                    o['j'] = 2 if rng.random() < 0.08 else 1
            cases.append({'kind': 'history', 'ops': ops, 'seed': rng.randrange(20),
                          'absolute': int(rng.random() < 0.3), 'tmpd': int(rng.random() < 0.5)})
    # somebody else made a file with the name of an output
    ps = [h for h in histories(ctx, '1', '1', ctx.pick(1, 2)) if any(o['op'] == 'put' for o in h[0])]
    ctx.notes['histories_states_put'] = len(ps)
    if not ctx.thorough:
        ps = rng.sample(ps, 90)
    for prefix, loops, moves in ps:
        f = [o['f'] for o in prefix if o['op'] == 'put']
        mine = [o for o in loops + moves if o['op'] != 'put' and NAMED(o) in f]
        rest = [o for o in loops if o not in mine]
        mine = [o for o in mine if o in loops] + [o for o in mine if o in moves][:1]
        ops = [dict(o) for o in prefix + rng.sample(rest, min(2, len(rest))) + mine]
        for o in list(ops):
            if o['op'] == 'put':
                o['what'] = rng.choice(['empty', 'empty', 'text', 'line', 'hdf5', 'group'])
                # the distances are added to an HDF5 file which has none
                if o['f'] == 'res.distance' and o['what'] not in ('text', 'line'):
                    ops = [x for x in ops if not (x['op'] == 'dist' and x['how'] == 'api')]
        cases.append({'kind': 'put', 'ops': ops, 'seed': rng.randrange(20),
                      'absolute': int(rng.random() < 0.3), 'tmpd': int(rng.random() < 0.5)})
    # a failure of the storage at any point of an operation which writes,
    # then the same request again
    n = 0
    while n < ctx.pick(220, 4000):
        prefix, loops, moves = rng.choice(hs)
        moves = [m for m in moves if len(prefix) <= 7]
        if not moves:
            continue
        n += 1
        m = dict(rng.choice(moves + rng.sample(loops, min(len(loops), 1))), j=1)
        kind = rng.choice(sorted(POINTS[m['op']]))
        m['fault'] = {'kind': kind, 'at': rng.randrange(1, POINTS[m['op']][kind] + 1)}
        again = {k: v for k, v in m.items() if k != 'fault'}
        again['how'] = 'cli'
        if m['op'] in ('task', 'score'):
            again['out'] = 1
        both = [again]
        if rng.random() < 0.5 and (
                m['op'] in ('dist', 'score') or m['op'] == 'task' and not m.get('stats')):
            both = [dict(again, how='api'), again]      # whichever way it is asked for
        cases.append({'kind': 'failure', 'ops': prefix + [m] + both,
                      'seed': rng.randrange(20), 'absolute': int(rng.random() < 0.3),
                      'tmpd': int(rng.random() < 0.5)})
    for i in range(ctx.pick(3, 20)):   # as separate processes
        p, l, m = rng.choice([h for h in hs if 2 <= len(h[0]) <= 6])
        cases.append({'kind': 'processes', 'ops': p + rng.sample(l, min(2, len(l))), 'seed': 0,
                      'absolute': 0, 'tmpd': 0, 'real': 1})
    for i, c in enumerate(cases):
        c['id'] = 'h%d' % i
    ctx.log('%d histories, %d operations' % (len(cases), sum(len(c['ops']) for c in cases)))
    evs = lib.run_cases(ctx, 'files_runs:run', cases, timeout=200)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.log('ran')
    ctx.notes['operations'] = sum(len(c['ops']) for c in cases)
    finish(ctx, 'FilesTrace', cases, lambda c: {'id': c['id'], 'events': c['events']})
    return ['histories of the specification in a small scope (two task specifications, '
            'each stage through the Python function and the command line)',
            'HDF5 files are compared by what they hold']


REPEAT = ('SPECIFICATION Spec\nCONSTANTS Specs = {1, 2}\n Thresholds = {0, 1}\n Seeds = {0, %s}\n'
          ' MaxRuns = %d\n Leak = 0\nINVARIANTS Functional\nCHECK_DEADLOCK FALSE\n')
ENV = dict(dir='.', here='in', verbose=0, njobs=1, noise=0, reuse=0, stop='csv',
           reqs=['plain', 'thr', 'stats'])


def envs(rng):
    e = [('reference', 0, {}), ('hash seed', rng.randrange(1, 4000), {}),
         ('hash seed', rng.randrange(4000, 90000), {'reuse': 0, 'stop': 'task'}),
         ('verbose', 0, {'verbose': 1}), ('other jobs', 0, {'njobs': rng.choice([2, 3])}),
         ('absolute path', 0, {'dir': 'some.dir', 'here': 'abs'}),
         ('relative path', 0, {'dir': 'x/y z', 'here': 'rel', 'stop': 'task'}),
         ('other activity', 0, {'noise': rng.randrange(1, 8)}),
         ('same object', 0, {'reuse': 1, 'reqs': ['plain', 'thr', 'plain', 'stats', 'thr']}),
         ('same object', 0, {'reuse': 1, 'reqs': ['thr', 'plain', 'thr', 'thr'], 'stop': 'task'}),
         ('everything', rng.randrange(1, 9000),
          {'noise': 7, 'reuse': 1, 'verbose': 1, 'reqs': ['stats', 'thr', 'stats', 'plain']})]
    return [(h, dict(ENV, name=n, **kw)) for n, h, kw in e]


def C17(ctx):
    import gen
    rng = ctx.rng
    lib.model_check(ctx, 'Repeat', REPEAT % ctx.pick(('1', 2), ('1, 2', 3)))
    # a process that keeps one descriptor at each run ends by failing
    rc, text = lib.tlc(ctx, 'Repeat', cfg_text=(REPEAT % ('1', 3)).replace('Leak = 0', 'Leak = 1'),
                       expect_ok=False)
    if 'Invariant Functional is violated' not in text:
        raise lib.Machinery('the specification does not see leaks')
    groups = []
    while len(groups) < ctx.pick(34, 400):
        c = gen.random_task(rng, nmax=rng.choice([6, 9, 12]), filters=rng.choice([0, 0, 1, 2]),
                            regs=rng.choice([0, 0, 1, 3, 4]), nmin=4,
                            style=rng.choice([None, 'str', 'uni', 'chr']))
        c['rseed'] = rng.randrange(1000)
        c['gseed'] = rng.choice([0, 0, 1, rng.randrange(1000), rng.randrange(1000), 2 ** 32 - 1])
        c['gthr'] = rng.choice([1, 1, 2, 3])
        c['norm'] = rng.randrange(2)
        c['kind'] = 'group'
        c['id'] = 'g%d' % len(groups)
        groups.append(c)
    for sizes in ([3, 6, 4, 8], [8, 5, 3], [2, 6, 1, 7], [4, 4, 9, 5, 6]):
        # by values of different sizes, some without triplet
        items = [[i % 2, 0 if i < 3 else i % 3, b] for b, n in enumerate(sizes) for i in range(n)]
        for across in ([], [2]):
            groups.append(dict(gen.make(items, 1, across, [3], regs=[gen.v(2, 'A')]), rseed=1, gseed=5,
                               gthr=rng.choice([1, 2]), norm=1, kind='group', id='g%d' % len(groups)))
    total = 0
    evs = [[] for _ in groups]
    byhash = {}
    for g, c in enumerate(groups):
        es = envs(rng)
        if g % 10 == 0:
            es.append((0, dict(ENV, name='many runs', reqs=['plain', 'thr'] * 24, spare=40,
                               reuse=g % 20 == 0)))
        for h, e in es:
            byhash.setdefault(0 if h == 0 else 1 + h % 3, []).append((g, dict(c, env=e)))
    for k in sorted(byhash):
        hs = 0 if k == 0 else rng.randrange(1, 4000000)
        part = byhash[k]
        res = lib.run_cases(ctx, 'repeat_runs:run', [c for g, c in part], timeout=120, hashseed=hs)
        total += len(part)
        for (g, c), r in zip(part, res):
            for x in r:
                x.setdefault('env', c['env']['name'])
            evs[g] += r
    for c, e in zip(groups, evs):
        # the reference first
        c['events'] = [x for x in e if x.get('env') == 'reference'] + [
            x for x in e if x.get('env') != 'reference']
    ctx.log('ran %d runs of %d requests' % (total, len(groups)))
    ctx.notes['runs'] = total
    ctx.notes['circumstances'] = sorted(set(e['name'] for _, e in envs(rng))) + ['many runs']
    finish(ctx, 'RepeatTrace', groups, lambda c: {'id': c['id'], 'events': c['events']})
    return ['the requests are sampled by VERIF_SEED; hash seeds, numbers of jobs and '
            'previous activity are sampled too', 'HDF5 files are compared by what they hold']


HEADS = [['#file', 'onset', 'offset', '#', 'c2'], ['#file', 'onset', 'offset', '#'],
         ['#file', 'onset', 'offset', 'c1', 'c2'], ['file', 'onset', 'offset', '#', 'c2'],
         ['#file', 'offset', 'onset', '#', 'c2'], ['#file', 'onset', 'offset'],
         ['onset', '#file', 'offset', '#', 'c2'], ['#file', 'onset', '#', 'offset', 'c2'],
         ['#file', 'Onset', 'offset', '#', 'c2'], ['#file', 'onset', 'end', '#', 'c2']]


def C18(ctx):
    rng = ctx.rng
    lib.model_check(ctx, 'Convert', (
        'SPECIFICATION Spec\nCONSTANTS MaxFiles = %d\n MaxBatch = %d\nINVARIANTS NoLoss Complete Bounded\n'
        'PROPERTIES Ends\nCHECK_DEADLOCK FALSE\n') % ctx.pick((8, 5), (40, 20)))
    cases = []

    def named(st, k):
        if st == 'case':         # names which differ by their case only
            w = ''.join(ch.upper() if (k >> i) & 1 else ch for i, ch in enumerate('abcdefghijkl'))
            return w
        if st == 'ends':         # names of which one is the beginning of another
            return 'f' + 'f' * k if k < 100 else 'g%d' % k
        return st % k

    def conv(n, **kw):
        d = rng.choice([1, 2, 3, 13])
        st = rng.choice(['f%d', 'a.b%d', u'\u00e9-%d', '%d', '00%d', 'name with space %d', 'F%d',
                         'case', 'ends', '%d.0', 'x.npz.%d'])
        fs = rng.choice([[1, 1, 2, 3, 5], [3, 4], [2, 3, 3, 40]])
        c = {'kind': 'convert', 'shared': rng.choice([0, 1, 1]),
             'src': [{'name': named(st, k), 'n': rng.choice(fs), 'd': d}
                                        for k in range(n)],
             'ttype': rng.choice(['float64', 'float64', 'float32']), 'xtype': rng.choice(['float64', 'float32']),
             'loader': 'npz', 'how': 'batch', 'batch': 3, 'cut': 0, 'rseed': rng.randrange(1000)}
        c.update(kw)
        rng.shuffle(c['src'])
        cases.append(c)
    for n in range(1, ctx.pick(8, 13)):
        for b in range(1, ctx.pick(6, 9)):
            conv(n, batch=b)
    for i in range(ctx.pick(20, 200)):
        n = rng.choice([1, 2, 5, 10, 23])
        conv(n, batch=rng.choice([1, 2, 5, 7, 500]), cut=rng.choice([0, 0, n // 2]),
             loader=rng.choice(['npz', 'txt']))
        conv(n, how=rng.choice(['convert', 'default', 'cli']))
    for n in ctx.pick([500, 501], [499, 500, 501, 1000, 1001]):
        conv(n, how='convert')
        cases[-1]['src'] = [dict(s, n=1, d=1) for s in cases[-1]['src']]
    for i in range(ctx.pick(150, 2500)):
        st = rng.choice(['f%d', 's_%d', u'\u00e9%d', '%d', 'a.b.%d', '%d.5', 'a/%d', 'x/y%d', './f%d', 'D%d.WAV',
                         u'a\u00a0%d', u'w\u2003v%d', u'z\u3000%dx'])
        stored = [st % k for k in rng.sample(range(20), rng.randrange(1, 6))]
        if rng.random() < 0.2:
            stored.append(stored[0] + 'x')
        if rng.random() < 0.3:
            stored.append(stored[0].split()[0])
            stored = sorted(set(stored))
        named = [rng.choice(stored) for _ in range(rng.randrange(1, 8))]
        if i % 12 == 0:        # long files
            stored = ['f%d' % k for k in range(rng.choice([15, 150, 700]))]
            named = [rng.choice(stored) for _ in range(rng.choice([40, 300, 1500]))]
        x = rng.random()
        if x < 0.4:     # one source is not there
            named[rng.choice([0, -1, rng.randrange(len(named))])] = rng.choice(
                [st % 99, stored[0][:-1] or 'z', stored[0] + 'x', 'f', '#file', 'a/' + stored[0],
                 stored[0].split('/')[-1] + '/', stored[0].swapcase() + '_', stored[0].split('.')[0] + '.z'])
        head = HEADS[0] if rng.random() < 0.7 else rng.choice(HEADS)
        cases.append({'kind': 'verify', 'stored': stored, 'named': named, 'head': head,
                      'sep': rng.choice([' ', '\t', '  ']), 'blank': rng.choice([0, 0, 1, 2]),
                      'kw': rng.choice([{}, {'verbose': 1}]), 'cli': int(rng.random() < 0.3)})
    for i, c in enumerate(cases):
        c['id'] = '%s%d' % (c['kind'], i)
    evs = lib.run_cases(ctx, 'conv_runs:run', cases, timeout=100)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.log('ran %d cases' % len(cases))
    ctx.notes['accepted'] = sum(x.get('accepted', 0) for e in evs for x in e)

    def slim(c):
        f = ('src', 'shared') if c['kind'] == 'convert' else ('head', 'named', 'stored')
        return {k: c[k] for k in ('id', 'kind', 'events') + f}
    finish(ctx, 'ConvTrace', cases, slim)
    return ['the feature file is read with h5py', 'the sources are sampled by VERIF_SEED '
            'beyond the small numbers of files and batch sizes, which are all done']


COLS = [['c1', 'c2', 'c3'], ['c1', 'c2', 'c3'], ['Phone', 'Talker', 'Context'], ['on', 'across', 'by'],
        ['a', 'b', 'x'], ['X', 'A', 'B'], ['phone', 'Phone', 'PHONE']]


def C20(ctx):
    rng = ctx.rng
    lib.model_check(ctx, 'Files', FILES % ('1, 2', '1', 'FALSE', 0, 0))
    e = lib.export(ctx, 'CliExport', 'CONSTANTS Styles = {1, 2, 3, 4, 5, 6}\n')
    ctx.notes['requests'] = {k: len(v) for k, v in e.items()}
    cases = []
    n = ctx.pick({'task': 260, 'distance': 130}, {'task': 3888, 'distance': 384})
    for tool, k in n.items():
        plain = e[tool]
        if tool == 'task':
            plain = [c for c in plain if not c['req']['stats']]
            stats = [c for c in e[tool] if c['req']['stats']]
            cases += rng.sample(stats, min(len(stats), k // 8))
        cases += rng.sample(plain, min(len(plain), k))
    for _ in range(ctx.pick(3, 20)):
        cases += [dict(c) for c in e['score'] + e['analyze']]
    cases = [dict(c, kind=c['req']['tool'], seed=rng.randrange(40), n=rng.choice([8, 9, 11]), real=0,
                  names=rng.choice(COLS), base=rng.choice(['data', 'data', 'My.Corpus', 'a b', 'x-1']),
                  task=rng.choice(['t', 't', 'T.x', 't 1']), dist=rng.choice(['d', 'd', 'D.1', 'd_e']))
             for c in cases]
    for i, c in enumerate(cases):
        if c['kind'] == 'distance' and i % 2:
            c['low'] = 1
    # some as real processes
    for c in rng.sample(cases, ctx.pick(14, 100)):
        c['real'] = 1
    for i, c in enumerate(cases):
        c['id'] = '%s%d' % (c['kind'], i)
    evs = lib.run_cases(ctx, 'cli_runs:run', cases, timeout=150)
    for c, ev in zip(cases, evs):
        c['events'] = ev
    ctx.log('ran %d requests both ways' % len(cases))
    ctx.notes['successes'] = sum(x['api']['ok'] for ev in evs for x in ev if x['ev'] == 'Both')
    finish(ctx, 'CliTrace', cases, lambda c: {k: c[k] for k in ('id', 'req', 'args', 'events')})
    return ['most command lines run in the process of the harness (runpy), a sample as real '
            'processes', 'the requests are sampled by VERIF_SEED from those of CliExport '
            '(all of them in the thorough tier); verify is in C18']
