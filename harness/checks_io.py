"""C11, C12, C13, C21: storage tools and sampler."""
import json
import math

import lib

ASSUME = [
    'h5py reads back what was stored',
    'the rows are told apart by their content, every row being different',
    'beyond the exhaustive small scope, the cases are sampled by VERIF_SEED']
DTYPES = ['int64', 'int32', 'uint8', 'float64', 'float32', 'int16']

BUF = ('SPECIFICATION Spec\nCONSTANTS BufLens = {%s}\n MaxRows = %d\n MaxWrite = %d\n'
       ' Portions = {1, 2, 4}\nINVARIANTS WrittenInOrder AllOnDisk Reported '
       'ReadInOrder StopsAtEnd Progress\nCHECK_DEADLOCK FALSE\n')
SORT = ('SPECIFICATION Spec\nCONSTANTS MaxN = %d\n MaxKey = %d\n ChunkSizes = {1, 2, 3}\n'
        ' InSizes = {1, 2}\nINVARIANTS Increasing KeptTogether NoRepetition Complete\n'
        'PROPERTIES Ends\nCHECK_DEADLOCK FALSE\n')
SAMP = ('SPECIFICATION Spec\nCONSTANTS MaxN = %d\n Steps = {1, 2, 3, %d}\nINVARIANTS '
        'Feasible Counted Exact Within\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n')


def exported(ctx, ops=3, rows=8, write=5, bufs=(1, 2, 3, 5), sortn=5, keys=2,
             samplen=7):
    return lib.export(ctx, 'IoExport', (
        'CONSTANTS MaxOps = %d\n MaxRows = %d\n MaxWrite = %d\n BufLens = {%s}\n'
        ' SortN = %d\n SortKeys = %d\n SampleN = %d\n'
        % (ops, rows, write, ', '.join(map(str, bufs)), sortn, keys, samplen)))


FIELDS = {'clash': ('overwrite', 'fixed', 'same'),
          'write': ('streams',), 'read': ('readers',), 'sort': ('key',),
          'sample': ('N', 'K', 'rel'), 'draws': ('N', 'K', 'each', 'low', 'high'),
          'huge': ('K', 'N2'), 'table': ('rows', 'refused', 'raw', 'lo', 'hi', 'step'), 'fit': ('e', 'd', 'signed')}


def slim(c):
    """what the specification needs (TLC has no null and no float)"""
    d = {k: c.get(k, 0) for k in ('id', 'kind', 'events') + FIELDS[c['kind']]}
    if 'readers' in d:
        d['readers'] = [{'lo': r['lo'], 'hi': r['hi']} for r in d['readers']]
    if 'streams' in d:
        d['streams'] = [{'n': s['n'], 'given': s['given']} for s in d['streams']]
    return d


def validate(ctx, cases, batch=4000, timeout=60):
    for i, c in enumerate(cases):
        c['id'] = '%s%d' % (c['kind'][:2], i)
    evs = lib.run_cases(ctx, 'io_runs:run', cases, timeout=timeout)
    for c, e in zip(cases, evs):
        c['events'] = e
    ctx.log('ran %d cases' % len(cases))
    kinds = {}
    for c in cases:
        kinds[c['kind']] = kinds.get(c['kind'], 0) + 1
    ctx.notes['cases_by_kind'] = kinds
    for c in [x for x in cases if len(json.dumps(x)) < 2000][:2]:
        ctx.samples.append(c)
    big = [c for c in cases if c.get('alone')]
    bad = lib.judge(ctx, 'IoTrace', [slim(c) for c in cases
                                     if not c.get('alone')], batch=batch)
    for c in big:
        bad.update(lib.judge(ctx, 'IoTrace', [slim(c)]))
    lib.record_bad(ctx, bad, cases)


def sub(ctx, seq, most):
    return seq if most is None or len(seq) <= most else ctx.rng.sample(seq, most)


def C11(ctx):
    lib.model_check(ctx, 'H5Buf', BUF % ctx.pick(('1, 2, 3, 4, 5', 7, 5),
                                                 ('1, 2, 3, 4, 5, 6', 10, 7)))
    rng = ctx.rng
    e = exported(ctx)
    cases = []
    for w in sub(ctx, e['write'], ctx.pick(900, None)):
        cases.append({'kind': 'write', 'ops': [[0, n] for n in w['ops']], 'streams': [
            {'n': w['n'], 'blen': w['blen'], 'given': sum(w['ops']),
             'ncols': rng.choice([1, 2, 3]), 'dtype': rng.choice(DTYPES)}]})
    for r in sub(ctx, e['read'], ctx.pick(900, None)):
        cases.append({'kind': 'read', 'ops': [], 'loop': r['amount'], 'readers': [
            {'size': r['size'], 'lo': r['lo'], 'hi': r['hi'], 'blen': r['blen'],
             'ncols': rng.choice([1, 2, 3]), 'dtype': rng.choice(DTYPES),
             'sub': 1 if (r['lo'], r['hi']) != (0, r['size'])
             else rng.choice([0, 1, 2]),
             'portion': rng.choice([0.25, 0.25, 0.5, 1.0, 0.1])}],
            'handle': rng.random() < 0.3, 'next': rng.random() < 0.5})
    # larger ones, several datasets at a time
    for i in range(ctx.pick(250, 4000)):
        ns = rng.choice([1, 1, 2, 3])
        st, ops = [], []
        for k in range(ns):
            dt = rng.choice(DTYPES)
            top = 80 if dt == 'uint8' else 300
            blen = rng.choice([1, 2, 7, 10, 16, 33, 100])
            mine = []
            for _ in range(rng.randrange(1, 7)):
                n = rng.choice([0, 1, blen - 1, blen, blen + 1, 2 * blen,
                                rng.randrange(0, 60)])
                if sum(mine) + n <= top:
                    mine.append(n)
            g = sum(mine)
            n = rng.choice([0, g, g, g + rng.choice([-1, 1, blen])])
            s = {'n': max(n, 0), 'blen': blen, 'given': g,
                 'ncols': rng.choice([1, 1, 2, 3]), 'dtype': dt}
            if s['n'] and rng.random() < 0.3:
                s['overwrite'] = 1
            st.append(s)
            ops += [[k, m] for m in mine]
        rng.shuffle(ops)
        cases.append({'kind': 'write', 'ops': ops, 'streams': st,
                      'handle': rng.random() < 0.3})
    for i in range(ctx.pick(250, 4000)):
        rs, ops = [], []
        for k in range(rng.choice([1, 1, 2, 3])):
            dt = rng.choice(DTYPES)
            size = rng.randrange(0, 80 if dt == 'uint8' else 250)
            subr = rng.random() < 0.5
            lo = rng.randrange(0, size + 1) if subr else 0
            hi = rng.randrange(lo, size + 1) if subr else size
            blen = rng.choice([1, 2, 3, 4, 7, 10, 16, 33, 100, 400])
            rs.append({'size': size, 'lo': lo, 'hi': hi, 'blen': blen,
                       'sub': int(subr), 'ncols': rng.choice([1, 1, 2, 3]),
                       'dtype': dt, 'portion': rng.choice([0.25, 0.25, 0.4, 0.75, 1.0, 0.01])})
            for _ in range(rng.randrange(0, 12)):
                ops.append([k, rng.choice([0, 1, 2, max(1, blen // 4), blen,
                                           max(1, blen - 1), blen + 1, 3 * blen,
                                           rng.randrange(1, 50)])])
        rng.shuffle(ops)
        cases.append({'kind': 'read', 'ops': ops, 'readers': rs,
                      'loop': rng.choice([0, 1, 7]), 'next': rng.random() < 0.5,
                      'handle': rng.random() < 0.3})
    # a dataset which exists already
    for i in range(ctx.pick(120, 1000)):
        has = [rng.randrange(1, 8), rng.choice([1, 2, 3]), rng.choice(DTYPES)]
        asks = list(has)
        for k in range(3):
            if rng.random() < 0.25:
                asks[k] = [rng.randrange(1, 8), rng.choice([1, 2, 3]), rng.choice(DTYPES)][k]
        fixed = int(rng.random() < 0.7)
        over = int(rng.random() < 0.6)
        cases.append({'kind': 'clash', 'has': has, 'asks': asks, 'fixed': fixed,
                      'overwrite': over, 'second': rng.random() < 0.3,
                      'blen': rng.choice([1, 2, 50]),
                      'same': int(has == asks)})
    validate(ctx, cases)
    return ASSUME


def C12(ctx):
    lib.model_check(ctx, 'ExtSort', SORT % ctx.pick((5, 2), (7, 2)))
    rng = ctx.rng
    e = exported(ctx, ops=1, rows=1, bufs=(1,), samplen=2,
                 sortn=ctx.pick(5, 7))
    cases = []

    def comps():
        return [[rng.choice(['data', 'data', 'key', 'z']), rng.choice([1, 1, 2, 3]),
                 rng.choice(['int64', 'int32', 'float64', 'float32', 'int16'])]
                for _ in range(rng.choice([0, 1, 1, 2, 3]))]

    def case(key, chunk, obuf):
        b = rng.choice([0, 0, 10 ** 17, -3])
        kd = 'int64' if b > 100 else rng.choice(['int64', 'int64', 'int32', 'float64'])
        c = {'kind': 'sort', 'key': list(key), 'chunk': chunk, 'obuf': obuf,
             'comp': comps(), 'base': b, 'kdtype': kd,
             'scale': rng.choice([1, 1, 3]),
             'keygroup': rng.choice(['key', 'g', 'a/b'])}
        if rng.random() < 0.4:
            spread(c)
        return c

    def spread(c):
        """keys over the whole range of a type, or very close floats"""
        ks = sorted(set(c['key']))
        t = rng.choice(['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64',
                        'int64', 'uint64', 'uint64', 'float64', 'float32'])
        if t == 'float64':
            v = [1 + k * 2. ** -52 for k in ks]
        elif t == 'float32':
            v = [k * 2. ** -40 - 2. ** -37 for k in ks]
        else:
            w = int(t.strip('uint'))
            lo, hi = (0, 2 ** w - 1) if t[0] == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            if hi - lo < 2 * len(ks):
                return
            if w < 32:
                v = sorted(rng.sample(range(lo, hi + 1), len(ks)))
            else:
                v = set()
                while len(v) < len(ks):
                    v.add(rng.randrange(lo, hi + 1))
                v = sorted(v)
            if rng.random() < 0.5 and ks:
                v[0], v[-1] = lo, hi
                v = sorted(set(v))
                if len(v) < len(ks):
                    return
        c['kdtype'] = t
        c['keymap'] = [[k, x] for k, x in zip(ks, v)]

    def accepted(n):
        return [c for c in range(1, n + 3) if c >= math.ceil(n / float(c))]
    keys = sub(ctx, e['sort'], ctx.pick(364, None))
    for k in keys:
        cs = accepted(len(k))
        for c in (cs if ctx.thorough and len(k) < 6 else rng.sample(cs, min(2, len(cs)))):
            cases.append(case(k, c, rng.choice([1, 2, 3, 10])))
    for i in range(ctx.pick(500, 6000)):
        n = rng.choice([rng.randrange(1, 12), rng.randrange(5, 60), rng.randrange(30, 200)])
        m = rng.choice([1, 2, 5, n, 4 * n])
        key = [rng.randrange(0, m + 1) for _ in range(n)]
        mode = rng.random()
        if mode < 0.1:
            key.sort()
        elif mode < 0.2:
            key.sort(reverse=True)
        elif mode < 0.3 and n > 3:      # blocks already ordered
            h = n // 2
            key = sorted(key[:h]) + sorted(key[h:])
        elif mode < 0.4 and n > 3:      # second chunk all below the first
            key.sort()
            key = key[n // 2:] + key[:n // 2]
        cs = accepted(n)
        c = rng.choice([cs[0], cs[min(1, len(cs) - 1)], rng.choice(cs), n, n + 2,
                        cs[min(3, len(cs) - 1)]])
        cases.append(case(key, c, rng.choice([1, 2, 7, n, 100])))
    validate(ctx, cases)
    return ASSUME + ['a buffer size is accepted when it gives at least one row '
                     'to each chunk']


def C13(ctx):
    lib.model_check(ctx, 'Sampler', SAMP % ctx.pick((6, 7), (9, 10)))
    rng = ctx.rng
    e = exported(ctx, ops=1, rows=1, bufs=(1,), sortn=1,
                 samplen=ctx.pick(8, 12))
    cases = []
    for n, k, s in e['sample']:
        for rel in (0, 1):
            for it in (0, 1):
                ops = [s] * ((n + s - 1) // s)
                cases.append({'kind': 'sample', 'N': n, 'K': k, 'rel': rel,
                              'iter': it, 'step': s if it else None, 'ops': ops,
                              'seed': rng.randrange(10 ** 6)})
    for i in range(ctx.pick(700, 8000)):
        N = rng.choice([rng.randrange(1, 30), rng.randrange(90, 130),
                        rng.randrange(100, 3000)])
        K = rng.choice([0, 1, N, N - 1, N // 2, rng.randrange(0, N + 1),
                        int(N * .6), min(N, int(N * .6) + 1)])
        c = {'kind': 'sample', 'N': N, 'K': K, 'rel': rng.randrange(2),
             'iter': int(rng.random() < 0.4), 'step': None, 'ops': [],
             'seed': rng.randrange(10 ** 6)}
        if c['iter']:
            c['step'] = rng.choice([None, rng.randrange(1, N + 5),
                                    max(1, N // rng.randrange(1, 6))])
            if c['step'] is None:
                c['rel'] = 0
        else:
            left = N
            while left > 0:
                n = rng.choice([1, left, left + 3, rng.randrange(1, left + 1),
                                max(1, left // 3)])
                c['ops'].append(n)
                left -= n
        cases.append(c)
    # more than 10^5 elements at a time, large populations
    for N, K, step in ctx.pick([(150000, 120000, None)],
                               [(150000, 120000, None), (400000, 230000, 300000),
                                (10 ** 9, 120000, 10 ** 9)]):
        cases.append({'kind': 'sample', 'N': N, 'K': K, 'rel': 0, 'iter': 0,
                      'ops': [step or N] * (1 if step is None else -(-N // step)),
                      'step': None, 'seed': 5, 'alone': 1})
    for i in range(ctx.pick(6, 40)):
        N = rng.choice([10 ** 6, 10 ** 8, 10 ** 9])
        cases.append({'kind': 'sample', 'N': N, 'K': rng.choice([1, 50, 400]),
                      'rel': 0, 'iter': 0, 'ops': [N // 3, N // 2, N],
                      'step': None, 'seed': i})
    # populations which need 64 bits: each sixteenth of them is drawn from
    for i in range(ctx.pick(14, 100)):
        N = rng.choice([2 ** 31, 2 ** 32, 2 ** 32 + 2 ** 20, 2 ** 33, 10 ** 12, 2 ** 40, 2 ** 48])
        parts = rng.choice([1, 1, 3, 16])
        cases.append({'kind': 'huge', 'big': N, 'N2': [N >> 24, N % (1 << 24)], 'K': 800,
                      'ops': [N // parts + 1] * parts, 'seed': rng.randrange(10 ** 6),
                      'rel': 0, 'iter': rng.randrange(2), 'alone': 1 if N > 10 ** 12 else 0})
    # every subset, every element
    C = math.comb
    subs = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (3, 2, 2), (4, 2, 1), (4, 2, 3),
            (5, 2, 2), (5, 3, 3), (5, 4, 2), (6, 3, 2), (6, 1, 4), (6, 2, 5),
            (5, 2, 0), (6, 3, 0), (4, 3, 0), (7, 2, 3)]
    if ctx.thorough:
        subs += [(8, 4, 3), (8, 3, 5), (9, 2, 4), (7, 5, 2), (9, 4, 0)]
    for N, K, s in subs:
        n = C(N, K)
        times = ctx.pick(120, 500) * n
        p = 1.0 / n
        sd = math.sqrt(times * p * (1 - p))
        ops = [] if s == 0 else [s] * (-(-N // s))
        cases.append({'kind': 'draws', 'N': N, 'K': K, 'ops': ops, 'times': times,
                      'each': 'subset', 'low': max(1, int(times * p - 7 * sd)),
                      'high': int(times * p + 7 * sd) + 1,
                      'seed': rng.randrange(10 ** 6), 'alone': 1 if n > 30 else 0})
    for N, K, s in [(101, 10, 0), (130, 60, 0), (130, 90, 0), (120, 30, 50),
                    (40, 13, 9), (250, 140, 0), (60, 45, 7)]:
        times = ctx.pick(1500, 8000)
        p = K / float(N)
        sd = math.sqrt(times * p * (1 - p))
        cases.append({'kind': 'draws', 'N': N, 'K': K, 'each': 'element',
                      'ops': [] if s == 0 else [s] * (-(-N // s)), 'times': times,
                      'low': max(1, int(times * p - 8 * sd)),
                      'high': int(times * p + 8 * sd) + 1,
                      'seed': rng.randrange(10 ** 6)})
    # populations and samples of many sizes: every element can be drawn
    sizes = [64, 100, 101, 127, 128, 192, 200, 255, 256, 257, 300, 320, 500, 512, 1000]
    for i in range(ctx.pick(45, 400)):
        N = rng.choice([rng.choice(sizes), rng.randrange(10, 400)])
        K = max(1, min(N, int(N * rng.choice([.1, .15, .25, .4, .59, .6, .61, .8])) + rng.choice([-1, 0, 1])))
        s = rng.choice([0, 0, 0, rng.randrange(max(1, N // 8), N + 1)])
        times = 500
        p = K / float(N)
        sd = math.sqrt(times * p * (1 - p))
        cases.append({'kind': 'draws', 'N': N, 'K': K, 'each': 'element',
                      'ops': [] if s == 0 else [s] * (-(-N // s)), 'times': times,
                      'low': max(1, int(times * p - 8 * sd)),
                      'high': int(times * p + 8 * sd) + 1,
                      'seed': rng.randrange(10 ** 6)})
    validate(ctx, cases, timeout=200)
    return ASSUME + ['the equal chances of the subsets are judged on counts, '
                     'within 7 standard deviations']


def C21(ctx):
    lib.model_check(ctx, 'Coding', 'SPECIFICATION Spec\nCONSTANTS MaxCols = %d\n '
                    'MaxLevels = 4\n MaxRows = 2\nINVARIANTS Restored Injective '
                    'InType RefusedOnlyIfTooBig\nCHECK_DEADLOCK FALSE\n'
                    % ctx.pick(3, 4))
    rng = ctx.rng
    cases = []
    for s in (0, 1):
        for how in (0, 1):
            for x in range(1, 66):
                for d in (-1, 0, 1):
                    cases.append({'kind': 'fit', 'e': x, 'd': d, 'signed': s, 'how': how})
    sty = [lambda i: 'l%d' % i, lambda i: u'\u0283%d' % i, lambda i: i,
           lambda i: 3 * i + 100, lambda i: 'a' * (i + 1)]
    for i in range(ctx.pick(700, 8000)):
        form = rng.choice(['dict', 'list'])
        nidx = rng.randrange(0, 4)
        labels = {}
        names = ['t%d' % k for k in range(nidx)]
        many = rng.random()
        for n in names:
            nl = rng.choice([1, 2, 3, 5])
            if many < 0.15:
                nl = rng.choice([16, 255, 256, 257])
            elif many < 0.3:
                nl = rng.choice([1, 2, 3, 127, 128, 129, 255, 256, 257, 300])
            elif many < 0.31:
                nl = rng.choice([1, 2, 40000, 65535, 65536, 65537])
            f = rng.choice(sty[:4] if nl > 50 else sty)
            labels[n] = [f(k) for k in range(nl)]
            if rng.random() < 0.5:
                rng.shuffle(labels[n])
        cols = []
        indexed = rng.random() < 0.5
        for n in names:
            if form == 'dict':
                for m in range(rng.choice([1, 1, 2])):
                    cols.append([rng.choice('xab') + n + str(m), 'idx', n, 1])
            else:
                cols.append([n, 'idx', n, 1])
        for k in range(rng.randrange(0 if cols else 1, 3)):
            cols.append([rng.choice('rm') + 'w%d' % k, 'raw', None, rng.choice([1, 1, 2])])
        if indexed:
            for c in cols:
                if c[1] == 'idx' and rng.random() < 0.2:
                    c[3] = 2
        rng.shuffle(cols)
        fused = {}
        idx = [c for c in cols if c[1] == 'idx']
        if len(idx) > 1 and rng.random() < 0.5:
            mem = rng.sample(idx, rng.randrange(1, len(idx) + 1))
            for c in mem:
                c[1] = 'fused'
            if len(mem) > 2 and rng.random() < 0.4:
                fused = {'fa': [c[0] for c in mem[:1]], 'fb': [c[0] for c in mem[1:]]}
            else:
                fused = {'fu': [c[0] for c in mem]}
        prod = 1
        for c in idx:
            prod *= len(labels[c[2]]) ** c[3]
        n = rng.choice([1, 2, 5, 12])
        rows = []
        for _ in range(n):
            r = []
            for c in cols:
                for _ in range(c[3]):
                    r.append(rng.choice([rng.randrange(len(labels[c[2]])), len(labels[c[2]]) - 1])
                             if c[2] is not None else rng.randrange(-50, 1000))
            rows.append(r)
        pieces, left = [], n
        while left:
            k = rng.randrange(1, left + 1)
            pieces.append(k)
            left -= k
        if 1 < prod and prod >= 2 ** 62:
            continue
        cases.append({'kind': 'table', 'cols': cols, 'labels': labels, 'fused': fused,
                      'form': form, 'rows': rows, 'pieces': pieces, 'indexed': indexed,
                      'asdict': rng.random() < 0.5, 'iterate': rng.random() < 0.4,
                      'group': rng.choice(['/', '/', 'grp', 'a/b']), 'refused': 0,
                      'smallbuf': rng.choice([0, 0, 1, 2, 3]), 'arrays': False})
    # very different numbers of levels in one table, in either order, the
    # last level of each being used
    for big in (256, 257, 300, 65536, 65537):
        for few in (1, 2):
            for form in ('dict', 'list'):
                for kind in ('idx', 'fused'):
                    for k in range(3):
                        nls = [few, few, few]
                        nls[k] = big
                        cols = [['t%d' % j, kind, 't%d' % j, 1] for j in range(3)]
                        cases.append({
                            'kind': 'table', 'cols': cols,
                            'labels': {'t%d' % j: list(range(x)) for j, x in enumerate(nls)},
                            'fused': {'fu': [c[0] for c in cols]} if kind == 'fused' else {},
                            'form': form,
                            'rows': [[x - 1 for x in nls], [0] * 3, [x // 2 for x in nls]],
                            'pieces': [2, 1], 'indexed': rng.random() < 0.5, 'asdict': True,
                            'iterate': False, 'refused': 0,
                            'smallbuf': rng.choice([0, 1]), 'arrays': False})
    # raw columns: the type is the one of the first piece
    lim = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-2 ** 15, 2 ** 15 - 1),
           'uint16': (0, 2 ** 16 - 1), 'int32': (-2 ** 26, 2 ** 26), 'int64': (-2 ** 26, 2 ** 26),
           'float32': (-2 ** 20, 2 ** 20), 'float64': (-2 ** 26, 2 ** 26), 'list': (-2 ** 26, 2 ** 26)}
    for i in range(ctx.pick(400, 4000)):
        one = rng.random() < 0.3
        tys = rng.sample(sorted(lim), rng.choice([1, 2, 2, 3]))
        cols = [['r%d' % k, 'raw', None, rng.choice([1, 1, 2])] for k in range(rng.choice([1, 1, 2]))]
        labels = {}
        if rng.random() < 0.4:
            labels = {'t': ['a', 'b', 'c']}
            cols.insert(rng.randrange(2), ['t', 'idx', 't', 1])
        pieces = [rng.choice([1, 2, 5]) for _ in range(rng.choice([1, 2, 3]))]
        types = [rng.choice(tys) for _ in pieces]
        small_ones = rng.random() < 0.4
        rows = []
        for n, ty in zip(pieces, types):
            lo, hi = lim[ty]
            for _ in range(n):
                r = []
                for c in cols:
                    for _ in range(c[3]):
                        if c[2] is not None:
                            r.append(rng.randrange(3))
                            continue
                        v = rng.choice([lo, hi, 0, 1, 100, 127, 128, 255, 256, 40000, rng.randrange(lo, hi + 1)])
                        if small_ones:
                            v = rng.randrange(0, 100)
                        v = 8 * max(lo, min(hi, v))
                        if ty[0] not in 'iu' and rng.random() < 0.3 and not one:
                            v += rng.randrange(-4, 5)
                        r.append(v)
                rows.append(r)
        first = types[0]
        lo, hi = lim[first]
        # how wide the widest types are makes no difference here
        wide = first in ('int32', 'int64', 'float64', 'list')
        whole = first[0] in 'iu'
        raw, j = [], 0
        for c in cols:
            raw += [int(c[2] is None)] * c[3]
        cases.append({'kind': 'table', 'cols': cols, 'labels': labels, 'fused': {},
                      'form': 'dict' if rng.random() < 0.5 else 'list', 'rows': rows,
                      'pieces': pieces, 'types': types, 'indexed': rng.random() < 0.5,
                      'asdict': True, 'iterate': rng.random() < 0.4, 'refused': 2, 'raw': raw,
                      'lo': 8 * (-2 ** 26 if wide else lo), 'hi': 8 * (2 ** 26 if wide else hi),
                      'step': 8 if whole else 1, 'smallbuf': rng.choice([0, 0, 1, 2, 3]),
                      'arrays': False})
    for k, (nl, nc, ref) in enumerate([(256, 8, 0), (256, 9, 1), (65536, 4, 0), (65536, 5, 1),
                                       (4, 31, 0), (4, 33, 1), (255, 8, 0)]):
        names = ['c%02d' % j for j in range(nc)]
        cases.append({'kind': 'table', 'cols': [[x, 'fused', 't', 1] for x in names],
                      'labels': {'t': list(range(nl))}, 'fused': {'fu': names},
                      'form': 'dict', 'rows': [[nl - 1] * nc, [0] * nc, [nl - 1] + [0] * (nc - 1),
                                               [0] * (nc - 1) + [nl - 1]],
                      'pieces': [4], 'indexed': True, 'asdict': True, 'iterate': False,
                      'refused': ref, 'arrays': False})
    validate(ctx, cases)
    return ASSUME
