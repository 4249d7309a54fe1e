"""Random and boundary tasks (the exhaustive families come from AbxTasks)."""


def v(col, ext):
    return {'col': col, 'ext': ext}


def default_regs(on, across):
    r = [v(on, '1'), v(on, '2')]
    for c in across:
        r += [v(c, '1'), v(c, '2')]
    return r


def make(items, on=1, across=(), by=(), filters=(), regs=(), thr=0, **kw):
    n = len(items[0])
    role = ['other'] * n
    role[on - 1] = 'on'
    for c in across:
        role[c - 1] = 'across'
    for c in by:
        role[c - 1] = 'by'
    case = dict(items=[list(r) for r in items], on=on, across=list(across),
                by=list(by), role=role, filters=list(filters),
                regs=list(regs) + default_regs(on, across), thr=thr)
    case.update(kw)
    return case


STYLES = ['int', 'str', 'chr', 'uni', 'flt', 'big', 'neg', 'mix', 'len',
          'case', 'odd', 'long']


def random_items(rng, n, ncols, nlab):
    cols = []
    for c in range(ncols):
        k = rng.choice(nlab)
        mode = rng.random()
        if mode < 0.2:      # skewed
            col = [min(rng.randrange(k), rng.randrange(k)) for _ in range(n)]
        elif mode < 0.3:    # sorted
            col = sorted(rng.randrange(k) for _ in range(n))
        else:
            col = [rng.randrange(k) for _ in range(n)]
        cols.append(col)
    items = [list(r) for r in zip(*cols)]
    if rng.random() < 0.3 and n > 2:   # repeated items
        for _ in range(rng.randrange(1, 3)):
            items[rng.randrange(n)] = list(items[rng.randrange(n)])
    return items


def random_filter(rng, role, nlab, numeric=True):
    ncols = len(role)

    def ext(c, generic):
        if generic:
            return ''
        e = ['A', 'B', 'X']
        if role[c - 1] in ('on', 'across'):
            e += ['1', '2']
        elif role[c - 1] == 'by':
            e += ['']
        return rng.choice(e)
    generic = rng.random() < 0.3
    ops = ['in', 'notin', 'eq', 'ne']
    if numeric:
        ops += ['lt', 'mod', 'mod', 'col']
    op = rng.choice(ops)
    nv = {'in': 1, 'notin': 1, 'col': 1, 'eq': 2, 'ne': 2, 'lt': 2}.get(op) \
        or rng.choice([1, 2, 3])
    vs = []
    for _ in range(nv):
        c = rng.randrange(1, ncols + 1)
        vs.append(v(c, ext(c, generic)))
    # a comparison of a variable with itself is not interesting
    if nv == 2 and vs[0] == vs[1]:
        return random_filter(rng, role, nlab, numeric)
    if not generic and any(x['ext'] == '' and role[x['col'] - 1] != 'by' for x in vs):
        return random_filter(rng, role, nlab, numeric)
    if op in ('in', 'notin'):
        args = sorted(rng.sample(range(max(nlab)), rng.randrange(1, max(nlab))))
    elif op == 'mod':
        m = rng.choice([2, 3])
        args = [m] + sorted(rng.sample(range(m), rng.randrange(1, m)))
    else:
        args = []
    return {'vars': vs, 'op': op, 'args': args}


NAMES = ['phone', 'Talker', 'context', 'A', 'X', 'B', 'Word', 'x1', 'CONTEXT',
         'Nasal2', 'talker', 'pitchClass', 'i', 'e', 'T', 'AX', 'Phone']


def ancestors(aux, c):
    up = {a['col']: a['parent'] for a in aux}
    out = [c]
    while c in up:
        c = up[c]
        out.append(c)
    return out


def roles(case):
    """role of every column: a column of an auxiliary file has the role of the
    column it refines"""
    aux = case.get('aux', [])
    direct = {case['on']: 'on'}
    direct.update({c: 'across' for c in case['across']})
    direct.update({c: 'by' for c in case['by']})
    res = []
    for c in range(1, len(case['items'][0]) + 1):
        r = [direct[a] for a in ancestors(aux, c) if a in direct]
        res.append(r[0] if r else 'other')
    return res


def default_aux(case, names):
    """default regressors: on, and every column determined by an across"""
    r = [v(case['on'], '1'), v(case['on'], '2')]
    cols = [c for c in range(1, len(case['items'][0]) + 1)
            if set(ancestors(case.get('aux', []), c)) & set(case['across'])]
    for c in sorted(cols, key=lambda c: names[c - 1]):
        r += [v(c, '1'), v(c, '2')]
    return r


def close_aux(case):
    """the label of a column of an auxiliary file is a function of the label
    of the column it refines"""
    for a in case.get('aux', []):
        f = {}
        for row in case['items']:
            row[a['col'] - 1] = f.setdefault(row[a['parent'] - 1], row[a['col'] - 1])


def random_task(rng, nmax=12, filters=0, regs=0, thr=0, ncols=None, nlab=(2, 2, 3),
                style=None, nmin=3, aux=None):
    nc = ncols or rng.choice([3, 4, 4, 5])
    naux = aux if aux is not None else rng.choice([0, 0, 0, 1, 2])
    if naux:
        nc = max(nc, 4)
    tree = []
    for c in range(nc - naux + 1, nc + 1):
        tree.append({'col': c, 'parent': rng.randrange(1, c)})
    cols = list(range(1, nc + 1))
    rng.shuffle(cols)
    taken = []

    def pop():
        """a column which is not determined by, and does not determine, those
        already used"""
        while cols:
            c = cols.pop()
            if not any(c in ancestors(tree, t) or t in ancestors(tree, c) for t in taken):
                taken.append(c)
                return [c]
        return []
    on = pop()[0]
    across = sum([pop() for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))], [])
    by = sum([pop() for _ in range(rng.choice([0, 1, 1, 2]))], [])
    if len(across) > 2:
        across = across[:3] if rng.random() < 0.5 else across[:2]
    n = rng.randrange(nmin, nmax + 1)
    items = random_items(rng, n, nc, nlab)
    case = make(items, on, across, by)
    items = case['items']
    names = ['c%d' % c for c in range(1, nc + 1)]
    if rng.random() < 0.4:
        names = rng.sample(NAMES, nc)
        case['cols'] = names
    if naux:
        case['aux'] = tree
        close_aux(case)
        case['role'] = roles(case)
        case['regs'] = default_aux(case, names)
        case['ndef'] = len(case['regs'])
    if filters:
        numeric = style is None and rng.random() < 0.65
        if numeric:
            st = 'int'
        else:
            st = style or rng.choice(STYLES)
        case['styles'] = [st] * nc
        case['filters'] = [random_filter(rng, case['role'], nlab, numeric)
                           for _ in range(filters)]
        # a column may be used as a filter when it holds booleans
        for f in case['filters']:
            if f['op'] == 'col':
                c = f['vars'][0]['col'] - 1
                case['styles'][c] = 'bool'
                for row in items:
                    row[c] %= 2
                for g in case['filters']:
                    if g['op'] in ('in', 'notin') and g['vars'][0]['col'] == c + 1:
                        g['args'] = g['args'][:1] if g['args'][0] < 2 else [0]
        case['items'] = [list(r) for r in items]
        close_aux(case)
        case['fform'] = [rng.randrange(5) for _ in case['filters']]
    else:
        case['styles'] = [style or rng.choice(STYLES) for _ in range(nc)]
    if regs:
        pool = []
        for c in range(1, nc + 1):
            pool += [v(c, e) for e in 'ABX']
            if case['role'][c - 1] == 'by':
                pool += [v(c, '')]
        extra = rng.sample(pool, min(len(pool), regs))
        case['regs'] = extra + case['regs']
    case['thr'] = thr
    case['form'] = rng.randrange(2)
    case['nfiles'] = rng.choice([1, 3, 100])
    case['verbose'] = rng.random() < 0.1
    case['tmpdir'] = rng.random() < 0.1
    return case


# ------------------------------------------------------- boundary tasks

def no_across(n, levels=2, by=1):
    """n items, balanced on levels, no across, `by` by values"""
    return make([[i % levels, (i // levels) % by] for i in range(n)], 1, [],
                [2] if by > 1 else [])


def product(m, on=2):
    """one item for each (on, across): all the pairs are different"""
    return make([[o, a] for a in range(m) for o in range(on)], 1, [2], [])


def sparse(n, tail=((0, 0), (1, 0), (0, 1)), extra=0):
    """n items with no possible triplet, then a few which have some"""
    items = [[10 + i, 10 + i, 0] for i in range(n)]
    items += [[a, b, 0] for a, b in tail]
    items += [[1000 + i, 1000 + i, 0] for i in range(extra)]
    return make(items, 1, [2], [3])


def high(n, extra=0):
    """as sparse, the triplets come from the labels which are sorted last"""
    c = sparse(n, ((5000, 5000), (5001, 5000), (5000, 5001), (5001, 5001)), extra)
    return c


def last(n):
    """n items in one block; the triplets, few, use the last items and the
    first one"""
    lab = [[10 + i, 10 + i] for i in range(n)]
    lab[0] = [0, 1]
    for k, t in enumerate([[0, 0], [1, 0], [1, 1], [0, 1]]):
        lab[n - 4 + k] = t
    return make(lab, 1, [2], [])


def kept(n, first, k, last=0):
    """n items in one block, a filter on items keeps those from `first` on"""
    items = [[i % 3, (i // 3) % 2, 0] for i in range(n)]
    for i in list(range(first, first + k)) + list(range(n - last, n)):
        items[i][2] = 1
    return make(items, 1, [2], [], filters=[
        {'vars': [v(3, '')], 'op': 'in', 'args': [1]}])


def many_by(nby, size, levels=2):
    """many by values, of a few items each"""
    return make([[i % levels, 0, b] for b in range(nby)
                 for i in range(size - (b % 3 if size > 4 else 0))], 1, [], [3])


def many_by_across(nby, extra=0):
    """many by values with an across; some have no triplet"""
    items = []
    for b in range(nby):
        items += [[0, 0, b], [1, 0, b], [0, 1, b]] if b % 7 else [[0, 0, b], [1, 1, b]]
        items += [[1, 1, b]] * (b % 2) + [[0, 0, b]] * extra
    return make(items, 1, [2], [3])


def uneven(*sizes):
    """by values of the sizes given; the large ones have few triplets"""
    items = []
    for b, n in enumerate(sizes):
        few = n if n <= 30 else 4
        items += [[10 + i, 10 + i, b] for i in range(n - few)]
        items += [[i % 2, (i // 2) % 2, b] for i in range(few)]
    return make(items, 1, [2], [3])


def joined(*sizes):
    """by values such that the first pair of one has the code of the last pair
    of the one before"""
    items = []
    for b, k in enumerate(sizes):
        items += [[0, 2 * b]] * (k - 1) + [[1, 2 * b]]
        items += [[1, 2 * b + 1]] + [[0, 2 * b + 1]] * (k * k - k - 2)
    return make([list(r) for r in items], 1, [], [2])


def ids(n, cols, groups=1):
    """columns with a different label for each item, as regressors of B and X"""
    items = [[i % 2, (i // 2) % 2] + [(i * (7 + 2 * k)) % n for k in range(cols)]
             for i in range(n)]
    regs = [v(3 + k, e) for k in range(cols) for e in 'BX']
    return make(items, 1, [2], [], regs=regs)


def sparse_ids(n, cols, tail=12):
    """n labels in `cols` columns, regressors of B and X; a few items have
    triplets, which differ by the last column only"""
    items = [[10 + i, 10 + i] + [i] * cols for i in range(n)]
    items += [[i % 2, (i // 2) % 2] + [n - 1] * (cols - 1) + [n - 1 - i] for i in range(tail)]
    regs = [v(3 + k, e) for k in range(cols) for e in 'BX']
    return make(items, 1, [2], [], regs=regs)


def blocks(a, b, x, tail=0):
    """one on/across block of a items A, b items B and x items X, so that the
    number of triplets and the partial products take chosen values"""
    items = [[0, 0]] * a + [[1, 0]] * b + [[0, 1]] * x
    items += [[0, 0], [1, 0], [0, 1]][:tail]
    return make([list(r) for r in items], 1, [2], [])


WIDTH = [(6, 9, 8), (16, 15, 2), (2, 16, 15), (15, 2, 16), (4, 8, 8), (5, 17, 3),
         (3, 5, 17), (17, 3, 5), (130, 1, 2), (1, 130, 2), (2, 1, 130), (11, 12, 1),
         (1, 12, 11), (7, 6, 6)]
WIDE = [(2, 256, 129), (41, 40, 40), (129, 2, 255), (256, 128, 2), (1, 256, 256)]
