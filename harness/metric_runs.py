"""Calls of the distances, recorded as integers."""
import math

import numpy as np

INF = 1000000000


def units(v, unit, tol=1e-6):
    """v as an integer number of units, -1 when it is not"""
    v = float(v)
    if v == float('inf'):
        return INF
    q = v / unit
    if q != q or abs(q) > 1e8:
        return -1
    r = int(round(q))
    return r if abs(q - r) < tol * max(1.0, abs(q)) else -1


def run(case, d):
    try:
        with np.errstate(all='ignore'):
            e = {'dtw': dtw, 'edit': edit, 'empty': empty, 'utw': utw,
                 'cos': cos, 'mat': mat, 'mono': mat, 'kl': kl,
                 'hel': hel, 'val': value}[case['kind']](case)
    except Exception as x:
        return [{'ev': 'Call', 'outcome': type(x).__name__}]
    e.update(ev='Call', outcome='ok')
    return [e]


def arr(a, dtype='float64', ncols=None):
    a = np.array(a, dtype=dtype)
    return a.reshape(a.shape[0], -1) if a.size else np.zeros((0, ncols or 2), dtype)


def lengths(v, case, unit):
    """value * L for each possible length of a path"""
    n, m = len(case['d']), len(case['d'][0])
    return [units(v * L, unit, 1e-7) if L >= max(n, m) else -1
            for L in range(1, n + m)]


DIRS = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (0, 0)]


def dtw(case):
    how = case['how']
    norm = bool(case['norm'])
    if how in ('metric', 'matrix'):
        import ABXpy.distances.metrics.dtw as dt
        D = np.array(case['d'], dtype=float) * case['unit']
        if case.get('order') == 'F':
            D = np.asfortranarray(D)
        n, m = D.shape
        if how == 'matrix':
            v = dt._dtw(n, m, D, norm)
        else:
            def metric(x, y):
                return np.array([[D[int(a[0]), int(b[0]) - 1000] for b in y] for a in x])
            x = np.arange(n, dtype=float).reshape(n, 1)
            y = 1000 + np.arange(m, dtype=float).reshape(m, 1)
            v = dt.dtw(x, y, metric, norm)
        unit = case['unit']
    else:
        f = function(how)
        if 'kl' in how:
            x = arr([[3., 1.] if k else [1., 3.] for k in case['x']], case['dtype'])
            y = arr([[3., 1.] if k else [1., 3.] for k in case['y']], case['dtype'])
            unit = 0.5 * math.log(3)
        else:
            x = arr([DIRS[k] for k in case['x']], case['dtype'])
            y = arr([DIRS[k] for k in case['y']], case['dtype'])
            unit = 0.25
        if case.get('scales'):
            x *= np.array(case['scales'][:len(x)], dtype=x.dtype).reshape(-1, 1)
        v = f(x, y, normalized=case['norm'] if case.get('asint') else norm)
    tol = 1e-7 if how in ('metric', 'matrix') else 2e-3
    if not norm:
        return {'v': [units(v, unit, tol)]}
    n, m = len(case['d']), len(case['d'][0])
    return {'v': [units(v * L, unit, tol) if L >= max(n, m) else -1
                  for L in range(1, n + m)]}


def function(name):
    import ABXpy.distance
    import ABXpy.distances.example_distances as ex
    return {'default': ABXpy.distance.default_distance,
            'dtw_kl': ABXpy.distance.dtw_kl_distance,
            'edit': ABXpy.distance.edit_distance,
            'ex_cosine': ex.dtw_cosine, 'ex_kl': ex.dtw_kl_divergence}[name]


def edit(case):
    t = case['table']
    x, y = (arr([t[k] for k in case[s]], case['dtype'], len(t[0])) for s in 'xy')
    return {'v': [units(function('edit')(x, y), 1)]}


def empty(case):
    x, y = (np.ones((case[s], 3)) for s in 'nm')
    f = function(case['how'])
    v = f(x, y) if case['how'] == 'edit' else f(x, y, normalized=case['norm'])
    return {'v': [units(v, 1)]}


def utw(case):
    from ABXpy.distances.metrics.utw import utw as f
    D = np.array(case['d'])
    n, m = D.shape

    def div(a, b):
        """symmetric: the rows tell which sequence they come from"""
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise ValueError('shapes')
        res = []
        for p, q in zip(a[:, 0], b[:, 0]):
            i, j = (p, q) if p < 1000 else (q, p)
            res.append(D[int(i), int(j) - 1000])
        return np.array(res).reshape((-1, 1) if case['column'] else -1)
    x = np.arange(n).reshape(n, 1).astype(case['dtype'])
    y = (1000 + np.arange(m)).reshape(m, 1).astype(case['dtype'])
    v = f(y, x, div) if case['swap'] else f(x, y, div)
    return {'v': [units(v * 2, 1)]}


# -------------------------------------------------------------- frames

def ranks(mats, tol=1e-7):
    """ranks of the values of several matrices, 0 for 0, -1 for NaN"""
    vals = np.concatenate([np.asarray(m, dtype=float).reshape(-1) for m in mats])
    vals = np.unique(vals[~np.isnan(vals)])
    cuts, last = [0.0], 0.0
    for v in vals:      # a gap between two values next to each other
        if v - last > tol * max(1.0, abs(v)):
            cuts.append(float(v))
        last = max(last, float(v))
    cuts = np.array(cuts)

    def rank(v):
        if v != v:
            return -1
        if v < -tol:
            return -2
        k = int(np.searchsorted(cuts, v, side='right')) - 1
        return max(k, 0)
    return [[[rank(v) for v in r] for r in np.asarray(m, dtype=float)] for m in mats]


def cos(case):
    from ABXpy.distances.metrics.cosine import cosine_distance
    x, y = arr(case['x'], case['dtype']), arr(case['y'], case['dtype'])
    if case.get('scales'):
        x *= np.array(case['scales'][:len(x)], dtype=x.dtype).reshape(-1, 1)
    m = cosine_distance(x, y)
    if m.shape != (len(x), len(y)):
        raise ValueError('shape')
    tol = 2e-2 if case['dtype'] == 'float32' else 1e-5
    return {'v': ranks([m], tol)[0],
            'a': [[units(v, 1 / 12., tol) for v in r] for r in m]}


def metric(case):
    import ABXpy.distances.metrics.kullback_leibler as k
    import ABXpy.distances.metrics.cosine as c
    name, kw = case['how'], case.get('kw') or {}
    f = {'cosine': c.cosine_distance, 'ncosine': c.normalize_cosine_distance,
         'kl': k.kl_divergence, 'js': k.js_divergence,
         'sqrtjs': k.sqrt_js_divergence, 'hellinger': k.hellinger_distance}[name]
    return (lambda x, y: f(x, y, **kw)), k


def mat(case):
    f, k = metric(case)
    x, y = arr(case['x'], case['dtype']), arr(case['y'], case['dtype'])
    if case.get('unit'):
        x, y = (a / a.sum(1).reshape(-1, 1) for a in (x, y))
    x0, y0 = x.copy(), y.copy()
    full = np.array(f(x, y))
    mutated = int(not (np.array_equal(x, x0) and np.array_equal(y, y0)))
    if full.shape != (len(x), len(y)):
        raise ValueError('shape')
    alone = np.array([[f(x0[i:i + 1].copy(), y0[j:j + 1].copy())[0, 0]
                       for j in range(len(y))] for i in range(len(x))])
    mats = [full, alone, np.array(f(y0.copy(), x0.copy()))]
    if case['scale']:
        s = np.array(case['scales'], dtype=x.dtype)
        mats.append(np.array(f(x0 * s[:len(x)].reshape(-1, 1),
                               y0 * s[-len(y):].reshape(-1, 1))))
    if case['ptw']:
        g = k.js_ptwise if case['how'] in ('js', 'sqrtjs') else k.kl_ptwise
        xn, yn = (a / a.sum(1).reshape(-1, 1) for a in (x0, y0))
        pw = np.array([[g(a, b) for b in yn] for a in xn])
        if case['how'] == 'sqrtjs':
            pw = np.sqrt(np.maximum(pw, 0))
        if case['how'] == 'kl' and case['sym']:
            pw = 0.5 * pw + 0.5 * np.array([[g(b, a) for b in yn] for a in xn])
        mats.append(pw)
    tol = case.get('tol', 1e-7)
    if case['how'] in ('sqrtjs', 'hellinger', 'cosine', 'ncosine'):
        tol = max(tol, 3e-7)       # square root of a rounding error
    if case['dtype'] == 'float32':
        tol = 2e-3
    r = ranks(mats, tol)
    e = {'full': r[0], 'alone': r[1], 'swapped': r[2], 'mutated': mutated}
    e['scaled'] = r[3] if case['scale'] else []
    e['pointwise'] = r[-1] if case['ptw'] else []
    return e


def kl(case):
    import ABXpy.distances.metrics.kullback_leibler as k
    x, y = (arr([[3. ** a * s, 1. * s] for a, s in zip(case[v], case['scales'])],
                case['dtype']) for v in 'xy')
    m = k.kl_divergence(x, y)
    u = 0.5 * math.log(3) / 20
    tol = 1e-6 if case['dtype'] == 'float64' else 2e-3
    return {'v': [[units(v, u, tol) for v in r] for r in m]}


def hel(case):
    import ABXpy.distances.metrics.kullback_leibler as k
    x, y = (arr([[u * u * s, v * v * s] for (u, v, h), s in zip(case[w], case['scales'])],
                case['dtype']) for w in 'xy')
    m = k.hellinger_distance(x, y)
    tol = 1e-6 if case['dtype'] == 'float64' else 2e-3
    return {'v': [[units(m[i, j] ** 2 * case['x'][i][2] * case['y'][j][2], 1, tol)
                   for j in range(len(y))] for i in range(len(x))]}


def value(case):
    """values in 1e-5 (of the squares, for the distances which are roots)"""
    import ABXpy.distances.metrics.kullback_leibler as k
    import ABXpy.distances.metrics.cosine as c
    how = case['how']
    x, y = (arr(case[s], case['dtype']) for s in 'xy')
    for a, s in ((x, case['scales'][:len(x)]), (y, case['scales'][-len(y):])):
        a *= np.array(s, dtype=a.dtype).reshape(-1, 1)

    def fix(v):
        v = float(v)
        return int(round(v * 1e5)) if v == v and abs(v) < 1e4 else -999999999
    if how == 'dtwkl':
        return {'v': fix(function(case['via'])(x, y, normalized=False))}
    if case.get('nonorm'):
        x, y = (a / a.sum(1).reshape(-1, 1) for a in (x, y))
    kw = {'normalize': False} if case.get('nonorm') else {}
    if how == 'kl':
        m = k.kl_divergence(x, y, symmetrized=False, thresholded=case['thr'], **kw)
    elif how == 'symkl':
        m = k.kl_divergence(x, y, thresholded=case['thr'], **kw)
    elif how == 'js':
        m = k.sqrt_js_divergence(x, y) ** 2 if case['root'] else k.js_divergence(x, y, **kw)
    elif how == 'hellinger':
        m = k.hellinger_distance(x, y) ** 2
    else:
        m = c.cosine_distance(x, y)
    m = np.asarray(m)
    if m.shape != (len(x), len(y)):
        raise ValueError('shape')
    return {'v': [[fix(v) for v in r] for r in m]}
