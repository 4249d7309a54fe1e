"""A small project (items, features) and its stages, called through the
Python functions or the command line."""
import contextlib
import hashlib
import os
import runpy
import subprocess
import sys
import tempfile
import warnings

import h5py
import numpy as np

REPO = '/repo'


def items(path, n=20, seed=0, cols=('c1', 'c2', 'c3')):
    rng = np.random.RandomState(seed)
    with open(path, 'w') as f:
        f.write('#file onset offset #%s %s %s\n' % tuple(cols))
        for i in range(n):
            f.write('f%d %s %s %s %s %s\n' % (
                i % 3, i // 3, i // 3 + 0.6, 'abc'[rng.randint(3)] if i > 3 else 'ab'[i % 2],
                'st'[rng.randint(2)] if i > 3 else 'st'[i // 2], rng.randint(2) if i > 3 else 0))


def features(path, nf=3, nt=32, dim=3, seed=0):
    import h5features
    rng = np.random.RandomState(seed)
    t = [np.arange(nt) * 0.25 for _ in range(nf)]
    x = [rng.rand(nt, dim) + 0.1 for _ in range(nf)]
    h5features.write(path, 'features', ['f%d' % i for i in range(nf)], t, x)


# ------------------------------------------------------------- digests

def _feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(('%s%s' % (x.dtype, x.shape)).encode())
        if x.dtype == object:
            for v in x.reshape(-1):
                _feed(h, v)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, bytes):
        h.update(b'b' + x)
    else:
        h.update(repr(x).encode('utf8'))


def digest(path, only=None):
    """digest of what a file holds (for HDF5, not of its bytes)"""
    if not os.path.exists(path):
        return ''
    h = hashlib.sha1()
    try:
        with h5py.File(path, 'r') as f:
            def visit(name, obj):
                h.update(name.encode('utf8'))
                for k in sorted(obj.attrs):
                    h.update(k.encode('utf8'))
                    try:
                        _feed(h, obj.attrs[k])
                    except (TypeError, OSError):
                        pass
                if isinstance(obj, h5py.Dataset):
                    _feed(h, obj[...] if obj.shape != () else obj[()])
            visit('/', f)
            f.visititems(visit)
    except OSError:
        with open(path, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:12]


def task_digest(path):
    """what a task file says of its by values (not the groups of by values
    which have no triplet)"""
    if not os.path.exists(path):
        return ''
    h = hashlib.sha1()
    with h5py.File(path, 'r') as f:
        bys = f['bys'][...]
        names = [b.decode('utf8') if isinstance(b, bytes) else str(b) for b in bys]
        _feed(h, bys)
        _feed(h, f['triplets/data'][...])
        _feed(h, f['triplets/by_index'][...])
        _feed(h, f['unique_pairs/data'][...])
        for b in names:
            _feed(h, f['unique_pairs'].attrs[b])

            def visit(name, obj):
                h.update(name.encode('utf8'))
                if isinstance(obj, h5py.Dataset):
                    _feed(h, obj[...] if obj.shape != () else obj[()])
            for g in ('regressors', 'feat_dbs'):
                f[g][b].visititems(visit)
    return h.hexdigest()[:12]


def rawdigest(path):
    with open(path, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()[:12]


# ------------------------------------------------------------- command line

def cli(tool, args, real=False, cwd=None, env=None):
    """runs a command line tool; returns (success, output, warnings)"""
    script = os.path.join(REPO, 'ABXpy', tool + '.py')
    args = [str(a) for a in args]
    if real:
        e = dict(os.environ)
        e.update(env or {})
        e['PYTHONWARNINGS'] = 'default'
        p = subprocess.run([sys.executable, script] + args, env=e, cwd=cwd,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        return p.returncode == 0, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    # real files: the progress display asks for their descriptors
    out, errs = tempfile.TemporaryFile('w+'), tempfile.TemporaryFile('w+')
    argv, path, here = sys.argv, list(sys.path), os.getcwd()
    stdin, sys.stdin = sys.stdin, open(os.devnull)    # exit() closes it
    sys.argv = [script] + args
    ok = True
    if cwd:
        os.chdir(cwd)
    try:
        with warnings.catch_warnings(record=True) as ws, \
                contextlib.redirect_stdout(out), contextlib.redirect_stderr(errs):
            warnings.simplefilter('always')
            try:
                runpy.run_path(script, run_name='__main__')
            except SystemExit as x:
                ok = x.code in (None, 0)
            except Exception as x:
                ok = False
                errs.write('%s: %s' % (type(x).__name__, x))
    finally:
        sys.stdin.close()
        sys.argv, sys.path[:], sys.stdin = argv, path, stdin
        if cwd:
            os.chdir(here)
    said = ''.join('%s: %s\n' % (w.category.__name__, w.message) for w in ws)
    texts = []
    for f in (out, errs):
        f.seek(0)
        texts.append(f.read())
        f.close()
    return ok, texts[0], texts[1] + said


def api(f):
    """(success, result, name of the exception)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return True, f(), ''
    except Exception as x:
        return False, None, type(x).__name__
