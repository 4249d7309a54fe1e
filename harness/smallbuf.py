"""Makes the internal buffers small, so that small tasks cross them: the
default sizes are replaced where the callers leave them out.  What the code
computes does not depend on them.  Everything that cannot be adjusted (another
name, another signature) is left as it is."""
import contextlib
import inspect

import h5py
import numpy as np


def _wrap(cls, name, size, done):
    f = cls.__dict__.get(name)
    if f is None:
        return
    try:
        sig = inspect.signature(f)
    except (TypeError, ValueError):
        return
    if 'buf_size' not in sig.parameters:
        return

    def g(self, *a, **k):
        try:
            b = sig.bind(self, *a, **k)
            if 'buf_size' not in b.arguments:
                k = dict(k, buf_size=size(self, b.arguments))
        except Exception:
            pass
        return f(self, *a, **k)
    setattr(cls, name, g)
    done.append((cls, name, f))


@contextlib.contextmanager
def small(rows):
    """buffers of `rows` rows, sorts in several chunks"""
    done = []
    if rows:
        try:
            from ABXpy.h5tools import np2h5, h52np, h5_handler

            def wsize(self, b):
                return rows * np.dtype(b.get('item_type', np.int64)).itemsize * b['n_columns'] / 1000.

            def rsize(self, b):
                d = self.file[b['group']][b['dataset']]
                return rows * d.dtype.itemsize * d.shape[1] / 1000.
            _wrap(np2h5.NP2H5, 'add_dataset', wsize, done)
            _wrap(h52np.H52NP, 'add_dataset', rsize, done)
            _wrap(h52np.H52NP, 'add_subdataset', rsize, done)
            _wrap_sort(h5_handler.H5Handler, done)
        except Exception:
            pass
    try:
        yield
    finally:
        for cls, name, f in reversed(done):
            setattr(cls, name, f)


def _wrap_sort(cls, done):
    init, sort = cls.__dict__.get('__init__'), cls.__dict__.get('sort')
    if init is None or sort is None:
        return
    sig = inspect.signature(sort)
    if 'buffer_size' not in sig.parameters:
        return

    def new_init(self, *a, **k):
        init(self, *a, **k)
        self._vf_args = inspect.signature(init).bind(self, *a, **k).arguments

    def new_sort(self, *a, **k):
        try:
            b = sig.bind(self, *a, **k)
            v = [x for x in self._vf_args.values() if isinstance(x, str)]
            with h5py.File(v[0], 'r') as f:
                d = f[v[1]][v[2]]
                n, w = d.shape[0], d.dtype.itemsize * d.shape[1]
            if len(v) == 3 and n > 3:
                r = int(np.ceil(np.sqrt(n))) + 1
                b.arguments['buffer_size'] = r * w / 1000.
                a, k = b.args[1:], b.kwargs
        except Exception:
            pass
        return sort(self, *a, **k)
    cls.__init__, cls.sort = new_init, new_sort
    done.append((cls, '__init__', init))
    done.append((cls, 'sort', sort))
