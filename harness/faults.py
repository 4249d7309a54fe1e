"""Failures of the storage, at the nth call of one of its entry points."""
import contextlib
import os

import h5py
import tables


@contextlib.contextmanager
def failing(kind, at):
    """kind: open (h5py or pytables file), create (dataset), write (dataset),
    sync: closing is not a failure. Yields a list with the number of calls
    seen and 1 if the failure happened."""
    st = [0, 0]

    def trip():
        st[0] += 1
        if st[0] == at:
            st[1] = 1
            raise OSError(28, 'injected failure')
    done = []

    def wrap(cls, name):
        f = cls.__dict__[name]

        def g(self, *a, **k):
            trip()
            return f(self, *a, **k)
        setattr(cls, name, g)
        done.append((cls, name, f))
    if kind == 'open':
        wrap(h5py.File, '__init__')
        wrap(tables.File, '__init__')
    elif kind == 'create':
        wrap(h5py.Group, 'create_dataset')
    elif kind == 'write':
        wrap(h5py.Dataset, '__setitem__')
    elif kind == 'read':
        wrap(h5py.Dataset, '__getitem__')
    try:
        yield st
    finally:
        for cls, name, f in reversed(done):
            setattr(cls, name, f)
