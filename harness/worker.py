"""Runs cases of the real code: one JSON case per line on stdin, the recorded
events on stdout. Everything is written below the scratch directory given as
argument."""
import gc
import json
import os
import sys
import shutil
import tempfile
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')


class Project(Exception):
    """What is observed cannot be projected: reported as an event."""


def main():
    scratch = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    tmp = os.path.join(scratch, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = tmp
    import importlib
    # h5py loses its error messages (a UnicodeDecodeError replaces the error)
    # when the garbage collector frees h5py objects while it builds them: the
    # collection is done between the cases
    gc.disable()
    for line in sys.stdin:
        msg = json.loads(line)
        d = os.path.join(scratch, 'case')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.chdir(d)
        try:
            mod, fun = msg['kind'].split(':')
            handler = getattr(importlib.import_module(mod), fun)
            ans = handler(msg['case'], d)
        except BaseException:
            ans = {'harness_error': traceback.format_exc()[-2000:]}
        os.chdir(scratch)
        gc.collect()
        gc.freeze()
        out.write(json.dumps(ans) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
