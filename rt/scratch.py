import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def scratch():
    """a fresh directory that is removed again; the working directory is inside"""
    d = tempfile.mkdtemp(prefix='pyvc_rt_')
    cur = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(cur)
        shutil.rmtree(d, ignore_errors=True)
