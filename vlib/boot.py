"""
Prepares a process to run /repo's durus: the C extension comes from a fresh
build of the working tree (or is hidden), compiled Python files are never used.
"""
import importlib.abc
import importlib.util
import logging
import os
import sys


class _Finder(importlib.abc.MetaPathFinder):

    def __init__(self, path):
        self.path = path

    def find_spec(self, fullname, path, target=None):
        if fullname == 'durus._persistent':
            if self.path is None:
                raise ImportError('the C extension is hidden')
            return importlib.util.spec_from_file_location(fullname, self.path)
        return None


def boot(ext_path, repo):
    """ext_path is None for the pure Python base classes."""
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != repo]
    sys.path.insert(0, repo)
    sys.meta_path.insert(0, _Finder(ext_path))
    stderr = sys.stderr
    with open(os.devnull, 'w') as sys.stderr:
        import durus.persistent
    sys.stderr = stderr
    assert os.path.realpath(durus.__file__).startswith(
        os.path.realpath(repo) + os.sep), durus.__file__
    base = durus.persistent.PersistentBase
    if ext_path is None:
        assert base.__module__ == 'durus.persistent', base
    else:
        assert 'durus._persistent' in sys.modules
    import durus.logger
    logging.disable(logging.CRITICAL)
