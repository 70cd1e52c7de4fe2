"""Imports the library under test from its working tree.

The tree is always compiled from source (bytecode caches are dated to the
second only and are never read), and nothing is written to it.
"""
import os
import sys
import importlib.machinery

REPO = os.path.realpath(os.environ.get('RV_REPO', '/repo'))


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def install():
    sys.dont_write_bytecode = True
    finder = importlib.machinery.FileFinder.path_hook(
        (_NoCacheLoader, importlib.machinery.SOURCE_SUFFIXES))

    def hook(path):
        real = os.path.realpath(path)
        if real == REPO or real.startswith(REPO + os.sep):
            return finder(path)
        raise ImportError

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()
    sys.path.insert(0, REPO)
    import LinearResponseVariationalBayes as vb
    if not os.path.realpath(vb.__file__).startswith(REPO + os.sep):
        raise RuntimeError('imported the wrong tree: ' + vb.__file__)
    return vb
