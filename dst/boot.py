"""Prepares an interpreter of the simulation: code under test from /repo's
working tree, its extension modules from the build cache."""
import importlib.machinery
import importlib.util
import os
import sys
import warnings

REPO = os.environ.get('DST_REPO', '/repo')


class ExtFinder(object):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        so = self.mods.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def boot(mods):
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    sys.meta_path.insert(0, ExtFinder(mods))
    sys.path.insert(0, REPO)
    import numpy                                            # noqa: F401
    import scipy.constants, scipy.optimize                  # noqa: F401,E401
    import h5py, yaml, click                                # noqa: F401,E401
    import encodings.idna, encodings.latin_1                # noqa: F401,E401
    try:
        import matplotlib.pyplot                            # noqa: F401
    except ImportError:
        pass
    import quantas
    got = os.path.realpath(quantas.__file__)
    assert got.startswith(os.path.realpath(REPO) + os.sep), got
