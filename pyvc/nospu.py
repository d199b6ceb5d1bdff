"""The secure processing unit is not installed: a stand-in that only lets the modules be imported, and a local cluster without it."""
import atexit
import os
import shutil
import sys
import tempfile
import types

import vp_without_spu  # noqa


class SPUState:
    dialect_name = 'spu'

    def __init__(self, *a, **k): pass
    def shutdown(self): pass


if 'mplang.backends.spu_state' not in sys.modules:
    sys.modules['mplang.backends.spu_impl'] = types.ModuleType('mplang.backends.spu_impl')
    m = types.ModuleType('mplang.backends.spu_state')
    m.SPUState = SPUState
    sys.modules['mplang.backends.spu_state'] = m

_sims = {}


def cluster(n, **kw):
    """a local cluster of n parties, shared by the runs of a check"""
    import mplang as mp
    import mplang.backends.tensor_impl  # noqa
    if n not in _sims:
        root = tempfile.mkdtemp(prefix='vfsim')
        os.environ['MPLANG_DATA_ROOT'] = root
        atexit.register(shutil.rmtree, root, True)
        _sims[n] = mp.make_simulator(n, **kw)
        atexit.register(lambda d=_sims[n]: d.get_dialect_state('simp').shutdown())
    return _sims[n]
